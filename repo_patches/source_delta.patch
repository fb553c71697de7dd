From 7459bd678d4f60ecf11d5eca1b57d038c7c13c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 01/40] fix: do not panic on assignment when no incremental
 balance strategy is configured

---
 streams/source_consumer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ac8ac68..23207c8 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -217,7 +217,9 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		}
 
 	}
-	sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	if sc.incrBalancer != nil {
+		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	}
 	// notify observers
 	sc.source.onPartitionsAssigned(partitions)
 }
-- 
2.43.0


From aa0c41fd98801c1a68d34660c4e32d0651354796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 02/40] fix: cancel the state store sync of a revoked or
 forgotten partition

A leftover of an earlier assignment consumed the marker of, and then paused,
the sync of the next assignment of the same partition, which hung forever.
---
 streams/partition_worker.go     |   9 +-
 streams/source_consumer.go      |  18 ++--
 streams/state_store_consumer.go | 172 +++++++++++++++++++++-----------
 3 files changed, 130 insertions(+), 69 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 1a1191d..4d3b766 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -84,7 +84,7 @@ func newPartitionWorker[T StateStore](
 	commitLog *eosCommitLog,
 	changeLog changeLogPartition[T],
 	eosProducer *eosProducerPool[T],
-	waiter func()) *partitionWorker[T] {
+	waiter func() bool) *partitionWorker[T] {
 
 	eosConfig := eventSource.source.config.EosConfig
 
@@ -203,7 +203,7 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	pw.interjectionEventInput <- ec
 }
 
-func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(), commitLog *eosCommitLog) {
+func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func() bool, commitLog *eosCommitLog) {
 	elapsed := sincer{time.Now()}
 	// the partition is not ready to receive events as it is still bootstrapping the state store.
 	// in the case where this partition was assigned due to a failure on another consumer, this could be a lengthy process
@@ -216,7 +216,10 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	// this function will block until all changelogs for this partition are populated
 	pw.highestOffset = commitLog.lastProcessed(pw.topicPartition)
 	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.highestOffset, elapsed)
-	waiter()
+	if !waiter() || pw.isRevoked() {
+		// revoked before the state store was complete, there is nothing to process
+		return
+	}
 	pw.eventSource.consumer.Client().ResumeFetchPartitions(map[string][]int32{
 		pw.topicPartition.Topic: {pw.topicPartition.Partition},
 	})
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 23207c8..8a15c86 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -149,7 +149,9 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 			start := time.Now()
 			log.Debugf("prepping %+v", tp)
 
-			ssp.sync()
+			if !ssp.prepare() {
+				return // cancelled
+			}
 			processed := ssp.processed()
 			duration := time.Since(start)
 
@@ -180,6 +182,8 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 	if _, ok := sc.prepping[tp.Partition]; ok {
 		sc.stateStoreConsumer.cancelPartition(tp.Partition)
 		delete(sc.prepping, tp.Partition)
+		// if the partition is prepared again, it starts with an empty store
+		sc.partitionedStore.revoke(tp.Partition)
 	} else {
 		// what to do? probably nothing, but if we have a double assignment, we could have problems
 		// need to investigate this race condition further
@@ -203,17 +207,11 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		if prepper, ok := sc.prepping[p]; ok {
 			log.Infof("syncing prepped partition %+v", prepper.topicPartition)
 			delete(sc.prepping, p)
-			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
-				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
-			})
+			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, prepper.activate)
 		} else if _, ok := sc.workers[p]; !ok {
 			prepper = sc.stateStoreConsumer.activatePartition(p, store)
 			log.Infof("syncing unprepped partition %+v", prepper.topicPartition)
-			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
-				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
-			})
+			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, prepper.activate)
 		}
 
 	}
@@ -236,6 +234,8 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 		if worker, ok := sc.workers[p]; ok {
 			worker.revoke()
 			delete(sc.workers, p)
+			// does nothing if the state store is already complete
+			sc.stateStoreConsumer.cancelPartition(p)
 		}
 		sc.partitionedStore.revoke(p)
 	}
diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 26dc157..8b8c79d 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -47,24 +47,37 @@ type StateStore interface {
 	Revoked()
 }
 
+// A stateStorePartition populates the state store of a partition for a single assignment/preparation.
+// It is replaced when the partition is prepared or activated anew, so a leftover of an earlier assignment can not interfere.
 type stateStorePartition[T StateStore] struct {
 	buffer         chan []*kgo.Record
 	client         *kgo.Client
-	waiters        map[string]chan struct{}
+	waiters        map[string]stateStoreWaiter
 	topicPartition TopicPartition
 	state          partitionState
 	count          uint64
 	byteCount      uint64
 	waiterLock     sync.Mutex
 	highWatermark  int64
+	stopped        chan struct{}
+	stopOnce       sync.Once
+	populated      chan struct{} // closed once the populator returned
+	clientMux      *sync.Mutex   // serializes pausing/resuming of partitions
+}
+
+type stateStoreWaiter struct {
+	c        chan struct{}
+	activate bool
 }
 
 func (ssp *stateStorePartition[T]) add(ftp kgo.FetchTopicPartition) {
-	ssp.buffer <- ftp.FetchPartition.Records
+	select {
+	case ssp.buffer <- ftp.FetchPartition.Records:
+	case <-ssp.stopped:
+	}
 }
 
 func (ssp *stateStorePartition[T]) pause() {
-	ssp.setState(paused)
 	topic := ssp.topicPartition.Topic
 	partition := ssp.topicPartition.Partition
 	ssp.client.PauseFetchPartitions(map[string][]int32{
@@ -74,41 +87,65 @@ func (ssp *stateStorePartition[T]) pause() {
 }
 
 func (ssp *stateStorePartition[T]) kill() {
-	if ssp.buffer != nil {
-		close(ssp.buffer)
-		ssp.buffer = nil
-	}
+	ssp.stopOnce.Do(func() {
+		ssp.setState(paused)
+		close(ssp.stopped)
+	})
 }
 
 func (ssp *stateStorePartition[T]) cancel() {
-	ssp.pause()
-	ssp.kill()
+	ssp.clientMux.Lock()
+	defer ssp.clientMux.Unlock()
+	ssp.stopOnce.Do(func() {
+		ssp.setState(paused)
+		ssp.pause()
+		close(ssp.stopped)
+	})
 }
 
-func (ssp *stateStorePartition[T]) addWaiter() (c chan struct{}, mark []byte) {
+func (ssp *stateStorePartition[T]) addWaiter(activate bool) (c chan struct{}, mark []byte) {
 	ssp.waiterLock.Lock()
 	defer ssp.waiterLock.Unlock()
 	c = make(chan struct{})
 	s := uuid.NewString()
 	mark = []byte(s)
-	ssp.waiters[s] = c
+	ssp.waiters[s] = stateStoreWaiter{c, activate}
 	return
 }
 
-func (ssp *stateStorePartition[T]) removeWaiterForMark(mark []byte) (chan struct{}, bool) {
+func (ssp *stateStorePartition[T]) removeWaiterForMark(mark []byte) (stateStoreWaiter, bool) {
 	ssp.waiterLock.Lock()
 	defer ssp.waiterLock.Unlock()
-	if c, ok := ssp.waiters[string(mark)]; ok {
+	if w, ok := ssp.waiters[string(mark)]; ok {
 		delete(ssp.waiters, string(mark))
-		return c, true
+		return w, true
 	}
-	return nil, false
+	return stateStoreWaiter{}, false
 }
 
-func (ssp *stateStorePartition[T]) sync() {
-	c, mark := ssp.addWaiter()
+// sync blocks until the state store has caught up, returns false if it was cancelled before that.
+// If `activate` is true, the state store is not populated any further afterwards.
+func (ssp *stateStorePartition[T]) sync(activate bool) bool {
+	c, mark := ssp.addWaiter(activate)
 	sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
-	<-c
+	select {
+	case <-c:
+	case <-ssp.stopped:
+		select {
+		case <-c:
+		default:
+			return false
+		}
+	}
+	return true
+}
+
+func (ssp *stateStorePartition[T]) prepare() bool {
+	return ssp.sync(false)
+}
+
+func (ssp *stateStorePartition[T]) activate() bool {
+	return ssp.sync(true)
 }
 
 func (ssp *stateStorePartition[T]) processed() uint64 {
@@ -129,9 +166,6 @@ func (ssp *stateStorePartition[T]) setState(state partitionState) {
 
 func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store changeLogPartition[T]) {
 	ssp.setState(intitialState)
-	ssp.count = 0
-	ssp.byteCount = 0
-	ssp.buffer = make(chan []*kgo.Record, 1024)
 	topic := ssp.topicPartition.Topic
 	partition := ssp.topicPartition.Partition
 	ssp.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
@@ -144,29 +178,34 @@ func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store chan
 }
 
 func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte) (complete bool) {
-	var waiter chan struct{}
-	var ok bool
-	if waiter, ok = ssp.removeWaiterForMark(val); !ok {
+	waiter, ok := ssp.removeWaiterForMark(val)
+	if !ok {
 		return
 	}
-	switch ssp.partitionState() {
-	case prepping:
-		log.Debugf("transitioning from prepping to ready for %+v", ssp.topicPartition)
-		ssp.setState(ready)
-	case ready:
+	if waiter.activate {
 		log.Debugf("transitioning from ready to paused for %+v", ssp.topicPartition)
 		complete = true
+		close(waiter.c)
 		ssp.cancel()
+	} else {
+		log.Debugf("transitioning from prepping to ready for %+v", ssp.topicPartition)
+		ssp.setState(ready)
+		close(waiter.c)
 	}
-	close(waiter)
 	return
 }
 
 func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T]) {
 	log.Debugf("starting populator for %+v", ssp.topicPartition)
-	for records := range ssp.buffer {
-		if !ssp.handleRecordsAndContinue(records, store) {
-			log.Debugf("closed populator for %+v", ssp.topicPartition)
+	defer close(ssp.populated)
+	for {
+		select {
+		case records := <-ssp.buffer:
+			if !ssp.handleRecordsAndContinue(records, store) {
+				log.Debugf("closed populator for %+v", ssp.topicPartition)
+				return
+			}
+		case <-ssp.stopped:
 			return
 		}
 	}
@@ -174,6 +213,11 @@ func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T]) {
 
 func (ssp *stateStorePartition[T]) handleRecordsAndContinue(records []*kgo.Record, store changeLogPartition[T]) bool {
 	for _, record := range records {
+		select {
+		case <-ssp.stopped:
+			return false
+		default:
+		}
 		if isMarkerRecord(record) {
 			if ssp.isCompletionMarker(record.Value) {
 				return false
@@ -226,16 +270,6 @@ func newStateStoreConsumer[T StateStore](runStatus sak.RunStatus, source *Source
 		topic: partitions,
 	})
 
-	for i := int32(0); i < partitionCount; i++ {
-		stateStorePartitions[i] = &stateStorePartition[T]{
-			topicPartition: TopicPartition{Partition: i, Topic: topic},
-			waiters:        make(map[string]chan struct{}, 2),
-			client:         client,
-			state:          paused,
-			buffer:         make(chan []*kgo.Record, 1024),
-			highWatermark:  -1,
-		}
-	}
 	ssc := &stateStoreConsumer[T]{
 		runStatus:  runStatus,
 		source:     source,
@@ -261,10 +295,7 @@ func (ssc *stateStoreConsumer[T]) consume() {
 			}
 		}
 		f.EachPartition(func(partitionFetch kgo.FetchTopicPartition) {
-			ssp := ssc.partitions[partitionFetch.Partition]
-			if ssp.partitionState() == paused {
-				ssp.pause()
-			} else {
+			if ssp := ssc.activePartition(partitionFetch.Partition); ssp != nil {
 				ssp.add(partitionFetch)
 			}
 		})
@@ -274,26 +305,53 @@ func (ssc *stateStoreConsumer[T]) consume() {
 	ssc.client.Close()
 }
 
-func (ssc *stateStoreConsumer[T]) cancelPartition(p int32) {
+// returns nil if nobody is interested in the partition
+func (ssc *stateStoreConsumer[T]) activePartition(p int32) *stateStorePartition[T] {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
-	ssp := ssc.partitions[p]
-	ssp.cancel()
+	ssp, ok := ssc.partitions[p]
+	if !ok || ssp.partitionState() == paused {
+		ssc.client.PauseFetchPartitions(map[string][]int32{ssc.topic: {p}})
+		return nil
+	}
+	return ssp
 }
 
-func (ssc *stateStoreConsumer[T]) preparePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+// stops populating the state store, it is not touched anymore once this call returns
+func (ssc *stateStoreConsumer[T]) cancelPartition(p int32) {
 	ssc.mux.Lock()
-	defer ssc.mux.Unlock()
-	ssp := ssc.partitions[p]
-	ssp.prep(prepping, store)
-	return ssp
+	ssp, ok := ssc.partitions[p]
+	ssc.mux.Unlock()
+	if ok {
+		ssp.cancel()
+		<-ssp.populated
+	}
+}
+
+func (ssc *stateStoreConsumer[T]) preparePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+	return ssc.startPartition(p, prepping, store)
 }
 
 func (ssc *stateStoreConsumer[T]) activatePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+	return ssc.startPartition(p, ready, store)
+}
+
+func (ssc *stateStoreConsumer[T]) startPartition(p int32, initialState partitionState, store changeLogPartition[T]) *stateStorePartition[T] {
+	ssc.cancelPartition(p)
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
-	ssp := ssc.partitions[p]
-	ssp.prep(ready, store)
+	ssp := &stateStorePartition[T]{
+		topicPartition: TopicPartition{Partition: p, Topic: ssc.topic},
+		waiters:        make(map[string]stateStoreWaiter, 2),
+		client:         ssc.client,
+		clientMux:      &ssc.mux,
+		buffer:         make(chan []*kgo.Record, 1024),
+		stopped:        make(chan struct{}),
+		populated:      make(chan struct{}),
+		highWatermark:  -1,
+	}
+	ssc.partitions[p] = ssp
+	ssp.prep(initialState, store)
 	return ssp
 }
 
-- 
2.43.0


From a2b499ab8daee76385c7b3fe02b42208888ef495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 03/40] fix: wait for in-flight events to be committed before
 surrendering a partition

The revoke callback returned while events of the partition were still being
handled and committed, so the next owner handled them again. Also, adding
records to a worker being closed could panic or block the poll loop.
---
 streams/partition_worker.go | 10 ++++++++--
 streams/source_consumer.go  | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 4d3b766..7d714dc 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -69,6 +69,7 @@ type partitionWorker[T StateStore] struct {
 	stopSignal             chan struct{}
 	revokedSignal          chan struct{}
 	stopped                chan struct{}
+	closed                 chan struct{} // closed once nothing of this worker runs anymore
 	changeLog              changeLogPartition[T]
 	eventSource            *EventSource[T]
 	runStatus              sak.RunStatus
@@ -98,6 +99,7 @@ func newPartitionWorker[T StateStore](
 		stopSignal:     make(chan struct{}),
 		revokedSignal:  make(chan struct{}, 1),
 		stopped:        make(chan struct{}),
+		closed:         make(chan struct{}),
 		maxPending:     make(chan struct{}, eosProducer.maxPendingItems()),
 		asyncCompleter: asyncCompleter[T]{
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
@@ -123,7 +125,10 @@ func (pw *partitionWorker[T]) add(records []*kgo.Record) {
 		return
 	}
 	// atomic.AddInt64(&pw.pending, int64(len(records)))
-	pw.partitionInput <- records
+	select {
+	case pw.partitionInput <- records:
+	case <-pw.runStatus.Done():
+	}
 }
 
 func (pw *partitionWorker[T]) revoke() {
@@ -151,10 +156,10 @@ func (pw *partitionWorker[T]) pushRecords() {
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
-			close(pw.partitionInput)
 			close(pw.eventInput)
 			close(pw.asyncCompleter.asyncJobs)
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
+			close(pw.closed)
 			return
 		}
 	}
@@ -218,6 +223,7 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.highestOffset, elapsed)
 	if !waiter() || pw.isRevoked() {
 		// revoked before the state store was complete, there is nothing to process
+		close(pw.closed)
 		return
 	}
 	pw.eventSource.consumer.Client().ResumeFetchPartitions(map[string][]int32{
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 8a15c86..d316c2f 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -223,20 +223,32 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 }
 
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
-	sc.workerMux.Lock()
-	defer sc.workerMux.Unlock()
 	if sc.partitionedStore == nil {
 		return
 	}
 
+	revoked := make([]*partitionWorker[T], 0, len(partitions))
 	for _, p := range partitions {
 		sc.source.onPartitionWillRevoke(p)
+		sc.workerMux.Lock()
 		if worker, ok := sc.workers[p]; ok {
 			worker.revoke()
+			revoked = append(revoked, worker)
 			delete(sc.workers, p)
 			// does nothing if the state store is already complete
 			sc.stateStoreConsumer.cancelPartition(p)
 		}
+		sc.workerMux.Unlock()
+	}
+	// The next owner may start as soon as we return. By then, everything these workers
+	// have started must be committed. If the EventSource has been halted, no more commits can be expected.
+	for _, worker := range revoked {
+		select {
+		case <-worker.closed:
+		case <-sc.ctx.Done():
+		}
+	}
+	for _, p := range partitions {
 		sc.partitionedStore.revoke(p)
 	}
 	// notify observers
-- 
2.43.0


From 4c33724c9cddd02ceb6bb3cabca4e947b9f6789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 04/40] fix: process interjections in the order they joined a
 transaction

An event ahead of the interjection in the transaction order could wait for a producer
that was waiting for the interjection to complete, until the transaction timed out.
---
 streams/partition_worker.go | 57 +++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 7d714dc..98ea397 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -59,24 +59,23 @@ func (ac asyncCompleter[T]) AsyncComplete(j AsyncJob[T]) {
 }
 
 type partitionWorker[T StateStore] struct {
-	eosProducer            *eosProducerPool[T]
-	partitionInput         chan []*kgo.Record
-	maxPending             chan struct{}
-	interjectionInput      chan *interjection[T]
-	eventInput             chan *EventContext[T]
-	interjectionEventInput chan *EventContext[T]
-	asyncCompleter         asyncCompleter[T]
-	stopSignal             chan struct{}
-	revokedSignal          chan struct{}
-	stopped                chan struct{}
-	closed                 chan struct{} // closed once nothing of this worker runs anymore
-	changeLog              changeLogPartition[T]
-	eventSource            *EventSource[T]
-	runStatus              sak.RunStatus
-	ready                  int64
-	highestOffset          int64
-	topicPartition         TopicPartition
-	revocationWaiter       sync.WaitGroup
+	eosProducer       *eosProducerPool[T]
+	partitionInput    chan []*kgo.Record
+	maxPending        chan struct{}
+	interjectionInput chan *interjection[T]
+	eventInput        chan *EventContext[T]
+	asyncCompleter    asyncCompleter[T]
+	stopSignal        chan struct{}
+	revokedSignal     chan struct{}
+	stopped           chan struct{}
+	closed            chan struct{} // closed once nothing of this worker runs anymore
+	changeLog         changeLogPartition[T]
+	eventSource       *EventSource[T]
+	runStatus         sak.RunStatus
+	ready             int64
+	highestOffset     int64
+	topicPartition    TopicPartition
+	revocationWaiter  sync.WaitGroup
 }
 
 func newPartitionWorker[T StateStore](
@@ -104,12 +103,11 @@ func newPartitionWorker[T StateStore](
 		asyncCompleter: asyncCompleter[T]{
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
 		},
-		partitionInput:         make(chan []*kgo.Record, 4),
-		eventInput:             make(chan *EventContext[T], recordsInputSize),
-		interjectionInput:      make(chan *interjection[T], 1),
-		interjectionEventInput: make(chan *EventContext[T], 1),
-		runStatus:              eventSource.runStatus.Fork(),
-		highestOffset:          -1,
+		partitionInput:    make(chan []*kgo.Record, 4),
+		eventInput:        make(chan *EventContext[T], recordsInputSize),
+		interjectionInput: make(chan *interjection[T], 1),
+		runStatus:         eventSource.runStatus.Fork(),
+		highestOffset:     -1,
 	}
 
 	go pw.work(pw.eventSource.interjections, waiter, commitLog)
@@ -205,7 +203,8 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	ec := newInterjectionContext(pw.runStatus.Ctx(), inter, pw.topicPartition, pw.changeLog.changeLogData(), pw)
 	pw.maxPending <- struct{}{}
 	pw.eosProducer.addEventContext(ec)
-	pw.interjectionEventInput <- ec
+	// must be processed in the order in which it was added to the producer
+	pw.eventInput <- ec
 }
 
 func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func() bool, commitLog *eosCommitLog) {
@@ -242,9 +241,11 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	for {
 		select {
 		case ec := <-pw.eventInput:
-			pw.handleEvent(ec)
-		case ec := <-pw.interjectionEventInput:
-			pw.handleInterjection(ec)
+			if ec.IsInterjection() {
+				pw.handleInterjection(ec)
+			} else {
+				pw.handleEvent(ec)
+			}
 		case job := <-pw.asyncCompleter.asyncJobs:
 			pw.processAsyncJob(job)
 		case <-pw.stopSignal:
-- 
2.43.0


From 3d55abdc21df79b19ced40f2a156767e32c8841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 05/40] fix: announce an assignment that the client repeats
 only once

---
 streams/source_consumer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index d316c2f..bb3a9db 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -196,7 +196,13 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
 	defer sc.preppingMux.Unlock()
+	assigned := make([]int32, 0, len(partitions))
 	for _, p := range partitions {
+		if _, ok := sc.workers[p]; ok {
+			// The client repeats an assignment if the group rebalances before it could start fetching.
+			continue
+		}
+		assigned = append(assigned, p)
 		tp := TopicPartition{Partition: p, Topic: topic}
 		store := sc.partitionedStore.assign(p)
 
@@ -208,7 +214,7 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 			log.Infof("syncing prepped partition %+v", prepper.topicPartition)
 			delete(sc.prepping, p)
 			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, prepper.activate)
-		} else if _, ok := sc.workers[p]; !ok {
+		} else {
 			prepper = sc.stateStoreConsumer.activatePartition(p, store)
 			log.Infof("syncing unprepped partition %+v", prepper.topicPartition)
 			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, prepper.activate)
@@ -219,7 +225,7 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
 	}
 	// notify observers
-	sc.source.onPartitionsAssigned(partitions)
+	sc.source.onPartitionsAssigned(assigned)
 }
 
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
-- 
2.43.0


From 70424674f1acd9e3c2ecadedcb9908678ce52cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 06/40] fix: interjections never hang and asynchronous ones are
 rescheduled

A one-off interjection blocked while holding the worker mutex, and its channel was never resolved if the
partition was revoked or the consumer stopped before it was invoked. A scheduled interjection which
completed asynchronously was not scheduled again.
---
 streams/interjection.go     |  2 +-
 streams/partition_worker.go |  4 ++++
 streams/source_consumer.go  | 31 ++++++++++++++++++++++++++-----
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/streams/interjection.go b/streams/interjection.go
index 6bc282f..244aefe 100644
--- a/streams/interjection.go
+++ b/streams/interjection.go
@@ -63,7 +63,7 @@ func (ij *interjection[T]) timerDuration() time.Duration {
 
 // schedules the next interjection
 func (ij *interjection[T]) tick() {
-	if ij.isOneOff {
+	if ij.isOneOff || ij.cancelled {
 		return
 	}
 	delay := ij.timerDuration()
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 98ea397..4d6a624 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -269,6 +269,10 @@ func (pw *partitionWorker[T]) processAsyncJob(job AsyncJob[T]) {
 	if job.Finalize() == Complete {
 		job.ctx.complete()
 		<-pw.maxPending
+		if job.ctx.IsInterjection() {
+			// it was Incomplete when interjected, now the next one can be scheduled
+			job.ctx.interjection.tick()
+		}
 	}
 }
 
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index bb3a9db..75d6ceb 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -306,11 +306,12 @@ func (sc *eventSourceConsumer[T]) start() {
 }
 
 // Inserts the interjection into the appropriate partition workers interjectionChannel. Returns immediately if the partiotns is not currently assigned.
+// If the partition is revoked, or the EventSource is halted, before `cmd` could be invoked, the returned channel yields ErrPartitionNotAssigned.
 func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T]) <-chan error {
 	sc.workerMux.Lock()
-	defer sc.workerMux.Unlock()
-	c := make(chan error, 1)
 	w := sc.workers[partition]
+	sc.workerMux.Unlock()
+	c := make(chan error, 1)
 	if w == nil {
 		c <- ErrPartitionNotAssigned
 		return c
@@ -319,15 +320,35 @@ func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T])
 		c <- ErrPartitionNotAssigned
 		return c
 	}
-	w.interjectionInput <- &interjection[T]{
+	var once sync.Once // either `cmd` is invoked, or the interjection is refused
+	invoked := make(chan struct{})
+	ij := &interjection[T]{
 		isOneOff:       true,
 		topicPartition: w.topicPartition,
 		interjector: func(ec *EventContext[T], t time.Time) ExecutionState {
-			state := cmd(ec, t)
-			close(c)
+			state := Complete
+			once.Do(func() {
+				close(invoked)
+				state = cmd(ec, t)
+				close(c)
+			})
 			return state
 		},
 	}
+	// must not block, the caller could be the worker itself
+	go func() {
+		select {
+		case w.interjectionInput <- ij:
+			select {
+			case <-invoked:
+				return
+			case <-w.closed:
+			case <-sc.ctx.Done():
+			}
+		case <-w.runStatus.Done():
+		}
+		once.Do(func() { c <- ErrPartitionNotAssigned })
+	}()
 	return c
 }
 
-- 
2.43.0


From 2e1371613fd1c72cfd97bb70fd1d65e2d0861a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 07/40] fix: complete the event of a batch without callback or
 without records

BatchProducer.Produce never completed the event if no callback was given, or no records were.
---
 streams/producer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/streams/producer.go b/streams/producer.go
index 0eb8bc3..d65c29f 100644
--- a/streams/producer.go
+++ b/streams/producer.go
@@ -133,13 +133,16 @@ func (b *produceBatcher[S]) cleanup() {
 }
 
 func (b *produceBatcher[S]) recordComplete() {
-	if atomic.AddInt64(&b.pending, -1) == 0 && b.callback != nil {
+	if atomic.AddInt64(&b.pending, -1) == 0 {
 		b.ctx.AsyncJobComplete(b.executeCallback)
 	}
 }
 
 func (b *produceBatcher[S]) executeCallback() ExecutionState {
-	state := b.callback(b.ctx, b.records, b.userData)
+	state := Complete
+	if b.callback != nil {
+		state = b.callback(b.ctx, b.records, b.userData)
+	}
 	b.cleanup()
 	return state
 }
@@ -157,6 +160,11 @@ func (p *BatchProducer[S]) Produce(ec *EventContext[S], records []*Record, cb Ba
 		pending:  int64(len(records)),
 		userData: userData,
 	}
+	if len(records) == 0 {
+		// there is no record to wait for, but `cb` must still be invoked for `ec` to complete
+		go ec.AsyncJobComplete(b.executeCallback)
+		return Incomplete
+	}
 	p.produceBatch(b)
 	return Incomplete
 }
-- 
2.43.0


From a58d8b1f8686cdb27adaf69bd44b1a23bf2c4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 08/40] fix: honour the configured deserialization error
 handler and its verdict

The configured handler was ignored unless a TxnErrorHandler was configured too, and a nil one used if only
a TxnErrorHandler was. If the handler did not ask to continue, the consumer remained healthy with an event
that never completes.
---
 streams/event_source.go | 12 +++++++++---
 streams/source.go       | 10 +++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index 95b1a97..3c16e66 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -370,7 +370,7 @@ func (es *EventSource[T]) handleEvent(ctx *EventContext[T], record IncomingRecor
 // Registers eventType with a transformer (usuall a codec.Codec) with the supplied EventProcessor.
 // Must not be called after `EventSource.ConsumeEvents()`
 func RegisterEventType[T StateStore, V any](es *EventSource[T], transformer IncomingRecordDecoder[V], eventProcessor EventProcessor[T, V], eventType string) {
-	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source.deserializationErrorHandler())
+	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source.deserializationErrorHandler(), es.source.fail)
 	if es.rootProcessor == nil {
 		es.rootProcessor, es.tailProcessor = ep, ep
 	} else {
@@ -404,27 +404,33 @@ type eventProcessorExecutor[T any, V any] struct {
 	process                    EventProcessor[T, V]
 	decode                     IncomingRecordDecoder[V]
 	handleDeserializationError DeserializationErrorHandler
+	fail                       func(error)
 }
 
 func (epe *eventProcessorExecutor[T, V]) Exec(ec *EventContext[T], record IncomingRecord) ExecutionState {
 	if event, err := epe.decode(record); err == nil {
 		return epe.process(ec, event)
 	} else {
-		if epe.handleDeserializationError(ec, record.RecordType(), err) == Continue {
+		switch epe.handleDeserializationError(ec, record.RecordType(), err) {
+		case Continue:
 			return Complete
+		case FatallyExit:
+			panic(err)
 		}
+		epe.fail(err)
 		return Incomplete
 	}
 }
 
 func newEventProcessorWrapper[T any, V any](eventType string, decoder IncomingRecordDecoder[V],
-	eventProcessor EventProcessor[T, V], deserializationErrorHandler DeserializationErrorHandler) *eventProcessorWrapper[T] {
+	eventProcessor EventProcessor[T, V], deserializationErrorHandler DeserializationErrorHandler, fail func(error)) *eventProcessorWrapper[T] {
 	return &eventProcessorWrapper[T]{
 		eventType: eventType,
 		eventExecutor: &eventProcessorExecutor[T, V]{
 			process:                    eventProcessor,
 			decode:                     decoder,
 			handleDeserializationError: deserializationErrorHandler,
+			fail:                       fail,
 		},
 	}
 }
diff --git a/streams/source.go b/streams/source.go
index 236c86b..d19c226 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -108,7 +108,7 @@ type Source struct {
 }
 
 func newSource(config EventSourceConfig) *Source {
-	return &Source{state: uint64(Healthy), config: config, failure: make(chan error)}
+	return &Source{state: uint64(Healthy), config: config, failure: make(chan error, 1)}
 }
 
 // A convenience method for creating a [Destination] form your Source. Can be used for creating a [Producer] or [BatchProducer] which publishes to your [EventSource].
@@ -148,7 +148,7 @@ func (s *Source) eosErrorHandler() TxnErrorHandler {
 }
 
 func (s *Source) deserializationErrorHandler() DeserializationErrorHandler {
-	if s.config.TxnErrorHandler == nil {
+	if s.config.DeserializationErrorHandler == nil {
 		return DefaultDeserializationErrorHandler
 	}
 	return s.config.DeserializationErrorHandler
@@ -168,7 +168,11 @@ func (s *Source) State() EventSourceState {
 
 func (s *Source) fail(err error) {
 	atomic.StoreUint64(&s.state, uint64(Unhealthy))
-	s.failure <- err
+	select {
+	case s.failure <- err:
+	default:
+		// already failing
+	}
 }
 
 func (s *Source) Topic() string {
-- 
2.43.0


From 1e64ccbffd6974a1776827b5e22f9f08b0153e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 09/40] fix: do not commit a transaction if one of its records
 could not be produced

The error of a record only reached the transaction error handler, usually after the transaction was
committed without that record.
---
 streams/eos_producer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 19a4f64..97f3f02 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -266,6 +266,7 @@ type producerNode[T any] struct {
 	id                int
 	txnErrorHandler   TxnErrorHandler
 	errorChannel      chan error
+	produceErr        atomic.Pointer[error] // the last error of a record of the current txn
 	// errs                  []error
 }
 
@@ -374,6 +375,10 @@ func (p *producerNode[T]) commit() error {
 		}
 	}
 	err := p.client.Flush(p.txnContext)
+	if produceErr := p.produceErr.Load(); err == nil && produceErr != nil {
+		// a txn which is missing a record must not be committed
+		err = *produceErr
+	}
 	if err != nil {
 		log.Errorf("eos producer error: %v", err)
 		return err
@@ -523,6 +528,7 @@ func (p *producerNode[T]) produceKafkaRecord(record *Record, cb func(*Record, er
 		atomic.AddInt64(&p.byteCount, int64(recordSize(*r)))
 		if err != nil {
 			log.Errorf("%v, record %+v", err, r)
+			p.produceErr.Store(&err)
 			select {
 			case p.errorChannel <- err:
 			default:
-- 
2.43.0


From 255ba6c05a861ea6fac19dc4df529b30d9d951b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 10/40] fix: never block on, or panic because of, metrics

The commit loop blocked on a slow metrics handler, and panicked, as did EmitMetric, if it emitted a metric
after the EventSource was halted.
---
 streams/eos_producer.go    |  4 ++--
 streams/event_source.go    | 11 ++++++++---
 streams/source_consumer.go |  4 ++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 97f3f02..2ec03b8 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -413,7 +413,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 	partitionCount := len(p.currentPartitions)
 	p.relinquishOwnership()
 	if p.metrics != nil && p.produceCnt > 0 {
-		p.metrics <- Metric{
+		emitMetric(p.metrics, Metric{
 			Operation:      TxnCommitOperation,
 			Topic:          p.source.Topic(),
 			GroupId:        p.source.GroupId(),
@@ -424,7 +424,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 			Bytes:          int(p.byteCount),
 			PartitionCount: partitionCount,
 			Partition:      -1,
-		}
+		})
 	}
 	p.produceCnt = 0
 	p.eventContextCnt = 0
diff --git a/streams/event_source.go b/streams/event_source.go
index 3c16e66..07b3bda 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -117,9 +117,14 @@ func (es *EventSource[T]) closeOnFail() {
 }
 
 func (es *EventSource[T]) EmitMetric(m Metric) {
-	if es.metrics != nil {
+	emitMetric(es.metrics, m)
+}
+
+// Never blocks, `m` is dropped if it can not be queued.
+func emitMetric(metrics chan<- Metric, m Metric) {
+	if metrics != nil {
 		select {
-		case es.metrics <- m:
+		case metrics <- m:
 		default:
 			log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
 		}
@@ -139,7 +144,7 @@ func (es *EventSource[T]) emitMetrics() {
 			}
 			handler(m)
 		case <-es.runStatus.Done():
-			close(es.metrics)
+			// do not close es.metrics, there may still be metrics being emitted
 			return
 		}
 	}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 75d6ceb..ffbb729 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -159,7 +159,7 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 				tp, processed, duration, int(float64(processed)/duration.Seconds()))
 			sc.incrBalancer.PartitionPrepared(tp)
 			if sc.metrics != nil {
-				sc.metrics <- Metric{
+				emitMetric(sc.metrics, Metric{
 					Operation:      PartitionPreppedOperation,
 					StartTime:      start,
 					EndTime:        time.Now(),
@@ -168,7 +168,7 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 					Count:          int(processed),
 					Bytes:          int(ssp.processedBytes()),
 					GroupId:        sc.source.GroupId(),
-				}
+				})
 			}
 		}()
 	}
-- 
2.43.0


From 19999a671542d6ea0918ca5f1a711fbd6bbb77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 11/40] fix: commit the offsets of revoked partitions if
 CommitOffsets is set

The client commits marked offsets every 5 seconds. As the default OnPartitionsRevoked is replaced, whatever was
processed since the last time was not committed when partitions were revoked or the consumer was stopped.
---
 streams/source_consumer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ffbb729..58223cc 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -248,12 +248,20 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 	}
 	// The next owner may start as soon as we return. By then, everything these workers
 	// have started must be committed. If the EventSource has been halted, no more commits can be expected.
+	committed := make(map[int32]kgo.EpochOffset, len(revoked))
 	for _, worker := range revoked {
 		select {
 		case <-worker.closed:
+			if worker.highestOffset > 0 {
+				committed[worker.topicPartition.Partition] = kgo.EpochOffset{Epoch: -1, Offset: worker.highestOffset}
+			}
 		case <-sc.ctx.Done():
 		}
 	}
+	if len(committed) > 0 && sc.source.shouldMarkCommit() {
+		// once we return, the client no longer commits the marked offsets of these partitions
+		sc.client.CommitOffsetsSync(sc.ctx, map[string]map[int32]kgo.EpochOffset{topic: committed}, nil)
+	}
 	for _, p := range partitions {
 		sc.partitionedStore.revoke(p)
 	}
-- 
2.43.0


From d0e5b22fbc21b258b03eb4117500b33fa307a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 12/40] fix: do not exceed MaxBatchSize

The commit of a full transaction was only forced if it held exactly MaxBatchSize records after an event was added.
---
 streams/eos_producer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 2ec03b8..fa03438 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -148,6 +148,10 @@ func (pp *eosProducerPool[T]) doForwardExecutionContexts(ec *EventContext[T]) {
 		ec.revocationWaiter.Done()
 		return
 	}
+	if pp.shouldForceFlush() {
+		// records produced since the last event was added have filled the onDeck producer
+		pp.tryFlush()
+	}
 	txnStarted := pp.onDeck.addEventContext(ec)
 	pp.partitionOwners.conditionallyUpdate(ec.partition(), pp.onDeck)
 	ec.producerChan <- pp.onDeck
@@ -175,7 +179,7 @@ func (pp *eosProducerPool[T]) shouldTryFlush() bool {
 }
 
 func (pp *eosProducerPool[T]) shouldForceFlush() bool {
-	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) == int64(pp.cfg.MaxBatchSize)
+	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) >= int64(pp.cfg.MaxBatchSize)
 }
 
 func (pp *eosProducerPool[T]) tryFlush() {
-- 
2.43.0


From 0fca44c889bd3cfd37cec8fc19477ea3a2033448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 13/40] fix: keep the min-max heap consistent across Push, Max,
 Update and Remove

Push did not record the item's index, so a later Update or Remove of it
worked on another item; Max moved the maximum to the end of the slice and
left the heap order broken for every operation but PopMax; Update and
Remove could leave an item that has to move both up and down misplaced.
---
 streams/stores/min_max_heap.go | 67 ++++++++++------------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 1f3e21a..23e93a6 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -36,7 +36,6 @@ type PrioritizedItem[T Prioritizable[T]] struct {
 // https://doi.org/10.1145/6617.6621.
 type MinMaxHeap[T Prioritizable[T]] struct {
 	items []*PrioritizedItem[T]
-	maxed bool
 }
 
 func NewMinMaxHeap[T Prioritizable[T]](items ...T) *MinMaxHeap[T] {
@@ -68,17 +67,14 @@ func (pq *MinMaxHeap[T]) Len() int {
 }
 
 func (pq *MinMaxHeap[T]) Push(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	push(pq, item)
 }
 
 func (pq *MinMaxHeap[T]) Update(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	fix(pq, item.index)
 }
 
 func (pq *MinMaxHeap[T]) Remove(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	remove(pq, item.index)
 }
 
@@ -93,18 +89,13 @@ func (pq *MinMaxHeap[T]) Max() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-		pq.maxed = true
-	}
-	return pq.items[pq.Len()-1]
+	return pq.items[maxIndex(pq)]
 }
 
 func (pq *MinMaxHeap[T]) PopMin() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	pq.maxed = false
 	return popMin(pq)
 }
 
@@ -112,11 +103,7 @@ func (pq *MinMaxHeap[T]) PopMax() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-	}
-	pq.maxed = false
-	return pq.pop()
+	return popMax(pq)
 }
 
 func (pq *MinMaxHeap[T]) pop() *PrioritizedItem[T] {
@@ -128,6 +115,7 @@ func (pq *MinMaxHeap[T]) pop() *PrioritizedItem[T] {
 }
 
 func (pq *MinMaxHeap[T]) push(item *PrioritizedItem[T]) {
+	item.index = len(pq.items)
 	pq.items = append(pq.items, item)
 }
 
@@ -263,9 +251,9 @@ func popMin[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
 	return h.pop()
 }
 
-// popMax removes and returns the maximum element (according to Less) from the heap.
-// The complexity is O(log n) where n = h.Len().
-func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+// maxIndex returns the index of the maximum element (according to Less) of a non-empty heap.
+// The complexity is O(1).
+func maxIndex[T Prioritizable[T]](h *MinMaxHeap[T]) int {
 	n := h.Len()
 
 	i := 0
@@ -278,31 +266,18 @@ func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
 	if r < n && !h.less(r, i) {
 		i = r
 	}
-
-	h.swap(i, n-1)
-	down(h, i, n-1)
+	return i
 }
 
-// // popMax removes and returns the maximum element (according to Less) from the heap.
-// // The complexity is O(log n) where n = h.Len().
-// func popMax[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
-// 	n := h.Len()
-
-// 	i := 0
-// 	l := lchild(0)
-// 	if l < n && !h.less(l, i) {
-// 		i = l
-// 	}
-
-// 	r := rchild(0)
-// 	if r < n && !h.less(r, i) {
-// 		i = r
-// 	}
-
-// 	h.swap(i, n-1)
-// 	down(h, i, n-1)
-// 	return h.pop()
-// }
+// popMax removes and returns the maximum element (according to Less) from the heap.
+// The complexity is O(log n) where n = h.Len().
+func popMax[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
+	i := maxIndex(h)
+	n := h.Len() - 1
+	h.swap(i, n)
+	down(h, i, n)
+	return h.pop()
+}
 
 // remove removes and returns the element at index i from the heap.
 // The complexity is O(log n) where n = h.Len().
@@ -310,9 +285,8 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 	n := h.Len() - 1
 	if n != i {
 		h.swap(i, n)
-		if !down(h, i, n) {
-			up(h, i)
-		}
+		up(h, i)
+		down(h, i, n)
 	}
 	return h.pop()
 }
@@ -323,7 +297,6 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 // followed by a Push of the new value.
 // The complexity is O(log n) where n = h.Len().
 func fix[T Prioritizable[T]](h *MinMaxHeap[T], i int) {
-	if !down(h, i, h.Len()) {
-		up(h, i)
-	}
+	up(h, i)
+	down(h, i, h.Len())
 }
-- 
2.43.0


From df1187ccec158c0c1fe6b8ba3b97aded8f103cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 14/40] fix: JsonCodec decodes top-level numbers and rejects
 trailing bytes

The iterator reports io.EOF after a number that ends the input, so decoding
the encoding of a number failed; bytes after the value were ignored.
---
 streams/codec.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/streams/codec.go b/streams/codec.go
index aa322a8..6c49589 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -141,12 +141,9 @@ func (JsonCodec[T]) Encode(b *bytes.Buffer, t T) error {
 
 // Decodes the provided []byte,
 func (JsonCodec[T]) Decode(b []byte) (T, error) {
-	iter := defaultJson.BorrowIterator(b)
-	defer defaultJson.ReturnIterator(iter)
-
 	var t T
-	iter.ReadVal(&t)
-	return t, iter.Error
+	err := defaultJson.Unmarshal(b, &t)
+	return t, err
 }
 
 type stringCodec struct{}
-- 
2.43.0


From ef0c52e1475c66873dd6273ff5ea86ba4b23614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 15/40] fix: LexoInt64Codec encodes big-endian and over the
 whole range

Little-endian encodings do not sort in numeric order, and the encoding of
math.MinInt64 sorted above every other number.
---
 streams/codec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streams/codec.go b/streams/codec.go
index 6c49589..df10676 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -106,9 +106,9 @@ func (lexoInt64Codec) Encode(buf *bytes.Buffer, i int64) error {
 	var b [LexInt64Size]byte
 	if i > 0 {
 		b[0] = 1
-		binary.LittleEndian.PutUint64(b[1:], uint64(i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i))
 	} else {
-		binary.LittleEndian.PutUint64(b[1:], uint64(math.MaxInt64+i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i-math.MinInt64))
 	}
 	buf.Write(b[:])
 	return nil
@@ -120,11 +120,11 @@ func (lexoInt64Codec) Decode(b []byte) (int64, error) {
 		return 0, fmt.Errorf("invalid lexo integer []byte length. Expected %d, actual: %d", LexInt64Size, len(b))
 	}
 	sign := b[0]
-	val := int64(binary.LittleEndian.Uint64(b[1:]))
+	val := int64(binary.BigEndian.Uint64(b[1:]))
 	if sign == 1 {
 		return val, nil
 	}
-	return val - math.MaxInt64, nil
+	return val + math.MinInt64, nil
 }
 
 // A generic JSON en/decoder.
-- 
2.43.0


From e98e79d6e3c37ea059d8af91a6fb489279f7f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 16/40] fix: SimpleStore.ReceiveChange applies changes that
 decode

The condition was inverted: puts read back from the change log were dropped
and an undecodable change inserted the zero item.
---
 streams/stores/simple_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/stores/simple_store.go b/streams/stores/simple_store.go
index a5c01de..300a3cc 100644
--- a/streams/stores/simple_store.go
+++ b/streams/stores/simple_store.go
@@ -88,7 +88,7 @@ func (s *SimpleStore[T]) ReceiveChange(record streams.IncomingRecord) (err error
 			key: string(record.Key()),
 		}
 		s.tree.Delete(&keyedValue)
-	} else if item, err = s.codec.Decode(record.Value()); err != nil {
+	} else if item, err = s.codec.Decode(record.Value()); err == nil {
 		s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})
 	}
 	return
-- 
2.43.0


From 03d0a19ea8e14e3bd0f50c3d7fe8b8b748eaf9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 17/40] fix: revoke partitions before the client closes and
 stops heartbeating

Stop closed the client as soon as the leave was agreed. Closing ends the
heartbeats first and only then revokes the partitions. If the events in
progress took longer than the session timeout, the group handed the
partitions on at a stale position while their effects were still being
committed: events were handled and committed twice.
---
 streams/source_consumer.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 58223cc..42660d6 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -34,6 +34,8 @@ type eventSourceConsumer[T StateStore] struct {
 	prepping           map[int32]*stateStorePartition[T]
 	workerMux          sync.Mutex
 	preppingMux        sync.Mutex
+	revokeMux          sync.Mutex
+	surrendered        bool
 	incrBalancer       IncrementalGroupRebalancer
 	eventSource        *EventSource[T]
 	source             *Source
@@ -194,6 +196,10 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []int32) {
 	sc.workerMux.Lock()
 	defer sc.workerMux.Unlock()
+	if sc.surrendered {
+		// We're about to leave the group. The partitions will be assigned to another consumer then.
+		return
+	}
 	sc.preppingMux.Lock()
 	defer sc.preppingMux.Unlock()
 	assigned := make([]int32, 0, len(partitions))
@@ -233,6 +239,19 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 		return
 	}
 
+	// a revocation ends before the next one starts, so partitions which are gone need no more waiting for
+	sc.revokeMux.Lock()
+	defer sc.revokeMux.Unlock()
+	sc.workerMux.Lock()
+	owned := make([]int32, 0, len(partitions))
+	for _, p := range partitions {
+		if _, ok := sc.workers[p]; ok {
+			owned = append(owned, p)
+		}
+	}
+	sc.workerMux.Unlock()
+	partitions = owned
+
 	revoked := make([]*partitionWorker[T], 0, len(partitions))
 	for _, p := range partitions {
 		sc.source.onPartitionWillRevoke(p)
@@ -429,18 +448,31 @@ func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 	log.Infof("leave signaled for group: %v", sc.source.GroupId())
 	c := make(chan struct{}, 1)
 	if sc.incrBalancer == nil || !sc.currentProtocolIsIncremental() {
+		sc.surrender()
 		sc.stop()
 		c <- struct{}{}
 		return c
 	}
 	go func() {
 		<-sc.incrBalancer.GracefullyLeaveGroup()
+		sc.surrender()
 		sc.stop()
 		c <- struct{}{}
 	}()
 	return c
 }
 
+// Revokes all partitions, and accepts no more of them, while still being a member of the consumer group. Closing the client would do so as well, but it stops
+// heartbeating first: if events in progress then took longer than the session timeout, the partitions would be assigned to another
+// consumer before their effects are committed.
+func (sc *eventSourceConsumer[T]) surrender() {
+	sc.workerMux.Lock()
+	sc.surrendered = true
+	partitions := sak.MapKeysToSlice(sc.workers)
+	sc.workerMux.Unlock()
+	sc.revokePartitions(sc.source.Topic(), partitions)
+}
+
 // Immediately stops the consumer, leaving the consumer group abruptly.
 func (sc *eventSourceConsumer[T]) stop() {
 	sc.client.Close()
-- 
2.43.0


From f160004481eaff1e8fe25d9aca38014558adab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 18/40] fix: a recycled record without key has no key instead
 of an empty one

---
 streams/record.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/record.go b/streams/record.go
index 8252c09..542620c 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -236,7 +236,10 @@ func addRecordTypeHeader(recordType string, record *kgo.Record) {
 // used internally for producing.
 func (r *Record) toKafkaRecord() *kgo.Record {
 
-	r.kRecord.Key = r.keyBuffer.Bytes()
+	// the buffer of a recycled record is empty, but not nil, even if this record has no key
+	if r.keyBuffer.Len() > 0 {
+		r.kRecord.Key = r.keyBuffer.Bytes()
+	}
 
 	// an empty buffer should be a deletion
 	// not sure if nil === empty for these purposes
-- 
2.43.0


From 5c031979d445bf9e8567c2bf93e980062eab4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 19/40] fix: ToKafkaRecord and AsIncomingRecord keep topic,
 partition, headers and record type

---
 streams/record.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streams/record.go b/streams/record.go
index 542620c..593250d 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -259,7 +259,13 @@ func (r *Record) toKafkaRecord() *kgo.Record {
 
 // Creates a newly allocated kgo.Record. The Key and Value fields are freshly allocated bytes, copied from [streams.Record].
 func (r *Record) ToKafkaRecord() *kgo.Record {
-	record := new(kgo.Record)
+	record := &kgo.Record{
+		Topic:     r.kRecord.Topic,
+		Partition: r.kRecord.Partition,
+		Timestamp: r.kRecord.Timestamp,
+		Offset:    r.kRecord.Offset,
+		Headers:   append([]kgo.RecordHeader(nil), r.kRecord.Headers...),
+	}
 	if r.keyBuffer.Len() > 0 {
 		record.Key = append(record.Key, r.keyBuffer.Bytes()...)
 	}
@@ -267,7 +273,7 @@ func (r *Record) ToKafkaRecord() *kgo.Record {
 	if r.valueBuffer.Len() > 0 {
 		record.Value = append(record.Value, r.valueBuffer.Bytes()...)
 	}
-	addRecordTypeHeader(r.recordType, &r.kRecord)
+	addRecordTypeHeader(r.recordType, record)
 	return record
 }
 
-- 
2.43.0


From 7b6d33d93b4b631828dc75e9c4ea3a94ff3b8c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 20/40] fix: AsyncJobScheduler loses jobs, spins or leaves
 Schedule() waiting when limits change, queues fill or it is closed

---
 streams/async_item_queue.go |  4 ++++
 streams/async_scheduler.go  | 22 +++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/streams/async_item_queue.go b/streams/async_item_queue.go
index 1e8c4bc..ba00363 100644
--- a/streams/async_item_queue.go
+++ b/streams/async_item_queue.go
@@ -106,6 +106,10 @@ func (aiq *asyncItemQueue[T]) dequeue() (T, bool) {
 func (aiq *asyncItemQueue[T]) peek() (T, bool) {
 	aiq.headLock.Lock()
 	defer aiq.headLock.Unlock()
+	if !aiq.peekable {
+		// an item may have been added via enqueueChannel() since the queue was emptied
+		aiq.backfill()
+	}
 	return aiq.head, aiq.peekable
 }
 
diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index dadd2cf..0670b15 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -246,6 +246,7 @@ func (ap *AsyncJobScheduler[S, K, V]) scheduleItem(item asyncJobContainer[S, K,
 	var w *worker[S, K, V] = nil
 	var created bool
 	added := false
+	waited := false
 	for w == nil {
 		ap.mux.Lock()
 		w, created = ap.grabWorker(item.key)
@@ -256,6 +257,7 @@ func (ap *AsyncJobScheduler[S, K, V]) scheduleItem(item asyncJobContainer[S, K,
 			if ap.isClosed() {
 				return
 			}
+			waited = true
 		}
 	}
 	/*
@@ -269,7 +271,12 @@ func (ap *AsyncJobScheduler[S, K, V]) scheduleItem(item asyncJobContainer[S, K,
 
 	*/
 	added = w.tryAddItem(item)
+	keysAvailable := len(ap.workerMap) < ap.maxConcurrentKeys
 	ap.mux.Unlock()
+	if waited && keysAvailable {
+		// there is only one signal, pass it on to the next waiter (if any)
+		ap.workerAvailable()
+	}
 
 	if !added {
 		w.blockingAddItem(item)
@@ -312,17 +319,19 @@ func (ap *AsyncJobScheduler[S, K, V]) SetMaxConcurrentKeys(size int) {
 	ap.updateRWLock.Lock()
 	defer ap.updateRWLock.Unlock()
 	// this does not actually increase the number of workers, just makes room in the pending worker channel
-	prevMaxKeys := ap.maxConcurrentKeys
 
 	// lock here as grabWorker() uses this value, locked in release/scheduleWorker
 	ap.mux.Lock()
 	ap.maxConcurrentKeys = SchedulerConfig{MaxConcurrentKeys: size}.concurrentKeys()
 	ap.mux.Unlock()
-	ap.ensureWorkerChannelCapacity(size, prevMaxKeys)
+	ap.ensureWorkerChannelCapacity(size)
+	// there may now be room for a waiting Schedule()
+	ap.workerAvailable()
 }
 
-func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSize int) {
-	if newSize > oldSize {
+func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize int) {
+	// compare with the actual capacity: when maxConcurrentKeys was lowered, there may still be more keys in use than that
+	if newSize+1 > cap(ap.workerChannel) {
 		/*
 			we need to make sure s.workerChannel capacity is > s.maxConcurrentKeys
 			to avoid a deadlock. worker routines pull from this channel and may post back in the same thread
@@ -349,7 +358,10 @@ func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSi
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) waitForWorker() {
-	<-ap.workerFreeSignal
+	select {
+	case <-ap.workerFreeSignal:
+	case <-ap.runStatus.Done():
+	}
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) workerAvailable() {
-- 
2.43.0


From 4efb218d67ccb199450ad7a32c1aaabcedf22ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 21/40] fix: AsyncBatcher calls back empty batches out of order
 and keeps their keys assigned

---
 streams/async_batcher.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/streams/async_batcher.go b/streams/async_batcher.go
index 8c5ea53..8c0c9f8 100644
--- a/streams/async_batcher.go
+++ b/streams/async_batcher.go
@@ -123,29 +123,28 @@ const (
 
 type asyncBatchExecutor[S any, K comparable, V any] struct {
 	items      []*BatchItem[K, V]
-	noops      []*BatchItems[S, K, V]
+	all        []*BatchItem[K, V] // items and placeholders, in the order they were added
 	state      asyncBatchState
 	flushTimer *time.Timer
 }
 
 func (b *asyncBatchExecutor[S, K, V]) add(item *BatchItem[K, V]) {
-	if item.itemType == placeholder {
-		b.noops = append(b.noops, (*BatchItems[S, K, V])(item.batch))
-	} else {
+	b.all = append(b.all, item)
+	if item.itemType != placeholder {
 		b.items = append(b.items, item)
 	}
 }
 
 func (b *asyncBatchExecutor[S, K, V]) reset(assignments map[K]*asyncBatchExecutor[S, K, V]) {
-	for i, item := range b.items {
-		delete(assignments, item.key)
+	for i := range b.items {
 		b.items[i] = nil
 	}
-	for i := range b.noops {
-		b.noops[i] = nil
+	for i, item := range b.all {
+		delete(assignments, item.key)
+		b.all[i] = nil
 	}
 	b.items = b.items[0:0]
-	b.noops = b.noops[0:0]
+	b.all = b.all[0:0]
 	b.state = batcherReady
 }
 
@@ -244,7 +243,7 @@ func (ab *AsyncBatcher[S, K, V]) addToExecutor(item *BatchItem[K, V], executor *
 	ab.assignments[item.key] = executor
 	executor.add(item)
 
-	if len(executor.items)+len(executor.noops) == ab.maxBatchSize {
+	if len(executor.all) == ab.maxBatchSize {
 		ab.conditionallyExecuteBatch(executor)
 	} else if executor.flushTimer == nil {
 		executor.flushTimer = time.AfterFunc(ab.batchDelay, func() {
@@ -270,18 +269,20 @@ func (ab *AsyncBatcher[S, K, V]) conditionallyExecuteBatch(executor *asyncBatchE
 
 func (ab *AsyncBatcher[S, K, V]) completeBatchItems(items []*BatchItem[K, V]) {
 	for _, item := range items {
-		batchFor[S, K, V](item.batch).completeItem()
+		batch := batchFor[S, K, V](item.batch)
+		if item.itemType == placeholder {
+			batch.eventContext.AsyncJobComplete(batch.executeCallback)
+		} else {
+			batch.completeItem()
+		}
 	}
 }
 
 func (ab *AsyncBatcher[S, K, V]) executeBatch(executor *asyncBatchExecutor[S, K, V]) {
 	if len(executor.items) > 0 {
 		ab.executor(executor.items)
-		ab.completeBatchItems(executor.items)
-	}
-	for _, b := range executor.noops {
-		b.eventContext.AsyncJobComplete(b.executeCallback)
 	}
+	ab.completeBatchItems(executor.all)
 	ab.mux.Lock()
 	ab.executingCount--
 	executor.reset(ab.assignments)
-- 
2.43.0


From dacbf21454721a7908a2e2ad6205ddb408755fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 22/40] fix: isNetworkError dereferences a nil *net.OpError

Any error which does not come from the network, a failed topic creation for
example, made it panic while it was being logged.
---
 streams/topics.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index 858c85f..e61486b 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -194,9 +194,8 @@ func isNetworkError(err error) bool {
 	if errors.As(err, &opError) {
 		log.Warnf("network error for operation: %s, error: %v", opError.Op, opError)
 		return true
-	} else if err != nil {
-		log.Errorf("non network error for operation: %s, error: %v", opError.Op, opError)
 	}
+	log.Errorf("non network error: %v", err)
 	return false
 }
 
-- 
2.43.0


From 123f6431c3328e62d4afcd0093985c88b3cc5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 23/40] fix: an unset MinInSync is sent to the broker as 0

min.insync.replicas must be at least 1. The other optional settings of a
topic default to 1 already.
---
 streams/source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/source.go b/streams/source.go
index d19c226..484765a 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -224,6 +224,9 @@ func minInSyncConfig(source *Source) int {
 	if source.config.MinInSync >= int(factor) {
 		return source.config.ReplicationFactor - 1
 	}
+	if source.config.MinInSync <= 0 {
+		return 1
+	}
 	return source.config.MinInSync
 }
 
-- 
2.43.0


From 69e7a8f6c9c6c00f53674cc30c79c7cb5363d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 24/40] fix: errors creating topics are ignored

Each topic of a CreateTopics response carries its own error. CreateSource
returned as if it had succeeded, and no topic existed. If the topic was
created by another instance in the meantime, its configuration is looked up again.
---
 streams/topics.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index e61486b..acfa49d 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -25,6 +25,7 @@ import (
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/google/btree"
 	"github.com/twmb/franz-go/pkg/kadm"
+	"github.com/twmb/franz-go/pkg/kerr"
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
@@ -130,7 +131,15 @@ func NewClient(cluster Cluster, options ...kgo.Opt) (*kgo.Client, error) {
 func createTopicFromConfigMap(adminClient *kadm.Client, numPartitions int32, replicationFactor int16, config map[string]*string, topic ...string) error {
 	res, err := adminClient.CreateTopics(context.Background(), numPartitions, replicationFactor, config, topic...)
 	log.Infof("createTopic res: %+v, err: %v", res, err)
-	return err
+	if err != nil {
+		return err
+	}
+	for _, topicRes := range res {
+		if topicRes.Err != nil {
+			return fmt.Errorf("could not create topic %s: %w", topicRes.Topic, topicRes.Err)
+		}
+	}
+	return nil
 }
 
 func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor int, minInsync int, cleanupPolicy CleanupPolicy, dirtyRatio float64, topic ...string) error {
@@ -216,7 +225,8 @@ func CreateSource(sourceConfig EventSourceConfig) (resolved *Source, err error)
 	source := newSource(sourceConfig)
 	for retryCount := 0; retryCount < 15; retryCount++ {
 		resolved, err = createSource(source)
-		if isNetworkError(err) {
+		// if a topic was created by someone else since it was looked up, look again for its actual configuration
+		if errors.Is(err, kerr.TopicAlreadyExists) || isNetworkError(err) {
 			time.Sleep(time.Second)
 		} else {
 			break
-- 
2.43.0


From 1c0fb268589331aa9625dd367d2454e070070eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 25/40] fix: CreateDestination never creates the topic

It named no topic, used the client before checking for its creation error, did
not close it, ignored the result and repeated the attempt 15 times.
---
 streams/topics.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index acfa49d..5d4e2bc 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -155,14 +155,18 @@ func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor
 
 func createDestination(destination Destination) (Destination, error) {
 	client, err := NewClient(destination.Cluster)
-	adminClient := kadm.NewClient(client)
-	minInSync := fmt.Sprintf("%d", destination.MinInSync)
-	createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
-		"min.insync.replicas": sak.Ptr(minInSync),
-	})
 	if err != nil {
 		return destination, err
 	}
+	defer client.Close()
+	// the optional settings default to 1, as they do for a Source
+	minInSync := fmt.Sprintf("%d", sak.Max(destination.MinInSync, 1))
+	err = createTopicFromConfigMap(kadm.NewClient(client), int32(sak.Max(destination.NumPartitions, 1)), int16(sak.Max(destination.ReplicationFactor, 1)), map[string]*string{
+		"min.insync.replicas": sak.Ptr(minInSync),
+	}, destination.DefaultTopic)
+	if errors.Is(err, kerr.TopicAlreadyExists) {
+		err = nil
+	}
 	return destination, err
 }
 
@@ -171,6 +175,8 @@ func CreateDestination(destination Destination) (resolved Destination, err error
 		resolved, err = createDestination(destination)
 		if isNetworkError(err) {
 			time.Sleep(time.Second)
+		} else {
+			break
 		}
 	}
 	return
-- 
2.43.0


From bc2da801c2e3a3033a7ef409d108c6424b8b59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 26/40] fix: a GlobalChangeLog ignores the offset of a
 partition resumed early

The kafka client disregards a new offset for a partition for which it is yet to
look up the initial one. Skip the records which precede the requested offset.
---
 streams/global_change_log.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/streams/global_change_log.go b/streams/global_change_log.go
index 5505f42..e7924d3 100644
--- a/streams/global_change_log.go
+++ b/streams/global_change_log.go
@@ -16,6 +16,7 @@ package streams
 
 import (
 	"context"
+	"sync"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/twmb/franz-go/pkg/kgo"
@@ -42,6 +43,33 @@ type GlobalChangeLog[T ChangeLogReceiver] struct {
 	numPartitions int
 	topic         string
 	cleanupPolicy CleanupPolicy
+	startOffsets  *startOffsets
+}
+
+// The offsets at which partitions are to be resumed. The kafka client disregards a new offset
+// for a partition for which it is yet to look up the initial one, and starts at the beginning.
+type startOffsets struct {
+	mux     sync.Mutex
+	offsets map[int32]int64
+}
+
+func (so *startOffsets) set(partition int32, offset int64) {
+	so.mux.Lock()
+	defer so.mux.Unlock()
+	so.offsets[partition] = offset
+}
+
+// returns true if the record precedes the offset at which its partition was resumed.
+func (so *startOffsets) precedes(r *kgo.Record) bool {
+	so.mux.Lock()
+	defer so.mux.Unlock()
+	if offset, ok := so.offsets[r.Partition]; ok {
+		if r.Offset < offset {
+			return true
+		}
+		delete(so.offsets, r.Partition)
+	}
+	return false
 }
 
 // Creates a NewGlobalChangeLog consumer and forward all records to `receiver`.
@@ -74,6 +102,7 @@ func NewGlobalChangeLogWithRunStatus[T ChangeLogReceiver](runStatus sak.RunStatu
 		numPartitions: numPartitions,
 		topic:         topic,
 		cleanupPolicy: cleanupPolicy,
+		startOffsets:  &startOffsets{offsets: make(map[int32]int64)},
 	}
 }
 
@@ -93,6 +122,7 @@ func (cl GlobalChangeLog[T]) Pause(partition int32) {
 
 // Resumes consumption of a partition at offset.
 func (cl GlobalChangeLog[T]) ResumePartitionAt(partition int32, offset int64) {
+	cl.startOffsets.set(partition, offset)
 	cl.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
 		cl.topic: {partition: kgo.EpochOffset{
 			Offset: offset,
@@ -129,6 +159,9 @@ func (cl GlobalChangeLog[T]) consume() {
 }
 
 func (cl GlobalChangeLog[T]) forwardChange(r *kgo.Record) {
+	if cl.startOffsets.precedes(r) {
+		return
+	}
 	ir := newIncomingRecord(r)
 	if err := cl.receiver.ReceiveChange(ir); err != nil {
 		log.Errorf("GlobalChangeLog error for %+v, offset: %d, recordType: %s, error: %v", ir.TopicPartition(), ir.Offset(), ir.RecordType(), err)
-- 
2.43.0


From 1b360b840da25d58a90637a9020bb57b5e8c63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 27/40] fix: a stopped GlobalChangeLog goes on handing over
 records

Everything it had already fetched was still passed to the receiver.
---
 streams/global_change_log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/global_change_log.go b/streams/global_change_log.go
index e7924d3..784843a 100644
--- a/streams/global_change_log.go
+++ b/streams/global_change_log.go
@@ -159,7 +159,7 @@ func (cl GlobalChangeLog[T]) consume() {
 }
 
 func (cl GlobalChangeLog[T]) forwardChange(r *kgo.Record) {
-	if cl.startOffsets.precedes(r) {
+	if !cl.runStatus.Running() || cl.startOffsets.precedes(r) {
 		return
 	}
 	ir := newIncomingRecord(r)
-- 
2.43.0


From bc56957e32fc8418433dbc83640e236306f25b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 28/40] fix: a leaver which was told it may leave is given
 partitions again

Until it actually leaves, its status is Defunct. Such a member counted as an active one, and,
owning nothing, was the first to be given partitions.
---
 streams/group_state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index d152003..4943df8 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -120,7 +120,7 @@ func newGroupState(cb *kgo.ConsumerBalancer, partitionCount int32, topic string)
 
 	// now that we have initial state set, our sort is stable and we can insrt into our btrees
 	for _, incrMem := range gs.members {
-		if incrMem.meta.Status == InactiveMember {
+		if incrMem.meta.Status != ActiveMember {
 			gs.inactiveMembers.ReplaceOrInsert(incrMem)
 		} else {
 			gs.activeMembers.ReplaceOrInsert(incrMem)
-- 
2.43.0


From a23c488261d117c54eeb615588cefcf51178b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 29/40] fix: a move never starts if partitions without an owner
 were assigned

Nobody forces another rebalance once such a partition arrives at a member which was not
preparing for it, but it used up the budget: an unbalanced group stayed so, and
leaving members did not get rid of their partitions, until the next member came or went.
---
 streams/group_state.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index 4943df8..ad20f1b 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -226,6 +226,12 @@ func (gs groupState) balance(shifts int) bool {
 func (gs groupState) assignToActiveMember(partition int32, recipient *incrGroupMember) {
 	tp := ntp(partition, gs.topic)
 	log.Debugf("assignToActiveMember: %v, partition: %d", recipient, partition)
+	// once a partition which it was told to prepare for arrives, the recipient forces another rebalance.
+	// any other partition must not use up the budget: nothing would schedule the next move.
+	if recipient.meta.isPreparingOrReadyFor(partition, gs.topic) {
+		gs.inReceivership.ReplaceOrInsert(partition)
+		gs.inTransition.ReplaceOrInsert(partition)
+	}
 	delete(gs.ready, tp)
 	delete(gs.preparing, tp)
 	gs.activeMembers.Delete(recipient)
@@ -235,9 +241,6 @@ func (gs groupState) assignToActiveMember(partition int32, recipient *incrGroupM
 	recipient.meta.Ready = withoutPartition(recipient.meta.Ready, partition)
 	recipient.instructions.Prepare = withoutPartition(recipient.instructions.Prepare, partition)
 	gs.activeMembers.ReplaceOrInsert(recipient)
-
-	gs.inReceivership.ReplaceOrInsert(partition)
-	gs.inTransition.ReplaceOrInsert(partition)
 }
 
 func (gs groupState) instructActiveMemberToPrepareFor(partition int32, recipient *incrGroupMember) {
-- 
2.43.0


From 291a8f4dc1f5be0d87b107365a01414ea31a2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 30/40] fix: a partition which was assigned while being
 prepared blocks all moves

If its owner crashes, a partition is assigned to the member which prepares it. When that
preparation ended, the partition was reported as ready, and in receivership, ever after.
---
 streams/incr_rebalancer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index dad13ff..11e2879 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -295,9 +295,11 @@ func IncrementalRebalancer(instructionHandler IncrRebalanceInstructionHandler) I
 func (ir *incrementalRebalancer) PartitionPrepared(tp TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
-	ir.preparing.Remove(tp)
-	ir.ready.Insert(tp)
-	go ir.client().ForceRebalance()
+	// if it has been assigned or forgotten in the meantime, it is no longer about to be moved
+	if ir.preparing.Remove(tp) {
+		ir.ready.Insert(tp)
+		go ir.client().ForceRebalance()
+	}
 }
 
 // PartitionPrepared must be called if the IncrRebalanceInstructionHandler was unable to prepare a partition it was previously instructed to do so.
-- 
2.43.0


From 10b93464d5ffc637c1675abba09955890a9f9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 31/40] fix: of several partitions to forget, only the last one
 is forgotten

The goroutines share the loop variable.
---
 streams/incr_rebalancer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index 11e2879..27b34fd 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -409,6 +409,7 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 		wg := &sync.WaitGroup{}
 		wg.Add(len(instructions.Forget))
 		for _, tp := range instructions.Forget {
+			tp := tp
 			prepping := ir.preparing.Remove(tp)
 			prepped := ir.ready.Remove(tp)
 			if prepping || prepped {
-- 
2.43.0


From 9096fdd91d7ffaf8eaa699babc476b9e11bdcd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 32/40] fix: a member with malformed metadata makes the group's
 leader panic

MemberBalancer dereferenced the nil balancer which came with the error.
---
 streams/incr_rebalancer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index 27b34fd..177c4c4 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -431,7 +431,10 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 // Needed to fulfill the kgo.GroupBalancer interface. There should be non need to interact with this directly.
 func (ir *incrementalRebalancer) MemberBalancer(members []kmsg.JoinGroupResponseMember) (kgo.GroupMemberBalancer, map[string]struct{}, error) {
 	cb, err := kgo.NewConsumerBalancer(ir.balancerController, members)
-	return balanceWrapper{consumerBalancer: cb}, cb.MemberTopics(), err
+	if err != nil {
+		return nil, nil, err
+	}
+	return balanceWrapper{consumerBalancer: cb}, cb.MemberTopics(), nil
 }
 
 // Needed to fulfill the kgo.GroupBalancer interface. There should be non need to interact with this directly.
-- 
2.43.0


From 6ffd2afe6e20aa8e0a6d3227e4eec189b472bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 33/40] fix: MskCluster finds the cluster with the exact name

ListClusters treats ClusterNameFilter as a prefix and paginates its results.
Taking the first entry connected to a different cluster whose name merely
begins with the configured one, or missed the cluster on a later page.
---
 msk/cluster.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 370c97b..f276287 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -216,21 +216,29 @@ func (c *MskCluster) getBootstrapBrokers() (brokers []string, err error) {
 }
 
 func (c *MskCluster) getClusterArn() (arn string, err error) {
-	var res *kafka.ListClustersOutput
-	if res, err = c.client.ListClusters(context.TODO(), &kafka.ListClustersInput{
+	// ClusterNameFilter is a prefix filter, and results are paginated: look for the cluster with this exact name
+	input := &kafka.ListClustersInput{
 		ClusterNameFilter: aws.String(c.clusterName),
-	}); err != nil {
-		return
-	}
-	if len(res.ClusterInfoList) == 0 {
-		err = fmt.Errorf("cluster not found: %s", c.clusterName)
-		return
 	}
-	ci := res.ClusterInfoList[0]
-	if ci.ClusterArn == nil {
-		err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
-		return
+	for {
+		var res *kafka.ListClustersOutput
+		if res, err = c.client.ListClusters(context.TODO(), input); err != nil {
+			return
+		}
+		for _, ci := range res.ClusterInfoList {
+			if aws.ToString(ci.ClusterName) != c.clusterName {
+				continue
+			}
+			if ci.ClusterArn == nil {
+				err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
+				return
+			}
+			return *ci.ClusterArn, nil
+		}
+		if len(aws.ToString(res.NextToken)) == 0 {
+			err = fmt.Errorf("cluster not found: %s", c.clusterName)
+			return
+		}
+		input.NextToken = res.NextToken
 	}
-	arn = *ci.ClusterArn
-	return
 }
-- 
2.43.0


From 33b2bf1ba80cea6cb3dde9c01e66b4e7c8865bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 34/40] fix: SASL IAM without a credentials provider fails to
 authenticate

An aws.Config without a Credentials provider made the client panic in a
background goroutine on its first connection, ending the process.
---
 msk/cluster.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msk/cluster.go b/msk/cluster.go
index f276287..13263cd 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -167,6 +167,10 @@ func (c *MskCluster) Config() (opts []kgo.Opt, err error) {
 
 // provides the IAM auth mechanism from using aws.Config CredentialsProvider, so as sessions expire, we should be ok.
 func (c *MskCluster) saslIamAuth(ctx context.Context) (auth kaws.Auth, err error) {
+	if c.awsConfig.Credentials == nil {
+		err = fmt.Errorf("the aws.Config has no credentials provider")
+		return
+	}
 	var creds aws.Credentials
 	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err != nil {
 		auth = kaws.Auth{
-- 
2.43.0


From 6c9d19523ec6098b7752d289ce4d682cc695d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 35/40] fix: SASL IAM signs with the credentials which were
 retrieved

The condition was inverted: after a successful retrieval the credentials were
discarded, and every connection was attempted with empty keys.
---
 msk/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 13263cd..60f7337 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -172,7 +172,7 @@ func (c *MskCluster) saslIamAuth(ctx context.Context) (auth kaws.Auth, err error
 		return
 	}
 	var creds aws.Credentials
-	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err != nil {
+	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err == nil {
 		auth = kaws.Auth{
 			AccessKey:    creds.AccessKeyID,
 			SecretKey:    creds.SecretAccessKey,
-- 
2.43.0


From 87a8ee7388e7910672b094412803ec10d4c67ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 36/40] fix: resend a marker whose predecessor may have been
 compacted away

All markers of a partition share a key, so the broker may compact one away before
its waiter consumed it, which left the partition waiting forever.
---
 streams/commit_log.go           | 24 +++++++++++++++---------
 streams/state_store_consumer.go | 21 ++++++++++++++-------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/streams/commit_log.go b/streams/commit_log.go
index 631dd70..59a3b73 100644
--- a/streams/commit_log.go
+++ b/streams/commit_log.go
@@ -17,6 +17,7 @@ package streams
 import (
 	"bytes"
 	"sync"
+	"time"
 	"unsafe"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
@@ -24,7 +25,7 @@ import (
 )
 
 type eosCommitLog struct {
-	pendingSyncs  map[string]*sync.WaitGroup
+	pendingSyncs  map[string]chan struct{}
 	watermarks    map[int32]int64
 	mux           sync.Mutex
 	syncMux       sync.Mutex
@@ -61,7 +62,7 @@ func topicPartitionFromBytes(b []byte) (tp TopicPartition) {
 func newEosCommitLog(runStatus sak.RunStatus, source *Source, numPartitions int) *eosCommitLog {
 	cl := &eosCommitLog{
 		watermarks:    make(map[int32]int64),
-		pendingSyncs:  make(map[string]*sync.WaitGroup),
+		pendingSyncs:  make(map[string]chan struct{}),
 		numPartitions: int32(numPartitions),
 		topic:         source.CommitLogTopicNameForGroupId(),
 	}
@@ -98,9 +99,9 @@ func (cl *eosCommitLog) Revoked() {}
 
 func (cl *eosCommitLog) closeSyncRequest(mark string) {
 	cl.syncMux.Lock()
-	if wg, ok := cl.pendingSyncs[mark]; ok {
+	if synced, ok := cl.pendingSyncs[mark]; ok {
 		delete(cl.pendingSyncs, mark)
-		wg.Done()
+		close(synced)
 	}
 	cl.syncMux.Unlock()
 }
@@ -126,12 +127,17 @@ func (cl *eosCommitLog) lastProcessed(tp TopicPartition) int64 {
 func (cl *eosCommitLog) syncCommitLogPartition(tp TopicPartition) {
 	cl.syncMux.Lock()
 	mark := uuid.NewString()
-	markWaiter := &sync.WaitGroup{}
-	markWaiter.Add(1)
-	cl.pendingSyncs[mark] = markWaiter
+	synced := make(chan struct{})
+	cl.pendingSyncs[mark] = synced
 	cl.syncMux.Unlock()
-	sendMarkerMessage(cl.changeLog.client, tp, []byte(mark))
-	markWaiter.Wait()
+	for {
+		sendMarkerMessage(cl.changeLog.client, tp, []byte(mark))
+		select {
+		case <-synced:
+			return
+		case <-time.After(markerResendInterval):
+		}
+	}
 }
 
 func (cl *eosCommitLog) Watermark(tp TopicPartition) int64 {
diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 8b8c79d..240db96 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -36,6 +36,9 @@ const (
 )
 const markerKeyString = "gkes__mark"
 
+// All markers of a compacted partition share a key, so one may be compacted away before it has been consumed.
+const markerResendInterval = 10 * time.Second
+
 var markerKey = []byte(markerKeyString)
 var startEpochOffset = kgo.EpochOffset{
 	Offset: 0,
@@ -127,17 +130,21 @@ func (ssp *stateStorePartition[T]) removeWaiterForMark(mark []byte) (stateStoreW
 // If `activate` is true, the state store is not populated any further afterwards.
 func (ssp *stateStorePartition[T]) sync(activate bool) bool {
 	c, mark := ssp.addWaiter(activate)
-	sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
-	select {
-	case <-c:
-	case <-ssp.stopped:
+	for {
+		sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
 		select {
 		case <-c:
-		default:
-			return false
+			return true
+		case <-ssp.stopped:
+			select {
+			case <-c:
+				return true
+			default:
+				return false
+			}
+		case <-time.After(markerResendInterval):
 		}
 	}
-	return true
 }
 
 func (ssp *stateStorePartition[T]) prepare() bool {
-- 
2.43.0


From 774e729f18657caab05c7796c48b3a6f2391ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:41 +0000
Subject: [PATCH 37/40] fix: partitions assigned before the consumer is set up
 make it panic

The client joins the group as soon as it exists. If creating the other
clients takes a while (as it does when their configuration comes from
the MSK API), partitions are assigned to a consumer without state store
consumer or producer pool. With an invalid EosConfig, the member stays
in the group although the configuration was refused.
---
 streams/source_consumer.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 42660d6..8498aff 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -90,16 +90,27 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	} else {
 		opts = append(opts, kgo.DisableAutoCommit())
 	}
-	client, err := NewClient(
-		source.config.SourceCluster, opts...)
-
 	eosConfig := source.config.EosConfig
 	if eosConfig.IsZero() {
 		eosConfig = DefaultEosConfig
 		source.config.EosConfig = eosConfig
 	}
 
+	// before there is a client which joins the group
 	eosConfig.validate()
+
+	// Partitions may be assigned or prepared as soon as the client exists, that must wait until `sc` is complete.
+	sc.workerMux.Lock()
+	defer sc.workerMux.Unlock()
+	sc.preppingMux.Lock()
+	defer sc.preppingMux.Unlock()
+
+	client, err := NewClient(
+		source.config.SourceCluster, opts...)
+	if err != nil {
+		return nil, err
+	}
+
 	sc.producerPool = newEOSProducerPool[T](source, cl, eosConfig, client, eventSource.metrics)
 
 	for _, gb := range groupBalancers {
@@ -110,9 +121,7 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	}
 	sc.client = client
 	sc.stateStoreConsumer = newStateStoreConsumer[T](eventSource.ForkRunStatus(), source)
-	if err != nil {
-		return nil, err
-	}
+	eventSource.consumer = sc
 	return sc, nil
 }
 
-- 
2.43.0


From 07b69baf2ec6d13834edf49478fce22197de4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:00 +0000
Subject: [PATCH 38/40] fix: interjections scheduled after a partition was
 assigned are never run

Partitions are assigned as soon as the EventSource was created, but
ScheduleInterjection may be called until ConsumeEvents is.
---
 streams/partition_worker.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 4d6a624..5710292 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -110,7 +110,7 @@ func newPartitionWorker[T StateStore](
 		highestOffset:     -1,
 	}
 
-	go pw.work(pw.eventSource.interjections, waiter, commitLog)
+	go pw.work(waiter, commitLog)
 
 	return pw
 }
@@ -207,7 +207,7 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	pw.eventInput <- ec
 }
 
-func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func() bool, commitLog *eosCommitLog) {
+func (pw *partitionWorker[T]) work(waiter func() bool, commitLog *eosCommitLog) {
 	elapsed := sincer{time.Now()}
 	// the partition is not ready to receive events as it is still bootstrapping the state store.
 	// in the case where this partition was assigned due to a failure on another consumer, this could be a lengthy process
@@ -230,6 +230,8 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	})
 	// resume partition if it was paused
 	go pw.pushRecords()
+	// the commit log is only consumed once the EventSource was started, so all interjections are known by now
+	interjections := pw.eventSource.interjections
 	atomic.StoreInt64(&pw.ready, 1)
 	log.Debugf("partitionWorker activated %+v in %v, interjectionCount: %d", pw.topicPartition, elapsed, len(interjections))
 	ijPtrs := sak.ToPtrSlice(interjections)
-- 
2.43.0


From 5c520deb9fdd9bce3d782d7243f8e41bf6c4985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 39/40] fix: with a reset offset at the end, events after the
 committed position are skipped if the commit log has not been read yet

---
 streams/source_consumer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 8498aff..9d31ec8 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -132,6 +132,16 @@ func (sc *eventSourceConsumer[T]) adjustOffsetsBeforeAssign(ctx context.Context,
 		for _, p := range partitions {
 			tp := ntp(p, topic)
 			offset := sc.commitLog.Watermark(tp)
+			if offset <= 0 && partitionAssignments[p] != kgo.NewOffset().AtStart() {
+				// Starting there skips what is not processed yet, if the commit log has merely not been read so far.
+				synced := make(chan int64, 1)
+				go func() { synced <- sc.commitLog.lastProcessed(tp) }()
+				select {
+				case offset = <-synced:
+				case <-ctx.Done():
+					return nil, ctx.Err()
+				}
+			}
 			log.Infof("starting consumption for %+v at offset: %d", tp, offset+1)
 			if offset > 0 {
 				partitionAssignments[p] = kgo.NewOffset().At(offset)
-- 
2.43.0


From dd93a94ac6c8406ad4e79065e18a537aad90fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:16 +0000
Subject: [PATCH 40/40] fix: tell the source's observers of an assignment
 before its partitions can be activated

---
 streams/source_consumer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 9d31ec8..6d48bb3 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -228,6 +228,10 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 			continue
 		}
 		assigned = append(assigned, p)
+	}
+	// notify observers, before any of these partitions can be activated
+	sc.source.onPartitionsAssigned(assigned)
+	for _, p := range assigned {
 		tp := TopicPartition{Partition: p, Topic: topic}
 		store := sc.partitionedStore.assign(p)
 
@@ -249,8 +253,6 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 	if sc.incrBalancer != nil {
 		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
 	}
-	// notify observers
-	sc.source.onPartitionsAssigned(assigned)
 }
 
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
-- 
2.43.0

