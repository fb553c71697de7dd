package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
	"verifsim/kfake"
	"verifsim/scen"
)

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func brokerCfg(b scen.Broker) kfake.Config {
	return kfake.Config{Nodes: b.Nodes, Seed: b.Seed, LatMin: time.Duration(b.LatMinUs) * time.Microsecond, LatMax: time.Duration(b.LatMaxUs) * time.Microsecond,
		SpikeP: b.SpikeP, SpikeMax: ms(b.SpikeMaxMs), MarkerMax: ms(b.MarkerMaxMs), RebalanceDelay: ms(b.RebalDelMs), FetchMax: b.FetchMax, AutoCompact: b.AutoCompact}
}

type oneoff struct {
	retAt    time.Time // when the call returned
	id       int
	in       *inst
	part     int32
	ran      int
	at       time.Time
	resolved bool
	err      error
	closed   bool
	returned bool
	all      bool
	u        *unit
	entered  bool
}

func runE2E(sc *scen.E2E) {
	w := &world{sc: sc, inputs: map[int32][]*input{}, byID: map[int]*unit{}, pos: map[int32]int64{}, fwd: map[int32]int{}, lastOut: map[[3]int64][3]int64{},
		counters: map[int32]map[string]int64{}, slots: make([]*inst, len(sc.Insts)), bp: map[string]int{}, bpRuns: map[int]int{}, commitT: map[int32]time.Time{}}
	w.src = kfake.New(brokerCfg(sc.Broker))
	w.st = w.src
	if sc.StateSplit {
		b := sc.Broker
		b.Seed++
		w.st = kfake.New(brokerCfg(b))
	}
	w.src.OnAppend = w.onSrcAppend
	if w.st != w.src {
		w.st.OnAppend = w.onStAppend
	}
	w.st.OnTxnEnd, w.st.OnTxnBegin = w.onTxnEnd, w.onTxnBegin
	w.src.OnOffsetCommit = w.onOffsetCommit
	w.src.OnGroup = func(g, what string, cl *kfake.Client, m string) { trace("group %s %v", what, w.instOf(cl)) }
	for _, f := range sc.Faults {
		cnt := f.Count
		kf := kfake.Fault{Inst: f.Inst, Key: f.Key, Nth: f.Nth, Count: cnt, Kind: f.Kind, Code: f.Code, Txn: f.Txn, Topic: f.Topic, Delay: ms(f.DelayMs)}
		w.src.Faults = append(w.src.Faults, kf)
		if w.st != w.src {
			w.st.Faults = append(w.st.Faults, kf)
		}
	}
	crash := func(cl *kfake.Client) {
		if in := w.instOf(cl); in != nil && !in.gone {
			in.gone = true
			stat("crash_fault", 1)
			trace("%v crashes (fault)", in)
			if w.st != w.src {
				go in.kill()
			}
		}
	}
	w.src.OnCrashFault, w.st.OnCrashFault = crash, crash
	req := func(cl *kfake.Client, conn string, kreq kmsg.Request) {
		if in := w.instOf(cl); in != nil && (kreq.Key() == 14 || kreq.Key() == 9) {
			in.lastSync = time.Now()
		}
		if key := kreq.Key(); key != 3 && key != 18 {
			trace("R %v %s %s", w.instOf(cl), conn, reqString(kreq))
		}
	}
	w.src.OnRequest, w.st.OnRequest = req, req
	w.src.Lock()
	w.src.CreateTopicLocked(srcTopic, sc.Parts, 1, map[string]string{})
	w.src.Unlock()
	w.st.Lock()
	w.st.CreateTopicLocked(outTopic, sc.OutParts, 1, map[string]string{})
	w.st.CreateTopicLocked(bpTopic, 2, 1, map[string]string{})
	if sc.Preset {
		w.st.CreateTopicLocked(stTopic, sc.Parts, 1, map[string]string{"cleanup.policy": "compact"})
		w.st.CreateTopicLocked(clTopic, sc.ClPart, 1, map[string]string{"cleanup.policy": "compact"})
	}
	w.st.Unlock()
	w.history()
	for _, s := range sc.Steps {
		if d := time.Until(start.Add(ms(s.At))); d > 0 {
			time.Sleep(d)
		}
		w.step(s)
	}
	w.settle()
}

// history: records, and possibly offsets of the group, from before the first start
func (w *world) history() {
	for p, n := range w.sc.Hist {
		p := int32(p)
		for i := 0; i < n; i++ {
			r := recOf(&scen.Event{ID: 2000000 + 1000*int(p) + i, Part: p, Key: fmt.Sprintf("k%d", i%3), Mode: "sync", Outs: i % 3, Chg: 1, Dest: -1})
			r.Timestamp = start.UnixMilli() - int64(n-i)*1000
			if w.sc.StartOff == "time" {
				r.Timestamp = start.UnixMilli() - 100000 + int64(i-w.sc.From[p])*1000
			}
			w.src.AppendPlain(srcTopic, p, r)
		}
		from := int64(w.sc.From[p])
		if from == 0 {
			continue
		}
		if w.sc.StartOff == "end" {
			continue
		}
		w.pos[p] = from
		w.src.Lock()
		switch w.sc.StartOff {
		case "group":
			w.src.SetGroupOffsetLocked(group, kfake.TP{Topic: srcTopic, P: p}, from)
		case "trim":
			w.src.TrimLocked(srcTopic, p, from)
		}
		w.src.Unlock()
	}
	if w.sc.StartOff != "" {
		stat("history", 1)
	}
}

func (in *inst) startOffset() kgo.Offset {
	switch sc := in.w.sc; sc.StartOff {
	case "at":
		return kgo.NewOffset().At(int64(sc.From[0]))
	case "time":
		return kgo.NewOffset().AfterMilli(start.UnixMilli() - 100000)
	case "end":
		return kgo.NewOffset().AtEnd()
	}
	return kgo.NewOffset().AtStart()
}

func reqString(k kmsg.Request) string {
	s, y, st := verifSave()
	defer verifRestore(s, y, st)
	name := kmsg.NameForKey(k.Key())
	var b strings.Builder
	b.WriteString(name)
	switch r := k.(type) {
	case *kmsg.FetchRequest:
		for _, t := range r.Topics {
			for _, p := range t.Partitions {
				fmt.Fprintf(&b, " %s/%d@%d", t.Topic, p.Partition, p.FetchOffset)
			}
		}
		fmt.Fprintf(&b, " sess %d/%d forgot %v", r.SessionID, r.SessionEpoch, len(r.ForgottenTopics))
	case *kmsg.ProduceRequest:
		for _, t := range r.Topics {
			for _, p := range t.Partitions {
				fmt.Fprintf(&b, " %s/%d(%dB)", t.Topic, p.Partition, len(p.Records))
			}
		}
	case *kmsg.EndTxnRequest:
		fmt.Fprintf(&b, " %s commit=%v", r.TransactionalID, r.Commit)
	case *kmsg.AddPartitionsToTxnRequest:
		for _, t := range r.Topics {
			fmt.Fprintf(&b, " %s%v", t.Topic, t.Partitions)
		}
	}
	return b.String()
}

func (in *inst) kill() {
	in.cl.Crash()
	if in.cl2 != in.cl {
		in.cl2.Crash()
	}
}

func recOf(ev *scen.Event) *kfake.Rec {
	b, _ := json.Marshal(ev)
	r := &kfake.Rec{Key: []byte(ev.Key), Value: b}
	if ev.Type != "" {
		r.Headers = []kfake.Header{{Key: "__grt__", Value: []byte(ev.Type)}}
	}
	return r
}

func (w *world) step(s scen.Step) {
	var in *inst
	if s.Inst >= 0 && s.Inst < len(w.slots) {
		in = w.slots[s.Inst]
	}
	live := in != nil && !in.gone && in.ready
	switch s.Op {
	case "produce":
		for i := range s.Events {
			ev := &s.Events[i]
			w.src.AppendPlain(srcTopic, ev.Part, recOf(ev))
		}
		stat("inputs", len(s.Events))
	case "txn":
		m := map[kfake.TP][]*kfake.Rec{}
		for i := range s.Events {
			ev := &s.Events[i]
			tp := kfake.TP{Topic: srcTopic, P: ev.Part}
			m[tp] = append(m[tp], recOf(ev))
		}
		if len(m) > 0 {
			w.src.ExternalTxn(s.Commit, ms(s.OpenMs), m)
		}
		stat("inputs_txn", len(s.Events))
	case "start":
		if in == nil || in.gone {
			w.start(s.Inst)
		}
	case "stop":
		if live {
			in.stop()
		}
	case "stopnow":
		if live && !in.stopping {
			in.forceStop()
		}
	case "stop2":
		if live && !in.stopping && !in.stopNow {
			in.stop2(s.N, ms(s.Delay))
		}
	case "signal":
		if live && in.cfg.Wait >= 2 && in.cfg.Wait < 6 && !in.stopping && !in.stopNow && !in.hasFailed() {
			in.signal(s.N)
		}
	case "flood":
		if live {
			stat("floods", 1)
			for i := 0; i < s.N; i++ {
				t0 := time.Now()
				in.es.EmitMetric(in.userMetric())
				if d := time.Since(t0); d > emitLimit {
					viol("emit-blocked", []string{"C25"}, "%v: EmitMetric took %v", in, d)
					break
				}
			}
		}
	case "crash":
		if in != nil && !in.gone {
			in.gone = true
			trace("%v crashes", in)
			stat("crashes", 1)
			in.kill()
		}
	case "interject":
		if live {
			go w.interject(in, s)
		}
	case "interjectall", "interjectallsync":
		if live {
			go w.interjectAll(in, s)
		}
	case "compact":
		w.st.Lock()
		n := w.st.CompactLocked(stTopic, s.Part, s.N)
		for p := 0; p < w.sc.ClPart; p++ {
			n += w.st.CompactLocked(clTopic, int32(p), s.N)
		}
		w.st.Unlock()
		stat("compacted", n)
	}
}

func (w *world) start(slot int) *inst {
	in := &inst{w: w, slot: slot, n: len(w.all), cfg: w.sc.Insts[slot], periods: map[int32]*period{}, lastStore: map[int32]*Store{}, stores: map[int32][]*Store{}}
	in.cl = w.src.NewClient(in.String())
	in.cl2 = in.cl
	if w.st != w.src {
		in.cl2 = w.st.NewClient(in.String())
	}
	w.slots[slot] = in
	w.all = append(w.all, in)
	stat("starts", 1)
	go in.run()
	return in
}

func (in *inst) run() {
	w, cfg := in.w, in.cfg
	var strat []streams.BalanceStrategy
	for _, s := range cfg.Strategies {
		strat = append(strat, streams.BalanceStrategy(s))
	}
	ec := streams.EventSourceConfig{
		GroupId: group, Topic: srcTopic, NumPartitions: w.sc.Parts, CommitLogPartitions: w.sc.ClPart,
		SourceCluster: in.cl, BalanceStrategies: strat, CommitOffsets: cfg.CommitOffs,
		EosConfig:             streams.EosConfig{PoolSize: cfg.Pool, PendingTxnCount: cfg.Pending, TargetBatchSize: cfg.Target, MaxBatchSize: cfg.Max, BatchDelay: ms(cfg.DelayMs)},
		OnPartitionAssigned:   func(_ *streams.Source, p int32) { in.onAssigned(p) },
		OnPartitionActivated:  func(_ *streams.Source, p int32) { in.onActivated(p) },
		OnPartitionWillRevoke: func(_ *streams.Source, p int32) { in.onWillRevoke(p) },
		OnPartitionRevoked:    func(_ *streams.Source, p int32) { in.onRevoked(p) },
	}
	if in.cl2 != in.cl {
		ec.StateCluster = in.cl2
	}
	in.cl.ConfigDelay, in.cl2.ConfigDelay = ms(cfg.CfgMs), ms(cfg.CfgMs)
	if cfg.Metrics != "" {
		ec.MetricsHandler = in.onMetric
	}
	if cfg.DeserErr != "" {
		ec.DeserializationErrorHandler = func(e streams.ErrorContext, t string, err error) streams.ErrorResponse { return in.onDeser(e, t, err) }
	}
	ec.TxnErrorHandler = func(err error) streams.ErrorResponse {
		in.gate()
		trace("%v txn error: %v", in, err)
		stat("txn_errors", 1)
		if cfg.TxnErr == "exit" {
			in.exiting("a transaction error")
			return streams.FatallyExit
		}
		in.failing("a transaction error")
		return streams.DefaultTxnErrorHandler(err)
	}
	if cfg.TxnErr == "nil" {
		ec.TxnErrorHandler = nil
	}
	def := in.handle
	if cfg.LateDef {
		def = func(_ *streams.EventContext[*Store], r streams.IncomingRecord) streams.ExecutionState {
			viol("misrouted", []string{"C13"}, "%v: the default handler given at creation was called, although another one has been registered", in)
			return streams.Complete
		}
	}
	if cfg.ZeroEos {
		ec.EosConfig = streams.EosConfig{}
		in.cfg.Pool, in.cfg.Pending, in.cfg.Target, in.cfg.Max, in.cfg.DelayMs = 3, 1, 1000, 10000, 10
	}
	trace("%v starting", in)
	es, err := streams.NewEventSource(ec, func(tp streams.TopicPartition) *Store {
		in.gate()
		if tp.Topic != stTopic {
			viol("factory-topic", []string{"C03"}, "store factory called with topic %s", tp.Topic)
		}
		st := &Store{in: in, part: tp.Partition, m: map[string]string{}, last: -1}
		in.lastStore[tp.Partition] = st
		in.stores[tp.Partition] = append(in.stores[tp.Partition], st)
		return st
	}, def, kgo.ConsumeResetOffset(in.startOffset()))
	in.gate()
	if err != nil {
		viol("start", []string{"C20", "C01"}, "%v: NewEventSource: %v", in, err)
		in.gone = true
		return
	}
	in.es = es
	if cfg.InitMs > 0 {
		time.Sleep(ms(cfg.InitMs))
		in.gate()
	}
	in.sched, err = streams.CreateAsyncJobScheduler(es, in.schedProc, in.schedFin, streams.SchedulerConfig{Concurrency: max1(cfg.SchedConc), WorkerQueueDepth: cfg.SchedDepth, MaxConcurrentKeys: max1(cfg.SchedKeys)})
	if err != nil {
		viol("sched", []string{"C06"}, "CreateAsyncJobScheduler: %v", err)
		return
	}
	in.batcher = streams.NewAsyncBatcher[*Store](in.batchExec, max1(cfg.BatchMax), max1(cfg.BatchConc), ms(cfg.BatchDelay))
	in.bp = streams.NewBatchProducer[*Store](streams.Destination{DefaultTopic: bpTopic, Cluster: in.cl2})
	in.register()
	if cfg.LateDef {
		streams.RegisterDefaultHandler(es, in.handle, "")
	}
	for i := range w.sc.Interj {
		i := i
		ij := w.sc.Interj[i]
		es.ScheduleInterjection(func(ec *streams.EventContext[*Store], t time.Time) streams.ExecutionState { return in.tick(ec, i, ij) }, ms(ij.EveryMs), ms(ij.JitterMs))
	}
	es.ConsumeEvents()
	in.ready = true
	in.wait()
	go in.watchDone()
}

// wait: the simulated main function waits for the event source to end
func (in *inst) wait() {
	if in.cfg.Wait > 1 && in.cfg.Wait < 6 && in.slot > 0 {
		in.cfg.Wait = 1 // (signals belong to a process, and only one instance here can have it to itself)
	}
	if in.cfg.Wait == 0 {
		return
	}
	in.release, in.waited = make(chan struct{}), make(chan struct{})
	stat("waiters", 1)
	if in.cfg.Wait == 6 {
		go func() {
			in.es.WaitForChannel(in.release, nil)
			in.gate()
			close(in.waited)
		}()
	} else if in.cfg.Wait == 1 {
		calls := 0
		go in.es.WaitForChannel(in.release, func() {
			in.gate()
			if calls++; calls > 1 {
				viol("wait-callback-twice", []string{"C12"}, "%v: the callback of WaitForChannel was called twice", in)
				return
			}
			close(in.waited)
		})
	} else {
		var sigs []os.Signal
		if in.cfg.Wait == 3 || in.cfg.Wait == 5 {
			sigs = []os.Signal{syscall.SIGUSR1, syscall.SIGUSR2}
		}
		go func() {
			if in.cfg.Wait > 3 {
				in.es.WaitForSignals(nil, sigs...)
				in.gate()
				close(in.waited)
				return
			}
			in.es.WaitForSignals(func(s os.Signal) bool {
				in.gate()
				in.hooks++
				trace("%v signal hook %v -> %v", in, s, in.accept)
				if !in.wantsSignal(s) {
					viol("signal-unwanted", []string{"C12"}, "%v: signal %v given to a hook that did not ask for it", in, s)
				}
				return in.accept
			}, sigs...)
			in.gate()
			close(in.waited)
		}()
	}
	go func() { // whatever watches the health of the process ends it
		for {
			time.Sleep(500 * time.Millisecond)
			in.gate()
			if in.es.State() == streams.Unhealthy {
				in.endWait()
				return
			}
		}
	}()
}

func (in *inst) wantsSignal(s os.Signal) bool {
	if in.cfg.Wait == 3 || in.cfg.Wait == 5 {
		return s == syscall.SIGUSR1 || s == syscall.SIGUSR2
	}
	return s == syscall.SIGINT || s == syscall.SIGHUP
}

var signals = []os.Signal{syscall.SIGINT, syscall.SIGHUP, syscall.SIGUSR1, syscall.SIGUSR2}

// signal: one that the hook rejects, or that nobody waits for
func (in *inst) signal(n int) {
	s := signals[n%len(signals)]
	if in.cfg.Wait > 3 && in.wantsSignal(s) {
		return // (it would not be rejected)
	}
	stat("signals_rejected", 1)
	trace("%v signal %v", in, s)
	before := in.hooks
	deliver(s)
	if !in.wantsSignal(s) {
		return
	}
	go func() {
		time.Sleep(time.Second)
		if !in.gone && !in.stopping && !in.stopNow && !in.hasFailed() && in.doneAt.IsZero() && in.hooks == before {
			viol("signal-unheard", []string{"C12"}, "%v: the hook was not called for signal %v", in, s)
		}
	}()
}

// endWait: what WaitForChannel or WaitForSignals waits for happens
func (in *inst) endWait() {
	if in.released {
		return
	}
	in.released = true
	switch in.cfg.Wait {
	case 1, 6:
		close(in.release)
	case 2, 4:
		in.accept = true
		deliver(signals[in.n%2])
	case 3, 5:
		in.accept = true
		deliver(signals[2+in.n%2])
	}
}

// hasFailed: it was asked to fail, or did so by default
func (in *inst) hasFailed() bool {
	if !in.failed && in.cfg.TxnErr == "nil" && in.es != nil && in.es.State() == streams.Unhealthy {
		in.failing("a transaction error (default handler)")
	}
	return in.failed
}

// exiting: a handler is about to answer that the process must exit
func (in *inst) exiting(why string) {
	trace("%v asked to exit after %s", in, why)
	stat("fatal_exits", 1)
	res.Fatal = true
	saveResult()
	go func() {
		time.Sleep(5 * time.Second)
		viol("fatal-survived", []string{"C12", "C13"}, "%v: the process goes on five seconds after a handler asked it to exit because of %s", in, why)
		res.Complete = true
		writeResult()
		os.Exit(0)
	}()
}

// failing: a handler is about to answer that the consumer must fail
func (in *inst) failing(why string) {
	in.failed = true
	if !in.failedAt.IsZero() {
		return
	}
	in.failedAt = time.Now()
	stat("failures", 1)
	go func() {
		time.Sleep(time.Second)
		if !in.gone && in.es.State() != streams.Unhealthy {
			viol("fail-healthy", []string{"C12", "C13"}, "%v is healthy although it was asked to fail after %s", in, why)
		}
		time.Sleep(120 * time.Second)
		if !in.gone {
			viol("fail-not-done", []string{"C12", "C13"}, "%v is not done two minutes after it was asked to fail after %s", in, why)
		}
	}()
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

func (in *inst) watchDone() {
	if in.cfg.Wait == 0 {
		<-in.es.Done()
	} else {
		<-in.waited
	}
	in.gate()
	if !in.stopping && !in.stopNow && in.es.State() != streams.Unhealthy {
		viol("done-unasked", []string{"C12"}, "%v is done although nobody asked it to stop and it did not fail", in)
	}
	in.doneAt = time.Now()
	trace("%v done", in)
	if in.stopping && !in.hasFailed() && !in.stopNow {
		in.checkStopped()
	}
	member := func() bool {
		return in.hasFailed() && !in.stopping && !in.stopNow && len(in.w.sc.Faults) == 0 && in.inGroup() && !in.unluckyLeave()
	}
	if in.cfg.Wait > 0 && member() {
		// (the watcher may have stopped it while it was closing on its own, and the second call does not wait for the first one)
		time.Sleep(time.Second)
		in.gate()
	}
	if member() {
		viol("fail-member", []string{"C12"}, "%v is done after failing but still a member of the group", in)
	}
	if in.stopping && !in.hasFailed() && !in.stopNow {
		// the process goes on for a while after a graceful stop
		in.ready = false
		time.Sleep(3 * time.Second)
	}
	// the process exits now
	in.gone = true
	in.kill()
}

func (in *inst) checkStopped() {
	w := in.w
	for _, p := range in.periods {
		if p.assigned && !p.over {
			viol("stop-assigned", []string{"C12", "C11"}, "%v is done but partition %d was not surrendered", in, p.part)
		}
		for _, u := range p.handled {
			if u.in == in && u.commits == 0 {
				viol("stop-uncommitted", []string{"C12"}, "%v is done but event %d (partition %d), which it was handling, is not committed", in, u.id, u.part)
			}
		}
	}
	if in.inGroup() && !in.unluckyLeave() {
		viol("stop-member", []string{"C12"}, "%v is done but still a member of the group", in)
	}
	if in.cfg.CommitOffs && len(w.sc.Faults) == 0 {
		w.src.Lock()
		for p := int32(0); p < int32(w.sc.Parts); p++ {
			o, ok := w.src.GroupOffsetLocked(group, kfake.TP{Topic: srcTopic, P: p})
			handledHere := false
			if pr := in.periods[p]; pr != nil && len(pr.handled) > 0 && pr.handled[len(pr.handled)-1].txn != nil {
				handledHere = true
			}
			if handledHere && w.lastCommitter(p) == in && (!ok || o != w.pos[p]) {
				viol("offset-final", []string{"C24"}, "%v stopped; group offset of partition %d is %d (set %v), committed position %d", in, p, o, ok, w.pos[p])
			}
			if handledHere && ok {
				stat("offset_final_checked", 1)
			}
		}
		w.src.Unlock()
	}
}

func (w *world) lastCommitter(p int32) *inst {
	var l *inst
	for _, i := range w.inputs[p] {
		if u := w.byID[i.ev.ID]; u.txn != nil {
			l = w.instOf(u.txn.Inst)
		}
	}
	return l
}

func (in *inst) inGroup() bool {
	in.w.src.Lock()
	defer in.w.src.Unlock()
	for _, cl := range in.w.src.GroupMembersLocked(group) {
		if cl == in.cl {
			return true
		}
	}
	return false
}

// unluckyLeave: a client that leaves at the very moment it got its assignment cancels its offset fetch, and by that
// drops the connection on which it has just asked to leave. The coordinator then waits for the session to time out.
func (in *inst) unluckyLeave() bool { return time.Since(in.lastSync) < 400*time.Millisecond }

func (in *inst) stop() {
	trace("%v Stop", in)
	in.combined = in.combined || in.stopNow
	in.stopping = true
	stat("stops", 1)
	if in.cfg.Wait > 0 && !in.released {
		in.endWait()
		return
	}
	go in.es.Stop()
}

func (in *inst) forceStop() {
	trace("%v StopNow", in)
	in.combined = in.combined || in.stopNow || in.stopping
	in.stopNow = true
	stat("stopnow", 1)
	go func() {
		in.es.StopNow()
		in.stoppedNow()
	}()
}

// stoppedNow: StopNow returned
func (in *inst) stoppedNow() {
	in.gate()
	if in.inGroup() && len(in.w.sc.Faults) == 0 && !in.combined && !in.hasFailed() && !in.unluckyLeave() {
		viol("stopnow-member", []string{"C12"}, "%v: StopNow returned but it is still a member of the group", in)
	}
	in.endWait()
	if in.doneAt.IsZero() {
		time.Sleep(time.Second) // (watchDone gets it, and marks the instance as gone)
	}
	in.gate()
	if in.doneAt.IsZero() {
		viol("stopnow-done", []string{"C12"}, "%v: StopNow returned but its done channel is not readable", in)
	}
}

// stop2: several calls, in several orders
func (in *inst) stop2(kind int, d time.Duration) {
	call := func(f func(), name string) {
		t := time.AfterFunc(200*time.Second, func() {
			if !in.gone {
				viol("stop-call-hang", []string{"C12"}, "%v: %s has not returned after 200s", in, name)
			}
		})
		f()
		t.Stop()
		in.gate()
	}
	in.combined = in.combined || kind > 0 || in.stopNow
	switch kind {
	case 0: // Stop twice
		in.stop()
		go func() {
			time.Sleep(d)
			in.gate()
			call(in.es.Stop, "second Stop")
		}()
	case 1: // Stop, then StopNow
		in.stop()
		go func() {
			time.Sleep(d)
			in.gate()
			in.stopNow = true
			stat("stopnow", 1)
			call(in.es.StopNow, "StopNow after Stop")
			in.stoppedNow()
		}()
	case 2: // everything at once
		in.stopNow = true
		stat("stopnow", 1)
		go func() {
			go call(in.es.StopNow, "second StopNow")
			go call(in.es.Stop, "Stop during StopNow")
			call(in.es.StopNow, "StopNow")
			in.stoppedNow()
		}()
	}
}

func (in *inst) onAssigned(p int32) {
	in.gate()
	trace("%v assigned %d", in, p)
	if pr := in.periods[p]; pr != nil && !pr.over {
		viol("assigned-twice", []string{"C11"}, "%v: partition %d assigned again before it was revoked", in, p)
	}
	// exclusive ownership across the group, as far as members see it
	for _, o := range in.w.all {
		if o == in || o.gone || o.hasFailed() || o.stopNow {
			continue
		}
		if pr := o.periods[p]; pr != nil && !pr.over && !in.w.fenced(o) {
			viol("two-owners", []string{"C08", "C04"}, "partition %d assigned to %v while %v owns it", p, in, o)
		}
	}
	in.periods[p] = &period{part: p, assigned: true, start: time.Now(), lastTick: map[int]time.Time{}}
	stat("assigned", 1)
	if d := in.cfg.AssignIj; d > 0 {
		go func() {
			time.Sleep(ms(d - 1))
			if !in.gone && in.ready {
				stat("oneoffs_on_assign", 1)
				in.w.interject(in, scen.Step{Part: p, Outs: 1, N: 1})
			}
		}()
	}
}

// fenced: the broker dropped the member (session or rebalance timeout)
func (w *world) fenced(o *inst) bool { return !o.inGroup() }

func (in *inst) onActivated(p int32) {
	in.gate()
	trace("%v activated %d", in, p)
	pr := in.periods[p]
	if pr == nil || pr.over {
		if !in.hasFailed() && !in.stopNow {
			viol("activated-unassigned", []string{"C11"}, "%v: activated callback for partition %d which is not assigned", in, p)
		}
		return
	}
	if pr.activated {
		viol("activated-twice", []string{"C11"}, "%v: activated callback for partition %d twice", in, p)
	}
	pr.activated, pr.actAt = true, time.Now()
	stat("activated", 1)
	if st := in.lastStore[p]; st != nil && !in.hasFailed() && !in.stopNow && !in.stopping {
		in.w.st.Lock()
		want := foldState(in.w.st, p)
		in.w.st.Unlock()
		if len(want) > 0 {
			stat("activated_state", 1)
		}
		if d := diffMaps(st.m, want); d != "" {
			viol("activated-incomplete", []string{"C11", "C03"}, "%v: activated callback for partition %d while its store differs from the fold of committed changes: %s", in, p, d)
		}
	}
	if in.cfg.ActMs > 0 {
		time.Sleep(ms(in.cfg.ActMs))
		in.gate()
	}
	if len(pr.handled) > 0 {
		viol("activated-late", []string{"C11"}, "%v: partition %d handled %d events before its activated callback returned", in, p, len(pr.handled))
	}
}

func (in *inst) onWillRevoke(p int32) {
	in.gate()
	trace("%v will revoke %d", in, p)
	pr := in.periods[p]
	if pr == nil || pr.over || pr.will {
		viol("will-revoke", []string{"C11"}, "%v: will-revoke callback for partition %d out of order", in, p)
		return
	}
	pr.will = true
	if in.cfg.RevokeMs > 0 {
		n := len(in.w.oneoffs)
		probe := pr.activated && time.Since(pr.actAt) > 10*time.Millisecond && !in.hasFailed() && !in.stopNow
		if probe {
			go in.w.interject(in, scen.Step{Part: p, Outs: 1})
		}
		time.Sleep(ms(in.cfg.RevokeMs))
		in.gate()
		if probe && n < len(in.w.oneoffs) && !in.hasFailed() && !in.stopNow {
			if o := in.w.oneoffs[n]; o.in == in && o.part == p && o.resolved {
				stat("oneoffs_in_will_revoke", 1)
				if !o.closed {
					viol("will-revoke-stopped", []string{"C11"}, "%v: processing of partition %d has stopped before its will-revoke callback returned (%v)", in, p, o.err)
				}
			}
		}
	}
}

func (in *inst) onRevoked(p int32) {
	in.gate()
	trace("%v revoked %d", in, p)
	pr := in.periods[p]
	if pr == nil || pr.over || !pr.will {
		viol("revoked", []string{"C11"}, "%v: revoked callback for partition %d out of order", in, p)
		return
	}
	pr.over = true
	stat("revoked", 1)
	if in.hasFailed() || in.stopNow {
		return
	}
	if pr.store != nil && pr.store.busy != "" {
		viol("revoked-busy", []string{"C11"}, "%v: revoked callback for partition %d while %s is running", in, p, pr.store.busy)
	}
	if pr.store != nil && pr.store.revoked != 1 {
		viol("store-not-revoked", []string{"C11"}, "%v: revoked callback for partition %d, the store was told %d times", in, p, pr.store.revoked)
	}
	if len(pr.handled) > 0 {
		stat("revoked_after_events", 1)
	}
	for _, u := range pr.handled {
		if u.commits == 0 {
			viol("revoked-uncommitted", []string{"C11"}, "%v: revoked callback for partition %d but the transaction of event %d has not ended", in, p, u.id)
			break
		}
	}
}

// userMetric: what the application emits says in its count which one it is
func (in *inst) userMetric() streams.Metric {
	in.emitted++
	return userMetric(in.emitted)
}

func userMetric(n int) streams.Metric {
	m := streams.Metric{Operation: "user", Count: n, Bytes: 7 * n, PartitionCount: n % 5, Partition: int32(n % 3), Topic: "a", GroupId: "b", StartTime: start.Add(ms(n)), EndTime: start.Add(ms(5 * n))}
	if n%2 == 0 {
		m.ExecuteTime = start.Add(ms(3 * n))
	}
	return m
}

func (in *inst) onMetric(m streams.Metric) {
	in.gate()
	if m.Operation == "user" {
		want := userMetric(m.Count)
		if want.ExecuteTime.IsZero() { // (it is taken to be executed from the start)
			want.ExecuteTime = want.StartTime
		}
		if m.Count <= in.got || m.Count > in.emitted || m != want {
			viol("metric-user", []string{"C25"}, "%v: metric %+v delivered, after number %d of %d emitted", in, m, in.got, in.emitted)
		}
		if n := m.Count; m.Duration() != ms(4*n) || m.Linger()+m.ExecuteDuration() != ms(4*n) || m.Linger() != m.ExecuteTime.Sub(m.StartTime) {
			viol("metric-durations", []string{"C25"}, "%v: metric %+v has duration %v, linger %v, execution %v", in, m, m.Duration(), m.Linger(), m.ExecuteDuration())
		}
		in.got = m.Count
		stat("user_metrics", 1)
		if in.cfg.MetricMs > 0 {
			time.Sleep(ms(in.cfg.MetricMs))
			in.gate()
		}
		return
	}
	if in.metricsBusy {
		viol("metric-overlap", []string{"C25"}, "metrics handler runs concurrently with itself")
	}
	in.metricsBusy = true
	defer func() { in.metricsBusy = false }()
	if m.Operation == streams.PartitionPreppedOperation {
		// what one of the stores of the partition received (counted and weighed one after the other)
		stat("prepped_metrics", 1)
		ok := false
		for _, st := range in.stores[m.Partition] {
			sum := 0
			for i := 0; i <= len(st.sizes); i++ {
				ok = ok || i >= m.Count && sum == m.Bytes
				if i < len(st.sizes) {
					sum += st.sizes[i]
				}
			}
		}
		if !ok || m.PartitionCount != 1 || m.GroupId != group || m.EndTime.Before(m.StartTime) {
			viol("metric-prepped", []string{"C25"}, "%v: metric %+v describes none of the %d stores of partition %d", in, m, len(in.stores[m.Partition]), m.Partition)
		}
	}
	if m.Operation == streams.TxnCommitOperation {
		in.metrics++
		stat("metrics", 1)
		if in.metrics > in.commits {
			viol("metric-extra", []string{"C25"}, "%v: %d commit metrics delivered, %d transactions committed", in, in.metrics, in.commits)
		}
		// it describes one of the transactions after the one described last
		i := in.metricAt
		for i < len(in.txns) && (in.txns[i][0] != m.Count || in.txns[i][1] != m.PartitionCount || in.txns[i][2] != m.Bytes) {
			i++
		}
		if i == len(in.txns) {
			viol("metric-false", []string{"C25"}, "%v: commit metric with %d records, %d partitions, %d bytes describes no transaction; committed (records, partitions, bytes) since the last metric: %v", in, m.Count, m.PartitionCount, m.Bytes, in.txns[in.metricAt:])
		} else {
			in.metricAt = i + 1
		}
		if m.EndTime.Before(m.ExecuteTime) || m.ExecuteTime.Before(m.StartTime) || m.EndTime.After(time.Now()) || m.Topic != srcTopic || m.GroupId != group {
			viol("metric-times", []string{"C25"}, "%v: commit metric %+v", in, m)
		}
	}
	if in.cfg.MetricMs > 0 {
		time.Sleep(ms(in.cfg.MetricMs))
		in.gate()
	}
}

func (in *inst) onDeser(e streams.ErrorContext, t string, err error) streams.ErrorResponse {
	in.gate()
	stat("deser_errors", 1)
	var ev scen.Event
	r, ok := e.Input()
	if ok {
		json.Unmarshal(r.Value(), &ev)
	}
	u := in.w.byID[ev.ID]
	if !ok || u == nil || !u.badMode || ev.Type != t || err == nil || err.Error() != fmt.Sprintf("bad event %d", ev.ID) || e.Offset() != r.Offset() || e.TopicPartition().Partition != u.part {
		viol("deser-args", []string{"C13"}, "%v: deserialization error handler called with event %d, type %q, error %v", in, ev.ID, t, err)
		return streams.Continue
	}
	u.deser++
	u.begun++
	trace("%v deserialization error of event %d (%d)", in, ev.ID, u.deser)
	if in.cfg.DeserErr == "exit" {
		in.exiting("a deserialization error")
		return streams.FatallyExit
	}
	if in.cfg.DeserErr == "fail" && u.deser == 1 {
		in.failing("a deserialization error")
		u.deserFail = in
		return streams.FailConsumer
	}
	return streams.Continue
}

func (w *world) onOffsetCommit(g string, cl *kfake.Client, tp kfake.TP, off int64) {
	in := w.instOf(cl)
	trace("%v commits group offset %d of %d", in, off, tp.P)
	if in == nil {
		return
	}
	stat("group_offset_commits", 1)
	if !in.cfg.CommitOffs {
		viol("offset-unwanted", []string{"C24"}, "%v commits a group offset although CommitOffsets is off", in)
	}
	if off > w.pos[tp.P] {
		viol("offset-ahead", []string{"C24"}, "%v commits group offset %d of partition %d, committed position is %d", in, off, tp.P, w.pos[tp.P])
	}
}

// ---- scheduler and batcher used by handlers ----

func (in *inst) schedProc(k string, j *job) error {
	in.gate()
	j.runs++
	if j.runs > 1 {
		viol("job-twice", []string{"C06"}, "job of event %d executed twice", j.ev.ID)
	}
	in.jobs.begin("C06", "job", []string{k}, max1(in.cfg.SchedConc))
	in.jobs.order("C06", "job", in.jobs.last, j)
	defer in.jobs.end([]string{k})
	stat("jobs", 1)
	if j.ev.Delay > 0 {
		time.Sleep(ms(j.ev.Delay))
		in.gate()
	}
	return nil
}

func (in *inst) schedFin(ec *streams.EventContext[*Store], k string, j *job, err error) streams.ExecutionState {
	s := in.enter(ec, fmt.Sprintf("job finalizer of event %d", j.ev.ID))
	defer in.leave(s)
	in.linger(s, j.ev)
	if j.ec != ec || k != j.ev.Key || err != nil {
		viol("job-args", []string{"C06"}, "finalizer of event %d called with wrong arguments", j.ev.ID)
	}
	if j.runs != 1 {
		viol("job-final", []string{"C06"}, "finalizer of event %d called after %d executions", j.ev.ID, j.runs)
	}
	in.jobs.order("C06", "job", in.jobs.lastFin, j)
	in.effects(ec, s, j.u, stateKey(j.ev), j.ev.Dest, 0, j.ev.Outs, j.ev.Chg, j.ev.Del, j.ev.Size)
	j.u.complete = true
	return streams.Complete
}

func (in *inst) batchExec(items []*streams.BatchItem[string, *job]) {
	in.gate()
	d := 0
	if len(items) == 0 || len(items) > max1(in.cfg.BatchMax) {
		viol("batch-size", []string{"C07"}, "%d items in one batch, the maximum is %d", len(items), in.cfg.BatchMax)
	}
	var keys []string
	seen := map[string]bool{}
	for _, i := range items {
		if !seen[i.Key()] {
			seen[i.Key()] = true
			keys = append(keys, i.Key())
		}
	}
	in.batches.begin("C07", "batch", keys, max1(in.cfg.BatchConc))
	defer in.batches.end(keys)
	if len(items) > 1 {
		stat("batches_of_several", 1)
	}
	for _, i := range items {
		in.batches.order("C07", "item", in.batches.last, i.Value)
		i.Value.runs++
		i.UserData = i.Value
		if i.Value.ev.Delay > d {
			d = i.Value.ev.Delay
		}
	}
	if d > 0 {
		time.Sleep(ms(d))
		in.gate()
	}
}

// ---- interjections ----

func (w *world) newIj(part int32, outs, chg int) *unit {
	w.ijID++
	u := &unit{id: -w.ijID, part: part, outs: outs, chgs: chg, gotOut: map[int]int{}, gotChg: map[int]int{}}
	w.byID[u.id] = u
	return u
}

// tickMissing: scheduled interjections that have not run for too long
func (in *inst) tickMissing(pr *period) {
	if !w10(in.w) {
		return
	}
	for idx, ij := range in.w.sc.Interj {
		last, ok := pr.lastTick[idx]
		if !ok {
			last = pr.actAt
		}
		stat("idle_ticks_checked", 1)
		if gap := time.Since(last); gap > ms(ij.EveryMs+ij.JitterMs+ij.Delay)+10*time.Second {
			viol("tick-missing", []string{"C10"}, "%v partition %d: interjection %d has not run for %v (every %dms, jitter %dms)", in, pr.part, idx, gap, ij.EveryMs, ij.JitterMs)
		}
	}
}

func (in *inst) tick(ec *streams.EventContext[*Store], idx int, ij scen.Interj) streams.ExecutionState {
	s := in.enter(ec, fmt.Sprintf("interjection %d", idx))
	defer in.leave(s)
	if _, ok := ec.Input(); ok || !ec.IsInterjection() || ec.Offset() >= 0 {
		viol("ij-input", []string{"C10"}, "interjection context claims to have an input")
	}
	pr := in.period(s.part)
	now := time.Now()
	stat("ticks", 1)
	if pr != nil {
		last, ok := pr.lastTick[idx]
		if !ok {
			last = pr.start
		}
		gap := now.Sub(last)
		if gap < ms(ij.EveryMs-ij.JitterMs) {
			viol("tick-early", []string{"C10"}, "%v partition %d: interjection %d ran %v after the previous one (every %dms, jitter %dms)", in, s.part, idx, gap, ij.EveryMs, ij.JitterMs)
		}
		slack := 10 * time.Second // (it may have to wait for handlers, and for transactions to end)
		if last.Sub(in.lastAct) > 3*time.Second && last.Sub(in.lastSync) > 3*time.Second {
			// nothing else is going on in this consumer
			stat("quiet_ticks", 1)
			slack = 250 * time.Millisecond
			if in.w.sc.Broker.SpikeP > 0 || in.cfg.Pool < 2 {
				// (with a single producer, every transaction of the consumer waits for the one before)
				slack = 2500 * time.Millisecond
			}
		}
		if ok && gap > ms(ij.EveryMs+ij.JitterMs)+slack && w10(in.w) {
			viol("tick-late", []string{"C10"}, "%v partition %d: interjection %d ran %v after the previous one completed (every %dms, jitter %dms)", in, s.part, idx, gap, ij.EveryMs, ij.JitterMs)
		}
	}
	u := in.w.newIj(s.part, ij.Outs, ij.Chg)
	eff := func(s *Store) {
		in.effects(ec, s, u, fmt.Sprintf("ij%d", idx), -1, 0, ij.Outs, ij.Chg, false, 0)
		if pr != nil {
			pr.lastTick[idx] = time.Now()
		}
	}
	if ij.Async {
		if pr != nil {
			pr.lastTick[idx] = now
		}
		go func() {
			time.Sleep(ms(ij.Delay))
			ec.AsyncJobComplete(func() streams.ExecutionState {
				s := in.enter(ec, fmt.Sprintf("interjection %d finalizer", idx))
				defer in.leave(s)
				eff(s)
				return streams.Complete
			})
		}()
		return streams.Incomplete
	}
	in.pause(s, ij.Delay)
	eff(s)
	return streams.Complete
}

func w10(w *world) bool { return w.sc.Strict == "C10" }

func (w *world) interject(in *inst, st scen.Step) {
	o := &oneoff{id: len(w.oneoffs), in: in, part: st.Part, at: time.Now()}
	w.oneoffs = append(w.oneoffs, o)
	stat("oneoffs", 1)
	c := in.es.Interject(st.Part, func(ec *streams.EventContext[*Store], _ time.Time) streams.ExecutionState {
		return w.oneoffRun(o, ec, st)
	})
	o.returned, o.retAt = true, time.Now()
	err, ok := <-c
	if in.gone {
		return
	}
	o.resolved = true
	o.err = err
	o.closed = !ok
	trace("%v one-off %d on %d resolved: %v closed %v ran %d", in, o.id, o.part, err, !ok, o.ran)
	if ok && err == nil {
		viol("oneoff-nil", []string{"C10"}, "one-off interjection's channel yielded a nil error without being closed")
	}
	if err != nil && err != streams.ErrPartitionNotAssigned && err != streams.ErrPartitionNotReady {
		viol("oneoff-err", []string{"C10"}, "one-off interjection yielded %v", err)
	}
	if ok && o.ran > 0 {
		viol("oneoff-ran-err", []string{"C10"}, "one-off interjection ran %d times but its channel yielded %v", o.ran, err)
	}
	if !ok && o.ran != 1 {
		viol("oneoff-not-run", []string{"C10"}, "one-off interjection's channel closed but it ran %d times", o.ran)
	}
	if ok {
		stat("oneoffs_refused", 1)
	} else {
		stat("oneoffs_ran", 1)
	}
}

func (w *world) oneoffRun(o *oneoff, ec *streams.EventContext[*Store], st scen.Step) streams.ExecutionState {
	in := o.in
	o.entered = true
	s := in.enter(ec, fmt.Sprintf("one-off interjection %d", o.id))
	defer in.leave(s)
	o.ran++
	if s.part != o.part || o.ran > 1 || o.resolved {
		viol("oneoff-run", []string{"C10"}, "%v: one-off interjection %d: run %d on partition %d, asked for %d, resolved %v", in, o.id, o.ran, s.part, o.part, o.resolved)
	}
	if pr := in.period(s.part); !o.retAt.IsZero() && (pr == nil || !pr.activated || pr.actAt.Sub(o.retAt) > 5*time.Millisecond) {
		viol("oneoff-not-ready", []string{"C10"}, "%v: one-off interjection %d ran although partition %d was not ready when it was asked for at %.3fs", in, o.id, o.part, o.at.Sub(start).Seconds())
	}
	u := w.newIj(s.part, st.Outs, st.N)
	if st.Async {
		go func() {
			time.Sleep(ms(st.Delay))
			ec.AsyncJobComplete(func() streams.ExecutionState {
				s := in.enter(ec, fmt.Sprintf("one-off interjection %d finalizer", o.id))
				defer in.leave(s)
				in.effects(ec, s, u, fmt.Sprintf("oneoff%d", o.id), -1, 0, st.Outs, st.N, false, 0)
				return streams.Complete
			})
		}()
		return streams.Incomplete
	}
	in.pause(s, st.Delay)
	in.effects(ec, s, u, "oneoff", -1, 0, st.Outs, st.N, false, 0)
	return streams.Complete
}

func (w *world) interjectAll(in *inst, st scen.Step) {
	o := &oneoff{id: len(w.oneoffs), in: in, all: true, at: time.Now()}
	w.oneoffs = append(w.oneoffs, o)
	ran := map[int32]int{}
	f := func(ec *streams.EventContext[*Store], _ time.Time) streams.ExecutionState {
		o.entered = true
		s := in.enter(ec, "interject-all")
		defer in.leave(s)
		ran[s.part]++
		if ran[s.part] > 1 {
			viol("ijall-twice", []string{"C10"}, "%v: InterjectAll ran twice on partition %d", in, s.part)
		}
		u := w.newIj(s.part, st.Outs, st.N)
		in.pause(s, st.Delay)
		in.effects(ec, s, u, "ijall", -1, 0, st.Outs, st.N, false, 0)
		return streams.Complete
	}
	if st.Op == "interjectallsync" {
		in.es.InterjectAllSync(f)
	} else {
		in.es.InterjectAll(f)
	}
	o.resolved, o.returned = true, true
	stat("ijall", len(ran))
}

// ---- the end of a run ----

// skipped: consumption starts behind it
func (w *world) skipped(i *input) bool {
	p := int(i.ev.Part)
	if _, ok := w.pos[i.ev.Part]; !ok && w.sc.StartOff == "end" {
		return true // (nothing is committed yet: consumption starts at the end whenever it starts)
	}
	return p < len(w.sc.From) && i.rec.Offset < int64(w.sc.From[p])
}

func (w *world) pendingInputs() (n int, first *unit) {
	for p := int32(0); p < int32(w.sc.Parts); p++ {
		for _, i := range w.inputs[p] {
			if i.visible() && w.byID[i.ev.ID].commits == 0 && !w.skipped(i) {
				n++
				if first == nil {
					first = w.byID[i.ev.ID]
				}
			}
		}
	}
	return
}

// fresh starts one more instance
func (w *world) fresh() {
	w.sc.Insts = append(w.sc.Insts, w.sc.Insts[0])
	w.slots = append(w.slots, nil)
	w.start(len(w.slots) - 1)
}

func (w *world) stuck() bool { n, _ := w.pendingInputs(); return n > 0 }

// drain waits until all input is handled and committed
func (w *world) drain() {
	sc := w.sc
	limit := time.Duration(sc.SettleS) * time.Second
	if limit == 0 {
		limit = 400 * time.Second
	}
	t0 := time.Now()
	restarted := 0
	for {
		n, _ := w.pendingInputs()
		if n == 0 {
			break
		}
		if time.Since(t0) > limit {
			n, u := w.pendingInputs()
			viol("stuck", []string{"*"}, "%d events are not processed %v after the last step (first: event %d of partition %d, offset %d, begun %d, complete %v)", n, limit, u.id, u.part, u.inp.rec.Offset, u.begun, u.complete)
			break
		}
		// everybody failed or left: start another one
		alive := false
		for _, in := range w.slots {
			alive = alive || in != nil && !in.gone && !in.stopping && !in.stopNow
		}
		if !alive && restarted < 40 {
			restarted++
			w.fresh()
		}
		time.Sleep(250 * time.Millisecond)
	}
}

func (w *world) settle() {
	sc := w.sc
	live := 0
	for _, in := range w.slots {
		if in != nil && !in.gone && !in.stopping && !in.stopNow && !in.hasFailed() {
			live++
		}
	}
	if live == 0 && !sc.NoFresh {
		for i, in := range w.slots {
			if in == nil || in.gone {
				w.start(i)
				live++
				break
			}
		}
		if live == 0 {
			w.fresh()
		}
	}
	w.drain()
	if sc.Probe > 0 && !w.stuck() {
		// hand everything over once more, and see where it is taken up
		for _, in := range w.slots {
			if in == nil || in.gone || !in.ready || in.stopping || in.stopNow || in.hasFailed() {
				continue
			}
			switch sc.Probe {
			case 1:
				in.stop()
				for i := 0; i < 1200 && !in.gone; i++ {
					time.Sleep(250 * time.Millisecond)
				}
			case 2:
				in.gone = true
				trace("%v crashes (probe)", in)
				in.kill()
			}
		}
		w.fresh()
		time.Sleep(ms(200 * (sc.Probe + int(sc.Broker.Seed%16))))
		for p := 0; p < sc.Parts; p++ {
			w.src.AppendPlain(srcTopic, int32(p), recOf(&scen.Event{ID: 1000000 + p, Part: int32(p), Key: "probe", Mode: "sync", Outs: 1, Chg: 1, Dest: -1}))
		}
		stat("inputs", sc.Parts)
		stat("probes", 1)
		w.drain()
	}
	time.Sleep(2*time.Second + time.Duration(sc.IdleS)*time.Second)
	for _, in := range w.slots {
		if in == nil || in.gone || !in.ready || in.stopping || in.stopNow || in.hasFailed() || w.stuck() {
			continue
		}
		for p := int32(0); p < int32(sc.Parts); p++ {
			if pr := in.periods[p]; pr != nil && pr.activated && !pr.will && !pr.over {
				in.tickMissing(pr)
				if in.cfg.CommitOffs && sc.IdleS >= 8 && len(sc.Faults) == 0 && len(pr.handled) > 0 && w.lastCommitter(p) == in {
					w.src.Lock()
					o, ok := w.src.GroupOffsetLocked(group, kfake.TP{Topic: srcTopic, P: p})
					w.src.Unlock()
					stat("offset_idle_checked", 1)
					if !ok || o != w.pos[p] {
						viol("offset-idle", []string{"C24"}, "%v has been idle for %ds; group offset of partition %d is %d (set %v), committed position %d", in, sc.IdleS, p, o, ok, w.pos[p])
					}
				}
			}
		}
	}
	// stop everybody gracefully, in turn
	for _, in := range w.slots {
		if in == nil || in.gone || !in.ready || in.stopping || in.stopNow {
			continue
		}
		in.stop()
		time.Sleep(ms(rand.Intn(1500)))
	}
	t1 := time.Now()
	for {
		var left *inst
		for _, in := range w.all {
			if !in.gone && in.ready && (in.stopping || in.hasFailed() || in.stopNow) {
				left = in
			}
		}
		if left == nil {
			break
		}
		if time.Since(t1) > 300*time.Second {
			viol("stop-hang", []string{"*"}, "%v: not done %v after Stop (failed %v, stopNow %v)", left, time.Since(t1), left.hasFailed(), left.stopNow)
			break
		}
		time.Sleep(250 * time.Millisecond)
	}
	time.Sleep(5 * time.Second)
	w.final()
}

func (w *world) final() {
	for _, o := range w.oneoffs {
		if !o.resolved && !(o.in.gone && (o.in.doneAt.IsZero() || o.entered)) {
			viol("oneoff-hang", []string{"C10"}, "%v: one-off interjection %d (all %v) on partition %d asked at %.3fs never resolved (returned %v, ran %d)", o.in, o.id, o.all, o.part, o.at.Sub(start).Seconds(), o.returned, o.ran)
		}
	}
	if n, _ := w.pendingInputs(); n > 0 {
		return
	}
	w.st.Lock()
	for p := int32(0); p < int32(w.sc.Parts); p++ {
		got := map[string]int64{}
		for k, v := range foldState(w.st, p) {
			if strings.HasPrefix(k, auxKey) {
				continue
			}
			var sv stVal
			json.Unmarshal([]byte(v), &sv)
			got[k] = sv.C
		}
		want := w.counters[p]
		for k := range want {
			if got[k] != want[k] {
				viol("final-state", []string{"C01", "C03"}, "partition %d key %s: final committed state %d, expected %d", p, k, got[k], want[k])
			}
		}
		for k := range got {
			if _, ok := want[k]; !ok {
				viol("final-state", []string{"C01", "C03"}, "partition %d key %s: unexpected in final state", p, k)
			}
		}
	}
	for _, c := range []*kfake.Cluster{w.src, w.st} {
		if c != w.st {
			c.Lock()
		}
		for _, u := range c.Unsupported {
			res.Notes = append(res.Notes, "unsupported: "+u)
		}
		stat("requests", c.Requests)
		for k, n := range c.FaultHits {
			stat("faults", n)
			stat("fault_"+k, n)
		}
		if c != w.st {
			c.Unlock()
		}
		if w.src == w.st {
			break
		}
	}
	n := 0
	for _, in := range w.all {
		n += in.commits
	}
	w.st.Unlock()
}
