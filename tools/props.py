import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["streams/"+f if not f.startswith("msk") else f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
NOKAFKA="The in-repo tests that touch Kafka need a real broker, are skipped offline and run one consumer with one happy schedule; no test crashes, restarts or rebalances a consumer."
p("C01","Exactly-once, atomic consume-process-produce at every crash point",
"For every input event, a read-committed observer sees all of the records the handler forwarded and all state changes it recorded exactly once, however many times consumers crash, stop, join or leave along the way. At every instant the committed outputs and state changes of a partition are exactly those of the events below that partition's committed position: an event's forwarded records, its state changes and the advance of the committed position become visible together or not at all. Records of a transaction that did not commit are never visible.",
["crash_points","schedules","histories","fault_sequences"],
"all interleavings of event arrival, handler completion (synchronous or asynchronous), transaction commit, consumer crash at any broker request, graceful stop and group rebalance, for any pool/batch configuration",
NOKAFKA+" Atomicity depends on which request a crash falls between and on which in-flight transactions overlap a rebalance.",
["eos_producer.go","partition_worker.go","source_consumer.go","commit_log.go","event_context.go"],
[("one transaction carries outputs, change log and commit-log record","streams/eos_producer.go (producerNode.commit, finalizeEventContexts)"),("commit waits for every event of the transaction","streams/eos_producer.go finalizeEventContexts"),("revocation drains the partition before it is surrendered","streams/partition_worker.go waitForRevocation, streams/source_consumer.go revokePartitions")],
["records on output topic, state topic and gkes_commit_log_* topic as seen read-committed at each transaction end"],
[("watermarks","next offset to process per partition","streams/commit_log.go")])
p("C02","Per-partition processing order and output order",
"Events of one partition are handed to handlers one at a time in strictly increasing offset order, with none skipped, by a given owner. The records that event handlers of one partition forward to a destination partition before they return appear there in the order in which they were forwarded, also when successive events are spread over different concurrently open transactions; within one transaction that holds for all records forwarded in the stream's own execution context.",
["schedules","histories","configurations"],
"all arrival patterns, batch sizes, transaction pool sizes and completion orders, with and without rebalances",
NOKAFKA+" Ordering across overlapping transactions depends on the timing of commits and of produce hand-over between transactions.",
["eos_producer.go","partition_worker.go","source_consumer.go"],
[("partition ownership hand-over between producers","streams/eos_producer.go relinquishOwnership/flushPartition/ProduceRecord"),("single goroutine per partition","streams/partition_worker.go work")],
["handler invocations (offset) per partition and owner","committed output log order"])
p("C03","State store equals the fold of committed changes after any takeover",
"Whenever a partition starts being processed by a consumer - first start, restart after stop or crash, hand-over in a rebalance, prepared in advance or not - its state store contains exactly the result of applying, in order, all committed state changes (puts and deletes) of that partition and nothing else, before the first event or interjection is handled. No change of an uncommitted transaction and no change of another partition is ever present.",
["crash_points","histories","schedules"],
"all histories of puts and deletes per key over consumer generations, with crashes leaving open or aborted transactions in the change log, with change logs larger than a fetch, compaction allowed",
NOKAFKA+" The recovery path (change-log replay up to an end mark, prepared and unprepared) is never run by the offline tests.",
["state_store_consumer.go","partitioned_store.go","source_consumer.go","partition_worker.go"],
[("change-log replay until a marker record written at takeover is read back","streams/state_store_consumer.go"),("worker waits for the sync before activating","streams/partition_worker.go work")],
["contents of EventContext.Store() at the first handler call of an ownership period and at every later call"])
p("C04","Consumption resumes exactly at the committed position",
"A consumer that takes over a partition handles first the event right after the last one whose effects were committed: it skips no event that was not committed and re-handles none that was. The committed position of a partition never moves backwards, and never moves past an event whose handling has not completed, even if later events of the partition completed earlier. A partition without committed position starts where configured: at an offset the group committed earlier, otherwise at the configured reset offset or time, otherwise at the start of the log (which need not be 0); such a setting never makes it skip events of a partition that has a committed position.",
["crash_points","histories","schedules"],
"all crash and hand-over points, completion orders of asynchronous events and group memberships",
NOKAFKA+" Needs restarts at arbitrary points and out-of-order asynchronous completion.",
["commit_log.go","source_consumer.go","partition_worker.go","eos_producer.go"],
[("commit log topic read up to a marker before consuming","streams/commit_log.go lastProcessed/syncAll"),("fetch offsets adjusted at assignment","streams/source_consumer.go adjustOffsetsBeforeAssign"),("only the highest offset of a fully completed prefix is committed","streams/eos_producer.go finalizeEventContexts")],
["first handled offset of each ownership period vs committed log","commit-log records in log order"])
p("C05","Handlers of a partition run in one logical thread",
"For each partition owned by a consumer, event handlers, interjections, asynchronous-completion finalizers, job finalizers and batch callbacks never run concurrently with one another, so the state store may be used there without locking. Once the store is told that its partition was revoked, none of them runs again for that ownership period.",
["schedules","histories"],
"all schedules of events, interjections, async completions, batch completions and rebalances",
NOKAFKA+" Mutual exclusion is a property of all interleavings.",
["partition_worker.go","event_context.go","async_scheduler.go","async_batcher.go","producer.go","source_consumer.go"],
[("one goroutine per partition runs all callbacks","streams/partition_worker.go work/assignProducer/processAsyncJob")],
["entry/exit of every user callback, per partition and owner","StateStore.Revoked call"])
p("C06","Async job scheduler: per-key FIFO, exactly once, bounded concurrency",
"Every scheduled job is executed exactly once and then finalized exactly once with its own event, input, output and error, in scheduling order for jobs of the same key and never two jobs of one key at a time. The number of concurrently executing jobs never exceeds the concurrency limit in force, and jobs of different keys do run concurrently up to that limit. Changing the limits while jobs are queued, or running for keys beyond the limits, neither loses nor blocks jobs, and revoking a partition leaves its scheduled jobs able to finish; closing lets jobs that are running be finalized and releases callers waiting to schedule.",
["schedules","inputs","configurations","histories"],
"all key distributions, job durations and errors, limits (concurrency, queue depth, key count) and limit changes at any moment",
"TestAsyncJobSchedulerOrdering runs one fixed configuration with one key pattern and one schedule, and never changes limits or checks the concurrency bound.",
["async_scheduler.go","async_item_queue.go"],
[("per-key queues and worker channel","streams/async_scheduler.go"),("runtime resizing","streams/async_scheduler.go SetConcurrency/SetMaxPerKeyDepth/SetMaxConcurrentKeys")],
["processor and finalizer invocations via a mock completer"])
p("C07","Async batcher: bounded batches, per-key exclusivity and order, each item once",
"Every item added to a batch is handed to the batch executor exactly once and its event's batch callback runs exactly once, after all of that batch input's items have been executed, with each item carrying the key, value and error set by the executor. No executed batch holds more items than the configured maximum, no more batches run at once than allowed, a key is never in two running batches, and items of a key are executed, and their batches called back, in the order added. Items are executed after at most the configured delay when capacity is free, and batch inputs with no items complete without being sent to the executor and keep their place in the order of their key.",
["schedules","inputs","configurations"],
"all key patterns, batch-input sizes, placeholder (empty) inputs, executor durations, errors, delays and limits",
"TestAsyncBatching and TestAsyncNoopBatching use one configuration each, check only counts and simple order, and never vary executor timing.",
["async_batcher.go","async_item_queue.go"],
[("batch assembly, key-to-batch assignment and flush","streams/async_batcher.go")],
["executor and callback invocations via a mock completer"])
p("C08","Incremental rebalance assigns each partition to exactly one live member",
"Every plan that the incremental rebalance strategy computes, for any set of members and any reported combination of owned, prepared, preparing and leaving state, gives every partition of the subscribed topic to exactly one current member (as long as not all of them are leaving), and lets a partition leave a live owner only through that owner's revocation, so that no two members ever own it at the same time. A partition moved for balance moves only to a member that reports it as prepared, unless its previous owner is gone.",
["inputs","histories","configurations"],
"all group sizes, partition counts, membership histories and member state reports",
"No in-repo test exercises the balancer at all.",
["incr_rebalancer.go","group_state.go","balancer_options.go"],
[("balance and plan construction","streams/incr_rebalancer.go, streams/group_state.go")],
["JoinGroup metadata, SyncGroup assignments and instruction callbacks of groups of balancers driven by a model coordinator"])
p("C09","Incremental rebalance converges with few prepared moves and drains leavers",
"With membership stable and every preparation eventually reported, a group reaches a balanced state (partition counts of active members differ by at most one) and then stops moving partitions and asking for rebalances. At no time are more partitions being moved to a member than its configured in-transit budget, and preparation is cancelled for members that will no longer receive the partition. A member that leaves gracefully is drained of all its partitions as long as another active member exists, and its leave completes; with no other member it completes at once.",
["histories","schedules","configurations"],
"all sequences of joins, crashes, graceful leaves and preparation delays",
"No in-repo test exercises the balancer; convergence needs whole multi-round histories.",
["incr_rebalancer.go","group_state.go","source_consumer.go"],
[("instructions prepare/forget carried in assignments","streams/incr_rebalancer.go"),("in-transit budget","streams/group_state.go")],
["rounds to quiescence, prepare/forget instructions, GracefullyLeaveGroup completion"])
p("C10","Interjections run in stream context, on schedule, and never hang",
"An interjection scheduled before the consumer starts to consume, also if it already owns partitions then, runs on every active partition repeatedly, each run at an interval within its period plus or minus its jitter after the previous one completed (plus the time the partition is busy), whether it completes synchronously or later, and stops when the partition is revoked. A one-off interjection into an active partition runs exactly once and its returned channel is then closed; for a partition that is not assigned or not ready the channel yields the not-assigned error and nothing runs; in every case, also when the partition is revoked or the consumer stops meanwhile, the channel becomes readable. Records and state changes made by an interjection are committed with the same guarantees as an event's.",
["schedules","histories","inputs"],
"all periods, jitters, execution results, and revocations or stops at any moment of an interjection's life",
NOKAFKA+" No test combines interjections with revocation or shutdown.",
["interjection.go","partition_worker.go","source_consumer.go","event_source.go"],
[("timer per interjection and partition","streams/interjection.go tick/cancel"),("one-off hand-over","streams/source_consumer.go interject")],
["interjector invocations in virtual time, Interject's channel, committed records"])
p("C11","Partition lifecycle callbacks come in order and at the right moment",
"For each ownership period of a partition, the assigned callback is called once when it is assigned, the activated callback once after its state store is complete and before any event of it is handled, the will-revoke callback once before processing is stopped, and the revoked callback once after the last handler of the partition has returned and its transactions have ended; a new period starts only after the previous one on that consumer has ended. The state store of the period is told of the revocation exactly once, and receives no change afterwards.",
["histories","schedules"],
"all rebalance, stop and restart histories and handler durations",
NOKAFKA+" Callback order relative to in-flight work is schedule-dependent.",
["source_consumer.go","source.go","partition_worker.go","partitioned_store.go"],
[("handlers executed around worker creation and revocation","streams/source_consumer.go assignPartitions/revokePartitions"),("activation after sync","streams/partition_worker.go work")],
["sequence of callbacks, store creation/Revoked and handler entries/exits per partition"])
p("C12","Failure and shutdown: fail unhealthy and closed, stop cleanly, never wedge",
"If a transaction cannot be completed (produce error, commit error, an event that does not complete before the transaction timeout), the transaction-error handler is consulted and, when it asks for failure (the default), the consumer becomes unhealthy, stops handling and committing, leaves the group and its done channel becomes readable, so another consumer takes over with nothing lost or duplicated; when it asks for a fatal exit, the process ends. A graceful stop commits every event already being handled, surrenders all partitions, leaves the group and makes the done channel readable; stop calls may be repeated or combined with an immediate stop in any order without panicking or hanging.",
["fault_sequences","schedules","histories"],
"all broker errors at any transactional request, handlers that never complete, and stop sequences at any moment",
NOKAFKA+" No fault is injected anywhere in the tests.",
["event_source.go","source.go","eos_producer.go","source_consumer.go","error_handling.go"],
[("error handler, Source state and closeOnFail","streams/eos_producer.go commitLoop, streams/event_source.go"),("Stop/StopNow","streams/event_source.go")],
["State(), Done(), TxnErrorHandler calls, group membership and committed records"])
p("C13","Event routing and deserialization errors",
"Each record is delivered to exactly one handler: the one registered first for its record type with the value its decoder produced from that record, otherwise the default handler with the unmodified record. If the decoder fails, no handler runs and the configured deserialization error handler (by default one that completes the event) is called once with that error and record type; its verdict is honoured: continue completes the event and processing goes on, fail makes the consumer unhealthy and stops it without committing that event, a fatal exit ends the process.",
["inputs","configurations","histories"],
"all combinations of registered types, record types, payloads, decoder failures and handler verdicts",
NOKAFKA+" No test registers several types or lets a decoder fail.",
["event_source.go","source.go","error_handling.go","record.go"],
[("processor chain by record type","streams/event_source.go eventProcessorWrapper"),("error verdict","streams/event_source.go Exec")],
["handler and error-handler invocations, health, commits"])
p("C14","Produced records arrive faithfully; pooled records never leak",
"A record sent through an event's forward call or through a producer arrives with exactly the key, value, headers, record type, timestamp, topic and partition it was given (absent key or value stays absent or empty, default topic where none is set), and conversions between record forms preserve all of these. Record objects are reused, yet no record ever carries data of an earlier use, and a producer's callbacks run exactly once each with the outcome of the record they belong to.",
["inputs","histories","schedules"],
"all record contents and sequences of create, send, release and reuse over concurrent producers",
"No test compares delivered records with sent ones, nor exercises reuse.",
["record.go","producer.go","eos_producer.go"],
[("record pool reset","streams/record.go"),("record conversion","streams/record.go toKafkaRecord/ToKafkaRecord/AsIncomingRecord")],
["records stored by the broker, producer callbacks, ToKafkaRecord/AsIncomingRecord results"])
p("C15","Partitioning: explicit partition wins, else Java-compatible key hash",
"A record with an explicit partition goes to exactly that partition; a record with a key and no explicit partition goes to the partition the canonical Java client would choose (murmur2 of the key) for the topic's partition count; a record with neither goes to some valid partition.",
["inputs","configurations"],
"all keys, partition counts and explicit partitions",
"TestOptionalPartitioner checks a handful of records on one partition count and has no independent hash to compare with.",
["producer.go","eos_producer.go","record.go"],
[("OptionalPartitioner over a keyed partitioner","streams/producer.go")],
["partition chosen by NewOptionalPartitioner and partition on which forwarded/produced records are stored"])
p("C16","Codecs round-trip and the lexicographic integer codec orders",
"Every provided codec decodes what it encoded to an equal value, also when several values are encoded one after another or concurrently with one codec, and the JSON and lexicographic integer codecs report malformed input as an error instead of panicking or returning a value. For the lexicographically sortable integer codec, byte order of encodings equals numeric order for all 64-bit integers.",
["inputs","schedules"],
"all values of each codec's type, all pairs for the order law, all byte strings for text formats",
"TestLexoIntCodec tries seven magnitudes; no JSON, proto-like, string or bytes codec is tested at all.",
["codec.go","record.go"],
[("codec implementations","streams/codec.go")],
["Encode/Decode results"])
p("C17","Simple store and sharded tree behave like a map, also after change-log replay",
"The simple store agrees with an ordinary map after any sequence of puts, deletes and gets, and the change entries it returns, replayed in order into an empty store (also serialised through a topic), rebuild exactly the same contents; the sharded tree agrees with a sorted map under any sequence of operations for any shard count and hash, keyed access and per-shard ordered traversal included.",
["inputs","histories"],
"all operation sequences, keys, values, and replay cut points",
"Only one doc example exercises the tree; replay into the simple store is never tested.",
["stores/simple_store.go","stores/sharded_tree.go"],
[("change entries and ReceiveChange","streams/stores/simple_store.go"),("shard selection","streams/stores/sharded_tree.go")],
["Get results and change entries versus a map model"])
p("C18","Min-max heap agrees with a sorted multiset",
"After any sequence of push, pop, peek at the minimum or maximum, in-place updates and removals of arbitrary members, the heap's minimum, maximum and size equal those of the multiset of items it holds, and popping everything yields the items in order; every operation leaves all remaining items removable and updatable.",
["inputs","histories"],
"all operation sequences over items with arbitrary, also equal, priorities and any number of items",
"The heap has no test.",
["stores/min_max_heap.go"],
[("heap maintenance","streams/stores/min_max_heap.go")],
["Min/Max/Pop/Len results versus a model"])
p("C19","Utility containers: linked list, pool, run status and helpers match their models",
"The linked list behaves like the standard doubly-linked list under any sequence of operations; the pool hands out an object to at most one borrower at a time, resets it on release and never blocks; a run status is halted exactly when it or an ancestor was halted, never by a child or sibling; min, max, map, slice and similar helpers agree with their definitions for all inputs.",
["inputs","histories","schedules"],
"all operation sequences, fork trees and concurrent borrowers",
"The existing tests replay fixed sequences; the pool and run status have one doc example each.",
["sak/yadll.go","sak/pool.go","sak/context.go","sak/util.go"],
[("containers","streams/sak")],
["results versus container/list and models"])
p("C20","Topic provisioning is complete, idempotent and never destructive",
"Creating a source makes the source topic, commit log and state-store topic exist with the requested (or defaulted) partition counts, replication and cleanup policies, state store partition count equal to the source's; if topics already exist it changes nothing, adopts the actual partition count, and reports a mismatch between existing source and state topics as an error rather than panicking. Creating a destination makes its topic exist likewise, repeated or concurrent creation succeeds, and deleting a source removes only its own topics.",
["configurations","fault_sequences","histories"],
"all configurations (counts, replication, names, clusters), pre-existing topics and broker errors during creation",
"No offline test talks to a broker; only the happy path is exercised against a real one.",
["topics.go","source.go","eos_config.go"],
[("CreateSource/CreateDestination/DeleteSource","streams/topics.go")],
["topics on the broker, returned Source/Destination/error"])
p("C21","A global change log delivers every change of every partition in order",
"A started global change log hands its receiver every record of every partition of its topic exactly once, in order per partition, beginning at the requested start (from the beginning by default), including records that arrive later and excluding those of aborted transactions, and pausing, resuming or skipping ahead affects only the partition asked for; after stop it hands over nothing more.",
["histories","schedules","configurations"],
"all partition counts, record histories and control sequences",
"No test covers it offline.",
["global_change_log.go","commit_log.go","state_store_consumer.go"],
[("direct partition consumption","streams/global_change_log.go")],
["ReceiveChange calls versus broker log"])
p("C22","Transactions respect batch bounds, pool size and the commit delay",
"With a quick handler and a responsive broker an event's effects are committed at most the configured batch delay (plus the preceding commits in the queue) after it was received, whatever the load; no more transactions are open at once than the pool size; a transaction that has reached the maximum batch size accepts no further events, also when each event produces many records; invalid configurations are refused (before anything is consumed) and every valid one is accepted; an unset one means the defaults.",
["schedules","configurations","inputs"],
"all valid pool, pending, target and maximum sizes and delays, arrival rates, and records per event",
NOKAFKA+" Bounds are timing and load dependent.",
["eos_producer.go","eos_config.go"],
[("flush policy","streams/eos_producer.go tryFlush/shouldForceFlush"),("validation","streams/eos_config.go")],
["transactions at the broker (begin/end, number of offsets covered) in virtual time"])
p("C23","MSK cluster config reaches the right brokers with the right credentials",
"For any set of clusters and any supported authentication, the cluster configuration connects to the bootstrap brokers that MSK reports for the named cluster and authentication type, with TLS and SASL set accordingly (IAM: signing with the caller's resolved credentials; SCRAM: the secret's user and password), plus all extra client options; unknown clusters, API failures and unresolvable credentials yield an error, never a partial configuration.",
["configurations","inputs","fault_sequences"],
"all combinations of authentication type, cluster lists, broker strings, credentials, options and API failures",
"The four tests cover a single authentication type with a mocked client and do not look at the resulting authentication.",
["msk/cluster.go"],
[("Config and auth option builders","msk/cluster.go")],
["Config() result applied to a client and observed on the connection"])
p("C24","Offsets committed for migration never pass unprocessed events",
"With consumer-group offset committing enabled, the offsets committed to the ordinary consumer group never exceed the position committed by the event source itself, so a plain consumer resuming from them misses nothing, and after a graceful stop, or once the consumer has been idle for longer than the client's auto-commit interval, they equal that position for partitions handled. With it disabled no offsets are committed to the group.",
["histories","schedules","crash_points"],
"all processing, rebalance, stop and crash histories",
NOKAFKA+" No test enables the option.",
["eos_producer.go","source_consumer.go","source.go"],
[("MarkCommitRecords after the transaction ends","streams/eos_producer.go clearState")],
["OffsetCommit requests at the broker versus committed output"])
p("C25","Metrics never slow or crash processing and describe what happened",
"With a metrics handler configured, however slow it is and at whatever moment the consumer is stopped, processing continues and shuts down as without it: metrics that cannot be queued are dropped. Every transaction-commit metric delivered describes one committed transaction with its true count of records, bytes and partitions, and never more metrics are delivered than transactions were committed. The consumer's and the application's own metrics are delivered as emitted, at most once each.",
["schedules","histories"],
"all handler speeds, stop moments and workloads",
NOKAFKA+" A slow handler or a stop during emission is not tested.",
["event_source.go","eos_producer.go","source_consumer.go","metric.go"],
[("metric channel","streams/event_source.go EmitMetric/emitMetrics")],
["MetricsHandler calls versus transactions at the broker; progress and shutdown"])
p("C26","Batch producer completes an event exactly when all its records are delivered",
"For a batch of records produced outside the transaction on behalf of an event, the batch's callback runs exactly once, in the stream's context, only after every record of the batch has succeeded or failed, and each record then carries its own outcome; the event completes as the callback (or, without a callback, the default) says, also for an empty batch. Ordinary asynchronous producers invoke each record's callback exactly once.",
["inputs","schedules","fault_sequences"],
"all batch sizes including empty, broker delays and errors, and callback presence",
"No test covers the batch producer.",
["producer.go","event_context.go"],
[("countdown of outstanding records","streams/producer.go")],
["callback invocations, event completion, broker log"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
