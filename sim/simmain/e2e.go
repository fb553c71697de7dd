package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"verifsim/kfake"
	"verifsim/scen"
)

const (
	srcTopic = "in"
	outTopic = "out"
	bpTopic  = "bp"
	group    = "g"
	stTopic  = "gkes_change_log_in_g"
	clTopic  = "gkes_commit_log_g"
)

type meta struct {
	E int    `json:"e"` // event id, or -interjection id
	P int32  `json:"p"` // source partition
	I int    `json:"i"` // index of the record within its event
	Q int    `json:"q"` // forward sequence of the source partition
	K string `json:"k,omitempty"`
	C int64  `json:"c"` // key counter after the change
	D bool   `json:"d,omitempty"`
	S bool   `json:"s,omitempty"` // forwarded by the event handler before it returned
}

type input struct {
	ev  *scen.Event
	rec *kfake.Rec
	at  time.Time
}

func (in *input) visible() bool { return in.rec.Txn == nil || in.rec.Txn.Decided && in.rec.Txn.Commit }

type unit struct { // an event or an interjection with effects
	id        int
	part      int32
	outs      int // expected outputs
	chgs      int
	gotOut    map[int]int
	gotChg    map[int]int
	aux       int
	complete  bool
	begun     int
	commits   int
	effAt     time.Time
	in        *inst
	inp       *input
	txn       *kfake.Txn
	bpNoCB    int // number of records whose delivery completes the event
	deser     int
	deserFail *inst // whose error handler asked to fail
	badMode   bool  // has the type of a decoder that fails
	handled   time.Time
}

// emitLimit: longer than anything but waiting for the handler takes
var emitLimit = 20 * time.Millisecond

type world struct {
	sc       *scen.E2E
	src, st  *kfake.Cluster
	inputs   map[int32][]*input
	byID     map[int]*unit
	pos      map[int32]int64
	fwd      map[int32]int              // forward sequence per source partition
	lastOut  map[[3]int64][3]int64      // last offset and forward number, for records of handlers
	counters map[int32]map[string]int64 // committed counters per source partition
	slots    []*inst
	all      []*inst
	ijID     int
	oneoffs  []*oneoff
	bp       map[string]int
	bpRuns   map[int]int
	quietErr bool
	commitT  map[int32]time.Time
}

type period struct {
	part                            int32
	assigned, activated, will, over bool
	actAt                           time.Time
	handled                         []*unit
	store                           *Store
	lastTick                        map[int]time.Time
	start                           time.Time
}

type inst struct {
	w                 *world
	slot              int
	n                 int
	cfg               scen.Inst
	cl, cl2           *kfake.Client
	es                *streams.EventSource[*Store]
	gone              bool // crashed or exited
	ready             bool
	stopping, stopNow bool
	doneAt            time.Time
	failed            bool
	periods           map[int32]*period
	sched             *streams.AsyncJobScheduler[*Store, string, *job]
	batcher           *streams.AsyncBatcher[*Store, string, *job]
	bp                *streams.BatchProducer[*Store]
	metrics           int
	commits           int
	metricsBusy       bool
	metricAt          int
	txns              [][3]int // records, partitions and bytes of each committed transaction
	failedAt          time.Time
	open              int
	jobs, batches     exclusion
	jobSeq            int
	lastAct           time.Time     // the last time anything but a scheduled interjection ran
	lastSync          time.Time     // its last SyncGroup or OffsetFetch
	combined          bool          // several stop calls
	release           chan struct{} // what WaitForChannel waits for
	released          bool
	waited            chan struct{} // WaitForChannel or WaitForSignals is done
	hooks             int           // calls of the signal hook
	lastStore         map[int32]*Store
	stores            map[int32][]*Store
	accept            bool // what the signal hook answers
	emitted, got      int  // metrics of the application
}

type Store struct {
	in        *inst
	part      int32
	m         map[string]string
	recvd     int
	revoked   int
	busy      string
	first     bool
	last      int64
	n         int
	inHandler bool
	sizes     []int // of the changes received so far
}

type job struct {
	ec   *streams.EventContext[*Store]
	u    *unit
	ev   *scen.Event
	runs int
	seq  int
}

// exclusion monitors the executions of jobs or items by key.
type exclusion struct {
	running int
	keys    map[string]bool
	last    map[string]int // by partition and key: the last one started
	lastFin map[string]int
}

func (x *exclusion) begin(prop, what string, keys []string, limit int) {
	x.running++
	statMax("max_"+what+"_running", x.running)
	if x.running > limit {
		viol(what+"-concurrency", []string{prop}, "%d run at once, the limit is %d", x.running, limit)
	}
	if x.keys == nil {
		x.keys, x.last, x.lastFin = map[string]bool{}, map[string]int{}, map[string]int{}
	}
	for _, k := range keys {
		if x.keys[k] {
			viol(what+"-key", []string{prop}, "two of key %s run at once", k)
		}
		x.keys[k] = true
	}
}

func (x *exclusion) end(keys []string) {
	x.running--
	for _, k := range keys {
		delete(x.keys, k)
	}
}

func (x *exclusion) order(prop, what string, m map[string]int, j *job) {
	k := fmt.Sprintf("%d/%s", j.u.part, j.ev.Key)
	if j.seq < m[k] {
		viol(what+"-order", []string{prop}, "partition %d key %s: event %d comes after a later one", j.u.part, j.ev.Key, j.ev.ID)
	}
	m[k] = j.seq
}

func (in *inst) newJob(ec *streams.EventContext[*Store], u *unit, ev *scen.Event) *job {
	in.jobSeq++
	return &job{ec: ec, u: u, ev: ev, seq: in.jobSeq}
}

func (in *inst) gate() {
	if in.gone || finished {
		select {}
	}
}

func (in *inst) String() string { return fmt.Sprintf("inst%d.%d", in.slot, in.n) }

func (s *Store) ReceiveChange(r streams.IncomingRecord) error {
	s.in.gate()
	s.recvd++
	if r.TopicPartition().Partition != s.part {
		viol("wrong-partition-change", []string{"C03"}, "%v: change of partition %d given to the store of partition %d", s.in, r.TopicPartition().Partition, s.part)
	}
	if s.revoked > 0 {
		viol("change-after-revoked", []string{"C11"}, "%v: ReceiveChange for partition %d (offset %d) on a store which had been told of its revocation", s.in, s.part, r.Offset())
	}
	if s.first {
		viol("late-change", []string{"C03"}, "%v: ReceiveChange for partition %d (offset %d) after it started being processed", s.in, s.part, r.Offset())
	}
	size := len(r.Key()) + len(r.Value())
	for _, h := range r.Headers() {
		size += len(h.Key) + len(h.Value)
	}
	s.sizes = append(s.sizes, size)
	if len(r.Value()) == 0 {
		delete(s.m, string(r.Key()))
	} else {
		s.m[string(r.Key())] = string(r.Value())
	}
	return nil
}

func (s *Store) Revoked() {
	s.in.gate()
	s.revoked++
	trace("%v store of %d revoked (busy %q)", s.in, s.part, s.busy)
	if s.revoked > 1 {
		viol("store-revoked-twice", []string{"C11"}, "%v: store of partition %d told of revocation %d times", s.in, s.part, s.revoked)
	}
	if s.busy != "" && !s.in.stopNow && !s.in.hasFailed() {
		viol("revoked-while-running", []string{"C05", "C11"}, "%v: store of partition %d revoked while %s is running", s.in, s.part, s.busy)
	}
}

func (w *world) unitOf(ev *scen.Event) *unit { return w.byID[ev.ID] }

func foldState(c *kfake.Cluster, p int32) map[string]string {
	m := map[string]string{}
	for _, r := range c.CommittedLocked(stTopic, p) {
		if _, ok := r.Header("gkes__mark"); ok {
			continue
		}
		if len(r.Value) == 0 {
			delete(m, string(r.Key))
		} else {
			m[string(r.Key)] = string(r.Value)
		}
	}
	return m
}

func diffMaps(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if b[k] != v {
			out = append(out, fmt.Sprintf("%s: store %q committed %q", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%s: missing, committed %q", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func (in *inst) period(p int32) *period { return in.periods[p] }

// enter marks the start of any code of the user that runs in stream context.
func (in *inst) enter(ec *streams.EventContext[*Store], what string) *Store {
	in.gate()
	s := ec.Store()
	w := in.w
	if s.busy != "" {
		props := []string{"C05"}
		for k, p := range map[string]string{"batch producer callback": "C26", "job finalizer": "C06", "batch callback": "C07"} {
			if strings.HasPrefix(what, k) || strings.HasPrefix(s.busy, k) {
				props = append(props, p)
			}
		}
		sort.Strings(props)
		viol("overlap", props, "%v partition %d: %s runs while %s is running", in, s.part, what, s.busy)
	}
	if s.revoked > 0 && !in.stopNow && !in.hasFailed() {
		viol("after-revoked", []string{"C05", "C11"}, "%v partition %d: %s runs after the store was revoked", in, s.part, what)
	}
	if ec.TopicPartition().Partition != s.part {
		viol("wrong-store", []string{"C03"}, "%v: context of partition %d has the store of partition %d", in, ec.TopicPartition().Partition, s.part)
	}
	s.busy = what
	if !strings.HasPrefix(what, "interjection ") {
		in.lastAct = time.Now()
	}
	if !s.first {
		s.first = true
		w.st.Lock()
		want := foldState(w.st, s.part)
		w.st.Unlock()
		stat("takeovers", 1)
		if len(want) > 0 {
			stat("takeovers_state", 1)
		}
		if d := diffMaps(s.m, want); d != "" && !in.stopNow && !in.hasFailed() {
			viol("store-mismatch", []string{"C03"}, "%v partition %d: at the first %s the store differs from the fold of committed changes: %s", in, s.part, what, d)
		}
		pr := in.period(s.part)
		if pr == nil || !pr.assigned || pr.over {
			if !in.hasFailed() && !in.stopNow {
				viol("unowned", []string{"C11"}, "%v: %s of partition %d runs while it is not assigned", in, what, s.part)
			}
		}
	}
	if pr := in.period(s.part); pr != nil {
		pr.store = s
		if pr.over && !in.hasFailed() && !in.stopNow {
			viol("after-revoked-cb", []string{"C11", "C05"}, "%v: %s of partition %d runs after the revoked callback", in, what, s.part)
		}
	}
	return s
}

func (in *inst) leave(s *Store) {
	if !strings.HasPrefix(s.busy, "interjection ") {
		in.lastAct = time.Now()
	}
	s.busy, s.inHandler = "", false
}

func (in *inst) pause(s *Store, ms int) {
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	} else {
		runtime.Gosched()
	}
	in.gate()
}

const auxKey = "aux/"

type stVal struct {
	C int64 `json:"c"`
	E int   `json:"e"`
}

// effects performs outputs [from,to) and, if chg, the state change of the unit.
func (in *inst) effects(ec *streams.EventContext[*Store], s *Store, u *unit, key string, dest int32, from, to int, chg int, del bool, size int) {
	w := in.w
	var cnt int64
	if chg > 0 {
		if u.aux > 0 {
			// set and deleted in turns
			stat("aux_changes", 1)
			cle := streams.NewChangeLogEntry().WithKeyString(auxKey, key)
			if _, ok := s.m[auxKey+key]; ok {
				delete(s.m, auxKey+key)
			} else {
				s.m[auxKey+key] = "aux"
				cle = cle.WithValue([]byte("aux"))
			}
			if u.aux == 2 {
				cle = cle.WithHeader("h", nil)
			}
			ec.RecordChange(cle)
		}
		for i := 0; i < chg; i++ {
			var v stVal
			if cur, ok := s.m[key]; ok {
				json.Unmarshal([]byte(cur), &v)
			}
			v.C++
			v.E = u.id
			cnt = v.C
			w.fwd[s.part]++
			m := meta{E: u.id, P: s.part, I: i, Q: w.fwd[s.part], K: key, C: v.C, S: s.inHandler}
			isDel := del && i == chg-1
			m.D = isDel
			cle := streams.NewChangeLogEntry().WithKeyString(key).WithEntryType("cnt")
			if isDel {
				delete(s.m, key)
			} else {
				b, _ := json.Marshal(v)
				s.m[key] = string(b)
				cle = cle.WithValue(b)
			}
			mb, _ := json.Marshal(m)
			cle = cle.WithHeader("src", mb)
			ec.RecordChange(cle)
		}
	}
	for i := from; i < to; i++ {
		w.fwd[s.part]++
		m := meta{E: u.id, P: s.part, I: i, Q: w.fwd[s.part], C: cnt, S: s.inHandler}
		mb, _ := json.Marshal(m)
		r := streams.NewRecord().WithTopic(outTopic).WithKeyString(key).WithRecordType("o").WithHeader("src", mb).WithValue(make([]byte, size))
		if dest >= 0 {
			r = r.WithPartition(dest % int32(w.sc.OutParts))
		}
		ec.Forward(r)
	}
	u.effAt = time.Now()
}

func (in *inst) decode(r streams.IncomingRecord) (*scen.Event, error) {
	ev := new(scen.Event)
	if err := json.Unmarshal(r.Value(), ev); err != nil {
		return nil, err
	}
	if ev.Bad {
		return nil, fmt.Errorf("bad event %d", ev.ID)
	}
	return ev, nil
}

// handle is the default processor.
func (in *inst) handle(ec *streams.EventContext[*Store], r streams.IncomingRecord) streams.ExecutionState {
	ev := new(scen.Event)
	json.Unmarshal(r.Value(), ev)
	if in.w.registered(ev.Type) {
		viol("misrouted", []string{"C13"}, "%v: default handler called for event %d of type %q", in, ev.ID, ev.Type)
	}
	if u := in.w.byID[ev.ID]; u != nil {
		k := u.inp.rec
		same := string(k.Key) == string(r.Key()) && string(k.Value) == string(r.Value()) && r.RecordType() == ev.Type && r.Offset() == k.Offset && r.TopicPartition().Topic == srcTopic &&
			len(r.Headers()) == len(k.Headers) && r.Timestamp().UnixMilli() == k.Timestamp
		for _, h := range k.Headers {
			same = same && string(r.HeaderValue(h.Key)) == string(h.Value)
		}
		if !same {
			viol("modified", []string{"C13", "C14"}, "%v: default handler of event %d was given key %q value %q headers %v timestamp %v, appended: %q %q %v %v", in, ev.ID, r.Key(), r.Value(), r.Headers(), r.Timestamp().UnixMilli(), k.Key, k.Value, k.Headers, k.Timestamp)
		}
	}
	return in.handleEvent(ec, ev)
}

type ev1 struct{ ev *scen.Event }
type ev2 struct {
	ev  *scen.Event
	off int64
}

// the types with handlers of their own; what comes first wins
var typeNames = []string{"t1", "t2", "t3", "t4"}

func (w *world) registered(t string) bool {
	for _, n := range typeNames[:w.sc.Types] {
		if n == t {
			return true
		}
	}
	return false
}

func (in *inst) register() {
	n := in.w.sc.Types
	if n > 0 {
		streams.RegisterEventType(in.es, func(r streams.IncomingRecord) (ev1, error) {
			in.gate()
			ev, err := in.decode(r)
			return ev1{ev}, err
		}, func(ec *streams.EventContext[*Store], v ev1) streams.ExecutionState {
			return in.typed(ec, v.ev, "t1", -1)
		}, "t1")
	}
	if n > 1 {
		streams.RegisterEventType(in.es, func(r streams.IncomingRecord) (ev2, error) {
			in.gate()
			ev, err := in.decode(r)
			return ev2{ev, r.Offset()}, err
		}, func(ec *streams.EventContext[*Store], v ev2) streams.ExecutionState {
			return in.typed(ec, v.ev, "t2", v.off)
		}, "t2")
	}
	if n > 0 {
		// a second registration of a type is never reached
		streams.RegisterEventType(in.es, func(r streams.IncomingRecord) (int, error) {
			return 0, fmt.Errorf("the second decoder")
		}, func(ec *streams.EventContext[*Store], v int) streams.ExecutionState {
			viol("second-registration", []string{"C13"}, "the second handler registered for t1 was called")
			return streams.Complete
		}, typeNames[(n-1)/2])
	}
	if n > 2 {
		streams.RegisterEventType(in.es, func(r streams.IncomingRecord) (scen.Event, error) {
			in.gate()
			if _, err := in.decode(r); err != nil {
				return scen.Event{}, err
			}
			return streams.JsonItemDecoder[scen.Event](r)
		}, func(ec *streams.EventContext[*Store], v scen.Event) streams.ExecutionState {
			return in.typed(ec, &v, "t3", -1)
		}, "t3")
	}
	if n > 3 {
		streams.RegisterEventType(in.es, func(r streams.IncomingRecord) (streams.IncomingRecord, error) {
			in.gate()
			_, err := in.decode(r)
			return r, err
		}, func(ec *streams.EventContext[*Store], r streams.IncomingRecord) streams.ExecutionState {
			ev, _ := in.decode(r)
			return in.typed(ec, ev, "t4", r.Offset())
		}, "t4")
	}
}

func (in *inst) typed(ec *streams.EventContext[*Store], ev *scen.Event, t string, off int64) streams.ExecutionState {
	r, ok := ec.Input()
	var o scen.Event
	if ev == nil || !ok || json.Unmarshal(r.Value(), &o) != nil || o.ID != ev.ID || ev.Type != t || off >= 0 && r.Offset() != off {
		viol("misrouted", []string{"C13"}, "%v: handler of %s called with event %+v", in, t, ev)
		return streams.Complete
	}
	stat("typed", 1)
	return in.handleEvent(ec, ev)
}

// linger: some callbacks take a while
func (in *inst) linger(s *Store, ev *scen.Event) {
	d := 0
	if ev.ID%4 == 0 {
		d = 4
	}
	in.pause(s, d)
}

func (in *inst) handleEvent(ec *streams.EventContext[*Store], ev *scen.Event) streams.ExecutionState {
	w := in.w
	s := in.enter(ec, fmt.Sprintf("handler of event %d", ev.ID))
	defer in.leave(s)
	s.inHandler = true
	u := w.byID[ev.ID]
	r, _ := ec.Input()
	off := r.Offset()
	in.checkOffset(s, u, off)
	u.begun++
	u.in = in
	u.handled = time.Now()
	if u.badMode {
		viol("bad-handled", []string{"C13"}, "%v: event %d handled although its decoder failed", in, ev.ID)
	}
	if !in.failedAt.IsZero() && time.Since(in.failedAt) > 5*time.Second {
		viol("handled-after-fail", []string{"C12"}, "%v handles event %d %v after its error handler asked for failure", in, ev.ID, time.Since(in.failedAt))
	}
	if pr := in.period(s.part); pr != nil {
		pr.handled = append(pr.handled, u)
	}
	trace("%v handles event %d part %d off %d mode %s", in, ev.ID, s.part, off, ev.Mode)
	stat("handled", 1)
	bg := func(f func()) {
		d := ev.Delay
		go func() {
			if d > 0 {
				time.Sleep(time.Duration(d) * time.Millisecond)
			}
			f()
		}()
	}
	eff := func(from, to, chg int) { in.effects(ec, s, u, stateKey(ev), ev.Dest, from, to, chg, ev.Del, ev.Size) }
	fin := func(from, chg int) func() streams.ExecutionState {
		return func() streams.ExecutionState {
			s := in.enter(ec, fmt.Sprintf("finalizer of event %d", ev.ID))
			defer in.leave(s)
			runtime.Gosched()
			eff(from, ev.Outs, chg)
			u.complete = true
			return streams.Complete
		}
	}
	switch ev.Mode {
	case "never": // does not complete the first time
		if u.begun == 1 {
			eff(0, ev.Outs, ev.Chg)
			if ev.ID%2 == 0 {
				return streams.Fatal
			}
			return streams.Incomplete
		}
	case "async":
		stat("async", 1)
		bg(func() { ec.AsyncJobComplete(fin(0, ev.Chg)) })
		return streams.Incomplete
	case "async2":
		stat("async", 1)
		bg(func() {
			ec.AsyncJobComplete(func() streams.ExecutionState {
				s := in.enter(ec, fmt.Sprintf("first finalizer of event %d", ev.ID))
				defer in.leave(s)
				eff(0, ev.Outs/2, 0)
				bg(func() { ec.AsyncJobComplete(fin(ev.Outs/2, ev.Chg)) })
				return streams.Incomplete
			})
		})
		return streams.Incomplete
	case "mix":
		stat("async", 1)
		eff(0, ev.Outs/2, ev.Chg)
		bg(func() { ec.AsyncJobComplete(fin(ev.Outs/2, 0)) })
		return streams.Incomplete
	case "sched":
		stat("async", 1)
		st := in.sched.Schedule(ec, ev.Key, in.newJob(ec, u, ev))
		if st == streams.Complete {
			u.complete = true
			if !in.stopping && !in.stopNow && !in.hasFailed() {
				viol("schedule-complete", []string{"C06"}, "%v: Schedule returned Complete for event %d although not closed", in, ev.ID)
			}
		}
		return st
	case "batch":
		stat("async", 1)
		var items []*job
		bi := streams.NewBatchItems(ec, ev.Key, func(ec *streams.EventContext[*Store], b *streams.BatchItems[*Store, string, *job]) streams.ExecutionState {
			s := in.enter(ec, fmt.Sprintf("batch callback of event %d", ev.ID))
			defer in.leave(s)
			in.linger(s, ev)
			for i, j := range items {
				if j.runs != 1 || b.Items()[i].Value != j || b.Items()[i].UserData != any(j) {
					viol("batch-items", []string{"C07"}, "callback of event %d: item %d was executed %d times", ev.ID, i, j.runs)
				}
			}
			eff(0, ev.Outs, ev.Chg)
			u.complete = true
			return streams.Complete
		})
		for i := 0; i < ev.Outs%3; i++ {
			items = append(items, in.newJob(ec, u, ev))
			bi.Add(items[i])
		}
		return in.batcher.Add(bi)
	case "bp":
		stat("async", 1)
		n := bpCount(ev)
		stat("bp_batches", 1)
		w.bpRuns[ev.ID]++
		var recs []*streams.Record
		for i := 0; i < n; i++ {
			recs = append(recs, streams.NewRecord().WithKeyString(fmt.Sprintf("%s-%d", ev.Key, (ev.ID+i)%3)).WithValue([]byte(fmt.Sprintf("%d/%d", ev.ID, i))))
		}
		calls := 0
		cb := func(ec *streams.EventContext[*Store], rs []*streams.Record, ud any) streams.ExecutionState {
			if n > 0 || s.busy == "" { // (a batch without records may be called back at once)
				s := in.enter(ec, fmt.Sprintf("batch producer callback of event %d", ev.ID))
				defer in.leave(s)
				in.linger(s, ev)
			}
			calls++
			if calls > 1 || ud != any(ev) || len(rs) != n {
				viol("bp-callback", []string{"C26"}, "callback of event %d: call %d, user data %v, %d records of %d", ev.ID, calls, ud, len(rs), n)
			}
			for i, r := range rs {
				name := fmt.Sprintf("%d/%d", ev.ID, i)
				if string(r.AsIncomingRecord().Value()) != name {
					viol("bp-records", []string{"C26", "C14"}, "callback of event %d: record %d is %q", ev.ID, i, r.AsIncomingRecord().Value())
				}
				if r.Error() == nil && w.bp[name] == 0 {
					viol("bp-early", []string{"C26"}, "callback of event %d ran but record %d is not in the log", ev.ID, i)
				}
				if r.Error() != nil {
					stat("bp_errors", 1)
					if w.bp[name] > 0 && w.bpRuns[ev.ID] == 1 && !w.lossy() {
						viol("bp-error", []string{"C26"}, "record %d of event %d carries error %v although it was delivered", i, ev.ID, r.Error())
					}
				} else if calls == 1 {
					stat("bp_ok", 1)
				}
			}
			if ev.BP&4 != 0 { // the event goes on after its batch
				go func() {
					time.Sleep(ms(ev.Delay))
					ec.AsyncJobComplete(func() streams.ExecutionState {
						s := in.enter(ec, fmt.Sprintf("completion of event %d after its batch", ev.ID))
						defer in.leave(s)
						eff(0, ev.Outs, ev.Chg)
						u.complete = true
						return streams.Complete
					})
				}()
				return streams.Incomplete
			}
			eff(0, ev.Outs, ev.Chg)
			u.complete = true
			return streams.Complete
		}
		if ev.BP&1 == 1 {
			u.complete = true // when its records are delivered
			return in.bp.Produce(ec, recs, nil, ev)
		}
		return in.bp.Produce(ec, recs, cb, ev)
	}
	// sync
	in.pause(s, ev.Delay)
	eff(0, ev.Outs, ev.Chg)
	u.complete = true
	return streams.Complete
}

// stateKey is the key whose counter the event changes. Completions of unrelated
// asynchronous jobs have no order among transactions, so such events own their key;
// events whose order is defined (handlers, jobs and batches of one key) share keys.
func stateKey(ev *scen.Event) string {
	switch ev.Mode {
	case "sched":
		return "s" + ev.Key
	case "batch":
		return "b" + ev.Key
	case "async", "async2", "bp":
	default:
		return ev.Key
	}
	return fmt.Sprintf("u%d", ev.ID)
}

func (w *world) nextVisible(p int32, from int64) *input {
	for _, i := range w.inputs[p] {
		if i.rec.Offset >= from && i.visible() && !w.byID[i.ev.ID].badMode {
			return i
		}
	}
	return nil
}

func (in *inst) checkOffset(s *Store, u *unit, off int64) {
	w := in.w
	if !u.inp.visible() {
		viol("uncommitted-input", []string{"C01", "C04"}, "%v handles event %d (offset %d) whose transaction did not commit", in, u.id, off)
	}
	if u.inp.rec.Offset != off || u.part != s.part {
		viol("wrong-offset", []string{"C02", "C13"}, "%v: event %d handled with offset %d/partition %d, appended at %d/%d", in, u.id, off, s.part, u.inp.rec.Offset, u.part)
	}
	if in.hasFailed() || in.stopNow {
		return
	}
	s.n++
	if s.last < 0 {
		base := int64(0)
		if c, ok := w.pos[s.part]; ok {
			base = c
		} else if w.sc.StartOff == "end" && off >= int64(w.sc.From[s.part]) {
			// (the end of the log when this consumer asked for it)
			w.sc.From[s.part] = int(off)
			base = off
			stat("started_at_end", 1)
		}
		want := w.nextVisible(s.part, base)
		if want == nil || want.rec.Offset != off {
			wo := int64(-1)
			if want != nil {
				wo = want.rec.Offset
			}
			viol("resume", []string{"C04"}, "%v partition %d: first handled offset %d, committed position %d, next event at %d", in, s.part, off, base, wo)
		}
		if base > 0 && s.part < int32(len(w.sc.From)) && base == int64(w.sc.From[s.part]) {
			stat("started_at", 1)
		} else if base > 0 {
			stat("resumed", 1)
		}
	} else {
		want := w.nextVisible(s.part, s.last+1)
		if want == nil || want.rec.Offset != off {
			viol("order", []string{"C02"}, "%v partition %d: handled offset %d after %d", in, s.part, off, s.last)
		}
	}
	s.last = off
}

// lossy: the answer to a request that took effect may have been lost
func (w *world) lossy() bool {
	for _, f := range w.sc.Faults {
		if f.Kind != "err" && f.Kind != "delay" {
			return true
		}
	}
	return false
}

func bpCount(ev *scen.Event) int {
	if ev.BP&2 != 0 {
		return 0
	}
	return ev.Outs%6 + 1
}

// ---- broker observation ----

func parseMeta(r *kfake.Rec) (m meta, ok bool) {
	h, ok := r.Header("src")
	if ok {
		ok = json.Unmarshal(h, &m) == nil
	}
	return
}

func (w *world) onSrcAppend(part *kfake.Partition, b *kfake.Batch) {
	if part.Topic == srcTopic {
		for _, r := range b.Recs {
			ev := new(scen.Event)
			if json.Unmarshal(r.Value, ev) != nil {
				continue
			}
			i := &input{ev: ev, rec: r, at: time.Now()}
			w.inputs[part.P] = append(w.inputs[part.P], i)
			outs, chg := ev.Outs, ev.Chg
			u := &unit{id: ev.ID, part: part.P, gotOut: map[int]int{}, gotChg: map[int]int{}, inp: i}
			if ev.Bad && w.registered(ev.Type) {
				outs, chg, u.badMode = 0, 0, true
			}
			if ev.Mode == "bp" && ev.BP&1 == 1 {
				outs, chg, u.bpNoCB = 0, 0, bpCount(ev)
			}
			u.outs, u.chgs = outs, chg
			if chg > 0 {
				u.aux = ev.Aux
			}
			w.byID[ev.ID] = u
		}
	}
	w.onStAppend(part, b)
}

func (w *world) onStAppend(part *kfake.Partition, b *kfake.Batch) {
	if part.Topic == bpTopic {
		for _, r := range b.Recs {
			w.bp[string(r.Value)]++
		}
	}
}

func (w *world) instOf(c *kfake.Client) *inst {
	for _, in := range w.all {
		if in.cl == c || in.cl2 == c {
			return in
		}
	}
	return nil
}

func (w *world) onTxnEnd(t *kfake.Txn) {
	in := w.instOf(t.Inst)
	if in == nil {
		return
	}
	in.open--
	if !t.Commit {
		stat("aborted_txns", 1)
		if len(t.Batches) > 0 {
			stat("aborted_txns_nonempty", 1)
		}
		return
	}
	stat("commits", 1)
	in.commits++
	if !in.failedAt.IsZero() && time.Since(in.failedAt) > 5*time.Second {
		viol("commit-after-fail", []string{"C12"}, "%v commits %v after its transaction error handler asked for failure", in, time.Since(in.failedAt))
	}
	newPos := map[int32]int64{}
	touched := map[int]*unit{}
	inTxn := map[[3]int64][2]int64{}
	recs, bytes, aux := 0, 0, 0
	for _, tb := range t.Batches {
		for _, r := range tb.B.Recs {
			recs++
			bytes += recSize(r)
			if tb.TP.Topic == clTopic {
				if len(r.Key) < 8 || len(r.Value) != 8 {
					viol("commit-record", []string{"C01"}, "commit log record with key %x value %x", r.Key, r.Value)
					continue
				}
				p := int32(binary.LittleEndian.Uint64(r.Key[:8]))
				o := int64(binary.LittleEndian.Uint64(r.Value))
				old := w.pos[p]
				if np, ok := newPos[p]; ok {
					old = np
				}
				if o < old {
					viol("backwards", []string{"C04"}, "%v committed position of partition %d goes back from %d to %d", in, p, old, o)
				}
				newPos[p] = o
				continue
			}
			m, ok := parseMeta(r)
			if !ok && tb.TP.Topic == stTopic && strings.HasPrefix(string(r.Key), auxKey) {
				aux++
				continue
			}
			if !ok {
				if _, mk := r.Header("gkes__mark"); !mk {
					viol("foreign-record", []string{"C01", "C14"}, "%v committed an unknown record on %s/%d", in, tb.TP.Topic, tb.TP.P)
				}
				continue
			}
			u := w.byID[m.E]
			if u == nil {
				continue
			}
			touched[u.id] = u
			isChg := tb.TP.Topic == stTopic
			if isChg && tb.TP.P != m.P {
				viol("change-partition", []string{"C03", "C01"}, "change of event %d of partition %d committed to change log partition %d", m.E, m.P, tb.TP.P)
			}
			got := u.gotOut
			if isChg {
				got = u.gotChg
			}
			got[m.I]++
			if got[m.I] > 1 {
				viol("duplicate", []string{"C01"}, "%v: record %d of event %d (partition %d, on %s) committed %d times", in, m.I, m.E, m.P, tb.TP.Topic, got[m.I])
			}
			key := [3]int64{int64(m.P), int64(tb.TP.P), 0}
			if isChg {
				key[2] = 1
			}
			// within the transaction: the order of forwarding
			if l, ok := inTxn[key]; ok && (r.Offset <= l[0] || int64(m.Q) <= l[1]) {
				viol("output-order", []string{"C02"}, "records of partition %d on %s/%d out of order within a transaction: forward number %d at offset %d follows number %d at offset %d", m.P, tb.TP.Topic, tb.TP.P, m.Q, r.Offset, l[1], l[0])
			}
			inTxn[key] = [2]int64{r.Offset, int64(m.Q)}
			// across transactions: records that event handlers forwarded before returning
			if m.S {
				if l, ok := w.lastOut[key]; ok && (r.Offset <= l[0] || int64(m.Q) <= l[1]) {
					viol("output-order", []string{"C02"}, "records of partition %d on %s/%d out of order: forward number %d at offset %d follows number %d at offset %d", m.P, tb.TP.Topic, tb.TP.P, m.Q, r.Offset, l[1], l[0])
				}
				if l, ok := w.lastOut[key]; ok && l[2] != t.PID<<16+int64(t.Epoch) {
					stat("ordered_across_txns", 1)
				}
				w.lastOut[key] = [3]int64{r.Offset, int64(m.Q), t.PID<<16 + int64(t.Epoch)}
			}
			if isChg {
				cm := w.counters[m.P]
				if cm == nil {
					cm = map[string]int64{}
					w.counters[m.P] = cm
				}
				if m.C != cm[m.K]+1 {
					viol("counter", []string{"C03", "C01"}, "%v: committed change of key %s (partition %d, event %d) carries counter %d after committed counter %d", in, m.K, m.P, m.E, m.C, cm[m.K])
				}
				cm[m.K] = m.C
				if m.D {
					delete(cm, m.K)
				}
			}
		}
	}
	statMax("max_parts_in_txn", len(newPos))
	for p, o := range newPos {
		old := w.pos[p]
		if w.sc.StartOff == "end" {
			old = max(old, int64(w.sc.From[p]))
		}
		for _, i := range w.inputs[p] {
			if i.rec.Offset < old || i.rec.Offset >= o || !i.visible() {
				continue
			}
			u := w.byID[i.ev.ID]
			u.commits++
			u.txn = t
			if u.badMode {
				if in.cfg.DeserErr != "" && u.deser == 0 {
					viol("deser-unheard", []string{"C13"}, "%v committed undecodable event %d without calling the deserialization error handler", in, u.id)
				}
				if u.deserFail == in {
					viol("deser-committed", []string{"C13"}, "%v committed undecodable event %d although the error handler's verdict was to fail", in, u.id)
				}
				u.complete = true
			}
			for k := 0; k < u.bpNoCB && len(w.sc.Faults) == 0; k++ {
				if w.bp[fmt.Sprintf("%d/%d", u.id, k)] == 0 {
					viol("bp-incomplete", []string{"C26"}, "%v committed event %d but record %d of its batch is not delivered", in, u.id, k)
				}
			}
			if w.sc.Strict == "C22" && u.begun == 1 && i.ev.Mode == "sync" && !u.handled.IsZero() {
				in.checkDelay(u)
			}
			if !u.complete {
				props := []string{"C04", "C01"}
				switch i.ev.Mode {
				case "sched":
					props = append(props, "C06")
				case "batch":
					props = append(props, "C07")
				case "bp":
					props = append(props, "C26")
				}
				viol("incomplete-passed", props, "%v committed position %d of partition %d passes event %d (offset %d) whose handling has not completed", in, o, p, u.id, i.rec.Offset)
			}
			if len(u.gotOut) != u.outs || len(u.gotChg) != u.chgs {
				viol("lost-effects", []string{"C01"}, "%v committed position %d of partition %d covers event %d (offset %d) but %d of %d outputs and %d of %d changes are committed", in, o, p, u.id, i.rec.Offset, len(u.gotOut), u.outs, len(u.gotChg), u.chgs)
			}
		}
		ok := false
		for _, i := range w.inputs[p] {
			ok = ok || i.rec.Offset == o-1 && i.visible()
		}
		if !ok {
			viol("position", []string{"C04"}, "%v committed position %d of partition %d does not follow a visible event", in, o, p)
		}
		if o > old {
			w.pos[p] = o
			w.commitT[p] = time.Now()
		}
	}
	for _, u := range touched {
		if u.aux > 0 && len(u.gotChg) > 0 {
			aux--
		}
	}
	if aux != 0 {
		viol("lost-effects", []string{"C01"}, "%v committed a transaction in which the number of auxiliary changes differs by %d from the number of events that made one", in, aux)
	}
	for _, u := range touched {
		if u.inp != nil && u.inp.rec.Offset >= w.pos[u.part] {
			viol("effects-ahead", []string{"C01"}, "%v committed effects of event %d (partition %d offset %d) but the committed position is %d", in, u.id, u.part, u.inp.rec.Offset, w.pos[u.part])
		}
		if u.inp == nil {
			u.commits++
			if len(u.gotOut) != u.outs || len(u.gotChg) != u.chgs {
				viol("interjection-torn", []string{"C10", "C01"}, "%v committed %d of %d outputs and %d of %d changes of interjection %d", in, len(u.gotOut), u.outs, len(u.gotChg), u.chgs, -u.id)
			}
		}
	}
	trace("commit by %v: %d records, positions %v", in, recs, newPos)
	parts := map[int32]bool{}
	for p := range newPos {
		parts[p] = true
	}
	for _, u := range touched {
		parts[u.part] = true
	}
	in.txns = append(in.txns, [3]int{recs, len(parts), bytes})
	w.checkBatch(in, t, touched)
}

func (w *world) checkBatch(in *inst, t *kfake.Txn, touched map[int]*unit) {
	evs := 0
	for range touched {
		evs++
	}
	statMax("max_events_in_txn", evs)
	if evs > in.cfg.Max {
		viol("batch-events", []string{"C22"}, "%v: a transaction holds %d events, MaxBatchSize is %d", in, evs, in.cfg.Max)
	}
	// records forwarded well before an event even arrived close the transaction to it
	for _, u := range touched {
		if u.inp == nil {
			continue
		}
		n := 0
		for _, o := range touched {
			if o != u && !o.effAt.IsZero() && o.effAt.Before(u.inp.at.Add(-5*time.Millisecond)) {
				n += o.outs + o.chgs
			}
		}
		statMax("max_records_before", n)
		if n >= in.cfg.Max {
			viol("batch-records", []string{"C22"}, "%v: event %d was accepted into a transaction that already held %d records when it arrived, MaxBatchSize is %d", in, u.id, n, in.cfg.Max)
		}
	}
}

// checkDelay: an event handled quickly is committed within the batch delay plus the
// commits ahead of it (each a bounded number of round trips).
func (in *inst) checkDelay(u *unit) {
	b, c := in.w.sc.Broker, in.cfg
	rtt := ms(1) + 2*time.Duration(b.LatMaxUs)*time.Microsecond
	bound := 2*ms(c.DelayMs) + time.Duration(c.Pool+2)*(20*rtt+ms(b.MarkerMaxMs)) + ms(200)
	d := time.Since(u.handled)
	statMax("max_commit_delay_pct_of_bound", int(d*100/bound))
	if d > bound {
		viol("commit-delay", []string{"C22"}, "%v: event %d was handled at %.4fs and committed %v later (batch delay %dms, pool %d)", in, u.id, u.handled.Sub(start).Seconds(), d, c.DelayMs, c.Pool)
	}
}

func recSize(r *kfake.Rec) int {
	n := len(r.Key) + len(r.Value)
	for _, h := range r.Headers {
		n += len(h.Key) + len(h.Value)
	}
	return n
}

func (w *world) onTxnBegin(t *kfake.Txn) {
	in := w.instOf(t.Inst)
	if in == nil {
		return
	}
	in.open++
	statMax("max_open_txns", in.open)
	if in.open > in.cfg.Pool {
		viol("open-txns", []string{"C22"}, "%v has %d transactions open, its pool size is %d", in, in.open, in.cfg.Pool)
	}
}
