package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"verifsim/kfake"
	"verifsim/scen"
)

// A global change log by itself: everything its receiver is handed, against the broker's log.

var c21 = []string{"C21"}

const gclTopic = "changes"

// gclState is one way in which what a partition delivered can be explained: the position
// follows from the k-th resumption.
type gclState struct {
	k   int
	cur int64 // next position
}

type gclResume struct {
	off  int64
	call time.Time
	done time.Time
}

type gclPart struct {
	recs      []*kfake.Rec // as appended, by offset (nil: marker)
	gone      map[int64]time.Time
	states    []gclState
	resumes   []gclResume
	pausing   bool
	paused    bool
	pausedAt  time.Time // when the call returned
	delivered int
	handed    map[int64]bool
}

type gclWorld struct {
	g       *scen.GCL
	c       *kfake.Cluster
	parts   []*gclPart
	n       int
	busy    int
	stopped time.Time
	started bool
	failed  map[int32]bool
}

func (w *gclWorld) rec(p int32, key int) *kfake.Rec {
	w.n++
	r := &kfake.Rec{Key: []byte(fmt.Sprintf("k%d", key)), Value: []byte(fmt.Sprintf("v%d", w.n)), Headers: []kfake.Header{{Key: "h", Value: []byte(fmt.Sprint(w.n))}}}
	if w.n%7 == 0 {
		r.Value = nil
	}
	if w.n%3 == 0 {
		r.Headers = append(r.Headers, kfake.Header{Key: streams.RecordTypeHeaderKey, Value: []byte(fmt.Sprintf("t%d", w.n%5))})
	}
	return r
}

// sync notes what was appended; called with the lock held
func (w *gclWorld) sync() {
	t := w.c.TopicLocked(gclTopic)
	for p, pt := range t.Parts {
		q := w.parts[p]
		here := map[int64]bool{}
		for _, b := range pt.Batches {
			for _, r := range b.Recs {
				if b.Control {
					continue
				}
				for int64(len(q.recs)) <= r.Offset {
					q.recs = append(q.recs, nil)
				}
				q.recs[r.Offset] = r
				here[r.Offset] = true
			}
		}
		for int64(len(q.recs)) < pt.Next {
			q.recs = append(q.recs, nil)
		}
		for o, r := range q.recs {
			if r != nil && !here[int64(o)] && q.gone[int64(o)].IsZero() {
				q.gone[int64(o)] = time.Now()
			}
		}
	}
}

func (w *gclWorld) write(o *scen.GCLOp) {
	p := int32(o.Part % w.g.Parts)
	switch o.Op {
	case "produce":
		for i := 0; i < o.N; i++ {
			q := p
			if o.Spread {
				q = int32((o.Part + i) % w.g.Parts)
			}
			w.c.AppendPlain(gclTopic, q, w.rec(q, o.Key+i%3))
		}
	case "txn":
		m := map[kfake.TP][]*kfake.Rec{}
		for i := 0; i < o.N; i++ {
			q := p
			if o.Spread {
				q = int32((o.Part + i) % w.g.Parts)
			}
			m[kfake.TP{Topic: gclTopic, P: q}] = append(m[kfake.TP{Topic: gclTopic, P: q}], w.rec(q, o.Key+i%3))
		}
		if len(m) > 0 {
			w.c.ExternalTxn(!o.Abort, ms(o.OpenMs), m)
		}
		if o.Abort {
			stat("aborted", 1)
		}
	case "compact":
		w.c.Lock()
		w.sync()
		stat("compacted", w.c.CompactLocked(gclTopic, p, o.N%7))
		w.sync()
		w.c.Unlock()
	}
}

func visibleRec(r *kfake.Rec) bool {
	return r != nil && (r.Txn == nil || r.Txn.Decided && r.Txn.Commit)
}

// reaches reports whether d is the next record from position cur.
func (q *gclPart) reaches(cur, d int64) bool {
	if d < cur {
		return false
	}
	for o := cur; o < d; o++ {
		if visibleRec(q.recs[o]) && q.gone[o].IsZero() {
			return false
		}
	}
	return true
}

func (w *gclWorld) ReceiveChange(ir streams.IncomingRecord) error {
	tp := ir.TopicPartition()
	now := time.Now()
	w.c.Lock()
	w.sync()
	w.c.Unlock()
	d := ir.Offset()
	trace("received partition %d offset %d", tp.Partition, d)
	if tp.Topic != gclTopic || int(tp.Partition) >= len(w.parts) || tp.Partition < 0 {
		viol("content", c21, "received a record of %v", tp)
		return nil
	}
	if w.busy++; w.busy > 1 {
		viol("concurrent", c21, "ReceiveChange of partition %d offset %d is called while another call is running", tp.Partition, d)
	}
	defer func() { w.busy-- }()
	q := w.parts[tp.Partition]
	if !w.started {
		viol("early", c21, "received partition %d offset %d before the start", tp.Partition, d)
	}
	if !w.stopped.IsZero() && now.Sub(w.stopped) > 5*time.Millisecond {
		viol("after-stop", c21, "received partition %d offset %d %v after the stop", tp.Partition, d, now.Sub(w.stopped))
	}
	if q.paused && now.Sub(q.pausedAt) > w.pauseGrace() {
		viol("paused", c21, "received partition %d offset %d %v after the partition was paused", tp.Partition, d, now.Sub(q.pausedAt))
	}
	if d < 0 || d >= int64(len(q.recs)) || q.recs[d] == nil {
		viol("content", c21, "received offset %d of partition %d, which is no record", d, tp.Partition)
		return nil
	}
	r := q.recs[d]
	if !visibleRec(r) {
		viol("uncommitted", c21, "received offset %d of partition %d, whose transaction is not committed", d, tp.Partition)
	}
	same := string(ir.Key()) == string(r.Key) && string(ir.Value()) == string(r.Value)
	var hs []kfake.Header
	for _, h := range ir.Headers() {
		hs = append(hs, kfake.Header{Key: h.Key, Value: h.Value})
	}
	typ, _ := r.Header(streams.RecordTypeHeaderKey)
	if !same || ir.RecordType() != string(typ) || string(ir.HeaderValue("h")) != string(r.Headers[0].Value) || ir.Timestamp().UnixMilli() != r.Timestamp {
		viol("content", c21, "offset %d of partition %d is key %q value %q type %q headers %v time %d, received key %q value %q type %q headers %v time %d", d, tp.Partition,
			r.Key, r.Value, typ, r.Headers, r.Timestamp, ir.Key(), ir.Value(), ir.RecordType(), hs, ir.Timestamp().UnixMilli())
	}
	var next []gclState
	add := func(s gclState) {
		for _, x := range next {
			if x == s {
				return
			}
		}
		next = append(next, s)
	}
	for _, s := range q.states {
		// (what was fetched before the last resumption may still be on its way)
		if s.k < len(q.resumes) {
			if nx := q.resumes[s.k]; !nx.done.IsZero() && now.Sub(nx.done) > w.grace() {
				goto resumed
			}
		}
		// (and some or all of that may be dropped)
		if q.reaches(s.cur, d) || s.k < len(q.resumes) && d >= s.cur {
			add(gclState{s.k, d + 1})
		}
	resumed:
		for k := s.k; k < len(q.resumes); k++ {
			if q.reaches(q.resumes[k].off, d) {
				add(gclState{k + 1, d + 1})
			}
		}
	}
	if len(next) == 0 {
		kind := "order"
		viol(kind, c21, "received offset %d of partition %d, where it cannot come next: %s", d, tp.Partition, q.explain())
		next = []gclState{{len(q.resumes), d + 1}}
	}
	q.states = next
	q.delivered++
	stat("received", 1)
	n := w.g.SlowMs
	if n > 0 {
		time.Sleep(ms(n))
	}
	if w.g.Errs > 0 && q.delivered%w.g.Errs == 0 {
		return errors.New("refused")
	}
	return nil
}

// grace: how long records that were fetched already may take to be handed over
func (w *gclWorld) grace() time.Duration {
	n := 0
	for _, q := range w.parts {
		n += len(q.recs)
	}
	return 20*time.Millisecond + time.Duration(n*w.g.SlowMs)*time.Millisecond
}

// pauseGrace: the client library does not cancel a fetch that waits at the broker (5 s) when a partition is paused
func (w *gclWorld) pauseGrace() time.Duration {
	d := w.grace() + 5100*time.Millisecond + 4*time.Duration(w.g.Broker.LatMaxUs)*time.Microsecond
	for _, f := range w.g.Faults {
		d += time.Duration(f.Count) * ms(f.DelayMs)
	}
	return d
}

func (q *gclPart) explain() string {
	s := ""
	for _, x := range q.states {
		s += fmt.Sprintf("next position %d after %d resumptions; ", x.cur, x.k)
	}
	for i, r := range q.resumes {
		s += fmt.Sprintf("resumption %d at offset %d; ", i+1, r.off)
	}
	return s
}

// complete: everything was handed over
func (q *gclPart) complete() bool {
	for _, s := range q.states {
		if q.reaches(s.cur, int64(len(q.recs))) && s.k == len(q.resumes) {
			return true
		}
		if s.k < len(q.resumes) && q.reaches(q.resumes[len(q.resumes)-1].off, int64(len(q.recs))) {
			return true // nothing follows the last resumption
		}
	}
	return false
}

func runGCL(g *scen.GCL) {
	w := &gclWorld{g: g}
	w.c = kfake.New(brokerCfg(g.Broker))
	for _, f := range g.Faults {
		w.c.Faults = append(w.c.Faults, kfake.Fault{Inst: f.Inst, Key: f.Key, Nth: f.Nth, Count: f.Count, Kind: f.Kind, Code: f.Code, Delay: ms(f.DelayMs)})
	}
	pol, cfg := streams.DeleteCleanupPolicy, map[string]string{}
	if g.Compact {
		pol, cfg = streams.CompactCleanupPolicy, map[string]string{"cleanup.policy": "compact"}
	}
	w.c.Lock()
	w.c.CreateTopicLocked(gclTopic, g.Parts, 1, cfg)
	w.c.CreateTopicLocked("other", g.Parts, 1, cfg)
	w.c.Unlock()
	for p := 0; p < g.Parts; p++ {
		w.parts = append(w.parts, &gclPart{gone: map[int64]time.Time{}, states: []gclState{{}}})
		w.c.AppendPlain("other", int32(p), &kfake.Rec{Key: []byte("x"), Value: []byte("y")})
	}
	for i := range g.Pre {
		w.write(&g.Pre[i])
	}
	time.Sleep(3 * time.Second) // transactions left open are decided
	cl := w.c.NewClient("gcl")
	parent := sak.NewRunStatus(context.Background())
	var log streams.GlobalChangeLog[*gclWorld]
	if g.Fork {
		log = streams.NewGlobalChangeLogWithRunStatus(parent.Fork(), cl, w, g.Parts, gclTopic, pol)
	} else {
		log = streams.NewGlobalChangeLog(cl, w, g.Parts, gclTopic, pol)
	}
	pause := func(p int, f func()) {
		trace("pause %d", p)
		f()
		for i, q := range w.parts {
			if (i == p || p < 0) && !q.paused {
				q.paused, q.pausedAt = true, time.Now()
			}
		}
	}
	resume := func(p int, off int64) {
		q := w.parts[p]
		q.resumes = append(q.resumes, gclResume{off: off, call: time.Now()})
		q.paused = false
		trace("resume %d at %d", p, off)
		log.ResumePartitionAt(int32(p), off)
		q.resumes[len(q.resumes)-1].done = time.Now()
	}
	if g.Paused {
		pause(-1, log.PauseAllPartitions)
	}
	w.started = true
	log.Start()
	stop := func() {
		trace("stop")
		if g.Fork {
			parent.Halt()
		} else {
			log.Stop()
		}
		w.stopped = time.Now()
	}
	at := 0
	for i := range g.Ops {
		o := &g.Ops[i]
		if g.StopMs > 0 && w.stopped.IsZero() && o.At >= g.StopMs {
			time.Sleep(ms(g.StopMs - at))
			at = g.StopMs
			stop()
		}
		if o.At > at {
			time.Sleep(ms(o.At - at))
			at = o.At
		}
		p := o.Part % g.Parts
		switch o.Op {
		case "pause":
			if w.stopped.IsZero() {
				pause(p, func() { log.Pause(int32(p)) })
				stat("pauses", 1)
			}
		case "pauseall":
			if w.stopped.IsZero() {
				pause(-1, log.PauseAllPartitions)
				stat("pauses", 1)
			}
		case "resume":
			if w.stopped.IsZero() {
				w.c.Lock()
				w.sync()
				w.c.Unlock()
				n := int64(len(w.parts[p].recs))
				resume(p, n*int64(min(o.N, 100))/100)
				stat("resumes", 1)
			}
		default:
			w.write(o)
		}
	}
	if w.stopped.IsZero() {
		// everything is handed over in the end
		limit := 60*time.Second + 3*w.grace()
		for t := time.Now(); ; time.Sleep(250 * time.Millisecond) {
			w.c.Lock()
			w.sync()
			w.c.Unlock()
			open, all := false, true
			for _, q := range w.parts {
				for _, r := range q.recs {
					open = open || r != nil && r.Txn != nil && !r.Txn.Decided
				}
				all = all && (q.paused || q.complete())
			}
			if all && !open {
				break
			}
			if time.Since(t) > limit {
				for p, q := range w.parts {
					if !q.paused && !q.complete() {
						viol("incomplete", c21, "partition %d has %d offsets; not everything was received: %s", p, len(q.recs), q.explain())
					}
				}
				break
			}
		}
		for _, q := range w.parts {
			if !q.paused {
				stat("complete_parts", 1)
			}
		}
		time.Sleep(2 * time.Second) // nothing is handed over twice
		stop()
	}
	for i := 0; i < 3; i++ {
		time.Sleep(ms(i * 1000))
		for p := 0; p < g.Parts; p++ {
			w.c.AppendPlain(gclTopic, int32(p), w.rec(int32(p), 1))
		}
	}
	time.Sleep(15 * time.Second)
	for k, n := range w.c.FaultHits {
		stat("faults", n)
		stat("fault_"+k, n)
	}
	for _, u := range w.c.Unsupported {
		res.Notes = append(res.Notes, "unsupported: "+u)
	}
}
