package main

import (
	"context"
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"verifsim/scen"
)

// The job scheduler by itself: every partition is one goroutine that schedules jobs and runs
// finalizers, as a partition worker does.

type schedEC = streams.EventContext[pstore]

type schedJob struct {
	id        int
	op        *scen.SchedOp
	part, key int
	ec        *schedEC
	call, ret int // position of the Schedule call and its return in the history
	accepted  bool
	refused   bool
	execs     int
	start     int
	ended     bool
	completes int
	finals    int
	done      bool
}

type schedDone struct {
	j  *schedJob
	aj streams.AsyncJob[pstore]
}

type schedCompleter struct {
	w *schedWorld
	j *schedJob
}

func (c schedCompleter) AsyncComplete(aj streams.AsyncJob[pstore]) {
	c.j.completes++
	if c.j.completes > 1 {
		viol("final-twice", c06, "job %d was completed %d times", c.j.id, c.j.completes)
	}
	if !c.j.ended {
		viol("final-early", c06, "job %d was completed before it was executed", c.j.id)
	}
	c.w.done[c.j.part] <- schedDone{c.j, aj}
}

type schedWorld struct {
	s       *scen.Sched
	rs      sak.RunStatus
	sch     *streams.AsyncJobScheduler[pstore, int, *schedJob]
	jobs    []*schedJob
	done    []chan schedDone
	seq     int
	running int
	byKey   map[int]*schedJob // executing
	maxKeys int
	waiting []*schedJob // by partition: blocked in Schedule
	left    int         // goroutines not finished
	lastFin map[[2]int]*schedJob
	closing bool
	closed  bool
}

var c06 = []string{"C06"}

func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

func (w *schedWorld) process(k int, j *schedJob) error {
	w.seq++
	j.execs++
	j.start = w.seq
	w.running++
	trace("job %d key %d starts (%d running)", j.id, k, w.running)
	if j.execs > 1 {
		viol("job-twice", c06, "job %d was executed %d times", j.id, j.execs)
	}
	if k != j.key {
		viol("job-args", c06, "job %d of key %d was executed with key %d", j.id, j.key, k)
	}
	if o := w.byKey[k]; o != nil {
		viol("key-concurrent", c06, "job %d of key %d starts while job %d of that key is running", j.id, k, o.id)
	}
	if w.running > w.s.Conc {
		viol("concurrency", c06, "%d jobs run at once, the limit is %d", w.running, w.s.Conc)
	}
	statMax("max_running", w.running)
	for _, o := range w.jobs {
		if o.key == k && o.execs > 0 && o != j && o.start < j.start && j.ret > 0 && j.ret < o.call {
			viol("job-order", c06, "key %d: job %d was scheduled before job %d was, but is executed after it", k, j.id, o.id)
		}
		if o.key == k && o.execs == 0 && o != j && o.accepted && (o.ret < j.call) {
			viol("job-order", c06, "key %d: job %d is executed although job %d was scheduled before it", k, j.id, o.id)
		}
	}
	w.byKey[k] = j
	time.Sleep(us(j.op.Dur))
	delete(w.byKey, k)
	w.running--
	j.ended = true
	trace("job %d ends", j.id)
	stat("executed", 1)
	if j.op.Err {
		return fmt.Errorf("job %d", j.id)
	}
	return nil
}

func (w *schedWorld) finalize(ec *schedEC, k int, j *schedJob, err error) streams.ExecutionState {
	j.finals++
	if ec != j.ec || k != j.key {
		viol("job-args", c06, "finalizer of job %d was called with key %d and another event's context or key", j.id, k)
	}
	if (err != nil) != j.op.Err || err != nil && err.Error() != fmt.Sprintf("job %d", j.id) {
		viol("job-error", c06, "finalizer of job %d (fails: %v) was given error %v", j.id, j.op.Err, err)
	}
	if j.op.Fin > 0 {
		time.Sleep(us(j.op.Fin))
	}
	if j.op.Chain > 0 && j.id < 1000 {
		op := *j.op
		op.Chain = 0
		return w.schedule(&op, j.part, j.op.Chain-1, j.ec, len(w.jobs)+1000)
	}
	return streams.Complete
}

func (w *schedWorld) schedule(op *scen.SchedOp, part, key int, ec *schedEC, id int) streams.ExecutionState {
	j := &schedJob{id: id, op: op, part: part, key: key}
	w.jobs = append(w.jobs, j)
	comp := schedCompleter{w, j}
	rec := streams.NewRecord().WithTopic("t").WithPartition(int32(part))
	j.ec = streams.MockEventContext[pstore](w.rs.Ctx(), rec, "", pstore{}, comp, nil)
	w.waiting[part] = j
	w.seq++
	j.call = w.seq
	trace("schedule job %d key %d of partition %d", id, key, part)
	wasClosed := w.closed
	st := w.sch.Schedule(j.ec, key, j)
	w.seq++
	j.ret = w.seq
	w.waiting[part] = nil
	trace("scheduled job %d: %v", id, st)
	if st == streams.Complete {
		j.refused = true
		if !w.closing {
			viol("refused", c06, "Schedule of job %d returned Complete although the scheduler is running", id)
		}
	} else if wasClosed {
		viol("closed-accepts", c06, "Schedule of job %d returned %v although the scheduler was closed", id, st)
	} else {
		j.accepted = true
		stat("accepted", 1)
	}
	return st
}

func (w *schedWorld) finish(d schedDone) {
	j := d.j
	st := d.aj.Finalize()
	if w.s.NilFinal {
		j.finals++
		if st != streams.Complete {
			viol("nil-finalizer", c06, "without a finalizer job %d ends as %v", j.id, st)
		}
	}
	if j.finals != 1 {
		viol("finalizer", c06, "the finalizer of job %d was called %d times by its completion", j.id, j.finals)
	}
	kp := [2]int{j.part, j.key}
	if l := w.lastFin[kp]; l != nil && j.ret > 0 && j.call < l.call {
		viol("final-order", c06, "partition %d key %d: job %d, scheduled before job %d, is finalized after it", j.part, j.key, j.id, l.id)
	}
	w.lastFin[kp] = j
	j.done = true
	stat("finalized", 1)
}

// quiet is called when everything that can run has run: virtual time is between two microseconds.
func (w *schedWorld) quiet() {
	if w.closing {
		return
	}
	keys := map[int]bool{}   // with work the scheduler has accepted
	active := map[int]bool{} // and with work it may have accepted
	for _, j := range w.jobs {
		if !j.ended && j.accepted {
			keys[j.key] = true
		}
		if !j.ended && !j.refused && (j.accepted || j.execs > 0) {
			active[j.key] = true
		}
	}
	want := min(len(keys), w.s.Conc)
	if w.running < want {
		viol("idle", c06, "%d jobs are running although jobs of %d keys are waiting and the limit is %d", w.running, len(keys), w.s.Conc)
	}
	if want > 1 {
		stat("concurrent", 1)
	}
	for p, j := range w.waiting {
		if j == nil {
			continue
		}
		stat("blocked_calls", 1)
		if !active[j.key] && len(active) < w.maxKeys {
			viol("blocked", c06, "partition %d is kept waiting to schedule job %d of key %d, although that key has no jobs and only %d of %d keys are in use", p, j.id, j.key, len(active), w.maxKeys)
		}
	}
}

func (w *schedWorld) part(p int, ops []scen.SchedOp, next *int) {
	for i := range ops {
		op := &ops[i]
		if op.Part != p {
			continue
		}
		// first whatever has completed
		for more := true; more; {
			select {
			case d := <-w.done[p]:
				w.finish(d)
			default:
				more = false
			}
		}
		switch op.Op {
		case "sleep":
			t := time.After(us(op.N))
			for more := true; more; {
				select {
				case d := <-w.done[p]:
					w.finish(d)
				case <-t:
					more = false
				}
			}
		case "schedule":
			w.schedule(op, p, op.Key, nil, i)
		}
	}
	w.left--
	for d := range w.done[p] {
		w.finish(d)
	}
}

func runSched(s *scen.Sched) {
	w := &schedWorld{s: s, rs: sak.NewRunStatus(context.Background()), byKey: map[int]*schedJob{}, maxKeys: max(s.Conc, s.Keys), waiting: make([]*schedJob, s.Parts), lastFin: map[[2]int]*schedJob{}}
	fin := w.finalize
	if s.NilFinal {
		fin = nil
	}
	var err error
	w.sch, err = streams.NewAsyncJobScheduler[pstore, int, *schedJob](w.rs, w.process, fin, streams.SchedulerConfig{Concurrency: s.Conc, WorkerQueueDepth: s.Depth, MaxConcurrentKeys: s.Keys})
	if (err != nil) != (s.Conc < 1 || s.Depth < 0) {
		viol("config", c06, "NewAsyncJobScheduler(concurrency %d, depth %d, keys %d) returned error %v", s.Conc, s.Depth, s.Keys, err)
	}
	if err != nil {
		stat("refused_config", 1)
		return
	}
	total := 0
	for _, op := range s.Ops {
		total += 2*op.Dur + 2*op.Fin
		if op.Op == "sleep" {
			total += op.N
		}
	}
	for p := 0; p < s.Parts; p++ {
		w.done = append(w.done, make(chan schedDone, 4096))
		w.left++
	}
	for p := 0; p < s.Parts; p++ {
		p := p
		go w.part(p, s.Ops, nil)
	}
	w.left++
	go func() {
		for i := range s.Ops {
			op := &s.Ops[i]
			if op.Part >= 0 {
				continue
			}
			switch op.Op {
			case "sleep":
				time.Sleep(us(op.N))
			case "maxkeys":
				trace("maxkeys %d", op.N)
				w.maxKeys = min(w.maxKeys, op.N)
				w.sch.SetMaxConcurrentKeys(op.N)
				w.maxKeys = op.N
				stat("maxkeys", 1)
			case "depth":
				trace("depth %d", op.N)
				w.sch.SetWorkerQueueDepth(op.N)
				stat("depth", 1)
			}
		}
		w.left--
	}()
	if s.CloseUs > 0 {
		w.left++
		go func() {
			time.Sleep(us(s.CloseUs))
			w.closing = true
			stat("closed", 1)
			for _, j := range w.waiting {
				if j != nil {
					stat("closed_blocked", 1)
				}
			}
			trace("close")
			w.rs.Halt()
			w.closed = true
			w.left--
		}()
	}
	end := time.Now().Add(us(total+s.CloseUs) + time.Second)
	time.Sleep(500 * time.Nanosecond)
	step := 1
	for {
		w.quiet()
		busy := w.left > 0
		for _, j := range w.jobs {
			if (j.accepted && !w.closed || j.execs > 0) && !j.done {
				busy = true
			}
		}
		if !busy {
			break
		}
		if time.Now().After(end) {
			var t string
			for p, j := range w.waiting {
				if j != nil {
					t += fmt.Sprintf(" partition %d waits to schedule job %d of key %d;", p, j.id, j.key)
				}
			}
			for _, j := range w.jobs {
				if !j.done && (j.accepted && !w.closed || j.execs > 0) {
					t += fmt.Sprintf(" job %d (executed %v, completed %v) is not finalized;", j.id, j.ended, j.completes > 0)
				}
			}
			viol("stuck", c06, "closed %v, everything should have been done:%s", w.closed, t)
			break
		}
		time.Sleep(us(step))
		if step < 1000 {
			step++
		}
	}
	if !w.closed {
		for _, j := range w.jobs {
			if j.accepted && j.execs != 1 {
				viol("job-lost", c06, "job %d was executed %d times", j.id, j.execs)
			}
		}
	}
	w.rs.Halt()
	time.Sleep(time.Millisecond)
}
