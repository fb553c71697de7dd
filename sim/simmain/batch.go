package main

import (
	"context"
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"verifsim/scen"
)

// The batcher by itself: every partition is one goroutine that adds batches and runs callbacks.

type bItem struct {
	b       *bBatch
	idx     int
	key     int
	added   int
	execs   int
	start   int
	ended   bool
	endedAt time.Time
}

type bBatch struct {
	id        int
	op        *scen.BatchOp
	part      int
	key       int
	ec        *schedEC
	bi        *streams.BatchItems[pstore, int, *bItem]
	items     []*bItem
	uniform   bool // all items have one key
	okey      int  // that key
	call, ret int
	at        time.Time
	completes int
	calls     int
	done      bool
}

type bDone struct {
	b  *bBatch
	aj streams.AsyncJob[pstore]
}

type bCompleter struct {
	w *bWorld
	b *bBatch
}

func (c bCompleter) AsyncComplete(aj streams.AsyncJob[pstore]) {
	c.b.completes++
	if c.b.completes > 1 {
		viol("batch-twice", c07, "batch %d was completed %d times", c.b.id, c.b.completes)
	}
	if len(c.b.items) == 0 {
		c.w.keyEnd[c.b.key] = time.Now()
	}
	for _, it := range c.b.items {
		if !it.ended {
			viol("batch-early", c07, "batch %d was completed although its item %d has not been executed", c.b.id, it.idx)
		}
	}
	c.w.done[c.b.part] <- bDone{c.b, aj}
}

type bWorld struct {
	b        *scen.Batch
	bt       *streams.AsyncBatcher[pstore, int, *bItem]
	batches  []*bBatch
	done     []chan bDone
	seq      int
	running  int
	keys     map[int]bool // in running batches
	keyEnd   map[int]time.Time
	busyEnd  time.Time // when any was last busy
	fullEnd  time.Time // when all executors were last busy
	left     int
	execs    int
	delay    time.Duration
	lastDone map[[2]int]*bBatch
}

var c07 = []string{"C07"}

func (w *bWorld) exec(items []*streams.BatchItem[int, *bItem]) {
	w.execs++
	w.running++
	n := w.execs
	stat("executions", 1)
	if len(items) > 1 {
		stat("multi", 1)
	}
	trace("execution %d starts with %d items (%d running)", n, len(items), w.running)
	if w.running > w.b.Conc {
		viol("concurrency", c07, "%d batches run at once, the limit is %d", w.running, w.b.Conc)
	}
	statMax("max_running", w.running)
	if len(items) == 0 {
		viol("empty-execution", c07, "the executor was called without items")
	}
	if len(items) > w.b.Max {
		viol("batch-size", c07, "the executor was given %d items, the maximum is %d", len(items), w.b.Max)
	}
	keys := map[int]bool{}
	for _, it := range items {
		v := it.Value
		if v == nil {
			viol("item-value", c07, "the executor was given an item without value")
			continue
		}
		w.seq++
		v.execs++
		v.start = w.seq
		trace("  item %d.%d key %d", v.b.id, v.idx, it.Key())
		if v.execs > 1 {
			viol("item-twice", c07, "item %d of batch %d was executed %d times", v.idx, v.b.id, v.execs)
		}
		if it.Key() != v.key {
			viol("item-key", c07, "item %d of batch %d was executed with key %d, it was added with %d", v.idx, v.b.id, it.Key(), v.key)
		}
		if it.Err != nil || it.UserData != nil {
			viol("item-value", c07, "item %d of batch %d has an error or user data before it is executed", v.idx, v.b.id)
		}
		keys[v.key] = true
		for _, b := range w.batches {
			for _, o := range b.items {
				if o.key != v.key || o == v {
					continue
				}
				before := b == v.b && o.idx < v.idx || b != v.b && b.ret > 0 && b.ret < v.b.call
				if before && o.execs == 0 {
					viol("item-order", c07, "key %d: item %d of batch %d is executed although item %d of batch %d was added before it", v.key, v.idx, v.b.id, o.idx, b.id)
				}
			}
		}
	}
	for k := range keys {
		if w.keys[k] {
			viol("key-concurrent", c07, "key %d is in two running batches", k)
		}
		w.keys[k] = true
	}
	if d := w.b.Durs; len(d) > 0 {
		time.Sleep(us(d[(n-1)%len(d)]))
	}
	for _, it := range items {
		if v := it.Value; v != nil {
			v.ended = true
			v.endedAt = time.Now()
			it.UserData = v
			if v.idx%3 == 1 {
				it.Err = fmt.Errorf("item %d of batch %d", v.idx, v.b.id)
			}
			stat("items", 1)
		}
	}
	if w.running == w.b.Conc {
		w.fullEnd = time.Now()
	}
	for k := range keys {
		delete(w.keys, k)
		w.keyEnd[k] = time.Now()
	}
	w.running--
	w.busyEnd = time.Now()
	trace("execution %d ends", n)
}

func (w *bWorld) add(op *scen.BatchOp, part int, keys []int, again int) streams.ExecutionState {
	b := &bBatch{id: len(w.batches), op: op, part: part, key: op.Key, at: time.Now(), uniform: true, okey: op.Key}
	w.batches = append(w.batches, b)
	rec := streams.NewRecord().WithTopic("t").WithPartition(int32(part))
	b.ec = streams.MockEventContext[pstore](context.Background(), rec, "", pstore{}, bCompleter{w, b}, nil)
	var cb streams.BatchCallback[pstore, int, *bItem]
	if !op.NilCB {
		cb = func(ec *schedEC, bi *streams.BatchItems[pstore, int, *bItem]) streams.ExecutionState {
			return w.callback(b, ec, bi, again)
		}
	}
	b.bi = streams.NewBatchItems(b.ec, op.Key, cb)
	b.bi.UserData = b
	for i, k := range keys {
		it := &bItem{b: b, idx: i, key: k}
		if k < 0 {
			it.key = op.Key
			b.bi.Add(it)
		} else {
			b.bi.AddWithKey(k, it)
		}
		b.items = append(b.items, it)
		if i == 0 {
			b.okey = it.key
		} else if it.key != b.okey {
			b.uniform = false
		}
	}
	w.seq++
	b.call = w.seq
	trace("add batch %d key %d items %v of partition %d", b.id, op.Key, keys, part)
	st := w.bt.Add(b.bi)
	w.seq++
	b.ret = w.seq
	if st != streams.Incomplete {
		viol("add", c07, "Add returned %v", st)
	}
	stat("batches", 1)
	if len(keys) == 0 {
		stat("empty_batches", 1)
	}
	return st
}

func (w *bWorld) callback(b *bBatch, ec *schedEC, bi *streams.BatchItems[pstore, int, *bItem], again int) streams.ExecutionState {
	b.calls++
	if ec != b.ec || bi != b.bi || bi.Key() != b.key || bi.UserData != any(b) {
		viol("callback-args", c07, "the callback of batch %d was given another batch, context or key", b.id)
	}
	its := bi.Items()
	if len(its) != len(b.items) {
		viol("callback-items", c07, "the callback of batch %d sees %d items of %d", b.id, len(its), len(b.items))
	}
	for i := range its {
		if i >= len(b.items) {
			break
		}
		v := b.items[i]
		wantErr := ""
		if i%3 == 1 {
			wantErr = fmt.Sprintf("item %d of batch %d", i, b.id)
		}
		got := ""
		if its[i].Err != nil {
			got = its[i].Err.Error()
		}
		if its[i].Value != v || its[i].Key() != v.key || its[i].UserData != any(v) || got != wantErr {
			viol("callback-items", c07, "item %d of batch %d: the callback sees key %d, error %q, own value %v and user data %v", i, b.id, its[i].Key(), got, its[i].Value == v, its[i].UserData == any(v))
		}
	}
	if b.op.Fin > 0 {
		time.Sleep(us(b.op.Fin))
	}
	if again > 0 {
		op := *b.op
		return w.add(&op, b.part, make([]int, again-1), 0)
	}
	return streams.Complete
}

func (w *bWorld) finish(d bDone) {
	b := d.b
	if b.uniform {
		kp := [2]int{b.part, b.okey}
		if l := w.lastDone[kp]; l != nil && b.call < l.call {
			viol("batch-order", c07, "partition %d key %d: batch %d (%d items), added before batch %d (%d items), is called back after it", b.part, b.okey, b.id, len(b.items), l.id, len(l.items))
		}
		w.lastDone[kp] = b
	}
	st := d.aj.Finalize()
	if b.op.NilCB {
		b.calls++
		if st != streams.Complete {
			viol("nil-callback", c07, "without a callback batch %d ends as %v", b.id, st)
		}
	}
	if b.calls != 1 {
		viol("callback", c07, "the callback of batch %d was called %d times by its completion", b.id, b.calls)
	}
	b.done = true
	trace("batch %d done", b.id)
}

func (w *bWorld) quiet() {
	now := time.Now()
	if w.running == w.b.Conc {
		w.fullEnd = now
	}
	if w.running > 0 {
		w.busyEnd = now
	}
	holders := map[int]bool{} // keys with a batch without items that is not done: it may be in any running batch
	for _, b := range w.batches {
		if len(b.items) == 0 && b.completes == 0 {
			holders[b.key] = true
		}
	}
	late := func(k int, at time.Time, what string) {
		from := at
		if holders[k] && w.busyEnd.After(from) {
			from = w.busyEnd
		}
		if w.fullEnd.After(from) {
			from = w.fullEnd
		}
		if w.keys[k] {
			return
		}
		if e := w.keyEnd[k]; e.After(from) {
			from = e
		}
		if now.Sub(from) > w.delay+time.Microsecond {
			viol("late", c07, "%s of key %d has been waiting %v with capacity free, the delay is %v", what, k, now.Sub(from), w.delay)
		}
	}
	for _, b := range w.batches {
		if b.ret == 0 {
			continue
		}
		for _, it := range b.items {
			if it.execs == 0 {
				late(it.key, b.at, fmt.Sprintf("item %d of batch %d", it.idx, b.id))
			}
		}
		if len(b.items) == 0 && b.completes == 0 {
			late(b.key, b.at, fmt.Sprintf("batch %d without items", b.id))
		}
	}
}

func (w *bWorld) partition(p int) {
	for i := range w.b.Ops {
		op := &w.b.Ops[i]
		if op.Part != p {
			continue
		}
		for more := true; more; {
			select {
			case d := <-w.done[p]:
				w.finish(d)
			default:
				more = false
			}
		}
		switch op.Op {
		case "sleep":
			t := time.After(us(op.N))
			for more := true; more; {
				select {
				case d := <-w.done[p]:
					w.finish(d)
				case <-t:
					more = false
				}
			}
		case "add":
			w.add(op, p, op.Items, op.Again)
		}
	}
	w.left--
	for d := range w.done[p] {
		w.finish(d)
	}
}

func runBatch(b *scen.Batch) {
	w := &bWorld{b: b, keys: map[int]bool{}, keyEnd: map[int]time.Time{}, lastDone: map[[2]int]*bBatch{}, delay: us(b.DelayUs)}
	if w.delay < 0 {
		w.delay = -w.delay
	}
	if w.delay == 0 {
		w.delay = 5 * time.Millisecond
	}
	w.bt = streams.NewAsyncBatcher[pstore, int, *bItem](w.exec, b.Max, b.Conc, us(b.DelayUs))
	total, items, longest := 0, 0, 1
	for _, d := range b.Durs {
		longest = max(longest, d)
	}
	for _, op := range b.Ops {
		total += op.N + 2*op.Fin
		items += 1 + len(op.Items) + op.Again
	}
	total += items * (longest + int(w.delay/time.Microsecond))
	for p := 0; p < b.Parts; p++ {
		w.done = append(w.done, make(chan bDone, 4096))
		w.left++
	}
	for p := 0; p < b.Parts; p++ {
		p := p
		go w.partition(p)
	}
	end := time.Now().Add(us(total) + time.Second)
	time.Sleep(500 * time.Nanosecond)
	step := 1
	for {
		w.quiet()
		busy := w.left > 0
		for _, x := range w.batches {
			busy = busy || !x.done
		}
		if !busy {
			break
		}
		if time.Now().After(end) {
			var t string
			for _, x := range w.batches {
				if !x.done {
					n := 0
					for _, it := range x.items {
						if it.ended {
							n++
						}
					}
					t += fmt.Sprintf(" batch %d (%d of %d items executed, completed %v)", x.id, n, len(x.items), x.completes > 0)
				}
			}
			viol("stuck", c07, "everything should have been done:%s", t)
			break
		}
		time.Sleep(us(step))
		if step < 200 {
			step++
		}
	}
}
