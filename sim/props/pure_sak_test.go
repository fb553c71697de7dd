package props

import (
	"container/list"
	"context"
	"fmt"
	"math"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aws/go-kafka-event-source/streams/sak"
	"pgregory.net/rapid"
)

// ---- C19: linked list against container/list

type lOp struct {
	Op   string
	L    int // which list
	E, M int // which element, which mark
	V    int
	O    int // other list
}
type listCase struct {
	Lazy bool
	Ops  []lOp
}

var listOps = []string{"pushfront", "pushback", "pushback", "before", "after", "remove", "remove", "tofront", "toback", "movebefore", "moveafter", "backlist", "frontlist", "init"}

func genList(t *rapid.T) listCase {
	g := rapid.Custom(func(t *rapid.T) lOp {
		return lOp{Op: rapid.SampledFrom(listOps).Draw(t, "op"), L: rapid.IntRange(0, 4).Draw(t, "l") / 4, O: rapid.IntRange(0, 1).Draw(t, "o"), E: rapid.IntRange(0, 20).Draw(t, "e"), M: rapid.IntRange(0, 20).Draw(t, "m"), V: rapid.IntRange(0, 99).Draw(t, "v")}
	})
	return listCase{Lazy: rapid.Bool().Draw(t, "lazy"), Ops: rapid.SliceOfN(g, 4, rapid.SampledFrom([]int{8, 30, 80}).Draw(t, "n")).Draw(t, "ops")}
}

func runList(c listCase) (o Outcome) {
	type E = sak.Element[int]
	var real [2]*sak.List[int]
	var mod [2]*list.List
	for i := range real {
		if c.Lazy {
			real[i], mod[i] = new(sak.List[int]), new(list.List)
		} else {
			real[i], mod[i] = sak.NewList[int](), list.New()
		}
	}
	var re []*E // every element ever created and its twin
	var me []*list.Element
	dead := map[int]bool{} // elements of a list that was re-initialised
	twin := map[*E]*list.Element{}
	add := func(r *E, m *list.Element) {
		if (r == nil) != (m == nil) {
			o.fail("insert", "inserted element: %v, want %v", r, m)
			return
		}
		if r != nil {
			re, me = append(re, r), append(me, m)
			twin[r] = m
		}
	}
	same := func(what string, r *E, m *list.Element) {
		if r == nil && m == nil {
			return
		}
		if r == nil || m == nil || r.Value != m.Value.(int) {
			o.fail("structure", "%s: %+v, want %+v", what, r, m)
			return
		}
		if x, ok := twin[r]; ok && x != m {
			o.fail("identity", "%s is another element than expected", what)
		} else if !ok {
			twin[r] = m
			re, me = append(re, r), append(me, m)
		}
	}
	check := func(i int, op lOp) {
		for l := range real {
			what := fmt.Sprintf("after op %d %+v: list %d", i, op, l)
			if real[l].Len() != mod[l].Len() {
				o.fail("len", "%s: Len %d, want %d", what, real[l].Len(), mod[l].Len())
				return
			}
			r, m := real[l].Front(), mod[l].Front()
			for n := 0; r != nil || m != nil; n++ {
				same(fmt.Sprint(what, " forwards ", n), r, m)
				if o.Kind != "" {
					return
				}
				r, m = r.Next(), m.Next()
			}
			r, m = real[l].Back(), mod[l].Back()
			for n := 0; r != nil || m != nil; n++ {
				same(fmt.Sprint(what, " backwards ", n), r, m)
				if o.Kind != "" {
					return
				}
				r, m = r.Prev(), m.Prev()
			}
		}
		for k, e := range re { // removed elements, too, know their place
			if dead[k] {
				continue
			}
			if (e.Next() == nil) != (me[k].Next() == nil) || (e.Prev() == nil) != (me[k].Prev() == nil) {
				o.fail("structure", "after op %d %+v: element %d has neighbours %v %v, want %v %v", i, op, k, e.Prev(), e.Next(), me[k].Prev(), me[k].Next())
				return
			}
		}
	}
	moves, foreign := 0, 0
	for i, op := range c.Ops {
		r, m := real[op.L], mod[op.L]
		pick := func(n int) (*E, *list.Element, bool) {
			if len(re) == 0 {
				return nil, nil, false
			}
			k := n % len(re)
			return re[k], me[k], !dead[k]
		}
		e, x, ok := pick(op.E)
		k, y, ok2 := pick(op.M)
		in := func(e *list.Element) bool {
			for z := m.Front(); z != nil; z = z.Next() {
				if z == e {
					return true
				}
			}
			return false
		}
		switch op.Op {
		case "pushfront":
			add(r.PushFront(op.V), m.PushFront(op.V))
		case "pushback":
			add(r.PushBack(op.V), m.PushBack(op.V))
		case "before":
			if ok {
				add(r.InsertBefore(op.V, e), m.InsertBefore(op.V, x))
			}
		case "after":
			if ok {
				add(r.InsertAfter(op.V, e), m.InsertAfter(op.V, x))
			}
		case "remove":
			if ok {
				if !in(x) {
					foreign++
				}
				if a, b := r.Remove(e), m.Remove(x); a != b.(int) {
					o.fail("remove", "op %d: Remove returned %d, want %d", i, a, b)
				}
			}
		case "tofront":
			if ok {
				r.MoveToFront(e)
				m.MoveToFront(x)
				moves++
			}
		case "toback":
			if ok {
				r.MoveToBack(e)
				m.MoveToBack(x)
				moves++
			}
		case "movebefore":
			if ok && ok2 {
				r.MoveBefore(e, k)
				m.MoveBefore(x, y)
				moves++
			}
		case "moveafter":
			if ok && ok2 {
				r.MoveAfter(e, k)
				m.MoveAfter(x, y)
				moves++
			}
		case "backlist":
			if real[op.O].Len()+r.Len() < 60 {
				r.PushBackList(real[op.O])
				m.PushBackList(mod[op.O])
			}
		case "frontlist":
			if real[op.O].Len()+r.Len() < 60 {
				r.PushFrontList(real[op.O])
				m.PushFrontList(mod[op.O])
			}
		case "init":
			if op.V < 20 {
				for n := range re { // elements of a re-initialised list are unusable
					if in(me[n]) {
						dead[n] = true
					}
				}
				r.Init()
				m.Init()
			}
		}
		if o.Kind == "" {
			check(i, op)
		}
		if o.Kind != "" {
			return
		}
	}
	o.NonT = moves >= 2 && real[0].Len()+real[1].Len() >= 3
	o.stat("foreign", foreign)
	return
}

// ---- C19: pool

type poolOp struct {
	Op string // borrow release foreign
	I  int
}
type poolCase struct {
	Size  int
	Reset bool
	Ops   []poolOp
	Gor   int
}

type pObj struct {
	id     int32
	resets int
	dirty  int
	inUse  atomic.Int32
}

func genPool(t *rapid.T) poolCase {
	g := rapid.Custom(func(t *rapid.T) poolOp {
		return poolOp{rapid.SampledFrom([]string{"borrow", "borrow", "release", "release", "foreign"}).Draw(t, "op"), rapid.IntRange(0, 50).Draw(t, "i")}
	})
	return poolCase{Size: rapid.IntRange(0, 6).Draw(t, "size"), Reset: rapid.Bool().Draw(t, "reset"), Gor: rapid.SampledFrom([]int{1, 1, 1, 1, 4}).Draw(t, "gor"), Ops: rapid.SliceOfN(g, 3, 60).Draw(t, "ops")}
}

func runPool(c poolCase) (o Outcome) {
	var made atomic.Int32
	var reset func(*pObj) *pObj
	if c.Reset {
		reset = func(p *pObj) *pObj { p.resets++; p.dirty = 0; return p }
	}
	pool := sak.NewPool(c.Size, func() *pObj { return &pObj{id: made.Add(1)} }, reset)
	var mu sync.Mutex
	bad := func(k, f string, a ...any) { mu.Lock(); o.fail(k, f, a...); mu.Unlock() }
	reused := 0
	seq := func(g int, single bool) {
		var held []*pObj
		free, seen := 0, map[*pObj]bool{} // sequential model: how many are in the pool
		for i, op := range c.Ops {
			switch {
			case op.Op == "borrow":
				before := made.Load()
				p := pool.Borrow()
				if p == nil {
					bad("nil", "goroutine %d op %d: borrowed nothing", g, i)
					return
				}
				if p.inUse.Add(1) != 1 {
					bad("shared", "goroutine %d op %d: object %d is borrowed by two at once", g, i, p.id)
					return
				}
				if single {
					if fresh := made.Load() != before; fresh != (free == 0) {
						bad("reuse", "op %d: %d objects were free, but a new one was made: %v", i, free, fresh)
						return
					}
					free = max(0, free-1)
				}
				if seen[p] {
					mu.Lock()
					reused++
					mu.Unlock()
					if c.Reset && p.dirty != 0 {
						bad("dirty", "goroutine %d op %d: reused object %d was not reset", g, i, p.id)
						return
					}
				}
				seen[p] = true
				p.dirty = i + 1
				held = append(held, p)
			default:
				var p *pObj
				if op.Op == "release" {
					if len(held) == 0 {
						continue
					}
					k := op.I % len(held)
					p = held[k]
					held = append(held[:k], held[k+1:]...)
					p.inUse.Add(-1)
				} else { // an object the pool never made
					p = &pObj{id: -made.Add(1)}
					seen[p] = true
				}
				r0 := p.resets
				got := pool.Release(p)
				if single {
					if want := free < c.Size; got != want {
						bad("release", "op %d: Release to a pool of %d of %d returned %v", i, free, c.Size, got)
						return
					}
					if got {
						free++
					}
					if c.Reset && p.resets != r0+1 {
						bad("reset", "op %d: Release reset the object %d times", i, p.resets-r0)
						return
					}
				}
			}
		}
	}
	if c.Gor <= 1 {
		seq(0, true)
	} else {
		var wg sync.WaitGroup
		for g := 0; g < c.Gor; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 10; k++ {
					seq(g, false)
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			o.fail("blocked", "goroutines using the pool did not finish")
		}
	}
	o.NonT = reused > 0
	return
}

// ---- C19: run status

type rsOp struct {
	Op string // fork value halt cancel
	I  int
}
type rsCase struct {
	Root int // 0 nil parent, 1 context, 2 context with a value
	Ops  []rsOp
}

func genRS(t *rapid.T) rsCase {
	g := rapid.Custom(func(t *rapid.T) rsOp {
		return rsOp{rapid.SampledFrom([]string{"fork", "fork", "fork", "fork", "value", "value", "new", "halt", "halt", "cancelroot"}).Draw(t, "op"), rapid.IntRange(0, 30).Draw(t, "i")}
	})
	return rsCase{Root: rapid.IntRange(0, 2).Draw(t, "root"), Ops: rapid.SliceOfN(g, 3, 30).Draw(t, "ops")}
}

type rsKey int

func runRS(c rsCase) (o Outcome) {
	type node struct {
		rs     sak.RunStatus
		parent int // index or -1
		group  int // halted together with this one
		halted bool
		vals   map[rsKey]int
	}
	var parent context.Context
	rootVals := map[rsKey]int{}
	cancel := func() {}
	switch c.Root {
	case 1:
		parent, cancel = context.WithCancel(context.Background())
	case 2:
		parent, cancel = context.WithCancel(context.WithValue(context.Background(), rsKey(1000), 1000))
		rootVals[1000] = 1000
	}
	defer cancel()
	ns := []*node{{rs: sak.NewRunStatus(parent), parent: -1, group: 0, vals: rootVals}}
	rootCancelled := false
	halted := func(i int) bool {
		if rootCancelled {
			return true
		}
		for j := i; j >= 0; j = ns[ns[j].group].parent {
			if ns[ns[j].group].halted {
				return true
			}
		}
		return false
	}
	halts := 0
	for k, op := range c.Ops {
		i := op.I % len(ns)
		n := ns[i]
		switch op.Op {
		case "fork", "new":
			vals := map[rsKey]int{}
			for a, b := range n.vals {
				vals[a] = b
			}
			rs := sak.RunStatus{}
			if op.Op == "fork" {
				rs = n.rs.Fork()
			} else {
				rs = sak.NewRunStatus(n.rs.Ctx())
			}
			ns = append(ns, &node{rs: rs, parent: i, group: len(ns), vals: vals})
		case "value":
			vals := map[rsKey]int{}
			for a, b := range n.vals {
				vals[a] = b
			}
			vals[rsKey(op.I%5)] = k
			ns = append(ns, &node{rs: n.rs.WithValue(rsKey(op.I%5), k), parent: n.parent, group: n.group, vals: vals})
		case "halt":
			n.rs.Halt()
			ns[n.group].halted = true
			halts++
		case "cancelroot":
			if c.Root > 0 && op.I < 6 {
				cancel()
				rootCancelled = true
			}
		}
		for j, x := range ns {
			h := halted(j)
			done := false
			select {
			case <-x.rs.Done():
				done = true
			default:
			}
			if x.rs.Running() == h || done != h || (x.rs.Err() != nil) != h || (x.rs.Ctx().Err() != nil) != h {
				o.fail("status", "after op %d %+v: status %d halted %v, but Running %v Done %v Err %v", k, op, j, h, x.rs.Running(), done, x.rs.Err())
				return
			}
			for a, b := range x.vals {
				if got := x.rs.Ctx().Value(a); got != b {
					o.fail("value", "after op %d %+v: status %d carries %v for %v, want %v", k, op, j, got, a, b)
					return
				}
			}
		}
	}
	o.NonT = halts > 0 && len(ns) >= 4
	return
}

// ---- C19: helpers

type utilCase struct {
	I []int64
	F []float64
	U []uint8
	M map[string]int
}

func minmax[T sak.Number](o *Outcome, v []T) {
	s := append([]T(nil), v...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	var lo, hi T
	if len(s) > 0 {
		lo, hi = s[0], s[len(s)-1]
	}
	keep := append([]T(nil), v...)
	if a, b := sak.MinN(v...), sak.MaxN(v...); a != lo || b != hi {
		o.fail("minmax", "MinN, MaxN of %v = %v, %v", v, a, b)
	}
	for i := range v {
		if v[i] != keep[i] {
			o.fail("minmax", "MinN or MaxN changed its input %v to %v", keep, v)
		}
		for j := range v {
			lo, hi := v[i], v[j]
			if lo > hi {
				lo, hi = hi, lo
			}
			if sak.Min(v[i], v[j]) != lo || sak.Max(v[i], v[j]) != hi {
				o.fail("minmax", "Min, Max of %v, %v = %v, %v", v[i], v[j], sak.Min(v[i], v[j]), sak.Max(v[i], v[j]))
			}
		}
	}
}

func runUtil(c utilCase) (o Outcome) {
	o.NonT = len(c.I) > 1 && len(c.M) > 1
	minmax(&o, c.I)
	minmax(&o, c.F)
	minmax(&o, c.U)
	for _, v := range c.I {
		if w := sak.Abs(v); v != math.MinInt64 && (w < 0 || w != v && w != -v) {
			o.fail("abs", "Abs(%d) = %d", v, w)
		}
		if p := sak.Ptr(v); *p != v {
			o.fail("ptr", "Ptr(%d) -> %d", v, *p)
		}
		if sak.Must(v, nil) != v {
			o.fail("must", "Must(%d, nil)", v)
		}
		func() {
			e := fmt.Errorf("e%d", v)
			defer func() {
				if r := recover(); r != e {
					o.fail("must", "Must(_, error) panicked with %v", r)
				}
			}()
			sak.Must(v, e)
		}()
	}
	for _, v := range c.F {
		if w := sak.Abs(v); w != math.Abs(v) {
			o.fail("abs", "Abs(%v) = %v", v, w)
		}
	}
	ps := sak.ToPtrSlice(c.I)
	ss := sak.ToStructSlice(ps)
	if len(ps) != len(c.I) || len(ss) != len(c.I) {
		o.fail("slices", "%d items became %d pointers and %d items", len(c.I), len(ps), len(ss))
		return
	}
	for i, p := range ps {
		if *p != c.I[i] || ss[i] != c.I[i] {
			o.fail("slices", "item %d: %d became %d and %d", i, c.I[i], *p, ss[i])
		}
		*p++
		if ss[i] != c.I[i] {
			o.fail("slices", "writing through pointer %d changed the copied item", i)
		}
	}
	for i, p := range ps {
		if *p != c.I[i]+1 {
			o.fail("slices", "pointers %d and another share an item", i)
		}
	}
	cp := sak.MapCopy(c.M)
	keys, vals := sak.MapKeysToSlice(c.M), sak.MapValuesToSlice(c.M)
	sort.Strings(keys)
	sort.Ints(vals)
	var wk []string
	var wv []int
	for k, v := range c.M {
		wk, wv = append(wk, k), append(wv, v)
		if x, ok := cp[k]; !ok || x != v {
			o.fail("maps", "MapCopy: %q -> %d, %v, want %d", k, x, ok, v)
		}
	}
	sort.Strings(wk)
	sort.Ints(wv)
	if fmt.Sprint(len(keys), keys) != fmt.Sprint(len(wk), wk) || fmt.Sprint(vals) != fmt.Sprint(wv) || len(cp) != len(c.M) {
		o.fail("maps", "keys %q values %v copy %v of the map %v", keys, vals, cp, c.M)
	}
	cp["\x00new"] = 1
	if _, ok := c.M["\x00new"]; ok {
		o.fail("maps", "writing to the copy changed the map")
	}
	return
}

func init() {
	reg("C19", "list", 600000, 2000000, "at least two moves, and at least three elements left", genList, runList)
	reg("C19", "pool", 400000, 1000000, "an object was borrowed again after its release", genPool, runPool)
	reg("C19", "runstatus", 600000, 2000000, "a halt in a tree of at least four statuses", genRS, runRS)
	reg("C19", "helpers", 400000, 1000000, "more than one number and more than one map entry", func(t *rapid.T) utilCase {
		return utilCase{I: rapid.SliceOfN(edgeInt(), 0, 6).Draw(t, "i"), F: rapid.SliceOfN(rapid.Float64(), 0, 5).Draw(t, "f"), U: rapid.SliceOfN(rapid.Uint8(), 0, 5).Draw(t, "u"), M: rapid.MapOfN(rapid.StringN(0, 3, -1), rapid.IntRange(-9, 9), 0, 6).Draw(t, "m")}
	}, runUtil)
}
