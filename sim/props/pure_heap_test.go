package props

import (
	"sort"

	"github.com/aws/go-kafka-event-source/streams/stores"
	"pgregory.net/rapid"
)

// ---- C18: min-max heap against a multiset

type hItem struct {
	ID, P int
}

func (a *hItem) HasPriorityOver(b *hItem) bool { return a.P < b.P }

type heapOp struct {
	Op string // push popmin popmax min max update remove
	P  int
	I  int // which held item
}
type heapCase struct {
	Init []int
	Ops  []heapOp
}

func genHeap(t *rapid.T) heapCase {
	hi := rapid.SampledFrom([]int{2, 6, 40, 1000}).Draw(t, "range")
	ops := []string{"push", "push", "push", "popmin", "popmax", "min", "max", "max", "update", "update", "remove", "remove"}
	if rapid.IntRange(0, 3).Draw(t, "grow") > 0 {
		ops = append(ops, "push", "push", "push", "push", "update", "update")
	}
	g := rapid.Custom(func(t *rapid.T) heapOp {
		op := heapOp{Op: rapid.SampledFrom(ops).Draw(t, "op")}
		switch op.Op {
		case "push":
			op.P = rapid.IntRange(0, hi).Draw(t, "p")
		case "update":
			op.P, op.I = rapid.IntRange(0, hi).Draw(t, "p"), rapid.IntRange(0, 99).Draw(t, "i")
		case "remove":
			op.I = rapid.IntRange(0, 99).Draw(t, "i")
		}
		return op
	})
	return heapCase{Init: rapid.SliceOfN(rapid.IntRange(0, hi), 0, rapid.SampledFrom([]int{0, 0, 3, 20}).Draw(t, "ni")).Draw(t, "init"), Ops: rapid.SliceOfN(g, 6, rapid.SampledFrom([]int{8, 30, 60, 150}).Draw(t, "n")).Draw(t, "ops")}
}

func runHeap(c heapCase) (o Outcome) {
	type P = stores.PrioritizedItem[*hItem]
	id := 0
	held := map[int]*P{} // nil: handle not known yet (initial items)
	prio := map[int]int{}
	var init []*hItem
	for _, p := range c.Init {
		id++
		init = append(init, &hItem{id, p})
		held[id], prio[id] = nil, p
	}
	h := stores.NewMinMaxHeap(init...)
	ids := func() []int {
		r := []int{}
		for i, it := range held {
			if it != nil {
				r = append(r, i)
			}
		}
		sort.Ints(r)
		return r
	}
	ext := func(max bool) int {
		first, v := true, 0
		for _, p := range prio {
			if first || max && p > v || !max && p < v {
				first, v = false, p
			}
		}
		return v
	}
	look := func(what string, it *P, max, gone bool) bool {
		if len(prio) == 0 {
			if it != nil {
				o.fail("phantom", "%s of an empty heap returned item %d", what, it.Value.ID)
			}
			return o.Kind == ""
		}
		if it == nil {
			o.fail("missing", "%s of a heap of %d items returned nothing", what, len(prio))
			return false
		}
		if _, ok := held[it.Value.ID]; !ok {
			o.fail("phantom", "%s returned item %d, which is not in the heap", what, it.Value.ID)
			return false
		}
		if it.Value.P != ext(max) {
			o.fail("order", "%s returned an item of priority %d, extreme is %d of %d items", what, it.Value.P, ext(max), len(prio))
			return false
		}
		if gone {
			delete(held, it.Value.ID)
			delete(prio, it.Value.ID)
		} else {
			held[it.Value.ID] = it
		}
		return true
	}
	maxes, mods := 0, 0
	for _, op := range c.Ops {
		switch op.Op {
		case "push":
			id++
			it := &P{Value: &hItem{id, op.P}}
			h.Push(it)
			held[id], prio[id] = it, op.P
		case "popmin":
			look("PopMin", h.PopMin(), false, true)
		case "popmax":
			look("PopMax", h.PopMax(), true, true)
		case "min":
			look("Min", h.Min(), false, false)
		case "max":
			look("Max", h.Max(), true, false)
			maxes++
		case "update", "remove":
			k := ids()
			if len(k) == 0 {
				continue
			}
			i := k[op.I%len(k)]
			it := held[i]
			mods++
			if op.Op == "update" {
				it.Value.P = op.P
				prio[i] = op.P
				h.Update(it)
			} else {
				h.Remove(it)
				delete(held, i)
				delete(prio, i)
			}
		}
		if o.Kind != "" {
			return
		}
		if h.Len() != len(prio) {
			o.fail("size", "after %s: Len %d, %d items held", op.Op, h.Len(), len(prio))
			return
		}
	}
	o.NonT = mods >= 2 && len(prio) >= 3
	o.stat("items_left", len(prio))
	o.stat("mods", mods)
	flip := len(c.Ops)%3 == 0
	for len(prio) > 0 {
		if flip {
			look("draining PopMax", h.PopMax(), true, true)
		} else {
			look("draining PopMin", h.PopMin(), false, true)
		}
		if len(c.Ops)%3 == 1 {
			flip = !flip
		}
		if o.Kind != "" {
			return
		}
	}
	if h.Len() != 0 || h.Min() != nil || h.Max() != nil {
		o.fail("phantom", "drained heap still has %d items", h.Len())
	}
	return
}

func init() {
	reg("C18", "model", 1000000, 4000000, "at least two updates or removals of held items, and at least three items left to drain", genHeap, runHeap)
}
