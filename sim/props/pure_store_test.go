package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/stores"
	"pgregory.net/rapid"
)

// ---- C17: simple store and sharded tree against maps

type sItem struct {
	K string
	V int
	X []string `json:",omitempty"`
}

func (s sItem) Key() string { return s.K }

type sOp struct {
	Op   string // put delete get replay badchange
	K    string
	V    int
	X    []string
	Keep int
}
type storeCase struct {
	Codec string // json pjson custom
	Ops   []sOp
	Probe []string
}

// lineCodec is a user-written codec; its encoding of the zero value is not empty.
type lineCodec struct{}

func (lineCodec) Encode(b *bytes.Buffer, s sItem) error {
	_, err := fmt.Fprintf(b, "%q %d %q", s.K, s.V, s.X)
	return err
}
func (lineCodec) Decode(b []byte) (s sItem, err error) {
	var x string
	if _, err = fmt.Sscanf(string(b), "%q %d", &s.K, &s.V); err != nil {
		return s, err
	}
	var list []string
	i := bytes.IndexByte(b, '[')
	if j := bytes.LastIndex(b, []byte(" [")); j >= 0 {
		i = j + 1
	}
	rd := bytes.NewReader(b[i+1 : len(b)-1])
	for {
		if _, e := fmt.Fscanf(rd, "%q", &x); e != nil {
			break
		}
		list = append(list, x)
	}
	s.X = list
	return s, nil
}

func keyGen(n int) *rapid.Generator[string] {
	return rapid.OneOf(rapid.Custom(func(t *rapid.T) string { return fmt.Sprint("k", rapid.IntRange(0, n).Draw(t, "kn")) }),
		rapid.StringN(0, 3, -1), rapid.SampledFrom([]string{"", " ", "a", "A", "\x00", "é"}))
}

func genStore(t *rapid.T) storeCase {
	kg := keyGen(rapid.SampledFrom([]int{2, 5, 200}).Draw(t, "keys"))
	if rapid.IntRange(0, 2).Draw(t, "few") > 0 {
		kg = rapid.SampledFrom([]string{"k1", "k2", "", "k10"})
	}
	g := rapid.Custom(func(t *rapid.T) sOp {
		op := sOp{Op: rapid.SampledFrom([]string{"put", "put", "put", "put", "delete", "delete", "get", "replay", "badchange"}).Draw(t, "op")}
		switch op.Op {
		case "put":
			op.V = rapid.IntRange(-3, 1000).Draw(t, "v")
			op.X = rapid.SliceOfN(rapid.StringMatching("[a-z]{0,3}"), 0, 2).Draw(t, "x")
		case "replay":
			op.Keep = rapid.IntRange(0, 3).Draw(t, "keep")
		}
		op.K = kg.Draw(t, "k")
		return op
	})
	return storeCase{Codec: rapid.SampledFrom([]string{"json", "custom"}).Draw(t, "codec"), Ops: rapid.SliceOfN(g, 5, rapid.SampledFrom([]int{10, 40, 150}).Draw(t, "n")).Draw(t, "ops"), Probe: rapid.SliceOfN(kg, 0, 4).Draw(t, "probe")}
}

type simpleStore = stores.SimpleStore[sItem]

func eqItem(a, b sItem) bool {
	return a.K == b.K && a.V == b.V && (len(a.X) == 0 && len(b.X) == 0 || reflect.DeepEqual(a.X, b.X))
}

func runStore(c storeCase) (o Outcome) {
	tp := streams.TopicPartition{Partition: 3, Topic: "t"}
	mk := func() *simpleStore {
		if c.Codec == "json" {
			return stores.NewJsonSimpleStore[sItem](tp)
		}
		return stores.NewSimpleStore[sItem](tp, lineCodec{})
	}
	st := mk()
	model := map[string]sItem{}
	type change struct {
		k string
		v []byte
	}
	var log []change
	var hist []map[string]sItem // contents after each change
	probes := func() []string {
		r := append([]string(nil), c.Probe...)
		for _, op := range c.Ops {
			r = append(r, op.K)
		}
		return r
	}()
	same := func(s *simpleStore, m map[string]sItem, what string) bool {
		for _, k := range probes {
			got, ok := s.Get(k)
			want, wok := m[k]
			if ok != wok || ok && !eqItem(got, want) || !ok && !eqItem(got, sItem{}) {
				o.fail("contents", "%s: Get(%q) = %+v, %v; want %+v, %v", what, k, got, ok, want, wok)
				return false
			}
		}
		return true
	}
	snapshot := func() {
		m := map[string]sItem{}
		for k, v := range model {
			m[k] = v
		}
		hist = append(hist, m)
	}
	// a replica that follows the change log as it is written
	follower := mk()
	feed := func(s *simpleStore, ch change) bool {
		rec := streams.NewRecord().WithKeyString(ch.k).WithValue(ch.v)
		in := rec.AsIncomingRecord()
		rec.Release()
		if err := s.ReceiveChange(in); err != nil {
			o.fail("replay", "ReceiveChange(%q, %q): %v", ch.k, ch.v, err)
			return false
		}
		return true
	}
	record := func(cle streams.ChangeLogEntry, k string, del bool) bool {
		ch := change{string(cle.KeyWriter().Bytes()), append([]byte(nil), cle.ValueWriter().Bytes()...)}
		if ch.k != k {
			o.fail("entry", "change entry for key %q carries the key %q", k, ch.k)
			return false
		}
		if del != (len(ch.v) == 0) {
			o.fail("entry", "change entry for key %q, deletion %v, carries the value %q", k, del, ch.v)
			return false
		}
		log = append(log, ch)
		snapshot()
		return feed(follower, ch)
	}
	puts, dels, replays := 0, 0, 0
	for i, op := range c.Ops {
		switch op.Op {
		case "put":
			it := sItem{op.K, op.V, op.X}
			model[op.K] = it
			if !record(st.Put(it), op.K, false) {
				return
			}
			puts++
		case "delete":
			_, had := model[op.K]
			delete(model, op.K)
			cle, ok := st.Delete(sItem{K: op.K, V: 77})
			if ok != had {
				o.fail("delete", "op %d: Delete(%q) reported %v, the key was present: %v", i, op.K, ok, had)
				return
			}
			if ok {
				dels++
				if !record(cle, op.K, true) {
					return
				}
			}
		case "get":
			got, ok := st.Get(op.K)
			if want, wok := model[op.K]; ok != wok || ok && !eqItem(got, want) {
				o.fail("contents", "op %d: Get(%q) = %+v, %v; want %+v, %v", i, op.K, got, ok, want, wok)
				return
			}
		case "badchange":
			// a change that does not decode is an error and changes nothing
			before := mk()
			for _, ch := range log {
				if !feed(before, ch) {
					return
				}
			}
			rec := streams.NewRecord().WithKeyString(op.K).WithValue([]byte("]no"))
			if err := before.ReceiveChange(rec.AsIncomingRecord()); err == nil {
				o.fail("baddecode", "op %d: a change whose value does not decode was accepted", i)
				return
			}
			if !same(before, model, fmt.Sprintf("op %d: after a change that does not decode", i)) {
				return
			}
		case "replay":
			// restart: a new store from the log up to a cut, then from there
			replays++
			n := len(log) * op.Keep / 3
			s := mk()
			for _, ch := range log[:n] {
				if !feed(s, ch) {
					return
				}
			}
			want := map[string]sItem{}
			if n > 0 {
				want = hist[n-1]
			}
			if !same(s, want, fmt.Sprintf("op %d: replay of %d of %d changes", i, n, len(log))) {
				return
			}
			for _, ch := range log[n:] {
				if !feed(s, ch) {
					return
				}
			}
			if op.Keep == 2 {
				st = s // carry on with the rebuilt store
			}
		}
		if !same(st, model, fmt.Sprintf("after op %d (%s %q)", i, op.Op, op.K)) || !same(follower, model, fmt.Sprintf("replica after op %d (%s %q)", i, op.Op, op.K)) {
			return
		}
	}
	o.NonT = puts > 0 && dels > 0 && replays > 0
	o.stat("changes", len(log))
	st.Revoked()
	return
}

type tOp struct {
	Op  string
	K   string
	Sub int
	V   int
	N   int
}
type treeCase struct {
	Exp  int
	Hash string
	Ops  []tOp
}
type tItem struct {
	Sub, V int
	K      string
}

func genTree(t *rapid.T) treeCase {
	kg := keyGen(rapid.SampledFrom([]int{3, 50}).Draw(t, "keys"))
	subs := rapid.SampledFrom([]int{3, 300}).Draw(t, "subs")
	g := rapid.Custom(func(t *rapid.T) tOp {
		return tOp{Op: rapid.SampledFrom([]string{"put", "put", "put", "put", "del", "get", "has", "min", "max", "delmin", "delmax", "asc", "desc", "range", "len"}).Draw(t, "op"),
			K: kg.Draw(t, "k"), Sub: rapid.IntRange(0, subs).Draw(t, "sub"), V: rapid.IntRange(0, 99).Draw(t, "v"), N: rapid.IntRange(0, subs).Draw(t, "n")}
	})
	return treeCase{Exp: rapid.IntRange(0, 6).Draw(t, "exp"), Hash: rapid.SampledFrom([]string{"string", "bytes", "const", "len", "big"}).Draw(t, "hash"), Ops: rapid.SliceOfN(g, 5, rapid.SampledFrom([]int{10, 60, 300}).Draw(t, "no")).Draw(t, "ops")}
}

// runTree compares the tree with a map of sorted maps. The shard of a key is only assumed to be a function of the key
// whose number of values is 2<<exponent, and shards are told apart by identity.
func runTree(c treeCase) (o Outcome) {
	hash := func(k string) uint64 {
		switch c.Hash {
		case "bytes":
			return stores.ByteHash([]byte(k))
		case "const":
			return 1 << 63
		case "len":
			return uint64(len(k))
		case "big":
			return ^stores.StringHash(k)
		}
		return stores.StringHash(k)
	}
	less := func(a, b tItem) bool {
		if a.K != b.K {
			return stores.StringLess(a.K, b.K)
		}
		return stores.NumberLess(a.Sub, b.Sub)
	}
	st := stores.NewShardedTree(c.Exp, hash, less)
	n := uint64(2) << c.Exp
	type id struct {
		k string
		s int
	}
	model := map[uint64]map[id]tItem{}
	shardPtr := map[uint64]any{}
	ptrShard := map[any]uint64{}
	del := 0
	for i, op := range c.Ops {
		sh := hash(op.K) % n
		tr := st.For(op.K)
		if tr == nil {
			o.fail("shard", "no tree for key %q", op.K)
			return
		}
		if p, ok := shardPtr[sh]; ok && p != any(tr) {
			o.fail("shard", "op %d: keys of one hash class are in different trees", i)
			return
		}
		if s, ok := ptrShard[any(tr)]; ok && s != sh {
			o.fail("shard", "op %d: %d shards were asked for, but keys of hash classes %d and %d share a tree", i, n, s, sh)
			return
		}
		shardPtr[sh], ptrShard[any(tr)] = tr, sh
		m := model[sh]
		if m == nil {
			m = map[id]tItem{}
			model[sh] = m
		}
		sorted := make([]tItem, 0, len(m))
		for _, v := range m {
			sorted = append(sorted, v)
		}
		sort.Slice(sorted, func(a, b int) bool { return less(sorted[a], sorted[b]) })
		key := id{op.K, op.Sub}
		it := tItem{op.Sub, op.V, op.K}
		var got tItem
		var ok bool
		want, wok := tItem{}, false
		switch op.Op {
		case "put":
			got, ok = tr.ReplaceOrInsert(it)
			want, wok = m[key]
			m[key] = it
		case "del":
			got, ok = tr.Delete(it)
			want, wok = m[key]
			delete(m, key)
			del++
		case "get":
			got, ok = tr.Get(it)
			want, wok = m[key]
		case "has":
			ok = tr.Has(it)
			_, wok = m[key]
		case "min", "delmin":
			if op.Op == "min" {
				got, ok = tr.Min()
			} else {
				got, ok = tr.DeleteMin()
			}
			if len(sorted) > 0 {
				want, wok = sorted[0], true
				if op.Op == "delmin" {
					delete(m, id{want.K, want.Sub})
				}
			}
		case "max", "delmax":
			if op.Op == "max" {
				got, ok = tr.Max()
			} else {
				got, ok = tr.DeleteMax()
			}
			if len(sorted) > 0 {
				want, wok = sorted[len(sorted)-1], true
				if op.Op == "delmax" {
					delete(m, id{want.K, want.Sub})
				}
			}
		case "len":
			all := 0
			for _, m := range model {
				all += len(m)
			}
			if st.Len() != all {
				o.fail("len", "op %d: the tree counts %d items, it has %d", i, st.Len(), all)
			}
			if tr.Len() != len(m) {
				o.fail("size", "op %d: Len %d, want %d", i, tr.Len(), len(m))
			}
		default:
			var list, exp []tItem
			f := func(x tItem) bool { list = append(list, x); return len(list) <= op.N }
			switch op.Op {
			case "asc":
				tr.Ascend(f)
				exp = sorted
			case "desc":
				tr.Descend(f)
				for j := range sorted {
					exp = append(exp, sorted[len(sorted)-1-j])
				}
			case "range":
				tr.AscendGreaterOrEqual(it, f)
				for _, x := range sorted {
					if !less(x, it) {
						exp = append(exp, x)
					}
				}
			}
			if len(exp) > op.N+1 {
				exp = exp[:op.N+1]
			}
			if !(len(list) == 0 && len(exp) == 0) && !reflect.DeepEqual(list, exp) {
				o.fail("traversal", "op %d %s: %+v, want %+v", i, op.Op, list, exp)
			}
		}
		if ok != wok || got != want {
			o.fail("result", "op %d %+v: %+v, %v; want %+v, %v", i, op, got, ok, want, wok)
		}
		if o.Kind != "" {
			return
		}
	}
	o.NonT = len(model) >= 2 && del > 0 || c.Hash == "const" && del > 0
	o.stat("shards_used", len(model))
	return
}

func init() {
	reg("C17", "simplestore", 200000, 800000, "puts, effective deletes and replays of the change log occurred", genStore, runStore)
	reg("C17", "tree", 240000, 800000, "items in several shards (or a constant hash), and deletions", genTree, runTree)
}
