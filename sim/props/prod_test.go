package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"pgregory.net/rapid"
	"verifsim/scen"
)

func genBytes(t *rapid.T, l string) []byte {
	switch intr(t, l+"kind", 0, 6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, l)
	case 3:
		return []byte(strings.Repeat(string(rune('a'+intr(t, l+"c", 0, 3))), intr(t, l+"n", 1, 300)))
	default:
		return []byte(rapid.StringMatching(`[a-z0-9]{1,9}`).Draw(t, l))
	}
}

type prodProfile struct {
	ops    []string
	faults bool
	keys   bool // mostly records without explicit partition
	parts  []int
}

func genProdRec(t *rapid.T, p prodProfile, parts []int, must bool) scen.ProdRec {
	r := scen.ProdRec{Key: genBytes(t, "key"), Val: genBytes(t, "val"), Part: -1, Topic: intr(t, "topic", -1, len(parts)-1)}
	if must && r.Topic < 0 {
		r.Topic = 0
	}
	min := parts[0]
	if r.Topic >= 0 {
		min = parts[r.Topic]
	} else {
		for _, n := range parts[:2] { // whatever the default topic is
			if n < min {
				min = n
			}
		}
	}
	n := 2
	if p.keys {
		n = 5
	}
	if chance(t, "explicit", n) {
		r.Part = int32(intr(t, "part", 0, min-1))
	}
	for i, k := 0, pick(t, "nheaders", []int{0, 0, 1, 2, 3}); i < k; i++ {
		r.Headers = append(r.Headers, [2]string{pick(t, "hk", []string{"", "a", "b", "long header name", "__grt"}), string(genText(t))})
	}
	r.Type = pick(t, "type", []string{"", "", "t1", "a rather long type", "ü"})
	r.KeyHow, r.ValHow = intr(t, "keyhow", 0, 4), intr(t, "valhow", 0, 5)
	if chance(t, "item", 5) {
		r.Item = &scen.Item{A: pick(t, "ia", []string{"", "x", "ä<&>\"", strings.Repeat("v", 200)}), N: int64(intr(t, "in", -3, 1000)), F: [][]int32{nil, {}, {1, -2}}[intr(t, "if", 0, 2)]}
		r.Val, _ = json.Marshal(r.Item)
	}
	r.Conv, r.Chunks = chance(t, "conv", 3), chance(t, "chunks", 3)
	return r
}

func genText(t *rapid.T) string {
	return pick(t, "hv", []string{"", "x", "some value", strings.Repeat("v", 200), "ä\x00b"})
}

func genProd(t *rapid.T, p prodProfile) *scen.Case {
	c := &scen.Case{Kind: "prod", Seed: uint64(intr(t, "seed", 0, 1<<30)), YieldP: pick(t, "yield", []uint32{0, 0, 200, 2000})}
	sc := &scen.Prod{Broker: scen.Broker{Nodes: intr(t, "nodes", 1, 3), Seed: int64(intr(t, "bseed", 0, 1<<20)), LatMinUs: intr(t, "latmin", 50, 250), LatMaxUs: pick(t, "lat", []int{300, 3000}), RebalDelMs: 50}}
	c.Prod = sc
	for i, n := 0, intr(t, "topics", 2, 3); i < n; i++ {
		sc.Parts = append(sc.Parts, pick(t, "parts", p.parts))
	}
	for i, n := 0, intr(t, "nops", 1, 14); i < n; i++ {
		op := scen.ProdOp{Op: pick(t, "op", p.ops), Prod: intr(t, "prod", 0, 1), Part: intr(t, "inpart", 0, 2), Ms: pick(t, "ms", []int{0, 1, 5, 50, 1000})}
		op.Release, op.Async, op.NoCB = rapid.Bool().Draw(t, "release"), rapid.Bool().Draw(t, "async"), chance(t, "nocb", 4)
		switch op.Op {
		case "produce", "async":
			if chance(t, "cancels", 6) {
				op.Cancel = pick(t, "cancel", []int{-1, 1, 2, 5})
			}
		}
		max := 5
		if chance(t, "many", 4) {
			max = 30
		}
		k := 0
		if op.Op != "sleep" && op.Op != "close" {
			k = intr(t, "nrecs", 0, max)
		}
		for j := 0; j < k; j++ {
			op.Recs = append(op.Recs, genProdRec(t, p, sc.Parts, op.Op == "forward"))
		}
		sc.Ops = append(sc.Ops, op)
	}
	if p.faults {
		// (lost answers and definitive refusals do not go together: the client takes a refused retry for a record that was never written)
		lossy := rapid.Bool().Draw(t, "lossy")
		budget := 24000 // ms by which all faults together may delay a batch (a transaction waits 30 s for its events)
		for i, n := 0, intr(t, "nfaults", 1, 3); i < n; i++ {
			f := scen.Fault{Inst: intr(t, "finst", 1, 2), Key: 0, Nth: intr(t, "nth", 1, 6), Count: pick(t, "count", []int{1, 1, 2, 5}), Kind: pick(t, "fkind", []string{"err", "err", "err", "delay"})}
			if lossy {
				f.Kind = pick(t, "fkind2", []string{"err", "close_before", "close_after", "delay"})
			}
			switch f.Kind {
			case "err":
				f.Code = pick(t, "code", []int16{6, 7, 10, 10, 29, 29, 87})
				if lossy {
					f.Code = pick(t, "code2", []int16{6, 7})
				}
			case "delay":
				f.DelayMs = pick(t, "fdelay", []int{10, 500})
				if lossy {
					f.DelayMs = pick(t, "fdelay2", []int{10, 500, 15000})
				}
			}
			cost := 2500
			if f.Kind == "delay" {
				cost = f.DelayMs
			}
			if f.Count = min(f.Count, budget/cost); f.Count == 0 {
				continue
			}
			budget -= cost * f.Count
			sc.Faults = append(sc.Faults, f)
		}
	}
	return c
}

func prod(prop, name string, quick, thorough int, rule string, p prodProfile, nonT func(map[string]int) bool) {
	reg(prop, name, quick, thorough, rule, func(t *rapid.T) *scen.Case { return genProd(t, p) }, func(c *scen.Case) Outcome { return judge(prop, c, nonT) })
}

// ---- the partitioner by itself ----

type partCase struct {
	N     int
	Topic string
	Per   map[string]int // topics with a partitioner of their own (that always chooses this one)
	Recs  []scen.ProdRec
}

func genPart(t *rapid.T) partCase {
	topics := []string{"t", "other", "other2", "oth", "o", ""}
	c := partCase{N: intr(t, "n", 1, 300), Topic: pick(t, "topic", topics)}
	if rapid.Bool().Draw(t, "per") {
		c.Per = map[string]int{}
		for i, n := 0, intr(t, "nper", 0, 4); i < n; i++ {
			c.Per[pick(t, "pertopic", topics)] = intr(t, "perpart", 0, 300)
		}
	}
	for i, n := 0, intr(t, "nrecs", 1, 20); i < n; i++ {
		r := scen.ProdRec{Part: -1}
		if chance(t, "explicit", 3) {
			r.Part = int32(intr(t, "part", 0, c.N-1))
		}
		if chance(t, "long", 3) {
			r.Key = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "key")
		} else {
			r.Key = genBytes(t, "key")
		}
		r.Chunks = rapid.Bool().Draw(t, "pooled")
		c.Recs = append(c.Recs, r)
	}
	return c
}

type fixed struct{ n int }

func (f fixed) ForTopic(string) kgo.TopicPartitioner { return f }
func (f fixed) RequiresConsistency(*kgo.Record) bool { return true }
func (f fixed) Partition(r *kgo.Record, n int) int   { return f.n % n }
func (f fixed) String() string                       { return fmt.Sprint(f.n) }

func runPart(c partCase) (o Outcome) {
	def := kgo.StickyKeyPartitioner(nil)
	p := streams.NewOptionalPartitioner(def)
	own, custom := c.Per[c.Topic]
	if c.Per != nil {
		m := map[string]kgo.Partitioner{}
		for t, n := range c.Per {
			m[t] = fixed{n}
		}
		p = streams.NewOptionalPerTopicPartitioner(def, m)
	}
	tp := p.ForTopic(c.Topic)
	hashed, explicit := 0, 0
	for i, rec := range c.Recs {
		r := streams.NewRecord().WithTopic(c.Topic)
		if rec.Key != nil {
			r = r.WithKey(rec.Key)
		}
		if rec.Part >= 0 {
			r = r.WithPartition(rec.Part)
		}
		k := r.ToKafkaRecord()
		got := tp.Partition(k, c.N)
		switch {
		case rec.Part >= 0:
			explicit++
			if got != int(rec.Part) {
				o.fail("explicit", "record %d with explicit partition %d of %d goes to %d", i, rec.Part, c.N, got)
			}
			if !tp.RequiresConsistency(k) {
				o.fail("consistency", "record %d with explicit partition %d does not require consistency, so it may go to another one while some have no leader", i, rec.Part)
			}
		case custom:
			if got != own%c.N {
				o.fail("custom", "record %d of a topic with its own partitioner goes to %d of %d instead of %d", i, got, c.N, own%c.N)
			}
		case len(rec.Key) > 0:
			hashed++
			if w := scen.JavaPartition(rec.Key, c.N); got != int(w) {
				o.fail("hash", "key %x goes to %d of %d, the Java client chooses %d", rec.Key, got, c.N, w)
			}
			if !tp.RequiresConsistency(k) {
				o.fail("consistency", "record %d with a key does not require consistency", i)
			}
		default:
			if got < 0 || got >= c.N {
				o.fail("invalid", "record %d without key goes to %d of %d", i, got, c.N)
			}
		}
		if rec.Chunks {
			r.Release()
		}
	}
	o.NonT = hashed > 1 && explicit > 0
	o.stat("hashed", hashed)
	o.stat("explicit", explicit)
	return
}

func init() {
	all := prodProfile{ops: []string{"produce", "async", "async", "batch", "forward", "forward", "change", "sleep", "waste"}, parts: []int{1, 2, 3, 7}}
	prod("C14", "delivery", 3000, 40000, "records were produced and forwarded, and delivered", all, func(s map[string]int) bool { return s["ok"] > 0 && s["commits"] > 0 })
	f := prodProfile{ops: []string{"produce", "async", "async", "async", "batch", "batch", "sleep", "waste", "close"}, parts: []int{1, 2, 3}, faults: true}
	prod("C14", "faults", 1600, 20000, "some records failed and others were delivered", f, func(s map[string]int) bool { return s["ok"] > 0 && s["errors"] > 0 })
	k := prodProfile{ops: []string{"produce", "async", "batch", "forward", "forward"}, parts: []int{1, 2, 3, 5, 12, 50}, keys: true}
	prod("C15", "delivery", 6000, 30000, "at least five keyed records were located", k, func(s map[string]int) bool { return s["hash_checked"] >= 5 })
	reg("C15", "partitioner", 400000, 2000000, "several keyed records and one with an explicit partition", genPart, runPart)
	f.ops = append(f.ops, "async", "async")
	prod("C26", "producers", 1600, 20000, "some records failed and others were delivered", f, func(s map[string]int) bool { return s["ok"] > 0 && s["errors"] > 0 })
}
