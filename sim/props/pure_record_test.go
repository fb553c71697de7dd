package props

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"pgregory.net/rapid"
)

// ---- C14: record objects, their conversions and their reuse against a plain model

type recOp struct {
	Op   string // new key val header type topic part kafka incoming flip addheader release settype
	I    int    // which live record, or which conversion
	B, C []byte `json:",omitempty"`
	S    string `json:",omitempty"`
	N    int32  `json:",omitempty"`
}
type recCase struct {
	Threads [][]recOp // one goroutine each; they share nothing but the pool
}

type recModel struct {
	key, val []byte
	hs       [][2]string
	typ      string
	topic    string
	part     int32
}

// headers are the headers a conversion has: the type goes last, unless there is a type header already
func (m *recModel) headers() [][2]string {
	hs := append([][2]string{}, m.hs...)
	if m.typ != "" {
		for _, h := range hs {
			if h[0] == streams.RecordTypeHeaderKey {
				return hs
			}
		}
		hs = append(hs, [2]string{streams.RecordTypeHeaderKey, m.typ})
	}
	return hs
}

func genRec(t *rapid.T) recCase {
	names := []string{"a", "b", "a long header name", ""}
	if rapid.IntRange(0, 7).Draw(t, "typeheaders") == 7 {
		names = append(names, streams.RecordTypeHeaderKey)
	}
	g := rapid.Custom(func(t *rapid.T) recOp {
		op := recOp{Op: rapid.SampledFrom([]string{"new", "new", "key", "key", "val", "val", "header", "header", "header", "type", "topic", "part", "kafka", "kafka", "incoming", "flip", "addheader", "settype", "release", "release"}).Draw(t, "op"),
			I: rapid.IntRange(0, 5).Draw(t, "i")}
		switch op.Op {
		case "key", "val":
			op.B, op.C = genBytes(t, "b"), genBytes(t, "c")
			op.N = int32(rapid.IntRange(0, 4).Draw(t, "how"))
			if rapid.IntRange(0, 9).Draw(t, "large") == 9 {
				op.B = bytes.Repeat([]byte{'z'}, rapid.SampledFrom([]int{100, 600, 5000}).Draw(t, "largelen"))
			}
		case "header", "addheader":
			op.S, op.B = rapid.SampledFrom(names).Draw(t, "name"), genBytes(t, "b")
		case "type", "topic", "settype":
			op.S = rapid.SampledFrom([]string{"", "x", "y", "another"}).Draw(t, "s")
		case "part":
			op.N = rapid.Int32Range(-1, 5).Draw(t, "n")
		}
		return op
	})
	var c recCase
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "threads"); i < n; i++ {
		c.Threads = append(c.Threads, rapid.SliceOfN(g, 6, rapid.SampledFrom([]int{12, 40, 120}).Draw(t, "len")).Draw(t, "ops"))
	}
	return c
}

// a conversion that was made, as it must stay
type held struct {
	k    *kgo.Record
	in   *streams.IncomingRecord
	want recModel
	hs   [][2]string
}

func sameHeaders(a []kgo.RecordHeader, b [][2]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i][0] || string(a[i].Value) != b[i][1] {
			return false
		}
	}
	return true
}

func (h *held) check() string {
	if h.k != nil {
		k := h.k
		if !bytes.Equal(k.Key, h.want.key) || !bytes.Equal(k.Value, h.want.val) || k.Topic != h.want.topic || k.Partition != h.want.part || !sameHeaders(k.Headers, h.hs) || !k.Timestamp.Equal(time.Time{}) || k.Offset != 0 {
			return fmt.Sprintf("the converted record is %s/%d key %q value %q headers %q, want %+v with headers %q", k.Topic, k.Partition, k.Key, k.Value, k.Headers, h.want, h.hs)
		}
		if len(h.want.key) == 0 && k.Key != nil && h.want.key == nil {
			return "the converted record of one without key has a key"
		}
		return ""
	}
	in := h.in
	tp := in.TopicPartition()
	if !bytes.Equal(in.Key(), h.want.key) || !bytes.Equal(in.Value(), h.want.val) || tp.Topic != h.want.topic || tp.Partition != h.want.part || !sameHeaders(in.Headers(), h.hs) || in.RecordType() != h.want.typ {
		return fmt.Sprintf("the incoming record is %v key %q value %q type %q headers %q, want %+v with headers %q", tp, in.Key(), in.Value(), in.RecordType(), in.Headers(), h.want, h.hs)
	}
	for _, x := range h.hs {
		for _, y := range h.hs {
			if y[0] == x[0] {
				if string(in.HeaderValue(x[0])) != y[1] {
					return fmt.Sprintf("HeaderValue(%q) is %q, want %q", x[0], in.HeaderValue(x[0]), y[1])
				}
				break
			}
		}
	}
	return ""
}

func runRecThread(ops []recOp, o *Outcome) {
	type live struct {
		r *streams.Record
		m recModel
	}
	var rs []*live
	var hs []*held
	convs, reused := 0, 0
	released := map[*streams.Record]bool{}
	for i, op := range ops {
		if op.Op == "new" || len(rs) == 0 {
			r := streams.NewRecord()
			for _, l := range rs {
				if l.r == r {
					o.fail("shared", "op %d: NewRecord returned a record that is in use", i)
					return
				}
			}
			if released[r] {
				reused++
			}
			tp, k := r.TopicPartition(), r.ToKafkaRecord()
			if tp.Topic != "" || tp.Partition != streams.AutoAssign || r.Error() != nil || r.Offset() != 0 || r.KeyWriter().Len() != 0 || r.ValueWriter().Len() != 0 ||
				k.Key != nil || k.Value != nil || len(k.Headers) != 0 || !k.Timestamp.IsZero() || k.Offset != 0 || r.AsIncomingRecord().RecordType() != "" {
				o.fail("leak", "op %d: NewRecord returned a record with contents: %+v", i, k)
				return
			}
			rs = append(rs, &live{r, recModel{part: streams.AutoAssign}})
			if op.Op == "new" {
				continue
			}
		}
		l := rs[op.I%len(rs)]
		r, m := l.r, &l.m
		switch op.Op {
		case "key":
			switch op.N {
			case 0:
				r.WriteKey(op.B, op.C)
			case 1:
				r.WriteKeyString(string(op.B), string(op.C))
			case 2:
				l.r = r.WithKey(op.B, op.C)
			case 3:
				l.r = r.WithKeyString(string(op.B), string(op.C))
			case 4:
				r.KeyWriter().Write(op.B)
				r.KeyWriter().Write(op.C)
			}
			m.key = append(append(m.key, op.B...), op.C...)
		case "val":
			switch op.N {
			case 0:
				r.WriteValue(op.B, op.C)
			case 1:
				r.WriteValueString(string(op.B), string(op.C))
			case 2, 3:
				l.r = r.WithValue(op.B, op.C)
			case 4:
				r.ValueWriter().Write(op.B)
				r.ValueWriter().Write(op.C)
			}
			m.val = append(append(m.val, op.B...), op.C...)
		case "header":
			l.r = r.WithHeader(op.S, append([]byte{}, op.B...))
			m.hs = append(m.hs, [2]string{op.S, string(op.B)})
		case "type":
			l.r = r.WithRecordType(op.S)
			m.typ = op.S
		case "topic":
			l.r = r.WithTopic(op.S)
			m.topic = op.S
		case "part":
			l.r = r.WithPartition(op.N)
			m.part = op.N
		case "kafka", "incoming":
			convs++
			w := *m
			w.key, w.val = append([]byte(nil), m.key...), append([]byte(nil), m.val...)
			h := &held{want: w, hs: m.headers()}
			if op.Op == "kafka" {
				h.k = r.ToKafkaRecord()
			} else {
				in := r.AsIncomingRecord()
				h.in = &in
			}
			if s := h.check(); s != "" {
				o.fail("convert", "op %d: %s", i, s)
				return
			}
			hs = append(hs, h)
		case "flip", "addheader", "settype":
			// what is done to one conversion concerns nobody else
			if len(hs) == 0 {
				continue
			}
			h := hs[op.I%len(hs)]
			if h.k == nil {
				continue
			}
			switch op.Op {
			case "flip":
				for j := range h.k.Key {
					h.k.Key[j] ^= 0xff
					h.want.key[j] ^= 0xff
				}
				for j := range h.k.Value {
					h.k.Value[j] ^= 0xff
					h.want.val[j] ^= 0xff
				}
			case "addheader":
				h.k.Headers = append(h.k.Headers, kgo.RecordHeader{Key: op.S, Value: op.B})
				h.hs = append(h.hs, [2]string{op.S, string(op.B)})
			case "settype":
				streams.SetRecordType(h.k, op.S)
				h.hs = append(h.hs, [2]string{streams.RecordTypeHeaderKey, op.S})
			}
		case "release":
			if h := (&held{k: r.ToKafkaRecord(), want: *m, hs: m.headers()}); h.check() != "" {
				o.fail("contents", "op %d: at its release %s", i, h.check())
				return
			}
			released[r] = true
			r.Release()
			rs = append(rs[:op.I%len(rs)], rs[op.I%len(rs)+1:]...)
		}
		if tp := l.r.TopicPartition(); op.Op != "release" && (l.r != r || tp.Topic != m.topic || tp.Partition != m.part || !bytes.Equal(l.r.KeyWriter().Bytes(), m.key) || !bytes.Equal(l.r.ValueWriter().Bytes(), m.val)) {
			o.fail("contents", "op %d %s: the record is %v key %q value %q, want %+v", i, op.Op, tp, l.r.KeyWriter().Bytes(), l.r.ValueWriter().Bytes(), *m)
			return
		}
	}
	for _, l := range rs {
		h := held{k: l.r.ToKafkaRecord(), want: l.m, hs: l.m.headers()}
		if s := h.check(); s != "" {
			o.fail("contents", "at the end %s", s)
			return
		}
		l.r.Release()
	}
	for _, h := range hs {
		if s := h.check(); s != "" {
			o.fail("convert-changed", "a conversion changed later: %s", s)
			return
		}
	}
	o.NonT = convs > 1 && reused > 0
	o.stat("conversions", convs)
	o.stat("reused", reused)
}

// recordsReleased is (at least) the number of records in the pool
var recordsReleased int

func runRec(c recCase) (o Outcome) {
	// begin with an empty pool, so that a case depends on nothing that was before it
	for ; recordsReleased > 0; recordsReleased-- {
		streams.NewRecord()
	}
	for _, ops := range c.Threads {
		recordsReleased += len(ops) + 1
	}
	outs := make([]Outcome, len(c.Threads))
	var wg sync.WaitGroup
	for i := 1; i < len(c.Threads); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runRecThread(c.Threads[i], &outs[i])
		}()
	}
	runRecThread(c.Threads[0], &outs[0])
	wg.Wait()
	for _, x := range outs {
		o.NonT = o.NonT || x.NonT
		for k, n := range x.Stats {
			o.stat(k, n)
		}
		if o.Kind == "" {
			o.Kind, o.Msg = x.Kind, x.Msg
		}
	}
	return
}

func init() {
	reg("C14", "records", 200000, 2000000, "several conversions, and a record used again after its release", genRec, runRec)
}
