package props

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/aws/go-kafka-event-source/streams"
	"pgregory.net/rapid"
)

// ---- C16: codecs

type jInner struct {
	S string            `json:"s"`
	M map[string]int64  `json:"m,omitempty"`
	B []byte            `json:"b"`
	P *float64          `json:"p"`
	L []jInner          `json:"l,omitempty"`
	T map[string]string `json:"t"`
}
type jOuter struct {
	ID   string
	N    int64
	U    uint32
	F    float64
	Ok   bool
	In   jInner
	Ptr  *jInner `json:"ptr,omitempty"`
	List []string
	I8   int8
}

type codecVal struct {
	Codec string // int int64 int32 lexo string bytes jint jstr jouter jptr jslice jmap jbool jfloat jany
	I     int64
	S     string
	B     []byte
	O     jOuter
	F     float64
	Ss    []string
	M     map[string]jInner
}

type codecCase struct {
	Vals  []codecVal
	Gor   int // >0: concurrently by this many goroutines
	Share bool
}

// edgeInt draws integers with weight on powers of two, byte boundaries and extremes.
func edgeInt() *rapid.Generator[int64] {
	return rapid.Custom(func(t *rapid.T) int64 {
		switch rapid.IntRange(0, 5).Draw(t, "ik") {
		case 0:
			return rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt64 - 1, 255, 256, -255, -256, 257, 65535, 65536}).Draw(t, "ie")
		case 1:
			sh := rapid.IntRange(0, 63).Draw(t, "sh")
			d := rapid.Int64Range(-2, 2).Draw(t, "d")
			v := int64(uint64(1) << sh)
			if rapid.Bool().Draw(t, "neg") {
				v = -v
			}
			return v + d
		case 2:
			return rapid.Int64Range(-300, 300).Draw(t, "is")
		default:
			return rapid.Int64().Draw(t, "i")
		}
	})
}

func genInner(t *rapid.T, d int) jInner {
	in := jInner{S: rapid.String().Draw(t, "s"), B: rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "b")}
	if rapid.Bool().Draw(t, "hm") {
		in.M = rapid.MapOfN(rapid.StringN(0, 4, -1), edgeInt(), 0, 3).Draw(t, "m")
	}
	if rapid.Bool().Draw(t, "hp") {
		f := rapid.Float64().Draw(t, "p")
		in.P = &f
	}
	in.T = rapid.MapOfN(rapid.StringN(0, 4, -1), rapid.String(), 0, 2).Draw(t, "t")
	if d < 2 {
		for i := rapid.IntRange(0, 2).Draw(t, "nl"); i > 0; i-- {
			in.L = append(in.L, genInner(t, d+1))
		}
	}
	return in
}

func genOuter(t *rapid.T) jOuter {
	o := jOuter{ID: rapid.String().Draw(t, "id"), N: edgeInt().Draw(t, "n"), U: rapid.Uint32().Draw(t, "u"), F: rapid.Float64().Draw(t, "f"), Ok: rapid.Bool().Draw(t, "ok"),
		In: genInner(t, 0), List: rapid.SliceOfN(rapid.String(), 0, 3).Draw(t, "list"), I8: rapid.Int8().Draw(t, "i8")}
	if rapid.Bool().Draw(t, "ptr") {
		in := genInner(t, 1)
		o.Ptr = &in
	}
	return o
}

var codecKinds = []string{"int", "int64", "int32", "lexo", "lexo", "string", "bytes", "jint", "jstr", "jouter", "jouter", "jptr", "jslice", "jmap", "jbool", "jfloat", "item"}

func genCodecVal(t *rapid.T) codecVal {
	v := codecVal{Codec: rapid.SampledFrom(codecKinds).Draw(t, "codec")}
	switch v.Codec {
	case "int", "int64", "lexo", "jint":
		v.I = edgeInt().Draw(t, "i")
	case "int32":
		v.I = int64(int32(edgeInt().Draw(t, "i")))
	case "string", "jstr":
		v.S = rapid.String().Draw(t, "s")
	case "bytes":
		v.B = rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, "b")
	case "jouter", "jptr", "item":
		v.O = genOuter(t)
		v.S = rapid.String().Draw(t, "type")
	case "jslice":
		v.Ss = rapid.SliceOfN(rapid.String(), 0, 5).Draw(t, "ss")
	case "jmap":
		v.M = map[string]jInner{}
		for i := rapid.IntRange(0, 3).Draw(t, "nm"); i > 0; i-- {
			v.M[rapid.String().Draw(t, "mk")] = genInner(t, 1)
		}
	case "jfloat":
		v.F = rapid.Float64().Draw(t, "f")
	}
	return v
}

// rt encodes v behind whatever is in buf already and returns a function that decodes and compares.
func rt[T any](buf *bytes.Buffer, c streams.Codec[T], v T, isJSON bool) func() string {
	at := buf.Len()
	pre := append([]byte(nil), buf.Bytes()...)
	if err := c.Encode(buf, v); err != nil {
		return func() string { return fmt.Sprintf("encoding %#v: %v", v, err) }
	}
	if !bytes.Equal(pre, buf.Bytes()[:at]) {
		return func() string { return "encoding changed bytes that were already in the buffer" }
	}
	end := buf.Len()
	want := append([]byte(nil), buf.Bytes()[at:end]...)
	return func() string {
		enc := append([]byte(nil), buf.Bytes()[at:end]...)
		if !bytes.Equal(enc, want) {
			return fmt.Sprintf("the encoding of %#v was changed by encodings after it", v)
		}
		got, err := c.Decode(enc)
		if err != nil {
			return fmt.Sprintf("decoding the encoding %q of %#v: error %v", enc, v, err)
		}
		if _, raw := any(v).([]byte); !raw {
			for i := range enc {
				enc[i] ^= 0x15 // the decoded value must not live in the input
			}
		}
		if !eqVal(got, v) {
			return fmt.Sprintf("decoded %#v from the encoding %q of %#v", got, want, v)
		}
		if isJSON {
			var x T
			if err := stdjson.Unmarshal(want, &x); err != nil {
				return fmt.Sprintf("encoding %q of %#v is not JSON: %v", want, v, err)
			}
			if !eqVal(x, v) {
				return fmt.Sprintf("encoding %q means %#v, encoded was %#v", want, x, v)
			}
		}
		return ""
	}
}

// eqVal compares what JSON can represent: empty and nil slices of bytes and maps are the same value.
func eqVal(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	x, e1 := stdjson.Marshal(a)
	y, e2 := stdjson.Marshal(b)
	norm := func(s []byte) string {
		s = bytes.ReplaceAll(s, []byte(`:null`), []byte(`:""`))
		s = bytes.ReplaceAll(s, []byte(`:{}`), []byte(`:""`))
		s = bytes.ReplaceAll(s, []byte(`:[]`), []byte(`:""`))
		if len(s) == 4 && string(s) == "null" || string(s) == "[]" || string(s) == "{}" {
			return `""`
		}
		return string(s)
	}
	return e1 == nil && e2 == nil && norm(x) == norm(y)
}

func codecOne(buf *bytes.Buffer, v codecVal) func() string {
	switch v.Codec {
	case "int":
		return rt[int](buf, streams.IntCodec, int(v.I), false)
	case "int64":
		return rt[int64](buf, streams.Int64Codec, v.I, false)
	case "int32":
		return rt[int32](buf, streams.Int32Codec, int32(v.I), false)
	case "lexo":
		return rt[int64](buf, streams.LexoInt64Codec, v.I, false)
	case "string":
		return rt[string](buf, streams.StringCodec, v.S, false)
	case "bytes":
		return rt[[]byte](buf, streams.ByteCodec, v.B, false)
	case "jint":
		return rt[int64](buf, streams.JsonCodec[int64]{}, v.I, true)
	case "jstr":
		return rt[string](buf, streams.JsonCodec[string]{}, v.S, true)
	case "jouter":
		return rt[jOuter](buf, streams.JsonCodec[jOuter]{}, v.O, true)
	case "jptr":
		return rt[*jOuter](buf, streams.JsonCodec[*jOuter]{}, &v.O, true)
	case "jslice":
		return rt[[]string](buf, streams.JsonCodec[[]string]{}, v.Ss, true)
	case "jmap":
		return rt[map[string]jInner](buf, streams.JsonCodec[map[string]jInner]{}, v.M, true)
	case "jbool":
		return rt[bool](buf, streams.JsonCodec[bool]{}, v.I%2 == 0, true)
	case "jfloat":
		return rt[float64](buf, streams.JsonCodec[float64]{}, v.F, true)
	case "item": // the convenience functions for records and change entries
		r := streams.JsonItemEncoder(v.S, v.O)
		c1 := streams.EncodeJsonChangeLogEntryValue(v.S, v.O)
		c2, err := streams.CreateJsonChangeLogEntry(v.O)
		return func() string {
			if err != nil {
				return "CreateJsonChangeLogEntry: " + err.Error()
			}
			in := r.AsIncomingRecord()
			if in.RecordType() != v.S {
				return fmt.Sprintf("JsonItemEncoder(%q): record type %q", v.S, in.RecordType())
			}
			got, err := streams.JsonItemDecoder[jOuter](in)
			if err != nil || !eqVal(got, v.O) {
				return fmt.Sprintf("JsonItemDecoder(JsonItemEncoder(%#v)) = %#v, %v", v.O, got, err)
			}
			for _, c := range []streams.ChangeLogEntry{c1, c2} {
				got, err := streams.JsonCodec[jOuter]{}.Decode(c.ValueWriter().Bytes())
				if err != nil || !eqVal(got, v.O) {
					return fmt.Sprintf("JSON change log entry of %#v decodes to %#v, %v", v.O, got, err)
				}
			}
			return ""
		}
	}
	panic("codec " + v.Codec)
}

func runCodec(c codecCase) (o Outcome) {
	o.NonT = len(c.Vals) >= 2
	work := func(vals []codecVal) string {
		var buf bytes.Buffer
		var checks []func() string
		for _, v := range vals {
			checks = append(checks, codecOne(&buf, v))
		}
		for _, f := range checks {
			if m := f(); m != "" {
				return m
			}
		}
		return ""
	}
	if c.Gor == 0 {
		if m := work(c.Vals); m != "" {
			o.fail("roundtrip", "%s", m)
		}
		return
	}
	var wg sync.WaitGroup
	res := make([]string, c.Gor)
	for g := 0; g < c.Gor; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					res[g] = fmt.Sprint("panic: ", r)
				}
			}()
			vals := append(append([]codecVal(nil), c.Vals[g%len(c.Vals):]...), c.Vals[:g%len(c.Vals)]...)
			for k := 0; k < 8 && res[g] == ""; k++ {
				res[g] = work(vals)
			}
		}(g)
	}
	wg.Wait()
	for _, m := range res {
		if m != "" {
			o.fail("concurrent", "%s", m)
		}
	}
	return
}

type lexoCase struct{ Vals []int64 }

func runLexo(c lexoCase) (o Outcome) {
	type e struct {
		v int64
		b []byte
	}
	var es []e
	seen := map[int64]bool{}
	for _, v := range c.Vals {
		var buf bytes.Buffer
		if err := streams.LexoInt64Codec.Encode(&buf, v); err != nil {
			o.fail("encode", "%d: %v", v, err)
			return
		}
		es = append(es, e{v, append([]byte(nil), buf.Bytes()...)})
		seen[v] = true
		if got, err := streams.LexoInt64Codec.Decode(buf.Bytes()); err != nil || got != v {
			o.fail("roundtrip", "Decode(Encode(%d)) = %d, %v", v, got, err)
			return
		}
		if len(buf.Bytes()) != streams.LexInt64Size {
			o.fail("size", "encoding of %d has %d bytes, not %d", v, buf.Len(), streams.LexInt64Size)
			return
		}
		for _, n := range []int{0, 1, streams.LexInt64Size - 1} {
			if _, err := streams.LexoInt64Codec.Decode(buf.Bytes()[:n]); err == nil {
				o.fail("malformed", "Decode of %d bytes gave no error", n)
			}
		}
		if _, err := streams.LexoInt64Codec.Decode(append(buf.Bytes(), 0)); err == nil {
			o.fail("malformed", "Decode of %d bytes gave no error", streams.LexInt64Size+1)
		}
	}
	o.NonT = len(seen) >= 2
	for _, a := range es {
		for _, b := range es {
			if (a.v < b.v) != (bytes.Compare(a.b, b.b) < 0) {
				o.fail("order", "%d < %d is %v, but encodings %x and %x compare %d", a.v, b.v, a.v < b.v, a.b, b.b, bytes.Compare(a.b, b.b))
				return
			}
		}
	}
	sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i].b, es[j].b) < 0 })
	for i := 1; i < len(es); i++ {
		if es[i-1].v > es[i].v {
			o.fail("order", "sorting the encodings puts %d before %d", es[i-1].v, es[i].v)
		}
	}
	return
}

type malCase struct {
	Type string
	In   []byte
}

func decErr[T any](b []byte) (codec error, std error) {
	_, codec = streams.JsonCodec[T]{}.Decode(append([]byte(nil), b...))
	var x T
	std = stdjson.Unmarshal(b, &x)
	return
}

func genMal(t *rapid.T) malCase {
	c := malCase{Type: rapid.SampledFrom([]string{"outer", "int", "string", "slice", "map", "bool"}).Draw(t, "type")}
	var v any
	switch c.Type {
	case "outer":
		v = genOuter(t)
	case "int":
		v = edgeInt().Draw(t, "v")
	case "string":
		v = rapid.StringMatching(`[a-z0-9\\"{}]*`).Draw(t, "v")
	case "slice":
		v = rapid.SliceOfN(rapid.StringMatching(`[a-z]*`), 1, 4).Draw(t, "v")
	case "map":
		v = rapid.MapOfN(rapid.StringMatching(`[a-z]*`), edgeInt(), 1, 4).Draw(t, "v")
	case "bool":
		v = true
	}
	b, _ := stdjson.Marshal(v)
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0: // cut short
		b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
	case 1: // a structural byte replaced or deleted
		var at []int
		for i, ch := range b {
			if bytes.IndexByte([]byte(`{}[]:,"`), ch) >= 0 {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := rapid.SampledFrom(at).Draw(t, "at")
			if rapid.Bool().Draw(t, "del") {
				b = append(append([]byte(nil), b[:i]...), b[i+1:]...)
			} else {
				b = append([]byte(nil), b...)
				b[i] = rapid.SampledFrom([]byte(`{}[]:," x`)).Draw(t, "by")
			}
		}
	case 2: // bytes appended
		b = append(append([]byte(nil), b...), rapid.SliceOfN(rapid.SampledFrom([]byte(`{}[]:,"x1 `)), 1, 4).Draw(t, "tail")...)
	case 3: // the wrong type, or noise
		b = rapid.OneOf(rapid.SampledFrom([][]byte{[]byte(`"x"`), []byte(`[1]`), []byte(`{}`), []byte(`{"N":"x"}`), []byte(`tru`), []byte(``), []byte(`nul`), []byte("\xff\xfe"), []byte(`{"In":[]}`), []byte(`99999999999999999999`), []byte(`{"I8":300}`)}),
			rapid.SliceOfN(rapid.ByteRange(1, 255), 0, 12)).Draw(t, "noise")
	}
	c.In = b
	return c
}

func runMal(c malCase) (o Outcome) {
	var e, std error
	switch c.Type {
	case "outer":
		e, std = decErr[jOuter](c.In)
	case "int":
		e, std = decErr[int64](c.In)
	case "string":
		e, std = decErr[string](c.In)
	case "slice":
		e, std = decErr[[]string](c.In)
	case "map":
		e, std = decErr[map[string]int64](c.In)
	case "bool":
		e, std = decErr[bool](c.In)
	}
	o.NonT = std != nil
	if std != nil && strings.Contains(std.Error(), "cannot unmarshal number") {
		return // well-formed: the JSON library is not relied on to notice every overflow
	}
	if std != nil && e == nil {
		o.fail("malformed", "decoding %q as %s gave no error (encoding/json: %v)", c.In, c.Type, std)
	}
	if std == nil && e != nil {
		o.fail("rejected", "decoding the valid %q as %s gave the error %v", c.In, c.Type, e)
	}
	return
}

func init() {
	reg("C16", "roundtrip", 300000, 1500000, "at least two values went through one buffer", func(t *rapid.T) codecCase {
		return codecCase{Vals: rapid.SliceOfN(rapid.Custom(genCodecVal), 1, 6).Draw(t, "vals")}
	}, runCodec)
	reg("C16", "concurrent", 12000, 100000, "at least two values, several goroutines sharing the codecs", func(t *rapid.T) codecCase {
		return codecCase{Vals: rapid.SliceOfN(rapid.Custom(genCodecVal), 2, 6).Draw(t, "vals"), Gor: rapid.IntRange(2, 6).Draw(t, "gor")}
	}, runCodec)
	reg("C16", "lexo", 1000000, 2000000, "at least two different integers were compared", func(t *rapid.T) lexoCase {
		return lexoCase{rapid.SliceOfN(edgeInt(), 1, 12).Draw(t, "vals")}
	}, runLexo)
	reg("C16", "malformed", 1000000, 2000000, "encoding/json, too, rejects the input", genMal, runMal)
}
