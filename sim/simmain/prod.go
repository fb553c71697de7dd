package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"verifsim/kfake"
	"verifsim/scen"
)

// Producers: records with arbitrary contents sent by every means, compared with what the broker stored.

type pstore struct{}

func (pstore) ReceiveChange(streams.IncomingRecord) error { return nil }
func (pstore) Revoked()                                   {}

type sent struct {
	id      string
	rec     *scen.ProdRec
	topic   string
	part    int32 // -1: any
	how     string
	from    time.Time
	until   time.Time
	calls   int
	err     error
	cbTP    streams.TopicPartition
	cbOff   int64
	noCB    bool
	found   bool
	pending bool
	may     bool // delivery is not certain (its outcome is an error)
}

type prodWorld struct {
	p       *scen.Prod
	c       *kfake.Cluster
	sents   []*sent
	es      *streams.EventSource[pstore]
	prods   []*streams.Producer
	bps     []*streams.BatchProducer[pstore]
	defT    []string
	pos     map[int32]int64
	cancels bool // (the client fails whole batches for one cancelled record)
}

const prodState = "gkes_change_log_pg_in"

func (w *prodWorld) topic(i int) string { return fmt.Sprintf("t%d", i) }

func orNil(b []byte) string {
	if len(b) == 0 {
		return "-"
	}
	return fmt.Sprintf("%q", b)
}

// content is everything but the partition; absent and empty are the same.
func content(topic string, key, val []byte, hs []kfake.Header, typ string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s key %s value %s type %q headers", topic, orNil(key), orNil(val), typ)
	for _, h := range hs {
		fmt.Fprintf(&b, " %q=%q", h.Key, h.Value)
	}
	return b.String()
}

func (s *sent) content() string {
	var hs []kfake.Header
	for _, h := range s.rec.Headers {
		hs = append(hs, kfake.Header{Key: h[0], Value: []byte(h[1])})
	}
	return content(s.topic, s.rec.Key, s.rec.Val, hs, s.rec.Type)
}

func recContent(topic string, r *kfake.Rec) string {
	var hs []kfake.Header
	typ, types := "", 0
	for _, h := range r.Headers {
		if h.Key == streams.RecordTypeHeaderKey {
			typ = string(h.Value)
			types++
		} else {
			hs = append(hs, h)
		}
	}
	if types > 1 {
		typ = fmt.Sprintf("%s (%d type headers)", typ, types)
	}
	return content(topic, r.Key, r.Value, hs, typ)
}

// write writes b by one of the functions for it.
func write(how int, b []byte, chunks bool, w1 func(...[]byte), w2 func(...string), w3 func(...[]byte), w4 func(...string), buf *bytes.Buffer) {
	if b == nil {
		return
	}
	bs, ss := [][]byte{b}, []string{string(b)}
	if chunks {
		n := len(b) / 2
		bs, ss = [][]byte{b[:n], b[n:]}, []string{string(b[:n]), string(b[n:])}
	}
	switch how {
	case 0:
		w1(bs...)
	case 1:
		w2(ss...)
	case 2:
		w3(bs...)
	case 3:
		w4(ss...)
	default:
		for _, x := range bs {
			buf.Write(x)
		}
	}
}

// entry makes a change log entry by the public API.
func entry(rec *scen.ProdRec) (e streams.ChangeLogEntry) {
	typ := rec.Type != ""
	switch {
	case rec.Item == nil:
		e = streams.NewChangeLogEntry()
		write(rec.ValHow, rec.Val, rec.Chunks, e.WriteValue, e.WriteValueString, func(b ...[]byte) { e = e.WithValue(b...) }, e.WriteValueString, e.ValueWriter())
	case rec.ValHow%3 == 0:
		e = streams.EncodeJsonChangeLogEntryValue(rec.Type, *rec.Item)
		typ = false
	default:
		var err error
		if rec.ValHow%3 == 1 {
			e, err = streams.CreateJsonChangeLogEntry(*rec.Item)
		} else {
			e, err = streams.CreateChangeLogEntry[scen.Item](*rec.Item, streams.JsonCodec[scen.Item]{})
		}
		if err != nil {
			viol("convert", []string{"C14"}, "creating a change log entry of %+v: %v", *rec.Item, err)
		}
	}
	write(rec.KeyHow, rec.Key, rec.Chunks, e.WriteKey, e.WriteKeyString, func(b ...[]byte) { e = e.WithKey(b...) }, func(b ...string) { e = e.WithKeyString(b...) }, e.KeyWriter())
	for _, h := range rec.Headers {
		e = e.WithHeader(h[0], []byte(h[1]))
	}
	if typ {
		e = e.WithEntryType(rec.Type)
	}
	return e
}

// build makes a record by the public API.
func (w *prodWorld) build(rec *scen.ProdRec, topic string) *streams.Record {
	r := streams.NewRecord()
	if tp := r.TopicPartition(); tp.Topic != "" || tp.Partition != streams.AutoAssign || r.Error() != nil || r.KeyWriter().Len() != 0 || r.ValueWriter().Len() != 0 {
		viol("leak", []string{"C14"}, "NewRecord returned a record with topic %q partition %d error %v key %q value %q", tp.Topic, tp.Partition, r.Error(), r.KeyWriter().Bytes(), r.ValueWriter().Bytes())
	}
	if k := r.ToKafkaRecord(); k.Key != nil || k.Value != nil || len(k.Headers) != 0 || !k.Timestamp.IsZero() || k.Offset != 0 {
		viol("leak", []string{"C14"}, "NewRecord returned a record with contents: %+v", k)
	}
	if rec.Item != nil {
		if rec.ValHow%2 == 0 {
			r.Release()
		}
		r = streams.JsonItemEncoder(rec.Type, *rec.Item)
	}
	if rec.Chunks || rec.Part >= 0 {
		r = r.WithPartition(rec.Part)
	}
	write(rec.KeyHow, rec.Key, rec.Chunks, r.WriteKey, r.WriteKeyString, func(b ...[]byte) { r = r.WithKey(b...) }, func(b ...string) { r = r.WithKeyString(b...) }, r.KeyWriter())
	if rec.Item == nil {
		write(rec.ValHow, rec.Val, rec.Chunks, r.WriteValue, r.WriteValueString, func(b ...[]byte) { r = r.WithValue(b...) }, r.WriteValueString, r.ValueWriter())
	}
	for _, h := range rec.Headers {
		r = r.WithHeader(h[0], []byte(h[1]))
	}
	if rec.Type != "" {
		r = r.WithRecordType(rec.Type)
	}
	if topic != "" {
		r = r.WithTopic(topic)
	}
	if rec.Conv {
		w.convert(r, rec, topic)
	}
	return r
}

func (w *prodWorld) convert(r *streams.Record, rec *scen.ProdRec, topic string) {
	want := (&sent{rec: rec, topic: topic}).content()
	ofKgo := func(k *kgo.Record) string {
		kr := &kfake.Rec{Key: k.Key, Value: k.Value}
		for _, h := range k.Headers {
			kr.Headers = append(kr.Headers, kfake.Header{Key: h.Key, Value: h.Value})
		}
		return recContent(k.Topic, kr)
	}
	k := r.ToKafkaRecord()
	if g := ofKgo(k); g != want || k.Partition != rec.Part {
		viol("convert", []string{"C14"}, "ToKafkaRecord gives partition %d %s, want %d %s", k.Partition, g, rec.Part, want)
	}
	// the copy is independent of the record
	for i := range k.Key {
		k.Key[i] ^= 0xff
	}
	for i := range k.Value {
		k.Value[i] ^= 0xff
	}
	k.Headers = append(k.Headers, kgo.RecordHeader{Key: "x", Value: []byte("y")})
	in := r.AsIncomingRecord()
	ik := &kgo.Record{Topic: in.TopicPartition().Topic, Key: in.Key(), Value: in.Value(), Headers: in.Headers()}
	if g := ofKgo(ik); g != want || in.RecordType() != rec.Type || in.TopicPartition().Partition != rec.Part {
		viol("convert", []string{"C14"}, "AsIncomingRecord gives partition %d type %q %s, want %d %q %s", in.TopicPartition().Partition, in.RecordType(), g, rec.Part, rec.Type, want)
	}
	for _, h := range rec.Headers {
		first := ""
		for _, g := range rec.Headers {
			if g[0] == h[0] {
				first = g[1]
				break
			}
		}
		if string(in.HeaderValue(h[0])) != first {
			viol("convert", []string{"C14"}, "HeaderValue(%q) of AsIncomingRecord is %q, want %q", h[0], in.HeaderValue(h[0]), first)
		}
	}
}

func (w *prodWorld) send(how string, rec *scen.ProdRec, defTopic string) (*sent, string) {
	set := ""
	if rec.Topic >= 0 {
		set = w.topic(rec.Topic)
	}
	s := &sent{id: strconv.Itoa(len(w.sents)), rec: rec, topic: set, how: how, from: time.Now(), part: rec.Part, pending: true}
	if set == "" {
		s.topic = defTopic
	}
	if n, err := strconv.Atoi(strings.TrimPrefix(s.topic, "t")); s.part < 0 && len(rec.Key) > 0 && err == nil {
		s.part = scen.JavaPartition(rec.Key, w.p.Parts[n])
	}
	w.sents = append(w.sents, s)
	return s, set
}

func (w *prodWorld) handle(ec *streams.EventContext[pstore], r streams.IncomingRecord) streams.ExecutionState {
	n, _ := strconv.Atoi(string(r.Value()))
	op := &w.p.Ops[n]
	switch op.Op {
	case "forward", "change":
		do := func() {
			for i := range op.Recs {
				rec := &op.Recs[i]
				if op.Op == "change" {
					s, _ := w.send("change", rec, prodState)
					s.topic, s.part = prodState, r.TopicPartition().Partition
					ec.RecordChange(entry(rec))
					continue
				}
				_, set := w.send("forward", rec, "")
				ec.Forward(w.build(rec, set))
			}
		}
		if op.Async {
			go func() {
				time.Sleep(ms(op.Ms))
				ec.AsyncJobComplete(func() streams.ExecutionState { do(); return streams.Complete })
			}()
			return streams.Incomplete
		}
		do()
		return streams.Complete
	}
	// batch
	b := op.Prod % len(w.bps)
	var recs []*streams.Record
	var ss []*sent
	for i := range op.Recs {
		s, set := w.send("batch", &op.Recs[i], w.defT[b])
		s.noCB = op.NoCB
		ss = append(ss, s)
		recs = append(recs, w.build(&op.Recs[i], set))
	}
	calls := 0
	cb := func(_ *streams.EventContext[pstore], rs []*streams.Record, _ any) streams.ExecutionState {
		if calls++; calls > 1 || len(rs) != len(ss) {
			viol("bp-callback", []string{"C26", "C14"}, "batch callback of op %d: call %d with %d records of %d", n, calls, len(rs), len(ss))
			return streams.Complete
		}
		for i, r := range rs {
			w.outcome(ss[i], r, r.Error())
		}
		return streams.Complete
	}
	if op.NoCB {
		return w.bps[b].Produce(ec, recs, nil, nil)
	}
	return w.bps[b].Produce(ec, recs, cb, nil)
}

// outcome: the callback of a record
func (w *prodWorld) outcome(s *sent, r *streams.Record, err error) {
	s.calls++
	if s.calls > 1 {
		viol("callback-twice", []string{"C14", "C26"}, "record %s (%s): callback %d, error %v", s.id, s.how, s.calls, err)
		return
	}
	s.err, s.until, s.pending = err, time.Now(), false
	if err == nil {
		stat("ok", 1)
		s.cbTP, s.cbOff = r.TopicPartition(), r.Offset()
		w.c.Lock()
		defer w.c.Unlock()
		t := w.c.TopicLocked(s.cbTP.Topic)
		var at *kfake.Rec
		if t != nil && s.cbTP.Partition >= 0 && int(s.cbTP.Partition) < len(t.Parts) {
			for _, b := range t.Parts[s.cbTP.Partition].Batches {
				for _, x := range b.Recs {
					if x.Offset == s.cbOff {
						at = x
					}
				}
			}
		}
		if at == nil {
			viol("outcome", []string{"C14", "C26"}, "record %s (%s) called back without error, but it is not at %v offset %d", s.id, s.how, s.cbTP, s.cbOff)
		} else if g := recContent(s.cbTP.Topic, at); g != s.content() {
			viol("outcome", []string{"C14", "C26"}, "record %s (%s) called back with %v offset %d where %s is, not %s", s.id, s.how, s.cbTP, s.cbOff, g, s.content())
		}
	} else {
		stat("errors", 1)
		s.may = true
		if len(w.p.Faults) == 0 && s.how != "closed" && !w.cancels {
			viol("unexpected-error", []string{"C14", "C26"}, "record %s (%s): error %v although nothing failed", s.id, s.how, err)
		}
	}
}

func runProd(p *scen.Prod) {
	w := &prodWorld{p: p, pos: map[int32]int64{}}
	w.c = kfake.New(brokerCfg(p.Broker))
	for _, f := range p.Faults {
		w.c.Faults = append(w.c.Faults, kfake.Fault{Inst: f.Inst, Key: f.Key, Nth: f.Nth, Count: f.Count, Kind: f.Kind, Code: f.Code, Delay: ms(f.DelayMs)})
	}
	w.c.OnTxnEnd = w.onTxnEnd
	w.c.Lock()
	w.c.CreateTopicLocked("in", 3, 1, map[string]string{})
	for i, n := range p.Parts {
		w.c.CreateTopicLocked(w.topic(i), n, 1, map[string]string{})
	}
	w.c.Unlock()
	main := w.c.NewClient("es")
	pc := w.c.NewClient("producers")
	bc := w.c.NewClient("batch producers")
	closed := map[int]bool{}
	for i := 0; i < 2; i++ {
		d := w.topic(i % len(p.Parts))
		w.defT = append(w.defT, d)
		w.prods = append(w.prods, streams.NewProducer(streams.Destination{DefaultTopic: d, Cluster: pc}))
		w.bps = append(w.bps, streams.NewBatchProducer[pstore](streams.Destination{DefaultTopic: d, Cluster: bc}))
	}
	events := false
	for _, o := range p.Ops {
		w.cancels = w.cancels || o.Cancel != 0
		events = events || o.Op == "forward" || o.Op == "batch" || o.Op == "change"
	}
	if events {
		es, err := streams.NewEventSource(streams.EventSourceConfig{GroupId: "pg", Topic: "in", NumPartitions: 3, SourceCluster: main, StateStoreTopic: prodState,
			EosConfig: streams.EosConfig{PoolSize: 3, PendingTxnCount: 2, TargetBatchSize: 10, MaxBatchSize: 100, BatchDelay: 5 * time.Millisecond}},
			func(streams.TopicPartition) pstore { return pstore{} }, w.handle, kgo.ConsumeResetOffset(kgo.NewOffset().AtStart()))
		if err != nil {
			viol("start", []string{"*"}, "NewEventSource: %v", err)
			return
		}
		w.es = es
		es.ConsumeEvents()
	}
	var wg sync.WaitGroup
	var subm [2]sync.WaitGroup
	for i := range p.Ops {
		i := i
		op := &p.Ops[i]
		switch op.Op {
		case "sleep":
			time.Sleep(ms(op.Ms))
		case "forward", "batch", "change":
			w.c.AppendPlain("in", int32(op.Part%3), &kfake.Rec{Key: []byte("k"), Value: []byte(strconv.Itoa(i))})
		case "waste": // records that are released without having been sent
			var rs []*streams.Record
			for j := range op.Recs {
				rs = append(rs, w.build(&op.Recs[j], "waste"))
			}
			for _, r := range rs {
				r.Release()
			}
		case "close":
			b := op.Prod % 2
			if !closed[b] { // (records may be in flight, but none is handed over from now on)
				subm[b].Wait()
				closed[b] = true
				w.prods[b].Close()
			}
		case "produce", "async":
			b := op.Prod % 2
			if closed[b] {
				continue
			}
			how := op.Op
			for j := b; j < len(w.p.Ops); j++ { // (records in flight when their producer is closed may fail)
				if o := w.p.Ops[j]; o.Op == "close" && o.Prod%2 == b {
					how = "closed"
				}
			}
			wg.Add(1)
			subm[b].Add(1)
			go func() {
				defer wg.Done()
				defer subm[b].Done()
				for j := range op.Recs {
					ctx, cancel := context.WithCancel(context.Background())
					h := how
					if op.Cancel != 0 {
						h = "cancelled"
						if op.Cancel < 0 {
							cancel()
						} else {
							time.AfterFunc(ms(op.Cancel), cancel)
						}
					}
					s, set := w.send(h, &op.Recs[j], w.defT[b])
					r := w.build(&op.Recs[j], set)
					if op.Op == "produce" {
						err := w.prods[b].Produce(ctx, r)
						w.outcome(s, r, err)
						if op.Release {
							r.Release()
						}
					} else if op.NoCB {
						s.noCB = true
						w.prods[b].ProduceAsync(ctx, r, nil)
					} else {
						w.prods[b].ProduceAsync(ctx, r, func(got *streams.Record, err error) {
							if got != r {
								viol("callback-record", []string{"C14", "C26"}, "record %s: callback with another record", s.id)
							}
							w.outcome(s, r, err)
							if op.Release && s.calls == 1 {
								r.Release()
							}
						})
					}
				}
			}()
		}
	}
	wg.Wait()
	// everything is delivered in the end
	t0 := time.Now()
	for time.Since(t0) < 120*time.Second {
		n := 0
		for _, s := range w.sents {
			if !s.noCB && s.pending && s.how != "forward" && s.how != "change" {
				n++
			}
		}
		w.c.Lock()
		processed := w.committed()
		w.c.Unlock()
		if n == 0 && processed && time.Since(t0) > 3*time.Second {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	for _, s := range w.sents {
		if !s.noCB && s.calls == 0 && s.how != "forward" && s.how != "change" {
			viol("no-callback", []string{"C14", "C26"}, "record %s (%s): its outcome was not reported within two minutes", s.id, s.how)
		}
	}
	w.c.Lock()
	if !w.committed() {
		viol("stuck", []string{"*"}, "events were not committed within two minutes")
	}
	w.compare()
	w.c.Unlock()
	if w.es != nil {
		w.es.Stop()
		select {
		case <-w.es.Done():
		case <-time.After(100 * time.Second):
		}
	}
}

// committed: every input event is covered by the commit log
func (w *prodWorld) committed() bool {
	for p, t := range w.c.TopicLocked("in").Parts {
		if w.es != nil && w.pos[int32(p)] < t.Next {
			return false
		}
	}
	return true
}

func (w *prodWorld) onTxnEnd(t *kfake.Txn) {
	if !t.Commit {
		stat("aborted", 1)
		return
	}
	stat("commits", 1)
	for _, tb := range t.Batches {
		if tb.TP.Topic != "gkes_commit_log_pg" {
			continue
		}
		for _, r := range tb.B.Recs {
			if len(r.Key) >= 8 && len(r.Value) == 8 {
				w.pos[int32(binary.LittleEndian.Uint64(r.Key[:8]))] = int64(binary.LittleEndian.Uint64(r.Value))
			}
		}
	}
}

// compare everything sent with everything visible
func (w *prodWorld) compare() {
	type arr struct {
		part int32
		r    *kfake.Rec
		used bool
	}
	exp := map[string][]*sent{}
	act := map[string][]*arr{}
	for _, s := range w.sents {
		if s.noCB && (s.how == "closed" || w.cancels || len(w.p.Faults) > 0) {
			s.may = true
		}
		exp[s.content()] = append(exp[s.content()], s)
	}
	for _, name := range w.c.TopicNamesLocked() {
		if !strings.HasPrefix(name, "t") && name != prodState {
			continue
		}
		for p := range w.c.TopicLocked(name).Parts {
			for _, r := range w.c.CommittedLocked(name, int32(p)) {
				if _, mk := r.Header("gkes__mark"); mk {
					continue
				}
				c := recContent(name, r)
				act[c] = append(act[c], &arr{part: int32(p), r: r})
			}
		}
	}
	var keys []string
	for c := range exp {
		keys = append(keys, c)
	}
	for c := range act {
		if len(exp[c]) == 0 {
			keys = append(keys, c)
		}
	}
	sort.Strings(keys)
	for _, c := range keys {
		from, until := time.Now(), start
		must := 0
		for _, s := range exp[c] {
			if s.from.Before(from) {
				from = s.from
			}
			u := s.until
			if u.IsZero() {
				u = time.Now()
			}
			if u.After(until) {
				until = u
			}
			if !s.may {
				must++
			}
		}
		if n := len(act[c]); n < must || n > len(exp[c]) {
			var hows []string
			for _, s := range exp[c] {
				hows = append(hows, s.how)
			}
			viol("delivery", []string{"C14"}, "sent %d to %d times (%v), delivered %d times: %.600s", must, len(exp[c]), hows, n, c)
			continue
		}
		for pass := 0; pass < 4; pass++ {
			for _, s := range exp[c] {
				if s.found || (pass < 2) == s.may || (pass%2 == 0) == (s.part < 0) {
					continue
				}
				for _, a := range act[c] {
					if !a.used && (s.part < 0 || s.part == a.part) {
						a.used, s.found = true, true
						break
					}
				}
				if !s.found && !s.may {
					props := []string{"C15"}
					if s.rec.Part >= 0 || s.how == "change" {
						props = []string{"C15", "C14"}
					}
					var got []int32
					for _, a := range act[c] {
						got = append(got, a.part)
					}
					viol("partition", props, "record %s (%s) given partition %d belongs on partition %d; delivered to %v: %.600s", s.id, s.how, s.rec.Part, s.part, got, c)
				} else if s.found && s.part >= 0 {
					stat("part_checked", 1)
					if s.rec.Part < 0 {
						stat("hash_checked", 1)
					}
				}
			}
		}
		for _, a := range act[c] {
			if a.r.Timestamp < from.UnixMilli() || a.r.Timestamp > until.UnixMilli() {
				viol("timestamp", []string{"C14"}, "timestamp %d outside of %d..%d, when it was sent: %.600s", a.r.Timestamp, from.UnixMilli(), until.UnixMilli(), c)
			}
			if a.r.Key != nil && len(a.r.Key) == 0 {
				viol("empty-key", []string{"C14"}, "a record without key was delivered with an empty one (%s): %.600s", exp[c][0].how, c)
			}
			stat("delivered", 1)
		}
	}
}
