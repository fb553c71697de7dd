// Package kfake is an in-memory Kafka cluster used as the environment of the
// simulations: it speaks the wire protocol over in-memory connections.
package kfake

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"time"

	"github.com/twmb/franz-go/pkg/kmsg"
)

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

type Header struct {
	Key   string
	Value []byte
}

// Rec is one record of a partition log.
type Rec struct {
	Offset    int64
	Timestamp int64
	Key       []byte
	Value     []byte
	Headers   []Header
	PID       int64
	Txn       *Txn // nil when not transactional
	Control   bool
}

func (r *Rec) Header(k string) ([]byte, bool) {
	for _, h := range r.Headers {
		if h.Key == k {
			return h.Value, true
		}
	}
	return nil, false
}

// Batch is a stored record batch.
type Batch struct {
	Base, Last int64
	PID        int64
	Epoch      int16
	Seq        int32
	Num        int32
	Txn        *Txn
	Control    bool
	Inst       *Client
	Recs       []*Rec
	raw        []byte
}

func parseBatch(raw []byte) (rb kmsg.RecordBatch, recs []*Rec, err error) {
	if len(raw) < 61 {
		return rb, nil, fmt.Errorf("short batch (%d)", len(raw))
	}
	if err = rb.ReadFrom(raw); err != nil {
		return
	}
	if rb.Magic != 2 {
		return rb, nil, fmt.Errorf("magic %d", rb.Magic)
	}
	if int(rb.Length) != len(raw)-12 {
		return rb, nil, fmt.Errorf("length %d for %d bytes", rb.Length, len(raw))
	}
	if crc := crc32.Checksum(raw[21:], castagnoli); int32(crc) != rb.CRC {
		return rb, nil, fmt.Errorf("bad crc")
	}
	if rb.Attributes&7 != 0 {
		return rb, nil, fmt.Errorf("compressed batches are not supported by kfake")
	}
	data := rb.Records
	for i := int32(0); i < rb.NumRecords; i++ {
		l, n := binary.Varint(data)
		if n <= 0 || int(l) > len(data)-n || l < 0 {
			return rb, nil, fmt.Errorf("bad record length")
		}
		var kr kmsg.Record
		if err = kr.ReadFrom(data[:n+int(l)]); err != nil {
			return
		}
		data = data[n+int(l):]
		r := &Rec{Offset: int64(kr.OffsetDelta), Timestamp: rb.FirstTimestamp + int64(kr.TimestampDelta), Key: kr.Key, Value: kr.Value, PID: rb.ProducerID}
		for _, h := range kr.Headers {
			r.Headers = append(r.Headers, Header{h.Key, h.Value})
		}
		recs = append(recs, r)
	}
	return
}

func vlen(x int64) int {
	var b [10]byte
	return binary.PutVarint(b[:], x)
}

func appendVarBytes(dst, b []byte) []byte {
	if b == nil {
		return binary.AppendVarint(dst, -1)
	}
	dst = binary.AppendVarint(dst, int64(len(b)))
	return append(dst, b...)
}

// encodeBatch builds a v2 batch from recs (offsets absolute, base given).
func encodeBatch(base, last int64, pid int64, epoch int16, seq int32, attrs int16, recs []*Rec) []byte {
	firstTs, maxTs := int64(0), int64(0)
	for i, r := range recs {
		if i == 0 {
			firstTs, maxTs = r.Timestamp, r.Timestamp
		}
		if r.Timestamp > maxTs {
			maxTs = r.Timestamp
		}
	}
	var body []byte
	for _, r := range recs {
		var rb []byte
		rb = append(rb, 0)
		rb = binary.AppendVarint(rb, r.Timestamp-firstTs)
		rb = binary.AppendVarint(rb, r.Offset-base)
		rb = appendVarBytes(rb, r.Key)
		rb = appendVarBytes(rb, r.Value)
		rb = binary.AppendVarint(rb, int64(len(r.Headers)))
		for _, h := range r.Headers {
			rb = binary.AppendVarint(rb, int64(len(h.Key)))
			rb = append(rb, h.Key...)
			rb = appendVarBytes(rb, h.Value)
		}
		body = binary.AppendVarint(body, int64(len(rb)))
		body = append(body, rb...)
	}
	be := binary.BigEndian
	out := make([]byte, 61, 61+len(body))
	be.PutUint64(out[0:], uint64(base))
	be.PutUint32(out[8:], uint32(49+len(body)))
	be.PutUint32(out[12:], 0) // leader epoch
	out[16] = 2
	be.PutUint16(out[21:], uint16(attrs))
	be.PutUint32(out[23:], uint32(last-base))
	be.PutUint64(out[27:], uint64(firstTs))
	be.PutUint64(out[35:], uint64(maxTs))
	be.PutUint64(out[43:], uint64(pid))
	be.PutUint16(out[51:], uint16(epoch))
	be.PutUint32(out[53:], uint32(seq))
	be.PutUint32(out[57:], uint32(len(recs)))
	out = append(out, body...)
	be.PutUint32(out[17:], crc32.Checksum(out[21:], castagnoli))
	return out
}

func controlBatch(off int64, pid int64, epoch int16, commit bool) *Batch {
	key := []byte{0, 0, 0, 0}
	if commit {
		key[3] = 1
	}
	rec := &Rec{Offset: off, Timestamp: time.Now().UnixMilli(), Key: key, Value: []byte{0, 0, 0, 0, 0, 0}, PID: pid, Control: true}
	return &Batch{Base: off, Last: off, PID: pid, Epoch: epoch, Seq: -1, Num: 1, Control: true, Recs: []*Rec{rec},
		raw: encodeBatch(off, off, pid, epoch, -1, 0x30, []*Rec{rec})}
}
