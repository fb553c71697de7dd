package kfake

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// ---- buffered in-memory connection ----

type half struct {
	mu     sync.Mutex
	buf    []byte
	closed bool
	wake   chan struct{}
}

func newHalf() *half { return &half{wake: make(chan struct{}, 1)} }
func (h *half) kick() {
	select {
	case h.wake <- struct{}{}:
	default:
	}
}

type memConn struct {
	in, out *half
	dmu     sync.Mutex
	rdl     time.Time
	rdlCh   chan struct{}
	name    string
	once    sync.Once
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

func newPair(a, b string) (*memConn, *memConn) {
	x, y := newHalf(), newHalf()
	return &memConn{in: x, out: y, rdlCh: make(chan struct{}), name: a}, &memConn{in: y, out: x, rdlCh: make(chan struct{}), name: b}
}

func (m *memConn) Read(p []byte) (int, error) {
	for {
		m.in.mu.Lock()
		if len(m.in.buf) > 0 {
			n := copy(p, m.in.buf)
			m.in.buf = m.in.buf[n:]
			m.in.mu.Unlock()
			return n, nil
		}
		closed := m.in.closed
		m.in.mu.Unlock()
		if closed {
			return 0, io.EOF
		}
		m.dmu.Lock()
		dl, ch := m.rdl, m.rdlCh
		m.dmu.Unlock()
		if dl.IsZero() {
			select {
			case <-m.in.wake:
			case <-ch:
			}
			continue
		}
		d := time.Until(dl)
		if d <= 0 {
			return 0, os.ErrDeadlineExceeded
		}
		t := time.NewTimer(d)
		select {
		case <-m.in.wake:
		case <-ch:
		case <-t.C:
		}
		t.Stop()
	}
}

func (m *memConn) Write(p []byte) (int, error) {
	m.out.mu.Lock()
	defer m.out.mu.Unlock()
	if m.out.closed {
		return 0, io.ErrClosedPipe
	}
	m.out.buf = append(m.out.buf, p...)
	m.out.kick()
	return len(p), nil
}

func (m *memConn) Close() error {
	for _, h := range []*half{m.in, m.out} {
		h.mu.Lock()
		h.closed = true
		h.kick()
		h.mu.Unlock()
	}
	return nil
}
func (m *memConn) LocalAddr() net.Addr  { return memAddr(m.name) }
func (m *memConn) RemoteAddr() net.Addr { return memAddr(m.name) }
func (m *memConn) SetDeadline(t time.Time) error {
	m.SetWriteDeadline(t)
	return m.SetReadDeadline(t)
}
func (m *memConn) SetReadDeadline(t time.Time) error {
	m.dmu.Lock()
	m.rdl = t
	close(m.rdlCh)
	m.rdlCh = make(chan struct{})
	m.dmu.Unlock()
	return nil
}
func (m *memConn) SetWriteDeadline(t time.Time) error { return nil } // writes never block

// ---- server side ----

type srvConn struct {
	c          *Cluster
	cl         *Client
	node       int32
	conn       *memConn
	clientSide *memConn
	grace      int
	dead       bool
	name       string
}

type frame struct {
	body []byte
	at   time.Time
}

func (c *Cluster) Addrs() []string {
	var out []string
	for i := 0; i < c.cfg.Nodes; i++ {
		out = append(out, fmt.Sprintf("b%d:9092", i))
	}
	return out
}

// Config makes a Client usable as a streams.Cluster.
func (cl *Client) Config() ([]kgo.Opt, error) {
	if cl.ConfigDelay > 0 {
		time.Sleep(cl.ConfigDelay)
	}
	return []kgo.Opt{kgo.SeedBrokers(cl.c.Addrs()...), kgo.Dialer(cl.Dial)}, nil
}

// DialKey is the Key of a Fault that refuses connections.
const DialKey = -2

func (cl *Client) Dial(ctx context.Context, network, host string) (net.Conn, error) {
	c := cl.c
	select {
	case <-time.After(c.latency()):
	case <-ctx.Done():
		return nil, ctx.Err()
	}
	name := strings.SplitN(host, ":", 2)[0]
	id, err := strconv.Atoi(strings.TrimPrefix(name, "b"))
	c.mu.Lock()
	if cl.dead {
		// nothing answers a crashed instance (refusing would make its client spin)
		c.mu.Unlock()
		<-ctx.Done()
		return nil, ctx.Err()
	}
	defer c.mu.Unlock()
	refused := false
	cl.counts[DialKey]++
	for i := range c.Faults {
		f := &c.Faults[i]
		if f.Key == DialKey && (f.Inst == -1 || f.Inst == cl.Idx) && cl.counts[DialKey] >= f.Nth && f.hits < max(1, f.Count) {
			f.hits++
			c.FaultHits["dial"]++
			refused = true
			break
		}
	}
	if refused || err != nil || id >= c.cfg.Nodes {
		return nil, &net.OpError{Op: "dial", Net: "mem", Addr: memAddr(host), Err: errors.New("connection refused")}
	}
	a, b := newPair("client", host)
	c.nconn++
	sc := &srvConn{name: fmt.Sprintf("c%d@b%d", c.nconn, id), c: c, cl: cl, node: int32(id), conn: b, clientSide: a}
	cl.conns[sc] = struct{}{}
	frames := make(chan frame, 4096)
	go sc.read(frames)
	go sc.serve(frames)
	return a, nil
}

func (c *Cluster) latency() time.Duration {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.latencyLocked()
}

func (c *Cluster) latencyLocked() time.Duration {
	d := c.cfg.LatMin
	if c.cfg.LatMax > c.cfg.LatMin {
		d += time.Duration(c.latRng.Int63n(int64(c.cfg.LatMax - c.cfg.LatMin)))
	}
	if c.cfg.SpikeP > 0 && c.latRng.Float64() < c.cfg.SpikeP {
		d += time.Duration(c.latRng.Int63n(int64(c.cfg.SpikeMax) + 1))
	}
	if d <= 0 {
		d = 50 * time.Microsecond
	}
	return d
}

func (sc *srvConn) read(frames chan frame) {
	defer close(frames)
	for {
		var sz [4]byte
		if _, err := io.ReadFull(sc.conn, sz[:]); err != nil {
			return
		}
		body := make([]byte, binary.BigEndian.Uint32(sz[:]))
		if _, err := io.ReadFull(sc.conn, body); err != nil {
			return
		}
		frames <- frame{body, time.Now()}
	}
}

func (sc *srvConn) close() {
	sc.conn.Close()
	sc.clientSide.Close()
	sc.c.mu.Lock()
	sc.dead = true
	delete(sc.cl.conns, sc)
	sc.c.mu.Unlock()
}

func (sc *srvConn) serve(frames chan frame) {
	c := sc.c
	defer sc.close()
	var ready time.Time
	for f := range frames {
		at := f.at.Add(c.latency())
		if at.After(ready) {
			ready = at
		}
		if d := time.Until(ready); d > 0 {
			time.Sleep(d)
		}
		c.mu.Lock()
		if sc.cl.dead {
			if sc.grace <= 0 {
				c.mu.Unlock()
				return
			}
			sc.grace--
		}
		c.mu.Unlock()
		out, ok := sc.handleFrame(f.body)
		if !ok {
			return
		}
		if out != nil {
			time.Sleep(c.latency() / 2)
			if _, err := sc.conn.Write(out); err != nil {
				return
			}
		}
	}
}

func readNullableString(b []byte) (string, []byte) {
	n := int16(binary.BigEndian.Uint16(b))
	b = b[2:]
	if n < 0 {
		return "", b
	}
	return string(b[:n]), b[n:]
}

func (sc *srvConn) handleFrame(b []byte) ([]byte, bool) {
	c := sc.c
	key := int16(binary.BigEndian.Uint16(b))
	ver := int16(binary.BigEndian.Uint16(b[2:]))
	corr := b[4:8]
	rest := b[8:]
	_, rest = readNullableString(rest)
	req := kmsg.RequestForKey(key)
	if req == nil {
		return nil, false
	}
	req.SetVersion(ver)
	lim, known := apiVersions[key]
	if key == 18 && (ver > lim[1]) {
		// unsupported ApiVersions version: answer v0
		resp := kmsg.NewPtrApiVersionsResponse()
		resp.Version = 0
		resp.ErrorCode = 35
		resp.ApiKeys = apiKeys()
		return wrap(corr, false, resp.AppendTo(nil)), true
	}
	if req.IsFlexible() { // tagged fields of the header
		n, w := binary.Uvarint(rest)
		rest = rest[w:]
		for i := uint64(0); i < n; i++ {
			_, w = binary.Uvarint(rest)
			rest = rest[w:]
			l, w := binary.Uvarint(rest)
			rest = rest[w+int(l):]
		}
	}
	if !known || ver < lim[0] || ver > lim[1] {
		c.mu.Lock()
		c.Unsupported = append(c.Unsupported, fmt.Sprintf("key %d v%d", key, ver))
		c.mu.Unlock()
		return nil, false
	}
	if err := req.ReadFrom(rest); err != nil {
		c.mu.Lock()
		c.Unsupported = append(c.Unsupported, fmt.Sprintf("key %d v%d: %v", key, ver, err))
		c.mu.Unlock()
		return nil, false
	}
	c.mu.Lock()
	c.Requests++
	c.KeyCount[key]++
	sc.cl.counts[key]++
	if r, ok := req.(*kmsg.ProduceRequest); ok && r.TransactionID != nil {
		sc.cl.counts[-1]++
	}
	if c.OnRequest != nil {
		c.OnRequest(sc.cl, sc.name, req)
	}
	flt := c.matchFaultLocked(sc.cl, key, req)
	if flt != nil && flt.Kind == "crash_before" {
		sc.cl.crashLocked()
		for s := range sc.cl.conns {
			s.grace = 0
		}
		if c.OnCrashFault != nil {
			c.OnCrashFault(sc.cl)
		}
		c.mu.Unlock()
		return nil, false
	}
	c.mu.Unlock()
	var resp kmsg.Response
	if flt != nil && flt.Kind == "close_before" {
		return nil, false
	}
	if flt != nil && flt.Kind == "delay" {
		time.Sleep(flt.Delay)
	}
	if flt != nil && flt.Kind == "err" {
		c.mu.Lock()
		resp = errorResponse(req, flt.Code, flt.Topic)
		c.mu.Unlock()
	}
	if resp == nil {
		resp = sc.handle(req)
	}
	if flt != nil && flt.Kind == "crash_after" {
		c.mu.Lock()
		sc.cl.crashLocked()
		if c.OnCrashFault != nil {
			c.OnCrashFault(sc.cl)
		}
		c.mu.Unlock()
		return nil, false
	}
	if flt != nil && flt.Kind == "close_after" {
		return nil, false
	}
	if resp == nil {
		return nil, !sc.dead // acks=0
	}
	resp.SetVersion(ver)
	return wrap(corr, resp.IsFlexible() && key != 18, resp.AppendTo(nil)), true
}

func (c *Cluster) matchFaultLocked(cl *Client, key int16, req kmsg.Request) *Fault {
	for i := range c.Faults {
		f := &c.Faults[i]
		if (f.Inst == -1 || f.Inst == cl.Idx) && f.Key == key {
			n := cl.counts[key]
			if f.Txn {
				switch r := req.(type) {
				case *kmsg.ProduceRequest:
					if r.TransactionID == nil {
						continue
					}
					n = cl.counts[-1]
				case *kmsg.InitProducerIDRequest:
					if r.TransactionalID == nil {
						continue
					}
				}
			}
			if f.Topic != "" {
				r, ok := req.(*kmsg.ProduceRequest)
				on := false
				if ok {
					for _, t := range r.Topics {
						on = on || t.Topic == f.Topic
					}
				}
				if !on {
					continue
				}
				if f.seen == nil {
					f.seen = map[*Client]int{}
				}
				f.seen[cl]++
				n = f.seen[cl]
			}
			cnt := f.Count
			if cnt == 0 {
				cnt = 1
			}
			if n >= f.Nth && f.hits < cnt {
				f.hits++
				c.FaultHits[f.Kind]++
				return f
			}
		}
	}
	return nil
}

func wrap(corr []byte, flex bool, body []byte) []byte {
	n := 4 + len(body)
	if flex {
		n++
	}
	out := make([]byte, 0, n+4)
	out = binary.BigEndian.AppendUint32(out, uint32(n))
	out = append(out, corr...)
	if flex {
		out = append(out, 0)
	}
	return append(out, body...)
}
