package props

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/twmb/franz-go/pkg/kmsg"
)

// ---- brokers on the loopback interface, which note who connects to them, and how

type connInfo struct {
	Broker   int
	TLS      bool
	SNI      string
	CN       string // of the client's certificate
	ClientID string
	Mech     string
	AuthN    int    // authentication messages received
	User     string // SCRAM user, or IAM access key
	Token    string
	Host     string
	AuthOK   bool
	Why      string
	Request  bool // a request was served
	Err      string
}

type world struct {
	mu    sync.Mutex
	conns []*connInfo
	open  int
	user  string            // the only user there is
	pass  string            //
	keys  map[string]string // IAM access key -> secret key
}

var (
	brokers  []net.Listener
	ports    []int
	cur      *world
	curMu    sync.Mutex
	ca       *x509.Certificate
	caKey    *ecdsa.PrivateKey
	leafKey  *ecdsa.PrivateKey
	leafs    sync.Map
	bootOnce sync.Once
)

const nBrokers = 10

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func boot() {
	bootOnce.Do(func() {
		caKey = must(ecdsa.GenerateKey(elliptic.P256(), crand.Reader))
		leafKey = must(ecdsa.GenerateKey(elliptic.P256(), crand.Reader))
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "ca"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour), IsCA: true,
			BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		ca = must(x509.ParseCertificate(must(x509.CreateCertificate(crand.Reader, t, t, &caKey.PublicKey, caKey))))
		for i := 0; i < nBrokers; i++ {
			l := must(net.Listen("tcp", "127.0.0.1:0"))
			brokers = append(brokers, l)
			ports = append(ports, l.Addr().(*net.TCPAddr).Port)
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					curMu.Lock()
					w := cur
					curMu.Unlock()
					go w.serve(c, i)
				}
			}()
		}
		// every host is here
		pc := must(net.ListenPacket("udp", "127.0.0.1:0"))
		go dns(pc)
		net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, _, _ string) (net.Conn, error) {
			var d net.Dialer
			return d.DialContext(ctx, "udp", pc.LocalAddr().String())
		}}
	})
}

func dns(pc net.PacketConn) {
	b := make([]byte, 1500)
	for {
		n, from, err := pc.ReadFrom(b)
		if err != nil {
			return
		}
		if n < 17 {
			continue
		}
		q := 12
		for q < n && b[q] != 0 {
			q += int(b[q]) + 1
		}
		q += 5
		if q > n {
			continue
		}
		typ := binary.BigEndian.Uint16(b[q-4:])
		r := append([]byte{}, b[:q]...)
		binary.BigEndian.PutUint16(r[2:], 0x8180)
		binary.BigEndian.PutUint16(r[6:], 0)
		binary.BigEndian.PutUint32(r[8:], 0)
		if typ == 1 {
			binary.BigEndian.PutUint16(r[6:], 1)
			r = append(r, 0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 127, 0, 0, 1)
		}
		pc.WriteTo(r, from)
	}
}

func leaf(cn string, server bool) *tls.Certificate {
	k := fmt.Sprint(cn, server)
	if c, ok := leafs.Load(k); ok {
		return c.(*tls.Certificate)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	if server {
		t.DNSNames = []string{cn}
	}
	c := &tls.Certificate{Certificate: [][]byte{must(x509.CreateCertificate(crand.Reader, t, ca, &leafKey.PublicKey, caKey))}, PrivateKey: leafKey}
	leafs.Store(k, c)
	return c
}

type peeked struct {
	net.Conn
	r *bufio.Reader
}

func (p peeked) Read(b []byte) (int, error) { return p.r.Read(b) }

func (w *world) serve(c net.Conn, broker int) {
	defer c.Close()
	if w == nil {
		return
	}
	ci := &connInfo{Broker: broker}
	w.mu.Lock()
	w.conns = append(w.conns, ci)
	w.open++
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.open--
		w.mu.Unlock()
	}()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	br := bufio.NewReader(c)
	b, err := br.Peek(1)
	if err != nil {
		ci.Err = err.Error()
		return
	}
	var conn net.Conn = peeked{c, br}
	if b[0] == 0x16 {
		ci.TLS = true
		tc := tls.Server(conn, &tls.Config{ClientAuth: tls.RequestClientCert, GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
			ci.SNI = h.ServerName
			return leaf(h.ServerName, true), nil
		}})
		if err := tc.Handshake(); err != nil {
			ci.Err = err.Error()
			return
		}
		if p := tc.ConnectionState().PeerCertificates; len(p) > 0 {
			ci.CN = p[0].Subject.CommonName
		}
		conn = tc
	}
	rd := bufio.NewReader(conn)
	var sc scramServer
	for {
		var l [4]byte
		if _, err := io.ReadFull(rd, l[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(l[:])
		if n > 1<<20 || n < 10 {
			ci.Err = "no kafka request"
			return
		}
		f := make([]byte, n)
		if _, err := io.ReadFull(rd, f); err != nil {
			return
		}
		key, ver, corr := int16(binary.BigEndian.Uint16(f)), int16(binary.BigEndian.Uint16(f[2:])), f[4:8]
		idn := int16(binary.BigEndian.Uint16(f[8:]))
		body := f[10:]
		if idn >= 0 {
			ci.ClientID = string(body[:idn])
			body = body[idn:]
		}
		req := kmsg.RequestForKey(key)
		if req == nil || ver > req.MaxVersion() {
			ci.Err = fmt.Sprintf("request %d version %d", key, ver)
			return
		}
		req.SetVersion(ver)
		if req.IsFlexible() {
			body = body[1:]
		}
		if err := req.ReadFrom(body); err != nil {
			ci.Err = err.Error()
			return
		}
		resp := req.ResponseKind()
		resp.SetVersion(ver)
		closing := false
		switch r := req.(type) {
		case *kmsg.ApiVersionsRequest:
			ar := resp.(*kmsg.ApiVersionsResponse)
			for _, k := range []struct{ k, v int16 }{{3, 5}, {17, 1}, {18, 2}, {36, 1}} {
				a := kmsg.NewApiVersionsResponseApiKey()
				a.ApiKey, a.MaxVersion = k.k, k.v
				ar.ApiKeys = append(ar.ApiKeys, a)
			}
			if ver > 2 {
				ar.ErrorCode = 35
				ar.SetVersion(0)
			}
		case *kmsg.SASLHandshakeRequest:
			ci.Mech = r.Mechanism
			resp.(*kmsg.SASLHandshakeResponse).SupportedMechanisms = []string{"AWS_MSK_IAM", "SCRAM-SHA-512"}
			if r.Mechanism != "AWS_MSK_IAM" && r.Mechanism != "SCRAM-SHA-512" {
				resp.(*kmsg.SASLHandshakeResponse).ErrorCode = 33
			}
		case *kmsg.SASLAuthenticateRequest:
			ar := resp.(*kmsg.SASLAuthenticateResponse)
			ci.AuthN++
			var err error
			if ci.Mech == "AWS_MSK_IAM" {
				ar.SASLAuthBytes, err = w.iam(ci, r.SASLAuthBytes)
			} else {
				ar.SASLAuthBytes, err = sc.step(w, ci, r.SASLAuthBytes)
			}
			if err != nil {
				ci.Why = err.Error()
				ar.ErrorCode = 58
				m := err.Error()
				ar.ErrorMessage = &m
				closing = true
			}
		case *kmsg.MetadataRequest:
			ci.Request = true
		default:
			ci.Err = fmt.Sprintf("request %d", key)
			return
		}
		out := append([]byte{0, 0, 0, 0}, corr...)
		if resp.IsFlexible() && key != 18 {
			out = append(out, 0)
		}
		out = resp.AppendTo(out)
		binary.BigEndian.PutUint32(out, uint32(len(out)-4))
		if _, err := conn.Write(out); err != nil {
			return
		}
		if closing {
			return
		}
	}
}

// iam verifies an AWS_MSK_IAM message: a request signed with signature version 4.
func (w *world) iam(ci *connInfo, b []byte) ([]byte, error) {
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	ci.Host, ci.Token = m["host"], m["x-amz-security-token"]
	cred := strings.SplitN(m["x-amz-credential"], "/", 2)
	ci.User = cred[0]
	if len(cred) != 2 || m["action"] != "kafka-cluster:Connect" || m["version"] != "2020_10_22" {
		return nil, fmt.Errorf("malformed: %v", m)
	}
	w.mu.Lock()
	secret, ok := w.keys[ci.User]
	w.mu.Unlock()
	if !ok {
		return nil, fmt.Errorf("unknown access key %q", ci.User)
	}
	names := map[string]string{"action": "Action", "x-amz-algorithm": "X-Amz-Algorithm", "x-amz-credential": "X-Amz-Credential", "x-amz-date": "X-Amz-Date",
		"x-amz-expires": "X-Amz-Expires", "x-amz-signedheaders": "X-Amz-SignedHeaders", "x-amz-security-token": "X-Amz-Security-Token"}
	var qs []string
	for k, n := range names {
		if v, ok := m[k]; ok {
			qs = append(qs, n+"="+strings.ReplaceAll(url.QueryEscape(v), "+", "%20"))
		}
	}
	sort.Strings(qs)
	e := sha256.Sum256(nil)
	canon := "GET\n/\n" + strings.Join(qs, "&") + "\nhost:" + m["host"] + "\n\nhost\n" + hex.EncodeToString(e[:])
	ch := sha256.Sum256([]byte(canon))
	scope := strings.Split(cred[1], "/")
	if len(scope) != 4 {
		return nil, fmt.Errorf("scope %q", cred[1])
	}
	sts := "AWS4-HMAC-SHA256\n" + m["x-amz-date"] + "\n" + cred[1] + "\n" + hex.EncodeToString(ch[:])
	k := []byte("AWS4" + secret)
	for _, s := range append(scope, sts) {
		h := hmac.New(sha256.New, k)
		h.Write([]byte(s))
		k = h.Sum(nil)
	}
	if hex.EncodeToString(k) != m["x-amz-signature"] {
		return nil, fmt.Errorf("the signature does not match the secret key of %q", ci.User)
	}
	ci.AuthOK = true
	return []byte(`{"version":"2020_10_22","request-id":"1"}`), nil
}

// scramServer is the server's side of SCRAM-SHA-512.
type scramServer struct {
	first, bare, salted string
	nonce               string
}

func sha(key, msg []byte) []byte {
	h := hmac.New(sha512.New, key)
	h.Write(msg)
	return h.Sum(nil)
}

func (s *scramServer) step(w *world, ci *connInfo, b []byte) ([]byte, error) {
	const iter = 4096
	salt := []byte("0123456789abcdef")
	attr := func(m, a string) string {
		for _, p := range strings.Split(m, ",") {
			if strings.HasPrefix(p, a+"=") {
				return p[2:]
			}
		}
		return ""
	}
	if s.first == "" {
		m := string(b)
		if !strings.HasPrefix(m, "n,,") {
			return nil, fmt.Errorf("malformed: %q", m)
		}
		s.bare = m[3:]
		ci.User = strings.ReplaceAll(strings.ReplaceAll(attr(s.bare, "n"), "=2C", ","), "=3D", "=")
		s.nonce = attr(s.bare, "r") + "server"
		s.first = "r=" + s.nonce + ",s=" + base64.StdEncoding.EncodeToString(salt) + fmt.Sprintf(",i=%d", iter)
		return []byte(s.first), nil
	}
	m := string(b)
	i := strings.LastIndex(m, ",p=")
	if i < 0 || attr(m, "r") != s.nonce {
		return nil, fmt.Errorf("malformed: %q", m)
	}
	proof, _ := base64.StdEncoding.DecodeString(m[i+3:])
	// Hi()
	u := sha([]byte(w.pass), append(append([]byte{}, salt...), 0, 0, 0, 1))
	salted := append([]byte{}, u...)
	for k := 1; k < iter; k++ {
		u = sha([]byte(w.pass), u)
		for j := range salted {
			salted[j] ^= u[j]
		}
	}
	auth := []byte(s.bare + "," + s.first + "," + m[:i])
	ck := sha(salted, []byte("Client Key"))
	sk := sha512.Sum512(ck)
	sig := sha(sk[:], auth)
	for j := range sig {
		sig[j] ^= ck[j]
	}
	if ci.User != w.user || !hmac.Equal(sig, proof) {
		return nil, fmt.Errorf("user %q or the password is wrong", ci.User)
	}
	ci.AuthOK = true
	return []byte("v=" + base64.StdEncoding.EncodeToString(sha(sha(salted, []byte("Server Key")), auth))), nil
}
