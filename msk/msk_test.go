package props

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/service/kafka"
	"github.com/aws/go-kafka-event-source/msk"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
	"pgregory.net/rapid"
)

// ---- C23: MskCluster, from the MSK API to authenticated connections

func pick[T any](t *rapid.T, l string, v []T) T { return rapid.SampledFrom(v).Draw(t, l) }
func intr(t *rapid.T, l string, a, b int) int   { return rapid.IntRange(a, b).Draw(t, l) }
func chance(t *rapid.T, l string, n int) bool   { return rapid.IntRange(0, n-1).Draw(t, l) == 0 }

// in the order of msk.AuthType
var bootKeys = []string{"bootstrapBrokerString", "bootstrapBrokerStringTls", "bootstrapBrokerStringSaslScram", "bootstrapBrokerStringSaslIam",
	"bootstrapBrokerStringPublicTls", "bootstrapBrokerStringPublicSaslScram", "bootstrapBrokerStringPublicSaslIam"}

type mskInfo struct {
	Name    string
	NoArn   bool
	Brokers [7][]int // by type; nil: not available
}
type mskCred struct {
	Access, Secret, Token string
	Err                   bool
}
type mskTry struct {
	FailList   int // the n-th page of the list cannot be had; 0: it can
	FailBroker bool
	Status     int
}
type mskCase struct {
	Name        string
	Region      string
	Auth        int
	Clusters    []mskInfo
	Page        int
	TLS         bool
	ClientCert  bool
	User, Pass  string
	Creds       []mskCred // used one after the other
	NoCreds     bool
	Default     bool // the default client configuration, from the environment
	ClientID    string
	Seeds       []int // an extra option overrides the seed brokers
	DialTLS     bool  // an extra option switches TLS on
	Twice       bool  // other extra options were set before
	Tries       []mskTry
	Concurrent  int
	LateOptions bool // options are set after a failed attempt
}

func host(region string, i int) string {
	return fmt.Sprintf("b-%d.cl.kafka.%s.amazonaws.com", i, region)
}

func genMsk(t *rapid.T) mskCase {
	c := mskCase{Region: pick(t, "region", []string{"us-east-1", "eu-central-1", "ap-south-1"}), Auth: intr(t, "auth", 0, 6), Page: intr(t, "page", 1, 4)}
	names := []string{"orders", "orders-eu", "orders2", "order", "payments", "o", "Orders"}
	n := intr(t, "clusters", 0, 5)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		m := mskInfo{Name: pick(t, "cname", names)}
		if seen[m.Name] {
			continue
		}
		seen[m.Name] = true
		m.NoArn = chance(t, "noarn", 12)
		for k := range m.Brokers {
			if k != c.Auth && chance(t, "absent", 2) || chance(t, "none", 8) {
				continue
			}
			have := map[int]bool{}
			for j, q := 0, intr(t, "nb", 1, 3); j < q; j++ {
				b := intr(t, "b", 0, nBrokers-1)
				if !have[b] {
					have[b] = true
					m.Brokers[k] = append(m.Brokers[k], b)
				}
			}
		}
		c.Clusters = append(c.Clusters, m)
	}
	if len(c.Clusters) > 0 && !chance(t, "unknown", 8) {
		c.Name = c.Clusters[intr(t, "which", 0, len(c.Clusters)-1)].Name
	} else {
		c.Name = pick(t, "name", names)
	}
	c.TLS = rapid.Bool().Draw(t, "tls")
	c.ClientCert = c.TLS && rapid.Bool().Draw(t, "cert")
	str := func(l string) string {
		return pick(t, l, []string{"admin", "bob", "a,b", "x=y", "s3cr3t", "päss", "p w", "==,,", strings.Repeat("long", 20)})
	}
	c.User, c.Pass = str("user"), str("pass")
	for i, k := 0, intr(t, "ncreds", 1, 3); i < k; i++ {
		m := mskCred{Access: fmt.Sprintf("AKIA%d%s", i, pick(t, "ak", []string{"X", "YZ"})), Secret: pick(t, "sk", []string{"secret", "other/+=", "s"}) + fmt.Sprint(i), Err: chance(t, "crederr", 6)}
		if rapid.Bool().Draw(t, "token") {
			m.Token = pick(t, "tok", []string{"tok", "a/b+c==", strings.Repeat("T", 300)})
		}
		c.Creds = append(c.Creds, m)
	}
	c.Default = chance(t, "default", 5)
	if c.Default {
		c.Creds = c.Creds[:1]
		c.Creds[0].Err = false
	} else {
		c.NoCreds = chance(t, "nocreds", 20)
	}
	c.ClientID = pick(t, "clientid", []string{"", "", "me", "my-app"})
	if chance(t, "seeds", 6) {
		c.Seeds = []int{intr(t, "seed1", 0, 4), intr(t, "seed2", 5, 9)}
	}
	c.DialTLS = !c.TLS && chance(t, "dialtls", 6)
	c.Twice = chance(t, "twice", 5)
	for i, k := 0, pick(t, "tries", []int{1, 1, 1, 2, 3}); i < k; i++ {
		m := mskTry{Status: pick(t, "status", []int{400, 403, 404, 429, 500, 503})}
		switch intr(t, "fails", 0, 5) {
		case 0:
			m.FailList = intr(t, "faillist", 1, 3)
		case 1:
			m.FailBroker = true
		}
		c.Tries = append(c.Tries, m)
	}
	c.Concurrent = pick(t, "conc", []int{1, 1, 1, 4})
	c.LateOptions = chance(t, "late", 4)
	return c
}

// ---- the MSK API

type mskAPI struct {
	c    *mskCase
	mu   sync.Mutex
	try  mskTry
	bad  string
	hits int
}

func (a *mskAPI) Do(r *http.Request) (*http.Response, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.hits++
	c := a.c
	reply := func(code int, v any) (*http.Response, error) {
		b, _ := json.Marshal(v)
		h := http.Header{"Content-Type": {"application/json"}}
		if code != 200 {
			h.Set("X-Amzn-ErrorType", "SomethingException")
		}
		return &http.Response{StatusCode: code, Status: strconv.Itoa(code), Header: h, Body: io.NopCloser(bytes.NewReader(b)), Request: r, ProtoMajor: 1, ProtoMinor: 1}, nil
	}
	if want := "kafka." + c.Region + ".amazonaws.com"; r.URL.Host != want {
		a.bad = "the API is called at " + r.URL.Host + " instead of " + want
	}
	path := r.URL.EscapedPath()
	switch {
	case path == "/v1/clusters" && r.Method == "GET":
		q := r.URL.Query()
		prefix := q.Get("clusterNameFilter")
		var all []mskInfo
		for _, m := range c.Clusters {
			if strings.HasPrefix(m.Name, prefix) {
				all = append(all, m)
			}
		}
		at := 0
		if s := q.Get("nextToken"); s != "" {
			at, _ = strconv.Atoi(s)
		}
		size := c.Page
		if s := q.Get("maxResults"); s != "" {
			if n, _ := strconv.Atoi(s); n > 0 && n < size {
				size = n
			}
		}
		if k := a.try.FailList; k > 0 && at >= (k-1)*c.Page {
			return reply(a.try.Status, map[string]string{"message": "no list"})
		}
		list := []map[string]any{}
		end := min(at+size, len(all))
		for _, m := range all[min(at, end):end] {
			ci := map[string]any{"clusterName": m.Name}
			if !m.NoArn {
				ci["clusterArn"] = arn(m.Name)
			}
			list = append(list, ci)
		}
		out := map[string]any{"clusterInfoList": list}
		if end < len(all) {
			out["nextToken"] = strconv.Itoa(end)
		}
		return reply(200, out)
	case strings.HasPrefix(path, "/v1/clusters/") && strings.HasSuffix(path, "/bootstrap-brokers"):
		id, _ := url.PathUnescape(strings.TrimSuffix(strings.TrimPrefix(path, "/v1/clusters/"), "/bootstrap-brokers"))
		if a.try.FailBroker {
			return reply(a.try.Status, map[string]string{"message": "no brokers"})
		}
		for _, m := range c.Clusters {
			if arn(m.Name) == id && !m.NoArn {
				out := map[string]any{}
				for k, bs := range m.Brokers {
					if bs != nil {
						out[bootKeys[k]] = bootString(c.Region, bs)
					}
				}
				return reply(200, out)
			}
		}
		return reply(404, map[string]string{"message": "no such cluster"})
	}
	a.bad = "unexpected call of the API: " + r.Method + " " + r.URL.String()
	return reply(404, map[string]string{"message": "what?"})
}

func arn(name string) string {
	return "arn:aws:kafka:x:1:cluster/" + name + "/id"
}

func bootString(region string, bs []int) string {
	var out []string
	for _, b := range bs {
		out = append(out, fmt.Sprintf("%s:%d", host(region, b), ports[b]))
	}
	return strings.Join(out, ",")
}

// rotating credentials
type mskCreds struct {
	mu sync.Mutex
	c  *mskCase
	i  int // current
}

func (p *mskCreds) Retrieve(context.Context) (aws.Credentials, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := p.c.Creds[p.i%len(p.c.Creds)]
	if m.Err {
		return aws.Credentials{}, errors.New("no credentials today")
	}
	return aws.Credentials{AccessKeyID: m.Access, SecretAccessKey: m.Secret, SessionToken: m.Token}, nil
}

func optCount(opts []kgo.Opt) int { return len(opts) }

func runMsk(c mskCase) (o Outcome) {
	boot()
	w := &world{user: c.User, pass: c.Pass, keys: map[string]string{}}
	for _, m := range c.Creds {
		if !m.Err {
			w.keys[m.Access] = m.Secret
		}
	}
	curMu.Lock()
	cur = w
	curMu.Unlock()

	api := &mskAPI{c: &c}
	creds := &mskCreds{c: &c}
	var cl *msk.MskCluster
	if c.Default {
		os.Setenv("AWS_EC2_METADATA_DISABLED", "true")
		os.Setenv("AWS_CONFIG_FILE", "/nonexistent")
		os.Setenv("AWS_SHARED_CREDENTIALS_FILE", "/nonexistent")
		os.Unsetenv("AWS_REGION")
		os.Unsetenv("AWS_DEFAULT_REGION")
		os.Unsetenv("AWS_PROFILE")
		m := c.Creds[0]
		os.Setenv("AWS_ACCESS_KEY_ID", m.Access)
		os.Setenv("AWS_SECRET_ACCESS_KEY", m.Secret)
		os.Setenv("AWS_SESSION_TOKEN", m.Token)
		cl = msk.NewMskCluster(c.Name, msk.AuthType(c.Auth), c.Region, func(k *kafka.Options) {
			k.HTTPClient = api
			k.Retryer = aws.NopRetryer{}
		})
	} else {
		cfg := aws.Config{Region: c.Region, HTTPClient: api, Retryer: func() aws.Retryer { return aws.NopRetryer{} }, Credentials: creds}
		if c.NoCreds {
			cfg.Credentials = nil
		}
		// the API itself is called with credentials which always work
		cl = msk.NewMskClusterWithClientConfig(c.Name, msk.AuthType(c.Auth), cfg, func(k *kafka.Options) {
			k.Credentials = aws.CredentialsProviderFunc(func(context.Context) (aws.Credentials, error) {
				return aws.Credentials{AccessKeyID: "API", SecretAccessKey: "API"}, nil
			})
		})
	}
	tlsConfig := func(cn string) *tls.Config {
		pool := x509.NewCertPool()
		pool.AddCert(ca)
		tc := &tls.Config{RootCAs: pool}
		if cn != "" {
			tc.Certificates = []tls.Certificate{*leaf(cn, false)}
		}
		return tc
	}
	wantID, wantCN := "kgo", ""
	setOptions := func() {
		if c.TLS {
			cn := ""
			if c.ClientCert {
				cn = "client-" + c.Name
				wantCN = cn
			}
			cl.WithTlsConfig(tlsConfig(cn))
		}
		if c.Auth == int(msk.SaslScram) || c.Auth == int(msk.PublicSaslScram) || c.User == "bob" {
			cl.WithScramUserPass(c.User, c.Pass)
		}
		if c.Twice {
			cl.WithClientOptions(kgo.ClientID("replaced"), kgo.SeedBrokers("nowhere.invalid:1"))
		}
		var extra []kgo.Opt
		if c.ClientID != "" {
			extra = append(extra, kgo.ClientID(c.ClientID))
			wantID = c.ClientID
		}
		if len(c.Seeds) > 0 {
			extra = append(extra, kgo.SeedBrokers(strings.Split(bootString(c.Region, c.Seeds), ",")...))
		}
		if c.DialTLS {
			extra = append(extra, kgo.DialTLSConfig(tlsConfig("")))
		}
		if len(extra) > 0 || c.Twice {
			cl.WithClientOptions(extra...)
		}
	}

	// what the API says
	var matching []mskInfo
	pos := -1
	for _, m := range c.Clusters {
		if strings.HasPrefix(m.Name, c.Name) {
			if m.Name == c.Name {
				pos = len(matching)
			}
			matching = append(matching, m)
		}
	}
	var want []int
	if pos >= 0 && !matching[pos].NoArn {
		want = matching[pos].Brokers[c.Auth]
	}
	if want != nil && len(c.Seeds) > 0 {
		want = c.Seeds
	}
	set := false
	for ti, try := range c.Tries {
		api.mu.Lock()
		api.try = try
		api.mu.Unlock()
		if !set && (!c.LateOptions || ti == len(c.Tries)-1) {
			setOptions()
			set = true
		}
		if !set && (c.Auth == 2 || c.Auth == 5) && want != nil && !(try.FailList == 1 || try.FailBroker) {
			setOptions() // it may succeed
			set = true
		}
		if !set && !(try.FailList == 1 || try.FailBroker || want == nil) {
			setOptions()
			set = true
		}
		opts, err := cl.Config()
		if api.bad != "" {
			o.fail("api", "%s", api.bad)
			return
		}
		if err != nil {
			o.stat("config_errors", 1)
			if len(opts) > 0 {
				o.fail("partial", "attempt %d fails with %v, but yields %d options", ti, err, len(opts))
				return
			}
			// was there a reason?
			mayFail := want == nil || try.FailList > 0 || try.FailBroker
			if !mayFail {
				o.fail("config-fails", "attempt %d fails: %v", ti, err)
				return
			}
			continue
		}
		// success was possible, or what was found earlier is still known
		if want == nil {
			o.fail("config-succeeds", "attempt %d succeeds, although there is no cluster %q which has brokers for authentication type %d", ti, c.Name, c.Auth)
			return
		}
		known := o.Stats["configs"] > 0
		if !known && (try.FailBroker || try.FailList > 0 && pos >= (try.FailList-1)*c.Page) {
			o.fail("config-succeeds", "attempt %d succeeds, although the API fails", ti)
			return
		}
		o.stat("configs", 1)
		if len(opts) == 0 {
			o.fail("partial", "attempt %d yields no options", ti)
			return
		}
		connect := func(opts []kgo.Opt) string { return connectMsk(&c, w, creds, opts, want, wantID, wantCN, &o) }
		if msg := connect(opts); msg != "" {
			o.fail("connection", "attempt %d: %s", ti, msg)
			return
		}
		if c.Concurrent > 1 {
			// everybody gets the same configuration
			var wg sync.WaitGroup
			ns := make([]int, c.Concurrent)
			for i := range ns {
				wg.Add(1)
				go func() {
					defer wg.Done()
					os, err := cl.Config()
					if err == nil {
						ns[i] = optCount(os)
					}
				}()
			}
			wg.Wait()
			for _, n := range ns {
				if n != len(opts) && c.Tries[ti].FailList == 0 && !c.Tries[ti].FailBroker {
					o.fail("concurrent", "concurrent callers are given %v options instead of %d", ns, len(opts))
					return
				}
			}
		}
	}
	o.NonT = o.Stats["connections"] > 0
	return
}

// connectMsk builds a client from the options and looks at what arrives at the brokers.
func connectMsk(c *mskCase, w *world, creds *mskCreds, opts []kgo.Opt, want []int, wantID, wantCN string, o *Outcome) string {
	opts = append(append([]kgo.Opt{}, opts...), kgo.RequestRetries(0), kgo.RetryTimeout(2*time.Second), kgo.MaxVersions(nil))
	cl, err := kgo.NewClient(opts...)
	if err != nil {
		return fmt.Sprintf("no client: %v", err)
	}
	w.mu.Lock()
	w.conns = nil
	w.mu.Unlock()
	defer func() {
		cl.Close()
		for i := 0; i < 2000; i++ {
			w.mu.Lock()
			n := w.open
			w.mu.Unlock()
			if n == 0 {
				break
			}
			time.Sleep(time.Millisecond)
		}
	}()
	if n := len(cl.SeedBrokers()); n != len(want) {
		return fmt.Sprintf("the client is given %d seed brokers, MSK reports %v", n, want)
	}
	mech := ""
	switch msk.AuthType(c.Auth) {
	case msk.SaslIam, msk.PublicSaslIam:
		mech = "AWS_MSK_IAM"
	case msk.SaslScram, msk.PublicSaslScram:
		mech = "SCRAM-SHA-512"
	}
	var got []int
	for range want { // the brokers know of no others, so the client asks one seed after the other
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		w.mu.Lock()
		before := len(w.conns)
		w.mu.Unlock()
		req := kmsg.NewPtrMetadataRequest()
		_, err := cl.Request(ctx, req)
		cancel()
		w.mu.Lock()
		var mine []connInfo
		for _, x := range w.conns[before:] {
			mine = append(mine, *x)
		}
		w.mu.Unlock()
		cred := c.Creds[creds.i%len(c.Creds)]
		noCreds := mech == "AWS_MSK_IAM" && (c.NoCreds || cred.Err)
		desc := fmt.Sprintf("request to a seed broker: %v; connections: %+v", err, mine)
		if len(mine) == 0 {
			return "no broker is reached; " + desc
		}
		for _, x := range mine {
			if x.TLS != (c.TLS || c.DialTLS) {
				return fmt.Sprintf("TLS should be %v; %s", c.TLS || c.DialTLS, desc)
			}
			if x.TLS && x.SNI != host(c.Region, x.Broker) {
				return "the server name is wrong; " + desc
			}
			if x.CN != wantCN {
				return fmt.Sprintf("the client's certificate should be %q; %s", wantCN, desc)
			}
			if x.ClientID != wantID {
				return fmt.Sprintf("the client ID should be %q; %s", wantID, desc)
			}
			if noCreds {
				if x.AuthN > 0 || x.Request {
					return "credentials cannot be resolved, but something is sent; " + desc
				}
				continue
			}
			if x.Mech != mech {
				return fmt.Sprintf("the SASL mechanism should be %q; %s", mech, desc)
			}
			if mech == "AWS_MSK_IAM" && (x.User != cred.Access || x.Token != cred.Token || x.Host != host(c.Region, x.Broker)) {
				return fmt.Sprintf("the credentials should be %+v; %s", cred, desc)
			}
			if mech != "" && !x.AuthOK {
				return "authentication fails; " + desc
			}
			o.stat("connections", 1)
			if x.TLS {
				o.stat("tls", 1)
			}
			if mech != "" {
				o.stat("authenticated", 1)
			}
		}
		if noCreds {
			o.stat("no_credentials", 1)
			if err == nil {
				return "credentials cannot be resolved, but a request succeeds; " + desc
			}
		} else if err != nil || !mine[len(mine)-1].Request {
			return "the request fails; " + desc
		}
		got = append(got, mine[len(mine)-1].Broker)
		if !c.Default {
			creds.mu.Lock()
			creds.i++ // the session expires
			creds.mu.Unlock()
		}
	}
	a, b := append([]int{}, got...), append([]int{}, want...)
	sort.Ints(a)
	sort.Ints(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return fmt.Sprintf("brokers %v are contacted, MSK reports %v", a, b)
	}
	return ""
}

func init() {
	reg("C23", "connect", 12000, 300000, "a client made from the configuration connected to every broker", genMsk, runMsk)
}
