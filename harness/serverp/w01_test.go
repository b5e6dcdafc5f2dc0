package serverp

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// W01: the protocol a request arrives by does not matter.

// certificate makes a certificate and key for the servers of this process.
var certificate = sync.OnceValues(func() (crt, key string) {
	priv, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	vt.Must(err)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "h.test"}, DNSNames: []string{"h.test"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, priv.Public(), priv)
	vt.Must(err)
	k8, err := x509.MarshalPKCS8PrivateKey(priv)
	vt.Must(err)
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})), string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k8}))
})

// unframed are headers that belong to the connection and not to the message.
var unframed = map[string]bool{"Connection": true, "Keep-Alive": true, "Transfer-Encoding": true, "Content-Length": true, "Date": true, "Strict-Transport-Security": true, "Expect": true, "Te": true, "Upgrade": true, "Trailer": true, "Proxy-Connection": true}

func headerText(h http.Header) string {
	var s []string
	for n, v := range h {
		if !unframed[n] {
			s = append(s, fmt.Sprintf("%s: %q", n, v))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// echoServer is an upstream whose answer is a function of the request.
func echoServer(addr string) *http.Server {
	ln, err := net.Listen("tcp", addr)
	vt.Must(err)
	srv := &http.Server{ErrorLog: quiet, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		text := fmt.Sprintf("%s %s\nHost: %s\n%s\n\n%s", r.Method, r.RequestURI, r.Host, headerText(r.Header), b)
		w.Header().Set("Content-Type", "text/x-echo")
		w.Header().Add("X-Multi", "1")
		w.Header().Add("X-Multi", fmt.Sprint(len(text)))
		status := 200
		switch len(text) % 7 {
		case 1:
			status = 201
		case 2:
			status = 304
		case 3:
			w.Header().Set("Location", "/x?y")
			status = 302
		case 4:
			status = 500
		case 5:
			w.(http.Flusher).Flush()
		case 6:
			status = 204
		}
		if status != 200 {
			w.WriteHeader(status)
		}
		io.WriteString(w, text)
	})}
	go srv.Serve(ln)
	return srv
}

// answer is what a client got.
type answer struct {
	status int
	header http.Header
	body   string
	err    error
}

func (a answer) String() string {
	if a.err != nil {
		return "error: " + a.err.Error()
	}
	return fmt.Sprintf("%d\n%s\n%s", a.status, headerText(a.header), cut(a.body))
}

func (a answer) same(b answer) bool {
	if a.err != nil || b.err != nil {
		return false
	}
	return a.status == b.status && a.body == b.body && headerText(a.header) == headerText(b.header)
}

func take(resp *http.Response, err error) answer {
	if err != nil {
		return answer{err: err}
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	return answer{resp.StatusCode, resp.Header, string(b), err}
}

// client is one way to send requests.
type client struct {
	name   string
	tls    *tls.Config
	addr   string
	edit   func(q k.Req, raw string) string
	pieces int  // > 0: written in so many pieces
	depth  int  // requests on the way at the same time on one connection
	fresh  bool // a connection for every request
	h2     bool
}

func (c client) dial() (net.Conn, error) {
	var d net.Dialer
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	conn, err := d.DialContext(ctx, "tcp", c.addr)
	if err != nil || c.tls == nil {
		return conn, err
	}
	t := tls.Client(conn, c.tls)
	if err := t.HandshakeContext(ctx); err != nil {
		conn.Close()
		return nil, err
	}
	return t, nil
}

func (c client) raw(q k.Req) string {
	s := q.Raw()
	if c.edit != nil {
		s = c.edit(q, s)
	}
	return s
}

func (c client) send(conn net.Conn, s string) {
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	if c.pieces == 0 {
		io.WriteString(conn, s)
		return
	}
	size := len(s)/c.pieces + 1
	for len(s) > 0 {
		p := min(size, len(s))
		io.WriteString(conn, s[:p])
		s = s[p:]
		time.Sleep(time.Millisecond)
	}
}

// run sends the requests in order.
func (c client) run(qs []k.Req) []answer {
	out := make([]answer, len(qs))
	if c.h2 {
		tr := &http.Transport{TLSClientConfig: c.tls, ForceAttemptHTTP2: true, DisableCompression: true,
			DialContext: func(ctx context.Context, network, _ string) (net.Conn, error) {
				var d net.Dialer
				return d.DialContext(ctx, "tcp", c.addr)
			}}
		defer tr.CloseIdleConnections()
		var wg sync.WaitGroup
		sem := make(chan struct{}, c.depth)
		for i, q := range qs {
			sem <- struct{}{}
			wg.Add(1)
			go func(i int, q k.Req) {
				defer wg.Done()
				defer func() { <-sem }()
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				defer cancel()
				m := q.Method
				if m == "" {
					m = "GET"
				}
				r := &http.Request{Method: m, URL: &url.URL{Scheme: "https", Host: "h.test", Opaque: "//" + q.Host + q.Target}, Host: q.Host, Header: http.Header{"User-Agent": {""}}}
				ua := false
				for _, h := range q.Header {
					n := http.CanonicalHeaderKey(h[0])
					if n == "User-Agent" && !ua {
						ua = true
						r.Header.Del(n)
					}
					r.Header.Add(n, h[1])
				}
				if q.Body != "" {
					r.Body, r.ContentLength = io.NopCloser(strings.NewReader(q.Body)), int64(len(q.Body))
					if q.Chunked {
						r.ContentLength = -1
					}
				}
				resp, err := tr.RoundTrip(r.WithContext(ctx))
				if err == nil && resp.ProtoMajor != 2 {
					err = errors.New("not HTTP/2 but " + resp.Proto)
				}
				out[i] = take(resp, err)
			}(i, q)
		}
		wg.Wait()
		return out
	}
	for i := 0; i < len(qs); {
		conn, err := c.dial()
		if err != nil {
			out[i].err = err
			i++
			continue
		}
		br := bufio.NewReader(conn)
		var wg sync.WaitGroup
		alive := true
		start := i
		for alive && i < len(qs) && !(c.fresh && i > start) {
			batch := qs[i:min(i+max(c.depth, 1), len(qs))]
			if c.fresh {
				batch = batch[:1]
			}
			var b strings.Builder
			for _, q := range batch {
				b.WriteString(c.raw(q))
			}
			wg.Add(1)
			go func() { defer wg.Done(); c.send(conn, b.String()) }()
			for _, q := range batch {
				m := q.Method
				if m == "" {
					m = "GET"
				}
				conn.SetReadDeadline(time.Now().Add(60 * time.Second))
				resp, err := http.ReadResponse(br, &http.Request{Method: m})
				for err == nil && resp.StatusCode == 100 {
					resp, err = http.ReadResponse(br, &http.Request{Method: m})
				}
				out[i] = take(resp, err)
				i++
				if err != nil || resp.Close {
					alive = false
					break // the rest of the batch is sent again on a new connection
				}
			}
		}
		conn.Close()
		wg.Wait()
	}
	return out
}

func noH2(version uint16) *tls.Config {
	return &tls.Config{InsecureSkipVerify: true, MinVersion: version, MaxVersion: version, NextProtos: []string{"http/1.1"}, ServerName: "h.test"}
}

func asHTTP10(q k.Req, raw string) string {
	q.Chunked = false
	raw = q.Raw()
	i := strings.Index(raw, "\r\n")
	return strings.TrimSuffix(raw[:i], "1") + "0" + raw[i:]
}

func addHeader(raw, h string) string {
	i := strings.Index(raw, "\r\n\r\n")
	return raw[:i] + "\r\n" + h + raw[i:]
}

func TestW01(t *testing.T) {
	vt.Check(t, 22, 500, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		w.Open()
		addr := k.NextAddr()
		ew := genServer(rt, w)
		ew.unlimited()
		conf := ew.conf
		conf.Metrics = false
		conf.ReadTimeout, conf.WriteTime, conf.HeaderTimeout = 900, 900, 900
		dead := chance(rt, "dead upstream", 5)
		retarget := func(h *k.Host) {
			for host := range h.Rules {
				h.Rules[host] = "http://" + addr + ":9000"
				if dead {
					h.Rules[host] = "http://" + addr + ":9"
				}
			}
		}
		retarget(&conf.Main)
		for _, h := range conf.VHosts {
			retarget(h)
		}
		text := ew.String()
		up := echoServer(addr + ":9000")
		defer up.Close()

		crt, key := certificate()
		k.Tree(w.Dir, map[string]string{"crt": crt, "key": key})
		var ends []func()
		defer func() {
			for _, f := range ends {
				f()
			}
		}()
		conf.Address, conf.LogLevel, conf.FileDir = addr, 1, w.Path("w", "fd")
		start := func(useTLS bool, port string) (*k.Proc, string) {
			cf := *conf
			cf.TLS, cf.Port, cf.LogOut = useTLS, port, w.Path("w", "log"+port)
			if useTLS {
				cf.Cert, cf.Key = w.Path("crt"), w.Path("key")
			}
			d := w.Path("conf" + port)
			k.Tree(d, map[string]string{})
			p, err := w.Run(cf.Write(d), addr+":"+port)
			if err != nil {
				rt.Fatalf("%v\n%s", err, text)
			}
			ends = append(ends, p.Kill)
			return p, cf.LogOut
		}
		var qs []k.Req
		var prs []*http.Request
		var log []string
		drop := map[string]bool{"Keep-Alive": true, "Te": true, "Upgrade": true, "Expect": true}
		for i := n(rt, "requests", 8, 30); i > 0; i-- {
			q := ew.genReq(rt)
			q.Header = without(without(q.Header, "Connection"), "Upgrade") // of the connection
			var hs [][2]string
			for _, h := range q.Header {
				if !drop[h[0]] {
					hs = append(hs, h)
				}
			}
			q.Header, q.Remote = hs, "127.0.0.1:1"
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			if q.Body != "" {
				d := k.NewModel(conf).Decide(q, pr, k.Canon(pr.URL.Path))
				switch {
				case d.Status != 200 || d.Kind != "proxy":
					// a body that nobody reads is lost with its connection unless it is short
					q.Body = q.Body[:min(len(q.Body), 300)]
				case chance(rt, "big", 3):
					q.Body = strings.Repeat("0123456789abcdef", n(rt, "kb", 64, 9000))
				}
			}
			qs, prs, log = append(qs, q), append(prs, pr), append(log, q.String())
		}
		vt.Note(text + "\n" + strings.Join(log, "\n"))
		plainPort, tlsPort := "8080", "8443"
		_, plainLog := start(false, plainPort)
		_, tlsLog := start(true, tlsPort)
		plain, secure := addr+":"+plainPort, addr+":"+tlsPort
		h2 := &tls.Config{InsecureSkipVerify: true, ServerName: "h.test"}
		if chance(rt, "h2 over 1.2", 3) {
			h2.MaxVersion = tls.VersionTLS12
		}
		clients := []client{
			{name: "HTTP/1.1", addr: plain, fresh: true},
			{name: "HTTP/1.0", addr: plain, fresh: true, edit: asHTTP10},
			{name: "HTTP/1.1 keep-alive", addr: plain},
			{name: "HTTP/1.1 pipelined", addr: plain, depth: n(rt, "depth", 2, 8)},
			{name: "HTTP/1.1 over TLS 1.2", addr: secure, tls: noH2(tls.VersionTLS12)},
			{name: "HTTP/1.1 over TLS 1.3", addr: secure, tls: noH2(tls.VersionTLS13), fresh: chance(rt, "freshtls", 2), depth: n(rt, "tlsdepth", 1, 3)},
			{name: "HTTP/2", addr: secure, tls: h2, h2: true, depth: rapid.SampledFrom([]int{1, 6}).Draw(rt, "streams")},
			{name: "HTTP/1.1 in pieces", addr: plain, pieces: n(rt, "pieces", 2, 60)},
			{name: "HTTP/1.1 absolute form", addr: plain, edit: func(q k.Req, raw string) string {
				return strings.Replace(raw, " "+q.Target+" HTTP/1.1", " http://"+q.Host+q.Target+" HTTP/1.1", 1)
			}},
			{name: "HTTP/1.1 chunked the other way", addr: plain, edit: func(q k.Req, raw string) string { q.Chunked = !q.Chunked && q.Body != ""; return q.Raw() }},
			{name: "HTTP/1.1 bare line ends", addr: plain, edit: func(q k.Req, raw string) string {
				if q.Chunked {
					return raw
				}
				i := strings.Index(raw, "\r\n\r\n")
				return strings.ReplaceAll(raw[:i+4], "\r\n", "\n") + raw[i+4:]
			}},
			{name: "HTTP/1.0 keep-alive", addr: plain, edit: func(q k.Req, raw string) string {
				return addHeader(asHTTP10(q, raw), "Connection: keep-alive")
			}},
			{name: "HTTP/1.1 expecting 100", addr: plain, edit: func(q k.Req, raw string) string {
				if q.Body == "" {
					return raw
				}
				return addHeader(raw, "Expect: 100-continue")
			}},
		}
		if dead { // the transport of the server may wait for 100 for a while
			clients = clients[:len(clients)-1]
		}
		base := clients[0].run(qs)
		bad := ""
		m := k.NewModel(conf)
		counts := map[string]int{}
		for i := range qs {
			if base[i].err != nil {
				bad = fmt.Sprintf("request %d over a connection of its own: %v", i, base[i].err)
				break
			}
			c.Labelf("answer %d", base[i].status)
			r := &k.Resp{Status: base[i].status, Header: base[i].header, Body: []byte(base[i].body), Path: k.Canon(prs[i].URL.Path), HostNam: k.HostName(prs[i].Host)}
			if want := ew.final(m.Decide(qs[i], prs[i], r.Path), r, qs[i], dead); want != 0 {
				if bad = ew.checkErrorPage(want, qs[i], r); bad != "" {
					bad = fmt.Sprintf("request %d: %s", i, bad)
					break
				}
			}
		}
		if bad == "" {
			counts[plainLog] += len(qs)
		}
		for _, cl := range clients[1:] {
			if bad != "" {
				break
			}
			got := cl.run(qs)
			vt.Progress()
			for i := range qs {
				ok := got[i].same(base[i])
				if hs := got[i].header.Values("Strict-Transport-Security"); ok && (len(hs) == 1) != (cl.tls != nil) {
					bad = fmt.Sprintf("Strict-Transport-Security %q by %s", hs, cl.name)
				}
				if cls := got[i].header.Values("Content-Length"); ok && qs[i].Method != "HEAD" && got[i].status != 304 && len(cls) > 0 && (len(cls) != 1 || cls[0] != fmt.Sprint(len(got[i].body))) {
					bad = fmt.Sprintf("Content-Length %q for %d bytes by %s", cls, len(got[i].body), cl.name)
				}
				if !ok || bad != "" {
					bad = fmt.Sprintf("%s\nrequest %d by %s was answered\n%s\nby HTTP/1.1 on a connection of its own\n%s\nbodies: %s", bad, i, cl.name, got[i], base[i], diff([]byte(got[i].body), base[i].body))
					break
				}
			}
			l := plainLog
			if cl.tls != nil {
				l = tlsLog
			}
			counts[l] += len(qs)
		}
		for _, l := range []string{plainLog, tlsLog} {
			if bad != "" {
				break
			}
			lines := 0
			for try := 0; try < 1000 && lines < counts[l]; try++ {
				b, err := os.ReadFile(l)
				vt.Must(err)
				lines = bytes.Count(b, []byte(" NET: "))
				if lines < counts[l] {
					time.Sleep(10 * time.Millisecond)
				}
			}
			if lines < counts[l] {
				bad = fmt.Sprintf("%d access lines for %d requests in %s", lines, counts[l], l)
			}
		}
		if bad != "" {
			rt.Fatalf("%s\nconfig %s\nhistory\n%s", bad, text, strings.Join(log, "\n"))
		}
		c.NonTrivial(len(qs) > 3)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}
