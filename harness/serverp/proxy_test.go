package serverp

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// genProxy generates a proxying configuration. Targets are given as
// scheme://host; target(i) names the i-th of them.
func genProxy(rt *rapid.T, target func(i int) string) *k.Conf {
	c := &k.Conf{}
	methods := func() []string {
		ms := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT"}), 1, 6, rapid.ID[string]).Draw(rt, "pmethods")
		if chance(rt, "get", 2) {
			ms = append(ms, "GET", "POST")
		}
		return ms
	}
	next := 0
	tgt := func() string { next++; return target(next - 1) }
	if chance(rt, "vhosts", 3) {
		c.VHosts = map[string]*k.Host{}
		for _, name := range []string{"p.test", "q.test", "sub.p.test"}[:n(rt, "nvhosts", 1, 3)] {
			h := &k.Host{Proxy: true, Rules: map[string]string{name: tgt()}, ProxyMethods: methods()}
			if chance(rt, "unused rule", 3) {
				h.Rules["r.test"] = tgt()
			}
			c.VHosts[name] = h.Unlimited()
		}
	} else {
		h := &k.Host{Proxy: true, Rules: map[string]string{}, ProxyMethods: methods()}
		for _, name := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"p.test", "q.test", "sub.p.test", "127.0.0.1", "xp.test"}), 1, 4, rapid.ID[string]).Draw(rt, "rules") {
			h.Rules[name] = tgt()
		}
		if vt.Rare(rt, "many rules", 50) {
			for i := vt.Many(rt, "further rules", 300); i > 0; i-- {
				h.Rules[fmt.Sprintf("p%d.test", i)] = tgt()
			}
		}
		c.Main = *h.Unlimited()
	}
	return c
}

func (ew *errWorld) proxyHosts() []string {
	var hs []string
	for name, h := range ew.conf.VHosts {
		_ = h
		hs = append(hs, name)
	}
	for name := range ew.conf.Main.Rules {
		hs = append(hs, name)
	}
	sort.Strings(hs)
	return hs
}

var stubTargets = []string{"http://t1.internal", "http://t2.internal:8081", "https://t3.internal", "http://192.0.2.7", "https://[2001:db8::7]:8443", "http://t5.internal"}

func stubTarget(i int) string { return stubTargets[i%len(stubTargets)] }

// genTargetURI makes request targets of all forms.
func genTargetURI(rt *rapid.T, host string) string {
	path := func() string {
		var b strings.Builder
		for i := n(rt, "segs", 0, 4); i >= 0; i-- {
			b.WriteString("/")
			b.WriteString(pick(rt, "seg", "", "a", "b.html", ".", "..", "%2F", "a%2fb", "%2e%2e", "x y"[:1], "%20", "ü", "%C3%BC", "%ff", "a;b=c", "a,b", "@evil.test", ":80", "http:", "a=b&c", "~", "(x)", "a+b", "%25", "%41", "\"q\"", "<s>", "{x}", "|", "^", "`", "\\", "[x]", "!$'*", "%00", "%0d%0aX-Evil: 1"[:6]))
		}
		return b.String()
	}
	query := func() string {
		switch n(rt, "qkind", 0, 3) {
		case 0:
			return "?" + pick(rt, "query", "a=b", "a=b&c=d", "x=%20y", "%zz", "q=?", "a;b", "=", "&&", "a=http://evil/", "u=ü", "plus=a+b", "a=/../x", "h=x%23y", "", "\"<>\"", "a=b?c=d", "%2e%2e%2f")
		}
		return ""
	}
	if vt.Rare(rt, "bigtarget", 25) {
		t := vt.BigPath(rt, "big", 5000, 8000)
		switch n(rt, "bigform", 0, 2) {
		case 0:
			t = path() + t + path()
		case 1:
			t = path() + "?" + strings.ReplaceAll(t[1:], "/", "&a=")
		}
		return t
	}
	if vt.Rare(rt, "hugequery", 40) {
		size := rapid.SampledFrom([]int{8191, 8192, 8193, 10000, 16385, 32769, 65537, 100000, 300000}).Draw(rt, "querysize")
		return path() + "?" + pick(rt, "firstpart", "", "a=b&", "q=") + strings.Repeat(pick(rt, "part", "abcd", "&x=1", "%20a", "éab"), size/4) + "&last=" + fmt.Sprint(size)
	}
	frag := ""
	if chance(rt, "hash", 15) {
		frag = pick(rt, "frag", "#", "#x", "#a?b=c", "#/../x")
	}
	switch n(rt, "form", 0, 11) {
	case 0: // absolute form
		return pick(rt, "abs", "http://", "https://", "HTTP://", "ftp://") + host + path() + query()
	case 1:
		return "http://" + host + query()
	case 2: // double slash
		return "//" + pick(rt, "auth", "evil.test", host, "user@evil.test", "evil.test:80") + path() + query()
	case 3: // opaque
		return pick(rt, "opaque", "x.evil.test:80", "x:80/y", "http:x", "x.evil.test:", "mailto:a@b", "a:/b/c", "x.evil.test:80?q=1", "http:?q")
	}
	return path() + query() + frag
}

// splitTarget gives the raw path and query a request target names.
func splitTarget(t string, method string) (string, string, bool) {
	if method == "CONNECT" && !strings.HasPrefix(t, "/") {
		return "", "", false
	}
	if !strings.HasPrefix(t, "/") {
		i := strings.Index(t, ":")
		if i < 0 {
			return "", "", false
		}
		t = t[i+1:]
		switch {
		case strings.HasPrefix(t, "//"):
			t = t[2:]
			if j := strings.IndexAny(t, "/?"); j >= 0 {
				t = t[j:]
			} else {
				t = ""
			}
		case !strings.HasPrefix(t, "/"):
			// an opaque target names no path
			if j := strings.IndexByte(t, '?'); j >= 0 {
				t = t[j:]
			} else {
				t = ""
			}
		}
	}
	path, query := t, ""
	if i := strings.IndexByte(t, '?'); i >= 0 {
		path, query = t[:i], t[i+1:]
	}
	if path == "" {
		path = "/"
	}
	return path, query, true
}

func hex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// unescape decodes percent escapes and nothing else.
func unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) && hex(s[i+1]) && hex(s[i+2]) {
			v := 0
			fmt.Sscanf(s[i+1:i+3], "%x", &v)
			b.WriteByte(byte(v))
			i += 2
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// tidy tells whether a raw path consists of characters that may stand in a
// path, so that there is no reason to change a single byte of it.
func tidy(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '%' {
			if i+2 >= len(s) || !hex(s[i+1]) || !hex(s[i+2]) {
				return false
			}
			continue
		}
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-_.~!$&'()*+,;=:@/", c) >= 0) {
			return false
		}
	}
	return true
}

func hash(s string) string { return strings.Replace(s, "#", "%23", -1) }

// sameURI compares what was forwarded with the request target.
func sameURI(q k.Req, uri string) string {
	path, query, ok := splitTarget(q.Target, q.Method)
	if !ok {
		return ""
	}
	if !strings.HasPrefix(uri, "/") {
		return fmt.Sprintf("forwarded target %q has no path", uri)
	}
	gp, gq := uri, ""
	if i := strings.IndexByte(uri, '?'); i >= 0 {
		gp, gq = uri[:i], uri[i+1:]
	}
	if gp != path && (tidy(path) || unescape(gp) != unescape(path)) {
		return fmt.Sprintf("forwarded path %q, want %q", gp, path)
	}
	if strings.Contains(uri, "?") != strings.Contains(q.Target, "?") {
		return fmt.Sprintf("forwarded target %q, but an empty query is not the same as none", uri)
	}
	if hash(gq) != hash(query) {
		return fmt.Sprintf("forwarded query %q, want %q", gq, query)
	}
	return ""
}

// checkForward compares what an upstream saw with what the client sent.
func checkForward(conf *k.Conf, q k.Req, pr *http.Request, u k.UpReq, ignore ...string) string {
	host := k.HostName(pr.Host)
	rule := conf.HostConf(host).Rules[host]
	if got := u.Scheme + "://" + u.Host; got != rule {
		return fmt.Sprintf("forwarded to %q, the rule of %q says %q", got, host, rule)
	}
	if u.Method != pr.Method {
		return fmt.Sprintf("forwarded as %s", u.Method)
	}
	if h := k.HostName(u.HostHeader); h != host {
		return fmt.Sprintf("forwarded with host %q, want %q", u.HostHeader, host)
	}
	if bad := sameURI(q, u.URI); bad != "" {
		return bad
	}
	if u.Body != q.Body {
		return "forwarded " + diff([]byte(u.Body), q.Body)
	}
	got, want := u.Header.Clone(), pr.Header.Clone()
	for _, h := range []http.Header{got, want} {
		// to net/http, an empty User-Agent says that none is to be sent
		if v := h["User-Agent"]; len(v) > 0 && v[0] == "" {
			h.Del("User-Agent")
		}
	}
	for _, name := range ignore {
		got.Del(name)
		want.Del(name)
	}
	if bad := sameHeader(got, want); bad != "" {
		return "forwarded / sent: " + bad
	}
	return ""
}

var noise = func() string {
	b := make([]byte, 1<<24+2)
	x := uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return string(b)
}()

// huge is a body of up to 16 MB.
func huge(rt *rapid.T) string {
	return noise[:1<<uint(n(rt, "hugebits", 17, 24))+n(rt, "hugeoff", -1, 1)]
}

func genProxyReq(rt *rapid.T, hosts []string, methods []string) k.Req {
	q := k.Req{Host: rapid.SampledFrom(hosts).Draw(rt, "host")}
	if chance(rt, "port", 4) {
		q.Host += ":8080"
	}
	q.Method = rapid.SampledFrom(methods).Draw(rt, "method")
	q.Target = genTargetURI(rt, q.Host)
	if q.Method == "CONNECT" && !strings.HasPrefix(q.Target, "/") {
		q.Target = "/"
	}
	for i := n(rt, "headers", 0, 6); i > 0; i-- {
		q.Header = append(q.Header, [2]string{
			pick(rt, "hname", "Accept", "Cookie", "X-Multi", "X-Multi", "x-lower", "User-Agent", "Referer", "Authorization", "Accept-Encoding", "Range", "If-None-Match", "X-Forwarded-For", "Content-Type", "Origin", "X-Empty", "Host-X", "Te", "Via", "Cache-Control", "Proxy-Authorization"),
			pick(rt, "hvalue", "a", "b", "", "text/html; q=0.3, */*", "c=d; e=f", "\"etag\"", "gzip", "identity", "bytes=0-5", "Basic eDp5", "ü", "a  b", "x,y")})
	}
	if vt.Rare(rt, "bighdr", 25) {
		switch n(rt, "bigkind", 0, 2) {
		case 0:
			q.Header = append(q.Header, [2]string{pick(rt, "bigname", "Cookie", "Referer", "X-Big", "User-Agent"), vt.Long(rt, "bigv", "abcdef=ghi;", 5000) + "x"})
		case 1:
			for i := vt.Many(rt, "headers2", 300); i > 0; i-- {
				q.Header = append(q.Header, [2]string{pick(rt, "manyname", "Cookie", fmt.Sprintf("X-Many-%d", i), "Accept"), fmt.Sprintf("v%d=%d", i, i)})
			}
		default:
			q.Header = append(q.Header, [2]string{"X-" + vt.Long(rt, "bign", "Abcdefg", 1000), "x"})
		}
	}
	if q.Method != "GET" && q.Method != "HEAD" && q.Method != "TRACE" || chance(rt, "anybody", 8) {
		switch n(rt, "bodykind", 0, 4) {
		case 0, 1:
			q.Body = pick(rt, "body", "x", "hello", "a=b&c=d", "\x00\xff\r\n\r\n")
		case 2:
			q.Body = content(rt)
		case 3:
			if chance(rt, "huge", 12) {
				q.Body = huge(rt)
			}
		}
		q.Chunked = chance(rt, "chunked", 3)
	}
	q.Remote = pick(rt, "remote", "192.0.2.1:1000", "[2001:db8::1]:7")
	return q
}

func kinds(c *vt.Case, q k.Req) {
	switch {
	case strings.HasPrefix(q.Target, "//"):
		c.Label("target //")
	case strings.HasPrefix(q.Target, "/"):
		c.Label("target /path")
	case strings.Contains(q.Target, "://"):
		c.Label("target absolute")
	default:
		c.Label("target opaque")
	}
	c.LabelIf(q.Body != "", "body")
	c.LabelIf(len(q.Header) > 1, "several headers")
}

// P01: proxied requests reach the configured target unchanged.

// policies are answers by which an upstream seems to ask for something else
// than one request for each.
var policies = func() (out []upAnswer) {
	add := func(status int, kv ...string) {
		h := http.Header{"Content-Type": {"text/plain"}}
		for i := 0; i+1 < len(kv); i += 2 {
			h.Add(kv[i], kv[i+1])
		}
		out = append(out, upAnswer{status: status, header: h, body: "policy"})
	}
	const past, future = "Thu, 01 Jan 2015 00:00:00 GMT", "Fri, 01 Jan 2100 00:00:00 GMT"
	for _, cc := range []string{"public, max-age=600", "max-age=600", "public, max-age=600, immutable", "s-maxage=600", "public", "private, max-age=600", "no-store", "no-cache", "max-age=0, must-revalidate", "max-age=1, stale-while-revalidate=600, stale-if-error=600"} {
		add(200, "Cache-Control", cc)
		add(200, "Cache-Control", cc, "Etag", `"e"`, "Last-Modified", past, "Vary", "Accept-Encoding")
		add(404, "Cache-Control", cc)
		add(301, "Cache-Control", cc, "Location", "/elsewhere")
	}
	add(200, "Expires", future, "Date", past)
	add(200, "Etag", `"e"`)
	add(200, "Last-Modified", past)
	add(200, "Age", "3")
	add(200, "Surrogate-Control", "max-age=600")
	add(200, "X-Accel-Expires", "600")
	add(200, "X-Accel-Redirect", "/elsewhere")
	add(200, "X-Sendfile", "/etc/hostname")
	add(200, "Refresh", "0; url=/elsewhere")
	add(200, "Link", "</s.css>; rel=preload")
	add(200, "Alt-Svc", `h2="other.internal:443"`)
	add(200, "Clear-Site-Data", "*")
	add(200, "Connection", "close")
	for _, st := range []int{201, 300, 301, 302, 303, 305, 307, 308} {
		for _, to := range []string{"/elsewhere", "http://other.internal/x", "http://p.test/x", "https://q.test/", "?again", ""} {
			add(st, "Location", to)
		}
	}
	for _, st := range []int{202, 400, 401, 403, 404, 405, 407, 408, 409, 410, 411, 412, 413, 417, 418, 421, 423, 425, 426, 429, 431, 444, 451, 499, 500, 501, 502, 503, 504, 505, 508, 520, 529, 530, 599, 999} {
		add(st)
		for _, after := range []string{"0", "1", past, "120"} {
			if st == 202 || st == 408 || st >= 413 {
				add(st, "Retry-After", after)
			}
		}
	}
	add(304, "Etag", `"e"`)
	add(204)
	add(401, "Www-Authenticate", `Basic realm="r"`)
	add(401, "Www-Authenticate", `Digest realm="r", nonce="n", stale=true`)
	add(407, "Proxy-Authenticate", "Basic realm=r")
	add(405, "Allow", "GET, POST")
	add(426, "Upgrade", "h2c", "Connection", "upgrade")
	for i := range out {
		if st := out[i].status; st == 204 || st == 304 {
			out[i].body = ""
		}
	}
	return
}()

// hugeBody is 130 MiB that do not repeat.
func hugeBody() string {
	var b strings.Builder
	for i := 0; b.Len() < 130<<20; i++ {
		fmt.Fprintf(&b, "%d:%s", i, strings.Repeat("0123456789abcdef", 4000))
	}
	return b.String()
}

func TestP01(t *testing.T) {
	vt.LargeExample(t, "huge body", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{Main: *(&k.Host{Proxy: true, Rules: map[string]string{"p.test": "http://up"}, ProxyMethods: []string{"POST"}}).Unlimited()}
		s := w.Start(c)
		body := hugeBody()
		if r := s.Do(k.Req{Method: "POST", Host: "p.test", Target: "/", Body: body}); r.Status != 200 || r.Fatal() != "" || len(s.Up.Reqs) != 1 {
			t.Fatalf("POST of %d bytes answered %d, %d upstream requests %s", len(body), r.Status, len(s.Up.Reqs), r.Fatal())
		}
		if got := s.Up.Reqs[0].Body; got != body {
			t.Fatalf("of a body of %d bytes the upstream saw %s", len(body), diff([]byte(got), body))
		}
	})
	vt.Example(t, "odd targets", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{Main: *(&k.Host{Proxy: true, Rules: map[string]string{"p.test": "http://up", "x": "http://up", "http": "http://up"}, ProxyMethods: []string{"GET"}}).Unlimited()}
		s := w.Start(c)
		for _, target := range []string{"x.evil.test:80", "http://p.test/a?b", "http://p.test", "http:x", "/a#b", "/a?b#c", "/a#b?c", "//evil.test/x", "/a\"b", "/%2e%2e/x", "/a//b/../c", "mailto:a@b"} {
			q := k.Req{Target: target, Host: "p.test"}
			pr, err := q.Parse()
			if err != nil {
				t.Fatalf("%v", err)
			}
			s.Up.Reqs = nil
			r := s.Do(q)
			if r.Fatal() != "" || r.Status != 200 || len(s.Up.Reqs) != 1 {
				t.Fatalf("%s: status %d, %d upstream requests, %s", q, r.Status, len(s.Up.Reqs), r.Fatal())
			}
			if bad := checkForward(c, q, pr, s.Up.Reqs[0]); bad != "" {
				t.Fatalf("%s: %s", q, bad)
			}
		}
	})
	vt.Check(t, 1500, 40000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := &errWorld{conf: genProxy(rt, stubTarget)}
		hosts := ew.proxyHosts()
		text := ew.conf.Text()
		vt.Note(text)
		s := w.Start(ew.conf)
		var log []string
		if vt.Rare(rt, "policies", 25) {
			// the same request again and again, whatever the upstream answers
			host := rapid.SampledFrom(hosts).Draw(rt, "rulehost")
			q := genProxyReq(rt, []string{host}, ew.conf.HostConf(host).ProxyMethods)
			if chance(rt, "simple", 2) {
				q = k.Req{Method: rapid.SampledFrom(ew.conf.HostConf(host).ProxyMethods).Draw(rt, "method"), Host: host, Target: "/a"}
			}
			pr, err := q.Parse()
			if err == nil && ew.conf.HostConf(k.HostName(pr.Host)).Rules[k.HostName(pr.Host)] != "" {
				for _, a := range policies {
					log = append(log, q.String()+" twice -> "+a.String())
					vt.Note(text + "\n" + strings.Join(log, "\n"))
					s.Up.Respond = a.response
					s.Up.Reqs = nil
					for j := 1; j <= 2; j++ {
						r := s.Do(q)
						bad := r.Fatal()
						if bad == "" && r.Status != a.status {
							bad = fmt.Sprintf("answered %d", r.Status)
						}
						if bad == "" && len(s.Up.Reqs) != j {
							bad = fmt.Sprintf("%d upstream requests for %d requests", len(s.Up.Reqs), j)
						}
						if bad == "" {
							pr, _ := q.Parse()
							bad = checkForward(ew.conf, q, pr, s.Up.Reqs[j-1])
						}
						if bad != "" {
							rt.Fatalf("%s\n%s\nupstream %s\nconfig %s", bad, q, a, text)
						}
					}
				}
				c.Label("policies")
			}
		}
		for i := n(rt, "requests", 1, 12); i > 0; i-- {
			host := rapid.SampledFrom(hosts).Draw(rt, "rulehost")
			ms := ew.conf.HostConf(host).ProxyMethods
			q := genProxyReq(rt, []string{host}, ms)
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			log = append(log, q.String())
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			rule, known := ew.conf.HostConf(k.HostName(pr.Host)).Rules[k.HostName(pr.Host)]
			s.Up.Reqs = nil
			s.Up.Respond = nil
			fails := chance(rt, "fails", 6)
			if fails {
				s.Up.Respond = refuse
				c.Label("upstream fails")
			}
			r := s.Do(q)
			bad := ""
			switch {
			case r.Fatal() != "":
				bad = r.Fatal()
			case !known:
				if len(s.Up.Reqs) != 0 {
					bad = fmt.Sprintf("host %q has no rule but was forwarded", pr.Host)
				}
			case fails && (r.Status != 502 || len(s.Up.Reqs) != 1):
				bad = fmt.Sprintf("status %d, %d upstream requests, want one that fails to %s", r.Status, len(s.Up.Reqs), rule)
			case !fails && (r.Status != 200 || len(s.Up.Reqs) != 1):
				bad = fmt.Sprintf("status %d, %d upstream requests, want one to %s", r.Status, len(s.Up.Reqs), rule)
			default:
				bad = checkForward(ew.conf, q, pr, s.Up.Reqs[0])
			}
			if bad != "" {
				rt.Fatalf("%s\n%s\nconfig %s", bad, q, text)
			}
			kinds(c, q)
			c.NonTrivial(known)
		}
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

// upServer is a real upstream on the loopback network.
type upServer struct {
	l    net.Listener
	mu   sync.Mutex
	reqs []k.UpReq
	raw  func(u k.UpReq) string // what to answer; the connection is closed after it
}

func newUpServer() *upServer {
	l := k.Listen()
	u := &upServer{l: l}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go u.serve(conn)
		}
	}()
	return u
}

func (u *upServer) serve(conn net.Conn) {
	defer conn.Close()
	br := bufio.NewReader(conn)
	r, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	body, _ := io.ReadAll(r.Body)
	q := k.UpReq{Method: r.Method, Scheme: "http", Host: u.l.Addr().String(), HostHeader: r.Host, URI: r.RequestURI, Header: r.Header, Body: string(body)}
	u.mu.Lock()
	u.reqs = append(u.reqs, q)
	raw := u.raw
	u.mu.Unlock()
	io.WriteString(conn, raw(q))
}

func (u *upServer) take() []k.UpReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	r := u.reqs
	u.reqs = nil
	return r
}

func plainOK(k.UpReq) string { return "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok" }

// onNetwork gives the server back the transport it made itself, but without
// connections kept open and with more time for a busy machine.
func onNetwork(s *k.Srv) {
	if tr, ok := s.Own.(*http.Transport); ok {
		tr.DisableKeepAlives = true
		tr.ResponseHeaderTimeout = 60 * time.Second
	}
	s.S.Transport = s.Own
}

func TestP01Wire(t *testing.T) {
	var ups []*upServer
	for i := 0; i < 3; i++ {
		u := newUpServer()
		u.raw = plainOK
		ups = append(ups, u)
	}
	vt.Check(t, 600, 10000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := &errWorld{conf: genProxy(rt, func(i int) string { return "http://" + ups[i%len(ups)].l.Addr().String() })}
		hosts := ew.proxyHosts()
		text := ew.conf.Text()
		vt.Note(text)
		s := w.Start(ew.conf)
		onNetwork(s)
		do, stop := overWire(s)
		defer stop()
		var log []string
		for i := n(rt, "requests", 1, 6); i > 0; i-- {
			host := rapid.SampledFrom(hosts).Draw(rt, "rulehost")
			q := genProxyReq(rt, []string{host}, ew.conf.HostConf(host).ProxyMethods)
			if q.Method == "CONNECT" {
				continue
			}
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			log = append(log, q.String())
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			if _, known := ew.conf.HostConf(k.HostName(pr.Host)).Rules[k.HostName(pr.Host)]; !known {
				continue
			}
			for _, u := range ups {
				u.take()
			}
			r := do(q)
			var saw []k.UpReq
			for _, u := range ups {
				saw = append(saw, u.take()...)
			}
			bad := r.Fatal()
			if bad == "" {
				if r.Status != 200 || len(saw) != 1 {
					bad = fmt.Sprintf("status %d, %d upstream requests, want one", r.Status, len(saw))
				} else {
					u := saw[0]
					ignore := []string{"Connection", "Content-Length", "Transfer-Encoding"}
					if len(pr.Header["User-Agent"]) > 1 {
						ignore = append(ignore, "User-Agent") // net/http sends only the first
					}
					bad = checkForward(ew.conf, q, pr, u, ignore...)
				}
			}
			if bad != "" {
				rt.Fatalf("%s\n%s\nconfig %s", bad, q, text)
			}
			kinds(c, q)
			c.NonTrivial(true)
		}
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

// P02: upstream responses are returned unchanged.

type upAnswer struct {
	status int
	header http.Header
	body   string
	broken bool
	at     int
}

func (a upAnswer) String() string {
	s := fmt.Sprintf("%d %v %d bytes", a.status, a.header, len(a.body))
	if a.broken {
		s += fmt.Sprintf(" broken off after %d", a.at)
	}
	return s
}

// zipped is gzipped text.
func zipped(text string) string {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	io.WriteString(z, text)
	z.Close()
	return b.String()
}

// genAnswer generates an upstream's answer. It may speak of the target it was
// reached by and of the host that was requested.
func genAnswer(rt *rapid.T, wire bool, target, host string) upAnswer {
	a := upAnswer{header: http.Header{}}
	speaks := []string{target, target + "/", target + "/a/b?c=d#e", "http://" + host + "/", "https://" + host + "/x", "//" + host + "/y", strings.TrimPrefix(target[strings.Index(target, ":")+1:], "//"), host}
	if chance(rt, "anystatus", 3) {
		a.status = n(rt, "status", 200, 999)
	} else {
		a.status = rapid.SampledFrom([]int{200, 201, 204, 206, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 405, 406, 418, 429, 500, 502, 503, 599}).Draw(rt, "status")
	}
	for i := n(rt, "headers", 0, 7); i > 0; i-- {
		name := pick(rt, "hname", "Content-Type", "Set-Cookie", "Set-Cookie", "Location", "Www-Authenticate", "X-Up", "Vary", "Cache-Control", "Etag", "Last-Modified", "Link", "Server", "X-Frame-Options", "Content-Security-Policy", "X-Content-Type-Options", "Retry-After", "Content-Disposition", "Referrer-Policy", "X-Proxy", "Accept-Ranges", "Content-Language", "Access-Control-Allow-Origin", "Strict-Transport-Security", "Content-Range", "Refresh", "Content-Location", "Content-Encoding", "Alt-Svc", "Sourcemap")
		if chance(rt, "speaking", 5) {
			v := rapid.SampledFrom(speaks).Draw(rt, "speaks")
			switch pick(rt, "speakas", "plain", "plain", "refresh", "cookie", "link", "csp") {
			case "refresh":
				v = "0; url=" + v
			case "cookie":
				v = "a=b; Path=/; Domain=" + v
			case "link":
				v = "<" + v + ">; rel=preload"
			case "csp":
				v = "default-src 'self' " + v
			}
			a.header.Set(name, v)
			continue
		}
		if vt.Rare(rt, "bigheader", 40) {
			a.header.Set(name, vt.Long(rt, "big", "abcdefgh; ijkl=\"m\", ", 5000)+"x")
			continue
		}
		if name == "Content-Type" || name == "Location" {
			a.header.Set(name, pick(rt, "single", "text/html", "http://up.internal/x", "/y?z#f", "text/plain; charset=utf-8", ""))
			continue
		}
		a.header.Add(name, pick(rt, "hvalue", "a=1; Path=/", "b=2; HttpOnly", "x", "y", "", "nginx/1", "\"tag\"", "max-age=3", "Basic realm=\"r\"", "frame-ancestors *", "1", "ü"))
	}
	switch n(rt, "bodykind", 0, 4) {
	case 0:
	case 1, 2:
		a.body = pick(rt, "body", "x", "<html>up</html>", "Error 502", "\x00\x01")
	case 3:
		a.body = content(rt)
	default:
		a.body = content(rt)
		if chance(rt, "huge", 12) {
			a.body = huge(rt)
		}
	}
	if vt.Rare(rt, "manyheaders", 30) {
		for i := vt.Many(rt, "headers2", 300); i > 0; i-- {
			a.header.Add(pick(rt, "manyname", "Set-Cookie", fmt.Sprintf("X-Many-%d", i), "Link"), fmt.Sprintf("v%d=%d", i, i))
		}
	}
	if chance(rt, "dated", 4) {
		a.header.Set("Date", pick(rt, "date", "Mon, 01 Jan 2001 00:00:00 GMT", "Fri, 01 Jan 2100 00:00:00 GMT", "Thu, 01 Jan 1970 00:00:00 GMT", "Monday, 01-Jan-01 00:00:00 GMT", "x", "0"))
	}
	if chance(rt, "aged", 4) {
		for _, name := range []string{"Expires", "Age", "Last-Modified", "Cache-Control", "Pragma", "Warning"} {
			// net/http's client answers Pragma: no-cache with a Cache-Control header
			if (name != "Pragma" || !wire) && chance(rt, "has", 2) {
				a.header.Set(name, pick(rt, "agedvalue", "Mon, 01 Jan 2001 00:00:00 GMT", "Fri, 01 Jan 2100 00:00:00 GMT", "0", "-1", "99999", "no-store, private, max-age=0", "public, max-age=31536000", "110 - \"stale\"", "no-cache"))
			}
		}
	}
	switch n(rt, "coded", 0, 9) {
	case 0:
		a.body = zipped(a.body)
		a.header.Set("Content-Encoding", pick(rt, "coding", "gzip", "x-gzip", "GZIP"))
	case 1:
		a.header.Set("Content-Encoding", pick(rt, "othercoding", "gzip", "br", "identity", "deflate"))
	case 2:
		a.body = "<html>" + rapid.SampledFrom(speaks).Draw(rt, "speakbody") + "</html>"
	}
	if a.status == 204 || a.status == 304 {
		a.body = ""
	}
	if a.status != 204 && a.status != 304 && chance(rt, "broken", 4) {
		a.broken = true
		a.at = n(rt, "at", 0, len(a.body))
		if wire && a.at == len(a.body) {
			a.at = 0
			a.body += "tail"
		}
	}
	return a
}

// upHeaders are the proxy headers configured for a host.
func genProxyHeaders(rt *rapid.T, conf *k.Conf) {
	set := func(h *k.Host) {
		if chance(rt, "pheaders", 2) {
			h.ProxyHeaders = map[string]string{}
			for i := n(rt, "npheaders", 1, 3); i > 0; i-- {
				h.ProxyHeaders[pick(rt, "pheader", "X-Proxy", "Server", "x-frame-options", "Vary", "Set-Cookie", "Etag", "Content-Security-Policy")] = pick(rt, "pvalue", "own", "other", "x")
			}
		}
		if chance(rt, "pages", 3) {
			h.Errors = map[string]string{"404": "/nonexistent", "502": "/nonexistent"}
		}
	}
	for _, name := range []string{"p.test", "q.test", "sub.p.test"} {
		if h := conf.VHosts[name]; h != nil {
			set(h)
		}
	}
	set(&conf.Main)
	if chance(rt, "tls", 2) {
		conf.TLS = true
	}
}

// checkBack compares what the client received with what the upstream sent.
func checkBack(conf *k.Conf, host string, a upAnswer, q k.Req, r *k.Resp, wire bool) string {
	if r.Panic != nil {
		return r.Fatal()
	}
	if a.broken && q.Method != "HEAD" {
		if r.Aborted || r.Status == 502 && a.status != 502 {
			return ""
		}
		return fmt.Sprintf("the upstream response broke off after %d bytes, but the client got a complete one: %d with %d bytes", a.at, r.Status, len(r.Body))
	}
	if a.broken {
		return ""
	}
	if r.Aborted {
		return "response was broken off"
	}
	if r.Status != a.status {
		return fmt.Sprintf("status %d, upstream sent %d", r.Status, a.status)
	}
	if q.Method == "HEAD" {
		if len(r.Body) != 0 {
			return "HEAD was answered with a body"
		}
	} else if bad := diff(r.Body, a.body); bad != "" {
		return bad
	}
	want := a.header.Clone()
	for name, v := range conf.HostConf(host).ProxyHeaders {
		want.Set(name, v)
	}
	got := r.Header.Clone()
	if conf.TLS {
		if bad := conf.BadHSTS(got.Values("Strict-Transport-Security")); bad != "" {
			return bad
		}
		got.Del("Strict-Transport-Security")
		want.Del("Strict-Transport-Security")
	}
	if wire {
		for _, name := range []string{"Content-Length", "Connection", "Transfer-Encoding"} {
			got.Del(name)
			want.Del(name)
		}
		if a.status == 304 {
			want.Del("Content-Type")
			got.Del("Content-Type") // net/http leaves it out
		}
	}
	if d := want["Date"]; len(d) > 0 && strings.Join(d, "\n") != strings.Join(got["Date"], "\n") {
		return fmt.Sprintf("received Date %q, upstream sent %q", got["Date"], d)
	}
	if bad := sameHeader(got, want); bad != "" {
		return "received / upstream sent: " + bad
	}
	return ""
}

func (a upAnswer) response(u k.UpReq) (*http.Response, error) {
	body := a.body
	if u.Method == "HEAD" {
		body = ""
	}
	resp := &http.Response{StatusCode: a.status, Header: a.header.Clone(), ContentLength: int64(len(body))}
	if a.broken && u.Method != "HEAD" {
		resp.Body = brokenBody{strings.NewReader(body[:a.at])}
	} else {
		resp.Body = io.NopCloser(strings.NewReader(body))
	}
	return resp, nil
}

func TestP02(t *testing.T) {
	vt.LargeExample(t, "huge body", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{Main: *(&k.Host{Proxy: true, Rules: map[string]string{"p.test": "http://up"}, ProxyMethods: []string{"GET"}}).Unlimited()}
		s := w.Start(c)
		body := hugeBody()
		for _, length := range []int64{-1, int64(len(body))} {
			s.Up.Respond = func(k.UpReq) (*http.Response, error) {
				return &http.Response{StatusCode: 200, Header: http.Header{}, ContentLength: length, Body: io.NopCloser(strings.NewReader(body))}, nil
			}
			if r := s.Get("p.test", "/"); r.Status != 200 || r.Fatal() != "" || string(r.Body) != body {
				t.Fatalf("upstream body of %d bytes: answered %d, %s %s", len(body), r.Status, diff(r.Body, body), r.Fatal())
			}
		}
	})
	vt.Example(t, "broken off", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{Main: *(&k.Host{Proxy: true, Rules: map[string]string{"p.test": "http://up"}, ProxyMethods: []string{"GET"}}).Unlimited()}
		s := w.Start(c)
		a := upAnswer{status: 200, header: http.Header{}, body: "hello", broken: true, at: 2}
		s.Up.Respond = a.response
		q := k.Req{Target: "/", Host: "p.test"}
		if bad := checkBack(c, "p.test", a, q, s.Do(q), false); bad != "" {
			t.Fatalf("%s", bad)
		}
	})
	vt.Check(t, 1500, 40000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := &errWorld{conf: genProxy(rt, stubTarget)}
		genProxyHeaders(rt, ew.conf)
		hosts := ew.proxyHosts()
		text := ew.conf.Text()
		vt.Note(text)
		s := w.Start(ew.conf)
		var log []string
		for i := n(rt, "requests", 1, 10); i > 0; i-- {
			host := rapid.SampledFrom(hosts).Draw(rt, "rulehost")
			q := k.Req{Host: host, Method: rapid.SampledFrom(ew.conf.HostConf(host).ProxyMethods).Draw(rt, "method"), Target: "/x"}
			if chance(rt, "auth", 6) {
				q.Header = [][2]string{{"Range", "bytes=0-1"}}
			}
			if chance(rt, "hint", 4) {
				q.Header = append(q.Header, rapid.SampledFrom(hints).Draw(rt, "hinted"))
			}
			a := genAnswer(rt, false, ew.conf.HostConf(host).Rules[host], host)
			log = append(log, q.String()+" -> "+a.String())
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			if _, known := ew.conf.HostConf(host).Rules[host]; !known {
				continue
			}
			s.Up.Respond = a.response
			s.Up.Reqs = nil
			pr, _ := q.Parse()
			rec := k.NewRec()
			gone := chance(rt, "gone", 8)
			if gone {
				rec.FailAt = n(rt, "goneat", 0, 10)
			}
			r := s.Serve(rec, pr)
			bad := ""
			if gone {
				if r.Panic != nil {
					bad = r.Fatal()
				}
				c.Label("client gone")
			} else {
				bad = checkBack(ew.conf, host, a, q, r, false)
			}
			if bad == "" && s.Up.Leaks() != 0 {
				bad = "the upstream body was not closed"
			}
			if bad != "" {
				rt.Fatalf("%s\n%s -> %s\nconfig %s", bad, q, a, text)
			}
			c.LabelIf(a.broken, "broken off")
			c.LabelIf(a.status >= 300 && a.status < 400, "redirect")
			c.LabelIf(a.status >= 400, "error status")
			c.LabelIf(len(a.header["Set-Cookie"]) > 1, "repeated header")
			c.NonTrivial(len(a.header) > 0 && a.body != "")
		}
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

func TestP02Wire(t *testing.T) {
	up := newUpServer()
	vt.Check(t, 800, 12000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := &errWorld{conf: genProxy(rt, func(i int) string { return "http://" + up.l.Addr().String() })}
		genProxyHeaders(rt, ew.conf)
		hosts := ew.proxyHosts()
		text := ew.conf.Text()
		vt.Note(text)
		s := w.Start(ew.conf)
		onNetwork(s)
		do, stop := overWire(s)
		defer stop()
		var log []string
		for i := n(rt, "requests", 1, 6); i > 0; i-- {
			host := rapid.SampledFrom(hosts).Draw(rt, "rulehost")
			q := k.Req{Host: host, Method: rapid.SampledFrom(ew.conf.HostConf(host).ProxyMethods).Draw(rt, "method"), Target: "/x"}
			if q.Method == "CONNECT" {
				continue
			}
			if !chance(rt, "encodings", 3) {
				q.Header = [][2]string{{"Accept-Encoding", pick(rt, "encoding", "identity", "gzip", "gzip, br", "")}}
			}
			if chance(rt, "hint", 4) {
				q.Header = append(q.Header, rapid.SampledFrom(hints).Draw(rt, "hinted"))
			}
			a := genAnswer(rt, true, ew.conf.HostConf(host).Rules[host], host)
			for _, vs := range a.header {
				for i := range vs {
					vs[i] = strings.TrimSpace(vs[i])
				}
			}
			framing := pick(rt, "framing", "length", "chunked", "close")
			if a.status == 204 || a.status == 304 || q.Method == "HEAD" {
				framing = "length"
			}
			if a.broken && framing == "close" {
				framing = "length"
			}
			log = append(log, q.String()+" -> "+a.String()+" "+framing)
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			if _, known := ew.conf.HostConf(host).Rules[host]; !known {
				continue
			}
			up.mu.Lock()
			up.raw = func(u k.UpReq) string { return a.raw(framing, u.Method == "HEAD") }
			up.mu.Unlock()
			r := do(q)
			if bad := checkBack(ew.conf, host, a, q, r, true); bad != "" {
				rt.Fatalf("%s\n%s -> %s (%s)\nconfig %s", bad, q, a, framing, text)
			}
			if framing == "length" && !a.broken && a.status != 204 && a.status != 304 {
				if cl := r.Header.Values("Content-Length"); len(cl) != 1 || cl[0] != fmt.Sprint(len(a.body)) {
					rt.Fatalf("Content-Length %q, upstream sent %d\n%s -> %s (%s)\nconfig %s", cl, len(a.body), q, a, framing, text)
				}
			}
			c.Label("framing " + framing)
			c.LabelIf(a.broken, "broken off")
			c.NonTrivial(len(a.header) > 0 && a.body != "")
		}
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

// raw is the answer on the wire.
func (a upAnswer) raw(framing string, head bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "HTTP/1.1 %d Status\r\nConnection: close\r\n", a.status)
	var names []string
	for name := range a.header {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		for _, v := range a.header[name] {
			fmt.Fprintf(&b, "%s: %s\r\n", name, v)
		}
	}
	if framing == "chunked" {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
	} else if framing == "close" || a.status == 204 || a.status == 304 {
		b.WriteString("\r\n")
	} else {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(a.body))
	}
	if head {
		return b.String()
	}
	body := a.body
	if a.broken {
		body = body[:a.at]
	}
	if framing != "chunked" {
		return b.String() + body
	}
	for len(body) > 0 {
		m := 1000
		if m > len(body) {
			m = len(body)
		}
		fmt.Fprintf(&b, "%x\r\n%s\r\n", m, body[:m])
		body = body[m:]
	}
	if !a.broken {
		b.WriteString("0\r\n\r\n")
	}
	return b.String()
}

// P03: only configured hosts and methods are proxied; failures become 502.

type failingBody struct {
	io.Reader
	err error
}

func (b *failingBody) Read(p []byte) (int, error) {
	m, err := b.Reader.Read(p)
	if err == io.EOF {
		err = b.err
	}
	return m, err
}

func (b *failingBody) Close() error { return nil }

func TestP03(t *testing.T) {
	vt.Check(t, 1000, 25000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := &errWorld{w: w, conf: genProxy(rt, stubTarget), pages: map[string]map[string]string{}}
		conf := ew.conf
		if conf.VHosts == nil {
			genPages(rt, ew, "", &conf.Main, n(rt, "pageodds", 0, 3))
		} else {
			for _, name := range ew.proxyHosts() {
				genPages(rt, ew, name, conf.VHosts[name], n(rt, "pageodds", 0, 3))
			}
		}
		if chance(rt, "webdav", 6) {
			conf.WebDAV = true
		}
		text := ew.String()
		vt.Note(text)
		s := w.Start(conf)
		m := k.NewModel(conf)
		var log []string
		hosts := append(ew.proxyHosts(), "h.test", "p.tes", "test", "DEFAULT", "r.test", "p.test.evil", "")
		for i := n(rt, "requests", 1, 25); i > 0; i-- {
			host := rapid.SampledFrom(hosts).Draw(rt, "rhost")
			if host == "" {
				host = ew.proxyHosts()[0]
			}
			ms := []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "FOO", "get", "PROPFIND", "Get"}
			if chance(rt, "confmethod", 2) {
				ms = conf.HostConf(host).ProxyMethods
				if len(ms) == 0 {
					ms = []string{"GET"}
				}
			}
			q := k.Req{Host: host, Method: rapid.SampledFrom(ms).Draw(rt, "method"), Target: spell(rt, pick(rt, "path", "/", "/a", "/a/b.html", "/metrics"), !chance(rt, "spelled", 3))}
			if chance(rt, "port", 5) {
				q.Host += ":99"
			}
			if chance(rt, "ct", 4) {
				q.Header = [][2]string{{"Content-Type", "a/b"}}
			}
			if q.Method == "POST" || q.Method == "PUT" || q.Method == "PATCH" {
				q.Body = pick(rt, "body", "", "x", "hello world")
				if vt.Rare(rt, "large", 4) {
					q.Body = strings.Repeat("0123456789abcdef", n(rt, "blocks", 10, 8000))
				}
			}
			// what others take as a wish for another method, host or path
			for j := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "wishes"); j > 0; j-- {
				name := pick(rt, "wish", "X-Http-Method-Override", "X-Http-Method", "X-Method-Override", "X-Forwarded-Host", "X-Forwarded-For", "X-Forwarded-Proto", "X-Original-Url", "X-Rewrite-Url", "Forwarded", "X-Real-Ip", "X-Host", "Accept", "Expect", "Origin", "Access-Control-Request-Method", "Upgrade", "X-Requested-With", "Max-Forwards")
				value := ""
				switch {
				case strings.Contains(name, "Method"):
					value = pick(rt, "wished", "DELETE", "PUT", "GET", "POST", "PATCH", "delete", "OPTIONS", "HEAD")
				case strings.Contains(name, "Host"):
					value = rapid.SampledFrom(hosts).Draw(rt, "wished host")
				default:
					value = pick(rt, "wished value", "http", "https", "127.0.0.1", "/elsewhere", "host=q.test", "0", "*/*", "h2c", "XMLHttpRequest", "null")
				}
				q.Header = append(q.Header, [2]string{name, value})
			}
			fault := pick(rt, "fault", "", "", "refused", "body", "odd", "timeout")
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			log = append(log, q.String()+" "+fault)
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			s.Up.Reqs = nil
			s.Up.Respond = nil
			fails := false
			switch fault {
			case "refused":
				s.Up.Respond, fails = refuse, true
			case "odd":
				s.Up.Respond = func(k.UpReq) (*http.Response, error) { return nil, &url.Error{Op: "x", URL: "y", Err: io.EOF} }
				fails = true
			case "timeout":
				s.Up.Respond = func(k.UpReq) (*http.Response, error) {
					return nil, &net.OpError{Op: "dial", Err: errors.New("i/o timeout")}
				}
				fails = true
			case "body":
				pr.Body = &failingBody{strings.NewReader("par"), rapid.SampledFrom([]error{io.ErrUnexpectedEOF, errors.New("connection reset"), http.ErrBodyReadAfterClose}).Draw(rt, "bodyerr")}
				fails = true
			}
			d := m.Decide(q, pr, k.Canon(pr.URL.Path))
			r := s.Serve(k.NewRec(), pr)
			want := d.Status
			calls := 0
			if want == 200 {
				if fault != "body" {
					calls = 1
				}
				if fails {
					want = 502
				}
			}
			bad := r.Fatal()
			if bad == "" {
				switch {
				case want == 200:
					if r.Status != 200 || string(r.Body) != "up" && q.Method != "HEAD" {
						bad = fmt.Sprintf("status %d, body %q, want the upstream's answer", r.Status, cut(string(r.Body)))
					}
				default:
					bad = ew.checkErrorPage(want, q, r)
				}
			}
			if bad == "" && len(s.Up.Reqs) != calls {
				bad = fmt.Sprintf("%d upstream requests, want %d", len(s.Up.Reqs), calls)
			}
			if bad == "" && calls == 1 && s.Up.Reqs[0].Method != q.Method && !(q.Method == "" && s.Up.Reqs[0].Method == "GET") {
				bad = fmt.Sprintf("the upstream got the method %q", s.Up.Reqs[0].Method)
			}
			if bad == "" && s.Up.Leaks() != 0 {
				bad = "an upstream body was not closed"
			}
			if bad != "" {
				rt.Fatalf("%s\n%s fault %q\nconfig %s\nhistory\n%s", bad, q, fault, text, strings.Join(log, "\n"))
			}
			c.Labelf("answer %d", want)
			c.LabelIf(want == 502, "fault "+fault)
			c.NonTrivial(want == 502 || want == 405 || want == 200)
		}
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

// TestP03Wire cuts request bodies and upstream connections for real.
func TestP03Wire(t *testing.T) {
	up := newUpServer()
	// a port that is taken but never listened on
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	vt.Must(err)
	defer syscall.Close(fd)
	vt.Must(syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}))
	sa, err := syscall.Getsockname(fd)
	vt.Must(err)
	dead := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	vt.Check(t, 300, 6000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		conf := &k.Conf{Main: *(&k.Host{Proxy: true, Rules: map[string]string{"p.test": "http://" + up.l.Addr().String(), "q.test": "http://" + dead}, ProxyMethods: []string{"GET", "POST"}}).Unlimited()}
		s := w.Start(conf)
		onNetwork(s)
		l := k.Listen()
		srv := &http.Server{Handler: s.S.Router, ErrorLog: quiet}
		go srv.Serve(l)
		defer srv.Close()
		var log []string
		for i := n(rt, "requests", 1, 6); i > 0; i-- {
			fault := pick(rt, "fault", "", "dead", "cutbody", "badchunk", "noanswer", "garbage")
			log = append(log, fault)
			vt.Note(strings.Join(log, " "))
			raw := "POST /x HTTP/1.1\r\nHost: p.test\r\nConnection: close\r\n"
			want, calls := 502, 0
			up.mu.Lock()
			up.raw = plainOK
			up.mu.Unlock()
			switch fault {
			case "":
				raw += "Content-Length: 3\r\n\r\nabc"
				want, calls = 200, 1
			case "dead":
				raw = strings.Replace(raw, "p.test", "q.test", 1) + "Content-Length: 3\r\n\r\nabc"
			case "cutbody":
				raw += "Content-Length: 100\r\n\r\nabc"
			case "badchunk":
				raw += "Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\nzz\r\n"
			case "noanswer":
				raw += "Content-Length: 3\r\n\r\nabc"
				calls = 1
				up.mu.Lock()
				up.raw = func(k.UpReq) string { return "" }
				up.mu.Unlock()
			case "garbage":
				raw += "Content-Length: 3\r\n\r\nabc"
				calls = 1
				up.mu.Lock()
				up.raw = func(k.UpReq) string { return "SSH-2.0-nope\r\n\r\n" }
				up.mu.Unlock()
			}
			up.take()
			conn := dial(l)
			io.WriteString(conn, raw)
			conn.(*net.TCPConn).CloseWrite()
			r := readAnswer(conn, &http.Request{Method: "POST", URL: &url.URL{Path: "/x"}, Host: "p.test"})
			conn.Close()
			saw := up.take()
			// net/http cancels the upstream request of a client that is gone
			if r.Status != want || r.Aborted {
				rt.Fatalf("fault %q: status %d (broken off: %v), want %d; history %v", fault, r.Status, r.Aborted, want, log)
			}
			if fault != "noanswer" && len(saw) != calls {
				rt.Fatalf("fault %q: %d upstream requests, want %d; history %v", fault, len(saw), calls, log)
			}
			c.Label("fault " + fault)
			c.NonTrivial(want == 502)
		}
		c.Desc(strings.Join(log, " "))
	})
}
