package routerp

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"testing"

	"github.com/redmaner/MaguroHTTP/router"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// ---------------------------------------------------------------- model

type route struct {
	host, path string
	fallback   bool
	method     string
	content    string
	id         int
}

// canon is an independent implementation of the canonical path: resolve the
// segments lexically, never above the root, and keep a trailing slash.
func canon(p string) string {
	segs := strings.Split(p, "/")
	var out []string
	for _, s := range segs {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	r := "/" + strings.Join(out, "/")
	if strings.HasSuffix(p, "/") && r != "/" {
		r += "/"
	}
	return r
}

func normReg(p string) string {
	if p != "/" && strings.HasSuffix(p, "/") {
		return p[:len(p)-1]
	}
	return p
}

// ancestors lists the proper ancestors of a canonical path, nearest first.
// The directory itself is an ancestor of its own path with trailing slash.
func ancestors(p string) []string {
	var out []string
	for p != "/" {
		i := strings.LastIndexByte(p, '/')
		p = p[:i]
		if p == "" {
			p = "/"
		}
		out = append(out, p)
	}
	return out
}

type table struct {
	paths  map[string]map[string]bool // host -> path
	routes map[string]route           // host \x00 path \x00 method
}

func newTable() *table {
	return &table{paths: map[string]map[string]bool{}, routes: map[string]route{}}
}

func (tb *table) addPath(host, path string) {
	if tb.paths[host] == nil {
		tb.paths[host] = map[string]bool{}
	}
	tb.paths[host][normReg(path)] = true
}

func (tb *table) add(r route) {
	tb.addPath(r.host, r.path)
	r.path = normReg(r.path)
	tb.routes[r.host+"\x00"+r.path+"\x00"+r.method] = r
}

func (tb *table) match(host, path string) (string, bool, bool) {
	if tb.paths[host][path] {
		return path, true, true
	}
	for _, a := range ancestors(path) {
		if tb.paths[host][a] {
			return a, false, true
		}
	}
	return "", false, false
}

func accepts(content, ct string) bool {
	if content == "*" {
		return true
	}
	if i := strings.IndexByte(ct, ';'); i >= 0 {
		ct = ct[:i]
	}
	for _, v := range strings.Split(content, ";") {
		if v == ct {
			return true
		}
	}
	return false
}

type verdict struct {
	status     int
	id         int
	host, path string
}

func (tb *table) decide(host, path, method, ct string) verdict {
	hp, hexact, hok := tb.match(host, path)
	dp, dexact, dok := tb.match(router.DefaultHost, path)
	var h, p string
	var exact bool
	switch {
	case !hok && !dok:
		return verdict{status: 404}
	case hok && (hexact || !dok || !dexact):
		h, p, exact = host, hp, hexact
	default:
		h, p, exact = router.DefaultHost, dp, dexact
	}
	r, ok := tb.routes[h+"\x00"+p+"\x00"+method]
	if !ok {
		return verdict{status: 405}
	}
	if !accepts(r.content, ct) {
		return verdict{status: 406}
	}
	if !exact && !r.fallback {
		return verdict{status: 404}
	}
	return verdict{status: 200, id: r.id, host: h, path: p}
}

// ---------------------------------------------------------------- generators

var (
	segs      = []string{"a", "b", "foo", "bar", "v1", "x.html", "A", "foo b", "é", "...", "..a", "a.", "a%2fb", "-", ":"}
	reqHosts  = []string{"localhost", "127.0.0.1", "example.com", "sub.example.com", "::1", "other", router.DefaultHost, ""}
	methods   = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "CONNECT", "OPTIONS", "HEAD"}
	davs      = []string{"PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"}
	types     = []string{"", "text/html", "application/json", "text/plain", "application/x-www-form-urlencoded", "image/png"}
	typeParam = []string{"", "; charset=utf-8", ";charset=\"UTF-8\"", ";", "; boundary=a;b"}
)

// oddHosts are long host names, some agreeing in a long part, and numbers.
var oddHosts = func() (out []string) {
	for _, n := range []int{60, 63, 64, 200, 253, 254, 300} {
		l := strings.Repeat("abcdefgh.", n/9+1)[:n-4]
		out = append(out, l+"-a.x", l+"-b.x", "a-"+l+".x", "b-"+l+".x")
	}
	return append(out, "1", "10", "xn--bcher-kva.example", "a_b", "example.com.", "www.example.com", "example.co", "xample.com", "00000000000000000001")
}()

func genRegPath() *rapid.Generator[string] {
	return rapid.Custom(func(rt *rapid.T) string {
		if vt.Rare(rt, "bigreg", 60) {
			return vt.BigPath(rt, "big", 3000, 3000) + rapid.SampledFrom([]string{"", "/"}).Draw(rt, "bigslash")
		}
		n := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4}).Draw(rt, "depth")
		p := ""
		for i := 0; i < n; i++ {
			p += "/" + rapid.SampledFrom(segs[:6]).Draw(rt, "seg")
		}
		if p == "" {
			return "/"
		}
		if rapid.IntRange(0, 3).Draw(rt, "slash") == 0 {
			p += "/"
		}
		return p
	})
}

func genContent() *rapid.Generator[string] {
	return rapid.Custom(func(rt *rapid.T) string {
		switch rapid.IntRange(0, 4).Draw(rt, "ck") {
		case 0:
			return "*"
		case 1:
			return rapid.SampledFrom([]string{"", ";"}).Draw(rt, "empty")
		case 2:
			return rapid.SampledFrom(types).Draw(rt, "one")
		default:
			l := rapid.SliceOfN(rapid.SampledFrom(types), 2, 4).Draw(rt, "many")
			if vt.Rare(rt, "manytypes", 20) {
				var o []string
				for i := vt.Many(rt, "types2", 300); i > 0; i-- {
					o = append(o, fmt.Sprintf("application/x-%d", i))
				}
				l = append(o, l...)
			}
			return strings.Join(l, ";")
		}
	})
}

func regHosts() []string {
	return []string{"localhost", "127.0.0.1", "example.com", "sub.example.com", "::1", router.DefaultHost, router.DefaultHost}
}

func genRoute(id int, dav bool) *rapid.Generator[route] {
	return rapid.Custom(func(rt *rapid.T) route {
		ms := methods[:4]
		if rapid.IntRange(0, 2).Draw(rt, "rare") == 0 {
			ms = methods
			if dav {
				ms = append(append([]string{}, methods...), davs...)
			}
		}
		host := rapid.SampledFrom(regHosts()).Draw(rt, "host")
		if vt.Rare(rt, "otherhost", 25) {
			host = rapid.SampledFrom(oddHosts).Draw(rt, "oddhost")
		}
		return route{
			host:     host,
			path:     genRegPath().Draw(rt, "path"),
			fallback: rapid.Bool().Draw(rt, "fallback"),
			method:   rapid.SampledFrom(ms).Draw(rt, "method"),
			content:  genContent().Draw(rt, "content"),
			id:       id,
		}
	})
}

// spell makes another spelling of a canonical path that has the same
// canonical form.
func spell(rt *rapid.T, p string) string {
	if p == "/" {
		return rapid.SampledFrom([]string{"/", "", "//", "/.", "/./", "/..", "/../", "/x/..", "/x/../"}).Draw(rt, "rootspell")
	}
	trail := strings.HasSuffix(p, "/")
	parts := strings.Split(strings.Trim(p, "/"), "/")
	s := ""
	if rapid.IntRange(0, 5).Draw(rt, "up") == 0 {
		s = "/.."
	}
	for _, seg := range parts {
		switch rapid.IntRange(0, 9).Draw(rt, "sp") {
		case 0:
			s += "//" + seg
		case 1:
			s += "/./" + seg
		case 2:
			s += "/zz/../" + seg
		case 3:
			s += "/" + seg + "/yy/.."
			continue
		case 4:
			if vt.Rare(rt, "manynoise", 20) {
				m := vt.Many(rt, "noise", 300)
				s += rapid.SampledFrom([]string{strings.Repeat("/", m), strings.Repeat("/.", m), strings.Repeat("/zz", m) + strings.Repeat("/..", m), strings.Repeat("/zz/..", m)}).Draw(rt, "noises")
			}
			s += "/" + seg
		default:
			s += "/" + seg
		}
	}
	if trail {
		s += rapid.SampledFrom([]string{"/", "/", "//", "/./"}).Draw(rt, "trail")
	} else {
		s += rapid.SampledFrom([]string{"", "", "", "/.", "/q/.."}).Draw(rt, "notrail")
	}
	if rapid.IntRange(0, 7).Draw(rt, "noslash") == 0 {
		s = strings.TrimPrefix(s, "/")
	}
	// keep only spellings whose canonical form really is p
	if canon(s) != p {
		return p
	}
	return s
}

func genReqPath(tb *table) *rapid.Generator[string] {
	var known []string
	for _, ps := range tb.paths {
		for p := range ps {
			known = append(known, p)
		}
	}
	known = append(known, "/")
	sort.Strings(known)
	return rapid.Custom(func(rt *rapid.T) string {
		p := rapid.SampledFrom(known).Draw(rt, "base")
		for i := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(rt, "below"); i > 0; i-- {
			p = strings.TrimSuffix(p, "/") + "/" + rapid.SampledFrom(segs).Draw(rt, "seg")
		}
		if vt.Rare(rt, "bigreq", 40) {
			p = strings.TrimSuffix(p, "/") + vt.BigPath(rt, "big", 5000, 8000)
		}
		if rapid.IntRange(0, 3).Draw(rt, "tslash") == 0 && p != "/" {
			p = strings.TrimSuffix(p, "/") + "/"
		}
		return canon(p)
	})
}

func withPort(rt *rapid.T, host string) string {
	if host == "" {
		return rapid.SampledFrom([]string{"", ":80"}).Draw(rt, "emptyport")
	}
	port := rapid.SampledFrom([]string{"", "", ":80", ":443", ":8080", ":", ":65535"}).Draw(rt, "port")
	if strings.IndexByte(host, ':') >= 0 {
		if port == "" {
			port = ":7443" // a bare IPv6 literal is only unambiguous in brackets with a port
		}
		return "[" + host + "]" + port
	}
	return host + port
}

type request struct {
	host, path, method, ct string
}

func (q request) build() *http.Request {
	r := httptest.NewRequest("GET", "http://placeholder/", nil)
	r.Method = q.method
	r.Host = q.host
	r.URL = &url.URL{Path: q.path}
	r.RequestURI = q.path
	if q.ct != "" {
		r.Header.Set("Content-Type", q.ct)
	}
	return r
}

// ---------------------------------------------------------------- R01

func TestR01(t *testing.T) {
	vt.Check(t, 30000, 400000, func(rt *rapid.T, c *vt.Case) {
		dav := rapid.Bool().Draw(rt, "dav")
		ro := router.NewRouter()
		ro.WebDAV = dav
		custom := rapid.Bool().Draw(rt, "customError")
		errCalls, lastErr := 0, 0
		if custom {
			ro.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) {
				errCalls++
				lastErr = code
				http.Error(w, "custom", code)
			}
		}
		tb := newTable()
		n := rapid.IntRange(0, 9).Draw(rt, "routes")
		if vt.Rare(rt, "manyroutes", 150) {
			n = vt.Many(rt, "routes2", 300)
			c.Label("many routes")
		}
		var desc strings.Builder
		ran := []int{}
		replaced := false
		register := func(i int) {
			r := genRoute(i, dav).Draw(rt, "route")
			if _, ok := tb.routes[r.host+"\x00"+normReg(r.path)+"\x00"+r.method]; ok {
				replaced = true
			}
			tb.add(r)
			id := r.id
			ro.AddRoute(r.host, r.path, r.fallback, r.method, r.content, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				ran = append(ran, id)
			}))
			fmt.Fprintf(&desc, "add %+v; ", r)
		}
		for i := 1; i <= n; i++ {
			register(i)
		}
		m := rapid.IntRange(1, 8).Draw(rt, "requests")
		for i := 0; i < m; i++ {
			if i > 0 && rapid.IntRange(0, 5).Draw(rt, "later") == 0 {
				n++
				register(n)
				c.Label("registered after a request")
			}
			host := rapid.SampledFrom(reqHosts).Draw(rt, "host")
			if vt.Rare(rt, "otherhost", 25) {
				host = rapid.SampledFrom(oddHosts).Draw(rt, "oddhost")
			}
			p := genReqPath(tb).Draw(rt, "path")
			ms := append(append([]string{}, methods[:4]...), methods[:4]...)
			ms = append(append(ms, methods...), "BREW", "get", "PROPFIND")
			q := request{
				host:   withPort(rt, host),
				path:   p,
				method: rapid.SampledFrom(ms).Draw(rt, "method"),
				ct:     rapid.SampledFrom(types).Draw(rt, "ct"),
			}
			// aim at an existing route most of the time
			if len(tb.routes) > 0 && rapid.IntRange(0, 3).Draw(rt, "aim") > 0 {
				var keys []string
				for k := range tb.routes {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				tr := tb.routes[rapid.SampledFrom(keys).Draw(rt, "target")]
				q.method = tr.method
				if tr.host != router.DefaultHost {
					host = tr.host
					q.host = withPort(rt, host)
				}
				if rapid.IntRange(0, 3).Draw(rt, "aimct") > 0 {
					q.ct = strings.Split(tr.content, ";")[0]
					if q.ct == "*" {
						q.ct = "anything/at-all"
					}
				}
				if rapid.IntRange(0, 1).Draw(rt, "aimpath") > 0 {
					q.path = tr.path
					if rapid.IntRange(0, 2).Draw(rt, "sub") == 0 {
						q.path = canon(tr.path + "/" + rapid.SampledFrom(segs).Draw(rt, "subseg"))
						if vt.Rare(rt, "bigsub", 12) {
							q.path = strings.TrimSuffix(tr.path, "/") + vt.BigPath(rt, "big", 5000, 8000)
							c.Label("big path below a route")
						}
					}
					// host and path shifted against each other (HTTP/2 lets a
					// client name such a host)
					if i := strings.LastIndexByte(q.path[:max(len(q.path)-1, 0)], '/'); i > 0 && q.path[0] == '/' && rapid.IntRange(0, 7).Draw(rt, "shift") == 0 {
						host = tr.host + q.path[:i]
						q.host, q.path = host, q.path[i:]
						c.Label("shifted")
					}
				}
			}
			q.ct += rapid.SampledFrom(typeParam).Draw(rt, "param")
			if q.ct == ";" || strings.HasPrefix(q.ct, "; ") {
				q.ct = strings.TrimSpace(q.ct)
			}
			want := tb.decide(host, canon(q.path), q.method, q.ct)
			ran = ran[:0]
			errCalls = 0
			w := httptest.NewRecorder()
			vt.Note(desc.String() + fmt.Sprintf("request %+v", q))
			ro.ServeHTTP(w, q.build())
			got := verdict{status: w.Code}
			if want.status == 200 {
				if len(ran) != 1 || ran[0] != want.id || w.Code != 200 || errCalls != 0 {
					rt.Fatalf("routes: %s\nrequest %+v: want handler %d once, ran %v, status %d", desc.String(), q, want.id, ran, w.Code)
				}
			} else if len(ran) != 0 || got.status != want.status || custom && (errCalls != 1 || lastErr != want.status) {
				rt.Fatalf("routes: %s\nrequest %+v: want status %d and no handler, got %d, handlers %v, error handler calls %d", desc.String(), q, want.status, w.Code, ran, errCalls)
			}
			c.Labelf("status-%d", want.status)
			if want.status == 200 {
				exact := want.path == canon(q.path)
				c.LabelIf(exact, "exact")
				c.LabelIf(!exact, "fallback")
				c.LabelIf(want.host == router.DefaultHost, "default-host")
				c.LabelIf(want.host != router.DefaultHost, "own-host")
			}
			_, _, hok := tb.match(host, canon(q.path))
			_, _, dok := tb.match(router.DefaultHost, canon(q.path))
			if hok && dok && host != router.DefaultHost {
				c.Label("both-hosts-match")
				c.NonTrivial(true)
			}
			c.NonTrivial(want.status != 404 || n > 1)
			fmt.Fprintf(&desc, "req %+v -> %d/%d; ", q, want.status, want.id)
		}
		c.LabelIf(replaced, "route-replaced")
		c.Desc(desc.String())
	})
}

// ---------------------------------------------------------------- R02

type mwSpec struct {
	host, path string
	stop       bool
	kind       int
	id         int
}

func TestR02(t *testing.T) {
	vt.Check(t, 25000, 300000, func(rt *rapid.T, c *vt.Case) {
		ro := router.NewRouter()
		tb := newTable()
		var trace []string
		var desc strings.Builder
		mws := map[string][]mwSpec{}
		n := rapid.IntRange(1, 14).Draw(rt, "ops")
		if vt.Rare(rt, "manyops", 100) {
			n = vt.Many(rt, "ops2", 300)
			c.Label("many operations")
		}
		crowd := vt.Rare(rt, "crowd", 120) // nearly all middleware for one path
		if crowd {
			n = vt.Many(rt, "ops3", 300)
			c.Label("many middleware of one path")
		}
		nmw, nroute := 0, 0
		var last route
		register := func(i int) {
			if crowd && nroute == 0 || rapid.IntRange(0, 2).Draw(rt, "kind") == 0 && !(crowd && i > 1) {
				r := genRoute(i, false).Draw(rt, "route")
				r.content = "*"
				if rapid.Bool().Draw(rt, "simple") {
					r.method = "GET"
				}
				tb.add(r)
				last = r
				nroute++
				id := r.id
				ro.AddRoute(r.host, r.path, r.fallback, r.method, r.content, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
					trace = append(trace, fmt.Sprintf("h%d", id))
					w.WriteHeader(299)
				}))
				fmt.Fprintf(&desc, "route %+v; ", r)
				return
			}
			m := mwSpec{
				host: rapid.SampledFrom(regHosts()).Draw(rt, "host"),
				path: genRegPath().Draw(rt, "path"),
				stop: rapid.IntRange(0, 6).Draw(rt, "stop") == 0 && !crowd,
				kind: rapid.IntRange(0, 1).Draw(rt, "mwkind"),
				id:   i,
			}
			if nroute > 0 && rapid.IntRange(0, 3).Draw(rt, "same") > 0 {
				m.host, m.path = last.host, last.path
			}
			nmw++
			tb.addPath(m.host, m.path)
			k := m.host + "\x00" + normReg(m.path)
			mws[k] = append(mws[k], m)
			body := func(next http.Handler) http.HandlerFunc {
				return func(w http.ResponseWriter, q *http.Request) {
					trace = append(trace, fmt.Sprintf("+m%d", m.id))
					if m.stop {
						w.WriteHeader(298)
						return
					}
					next.ServeHTTP(w, q)
					trace = append(trace, fmt.Sprintf("-m%d", m.id))
				}
			}
			if m.kind == 0 {
				ro.UseMiddleware(m.host, m.path, router.MiddlewareHandler(func(h http.Handler) http.Handler { return body(h) }))
			} else {
				ro.UseMiddleware(m.host, m.path, router.MiddlewareHandlerFunc(func(h http.HandlerFunc) http.HandlerFunc { return body(h) }))
			}
			fmt.Fprintf(&desc, "mw %+v; ", m)
		}
		for i := 1; i <= n; i++ {
			register(i)
		}
		for i, m := 0, rapid.IntRange(1, 6).Draw(rt, "requests"); i < m; i++ {
			if i > 0 && rapid.IntRange(0, 3).Draw(rt, "later") == 0 {
				n++
				register(n)
				c.Label("registered after a request")
			}
			host := rapid.SampledFrom(reqHosts).Draw(rt, "host")
			q := request{path: genReqPath(tb).Draw(rt, "path"), method: rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "PUT"}).Draw(rt, "method")}
			if nroute > 0 && rapid.IntRange(0, 3).Draw(rt, "aim") > 0 {
				var keys []string
				for k := range tb.routes {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				tr := tb.routes[rapid.SampledFrom(keys).Draw(rt, "target")]
				q.method = tr.method
				q.path = tr.path
				if tr.host != router.DefaultHost {
					host = tr.host
				}
				if rapid.IntRange(0, 3).Draw(rt, "sub") == 0 {
					q.path = canon(tr.path + "/" + rapid.SampledFrom(segs).Draw(rt, "subseg"))
					if vt.Rare(rt, "bigsub", 12) {
						q.path = strings.TrimSuffix(tr.path, "/") + vt.BigPath(rt, "big", 5000, 8000)
						c.Label("big path below a route")
					}
				}
			}
			q.host = withPort(rt, host)
			want := tb.decide(host, canon(q.path), q.method, "")
			var wtrace []string
			status := want.status
			if want.status == 200 {
				status = 299
				var closers []string
				stopped := false
				for _, m := range mws[want.host+"\x00"+want.path] {
					wtrace = append(wtrace, fmt.Sprintf("+m%d", m.id))
					if m.stop {
						stopped = true
						status = 298
						break
					}
					closers = append([]string{fmt.Sprintf("-m%d", m.id)}, closers...)
				}
				if !stopped {
					wtrace = append(wtrace, fmt.Sprintf("h%d", want.id))
				}
				wtrace = append(wtrace, closers...)
				c.Labelf("chain-%d", min(len(mws[want.host+"\x00"+want.path]), 4))
				c.LabelIf(stopped, "stopped")
				c.NonTrivial(len(mws[want.host+"\x00"+want.path]) >= 2)
			} else {
				c.Label("rejected")
				c.NonTrivial(nmw > 0 && nroute > 0)
			}
			trace = nil
			w := httptest.NewRecorder()
			vt.Note(desc.String() + fmt.Sprintf("request %+v", q))
			ro.ServeHTTP(w, q.build())
			if strings.Join(trace, " ") != strings.Join(wtrace, " ") || w.Code != status {
				rt.Fatalf("%s\nrequest %+v: want trace %v status %d, got trace %v status %d", desc.String(), q, wtrace, status, trace, w.Code)
			}
			fmt.Fprintf(&desc, "req %+v -> %v; ", q, wtrace)
		}
		c.Desc(desc.String())
	})
}

// ---------------------------------------------------------------- R03

func genRawPath() *rapid.Generator[string] {
	return rapid.Custom(func(rt *rapid.T) string {
		if rapid.IntRange(0, 3).Draw(rt, "free") == 0 {
			return rapid.StringOfN(rapid.SampledFrom([]rune("/./..a\\%2 \x00\né*?#;:")), 0, 24, -1).Draw(rt, "raw")
		}
		parts := rapid.SliceOfN(rapid.SampledFrom([]string{"/", "/", "//", "/./", "/../", ".", "..", "...", "a", "b", "foo", "/..", "/.", "\\..\\", "%2e%2e", "a..", "..a", " ", "é", "*"}), 0, 12).Draw(rt, "parts")
		if vt.Rare(rt, "manyparts", 40) {
			for i := vt.Many(rt, "parts2", 300); i > 0; i-- {
				parts = append(parts, parts[max(0, len(parts)-3):]...)
				if len(parts) > 2000 {
					break
				}
			}
			parts = append(parts, rapid.SampledFrom([]string{"", "/", "/..", "/x", "/."}).Draw(rt, "end"))
		}
		if vt.Rare(rt, "bigpart", 40) {
			b := vt.BigPath(rt, "big", 5000, 8000)
			if at := rapid.IntRange(0, len(parts)).Draw(rt, "at"); at < len(parts) {
				parts[at] = b
			} else {
				parts = append(parts, b)
			}
		}
		return strings.Join(parts, "")
	})
}

func TestR03(t *testing.T) {
	vt.Check(t, 30000, 400000, func(rt *rapid.T, c *vt.Case) {
		raw := genRawPath().Draw(rt, "path")
		if rapid.IntRange(0, 4).Draw(rt, "spelled") == 0 {
			raw = spell(rt, canon("/"+strings.Join(rapid.SliceOfN(rapid.SampledFrom(segs), 0, 4).Draw(rt, "s"), "/")))
		}
		cp := canon(raw)
		// Two tables: one that catches everything, one with generated routes.
		type seen struct {
			status int
			id     int
			path   []string
		}
		var cur *seen
		mk := func(routes []route) *router.SRouter {
			ro := router.NewRouter()
			for _, r := range routes {
				id := r.id
				ro.AddRoute(r.host, r.path, r.fallback, r.method, r.content, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
					cur.id = id
					cur.path = append(cur.path, q.URL.Path)
				}))
				ro.UseMiddleware(r.host, r.path, router.MiddlewareHandlerFunc(func(h http.HandlerFunc) http.HandlerFunc {
					return func(w http.ResponseWriter, q *http.Request) {
						cur.path = append(cur.path, q.URL.Path)
						h(w, q)
					}
				}))
			}
			ro.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) {
				cur.path = append(cur.path, r.URL.Path)
				w.WriteHeader(code)
			}
			return ro
		}
		call := func(ro *router.SRouter, host, p string) seen {
			s := seen{}
			cur = &s
			w := httptest.NewRecorder()
			q := request{host: host, path: p, method: "GET"}
			vt.Note(fmt.Sprintf("request %+v", q))
			ro.ServeHTTP(w, q.build())
			s.status = w.Code
			return s
		}
		routes := []route{{host: router.DefaultHost, path: "/", fallback: true, method: "GET", content: "*", id: 1}}
		if rapid.Bool().Draw(rt, "more") {
			for i := rapid.IntRange(1, 5).Draw(rt, "n"); i > 0; i-- {
				r := genRoute(i+1, false).Draw(rt, "r")
				r.method, r.content = "GET", "*"
				if rapid.IntRange(0, 2).Draw(rt, "onpath") == 0 {
					as := append([]string{cp}, ancestors(cp)...)
					r.path = rapid.SampledFrom(as).Draw(rt, "anc")
				}
				routes = append(routes, r)
			}
			if rapid.Bool().Draw(rt, "noroot") {
				routes = routes[1:]
			}
		}
		ro := mk(routes)
		host := rapid.SampledFrom([]string{"localhost", "127.0.0.1", "example.com", "other", "::1", "localhost", "example.com.", "localhost.", "sub.example.com", "localhos", "x.localhost", "80", "example.com-"}).Draw(rt, "host")
		first := host
		if host == "::1" {
			// A literal without a port is the known finding; see below.
			first = "[::1]:80"
		}
		a := call(ro, first, raw)
		if len(a.path) == 0 {
			rt.Fatalf("path %q was answered by no handler (routes %+v)", raw, routes)
		}
		for _, p := range a.path {
			if p != cp {
				rt.Fatalf("path %q: handler or middleware saw %q, canonical form is %q", raw, p, cp)
			}
		}
		// same canonical form, any port: same answer
		alts := []string{cp, spell(rt, cp)}
		for _, alt := range alts {
			b := call(ro, withPort(rt, host), alt)
			if a.status != b.status || a.id != b.id || len(a.path) != len(b.path) {
				rt.Fatalf("paths %q and %q have canonical form %q but are answered %+v and %+v (routes %+v)", raw, alt, cp, a, b, routes)
			}
			for _, p := range b.path {
				if p != cp {
					rt.Fatalf("path %q: handler or middleware saw %q, canonical form is %q", alt, p, cp)
				}
			}
		}
		// The known finding: an IPv6 literal without a port is taken for
		// another host. Nothing but the host may differ then.
		if host == "::1" {
			for _, p := range call(ro, "[::1]", raw).path {
				if p != cp {
					rt.Fatalf("path %q: handler or middleware saw %q, canonical form is %q", raw, p, cp)
				}
			}
		}
		// idempotent
		if canon(cp) != cp {
			vt.Harness("model not idempotent on %q", cp)
		}
		// host stripping
		h := rapid.SampledFrom([]string{"localhost", "127.0.0.1", "a.b.c", "::1", "fe80::1%eth0", "2001:db8::8", "a.b.c.", ".", "a", "80", "a_b", "xn--bcher-kva.test", "-", "*", "a..b", "www.a.test", "a%20b", "é", "::", "::ffff:192.0.2.1", "127.1", strings.Repeat("h", 300)}).Draw(rt, "h2")
		if g := router.StripHostPort(withPort(rt, h)); g != h {
			rt.Fatalf("StripHostPort of %q with a port gave %q", h, g)
		}
		c.LabelIf(raw != cp, "respelled")
		c.LabelIf(strings.Contains(raw, ".."), "dotdot")
		c.LabelIf(strings.Contains(raw, "//"), "double-slash")
		c.LabelIf(!strings.HasPrefix(raw, "/"), "relative")
		c.LabelIf(strings.HasSuffix(cp, "/") && cp != "/", "trailing-slash")
		c.Labelf("status-%d", a.status)
		c.NonTrivial(raw != cp)
		c.Desc(fmt.Sprintf("%q %q -> %q routes %+v", host, raw, cp, routes))
	})
}
