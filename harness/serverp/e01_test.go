package serverp

import (
	"fmt"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/redmaner/MaguroHTTP/guard"
	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/tuna"
	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// E01: servers embedded in a program, with routes and guards of its own.

// guarding is one middleware of a path.
type guarding struct {
	Kind  string // limiter firewall auth gate
	Burst int
	FW    k.Firewall
	Users map[string]string
	Code  int
	used  *int
}

func (g guarding) String() string {
	switch g.Kind {
	case "limiter":
		return fmt.Sprintf("limiter %d", g.Burst)
	case "firewall":
		return fmt.Sprintf("firewall %+v", g.FW)
	case "auth":
		return fmt.Sprintf("auth %q", g.Users)
	}
	return fmt.Sprintf("gate %d", g.Code)
}

type ownRoute struct {
	host, path      string
	fallback        bool
	method, content string
	name            string
	behave          string // ok logs fail
	code            int
}

// embedded is one instance with what it is expected to do.
type embedded struct {
	ew     *errWorld
	s      *tuna.Server
	tab    k.Table
	routes []ownRoute
	guards map[string][]guarding // host path
	log    string
	level  int
	lines  []access // expected access lines
	mu     sync.Mutex
	text   string
	out    *os.File // what stands for standard output or error, if anything
}

var ownHosts = []string{"DEFAULT", "DEFAULT", "a.test", "b.test", "h.test", "sub.a.test", "www.a.test"}

func genEmbedded(rt *rapid.T, w *k.World, nr int, limited bool) *embedded {
	e := &embedded{tab: k.NewTable(), guards: map[string][]guarding{}, level: n(rt, "level", 0, 3), log: w.Path(fmt.Sprintf("log%d", nr))}
	dir := w.Path(fmt.Sprintf("inst%d", nr))
	k.Tree(dir, map[string]string{})
	sub := &k.World{Dir: dir}
	e.ew = &errWorld{w: sub, conf: &k.Conf{FileDir: w.Path("files") + "/"}, pages: map[string]map[string]string{}, files: map[string]*fs{}, hosts: []string{"", "a.test"}}
	if chance(rt, "own file dir", 2) {
		e.ew.conf.FileDir = sub.Path("fd") + "/"
		if chance(rt, "own design", 2) {
			e.ew.mark = fmt.Sprintf("<i>design of instance %d</i>", nr)
			k.Tree(sub.Path("fd"), map[string]string{"templates/error.html": e.ew.mark + "{{.HTTPError}}"})
		}
	}
	c := e.ew.conf
	core := tuna.CoreConfig{Address: "127.0.0.1", Port: "8080", FileDir: c.FileDir, LogLevel: e.level, LogOut: e.log, WebDAV: chance(rt, "webdav", 4)}
	if chance(rt, "tls", 2) {
		c.TLS, c.HSTSMaxAge = true, rapid.SampledFrom([]int{-1, 1, 31557600, 77}).Draw(rt, "maxage")
		c.HSTSPreload, c.HSTSSubs = chance(rt, "preload", 2), chance(rt, "subs", 2)
		core.TLS = tuna.TLSConfig{Enabled: true, TLSCert: "x", TLSKey: "y", HSTS: tuna.HSTSConfig{MaxAge: max(c.HSTSMaxAge, 0), Preload: c.HSTSPreload, IncludeSubdomains: c.HSTSSubs}}
	}
	if chance(rt, "metrics", 3) {
		core.Metrics = tuna.MetricsConfig{Enabled: true, Path: "/metrics", Out: sub.Path("metrics.json"), Users: map[string]string{"admin": "pw"}}
	}
	if chance(rt, "vhosts", 2) {
		c.VHosts, core.VirtualHosting, core.VirtualHosts = map[string]*k.Host{}, true, map[string]string{}
		for i, name := range genVHosts(rt) {
			h := &k.Host{Dir: sub.Path("www"), Index: "index.html", Methods: map[string]string{"/": "GET", "/served": "GET"}}
			h.Unlimited()
			genPages(rt, e.ew, name, h, n(rt, "pageodds", 0, 5))
			c.VHosts[name] = h
			core.VirtualHosts[name] = sub.Path(fmt.Sprintf("vhost%d.json", i))
		}
		k.Tree(sub.Path("www"), map[string]string{"index.html": "must not be served", "served": "nor this"})
		c.Write(dir)
	}
	genPages(rt, e.ew, "", &c.Main, n(rt, "pageodds", 0, 4))
	vt.Note(fmt.Sprintf("NewInstance(%+v)", core))
	// the logger keeps the output it was made with
	release := func() {}
	if out := pick(rt, "log out", "file", "file", "stdout", "stderr"); out != "file" {
		core.LogOut = out
		file, err := os.OpenFile(e.log, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		vt.Must(err)
		target := &os.Stdout
		if out == "stderr" {
			target = &os.Stderr
		}
		old := *target
		*target, e.out = file, file
		release = func() { *target = old }
	}
	e.s = tuna.NewInstance(core)
	release()
	e.s.Cfg.Errors = c.Main.Errors

	methods := []string{"GET", "GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS"}
	if core.WebDAV {
		methods = append(methods, "PROPFIND", "MOVE")
	}
	var steps []string
	for i := n(rt, "routes", 1, 9); i > 0; i-- {
		r := ownRoute{
			host: rapid.SampledFrom(ownHosts).Draw(rt, "rhost"), path: pick(rt, "rpath", "/", "/", "/api", "/api/", "/api/v1", "/x/", "/served", "/o p", "/metrics/deep", "/ü"),
			fallback: chance(rt, "fallback", 2), method: rapid.SampledFrom(methods).Draw(rt, "rmethod"), content: pick(rt, "rcontent", "*", "*", ";", "", "text/html", "application/json;text/html", ";text/html"),
			name: fmt.Sprintf("handler %d of instance %d", i, nr), behave: pick(rt, "behave", "ok", "ok", "logs", "fail"),
			code: rapid.SampledFrom([]int{400, 401, 403, 404, 405, 406, 409, 418, 429, 500, 502, 503, 507, 599}).Draw(rt, "code"),
		}
		e.routes = append(e.routes, r)
		e.tab.Add(r.host, r.path, r.fallback, r.method, r.content, fmt.Sprint(len(e.routes)-1))
		e.s.Router.AddRoute(r.host, r.path, r.fallback, r.method, r.content, e.handler(r))
		steps = append(steps, fmt.Sprintf("route %+v", r))
		for chance(rt, "guarded", 3) {
			g := guarding{Kind: pick(rt, "guard", "limiter", "firewall", "auth", "gate"), used: new(int)}
			var mw router.Middleware
			switch g.Kind {
			case "limiter":
				g.Burst = n(rt, "burst", 0, 4)
				if !limited {
					g.Burst = 1 << 20
				}
				l := guard.NewLimiter(0.000001, g.Burst, true)
				l.ErrorHandler = e.s.HandleError
				mw = router.MiddlewareHandlerFunc(l.LimitHTTP)
			case "firewall":
				g.FW = k.Firewall{Enabled: true, Blacklisting: chance(rt, "black", 2), Subpath: chance(rt, "subpath", 2), Rules: map[string][]string{}}
				for j := n(rt, "rules", 0, 2); j > 0; j-- {
					g.FW.Rules[pick(rt, "rule", "/", "/api", "/x", "/api/v1/y")] = []string{pick(rt, "who", "*", "192.0.2.1", "127.0.0.1")}
				}
				f := guard.NewFirewall()
				f.Blacklisting, f.Subpath, f.Rules, f.ErrorHandler = g.FW.Blacklisting, g.FW.Subpath, g.FW.Rules, e.s.HandleError
				mw = router.MiddlewareHandlerFunc(f.BlockHTTP)
			case "auth":
				g.Users = map[string]string{"admin": "pw"}
				ba := guard.SimpleBasicAuth(g.Users)
				ba.UnauthorizedHandler = e.s.HandleError
				mw = router.MiddlewareHandlerFunc(ba.Authenticate)
			default:
				g.Code = rapid.SampledFrom([]int{400, 403, 418, 503}).Draw(rt, "gatecode")
				mw = router.MiddlewareHandlerFunc(func(h http.HandlerFunc) http.HandlerFunc {
					return func(w http.ResponseWriter, r *http.Request) {
						if r.Header.Get("X-Stop") != "" {
							e.s.HandleError(w, r, g.Code)
							return
						}
						h.ServeHTTP(w, r)
					}
				})
			}
			key := guardKey(r.host, r.path)
			e.guards[key] = append(e.guards[key], g)
			e.s.Router.UseMiddleware(r.host, r.path, mw)
			steps = append(steps, fmt.Sprintf("at %q %q: %s", r.host, r.path, g))
		}
	}
	e.text = fmt.Sprintf("instance %d: NewInstance(%+v); %s; pages %q", nr, core, strings.Join(steps, "; "), fmt.Sprint(e.ew.pages))
	return e
}

func guardKey(host, path string) string {
	if path != "/" {
		path = strings.TrimSuffix(path, "/")
	}
	return host + " " + path
}

func (e *embedded) handler(r ownRoute) http.HandlerFunc {
	return func(w http.ResponseWriter, req *http.Request) {
		switch r.behave {
		case "fail":
			e.s.HandleError(w, req, r.code)
			return
		case "logs":
			e.s.LogNetwork(200, req)
		}
		fmt.Fprintf(w, "%s saw %s", r.name, req.URL.Path)
	}
}

// decide predicts the answer: the status, the body if it is an own one, and
// whether there is an access line.
func (e *embedded) decide(q k.Req, pr *http.Request) (status int, body string, line, auth bool) {
	path := k.Canon(pr.URL.Path)
	status, name := e.tab.Decide(k.HostName(pr.Host), path, pr.Method, pr.Header.Get("Content-Type"))
	if status != 200 {
		return status, "", true, false
	}
	var i int
	fmt.Sscan(name, &i)
	r := e.routes[i]
	for _, g := range e.guards[guardKey(r.host, r.path)] {
		switch g.Kind {
		case "limiter":
			if *g.used >= g.Burst {
				return 429, "", true, false
			}
			*g.used++
		case "firewall":
			if g.FW.Blocks(path, q.IP()) {
				return 403, "", true, false
			}
		case "auth":
			if pr.Header.Get("Authorization") != k.BasicAuth("admin", "pw")[1] {
				return 401, "", true, true
			}
		default:
			if pr.Header.Get("X-Stop") != "" {
				return g.Code, "", true, false
			}
		}
	}
	if r.behave == "fail" {
		return r.code, "", true, false
	}
	return 200, fmt.Sprintf("%s saw %s", r.name, path), r.behave == "logs", false
}

func (e *embedded) judge(q k.Req, r *k.Resp, status int, body string, auth bool) string {
	if bad := r.Fatal(); bad != "" {
		return bad
	}
	if status == 200 {
		if r.Status != 200 || q.Method != "HEAD" && string(r.Body) != body {
			return fmt.Sprintf("status %d body %q, want 200 %q", r.Status, cut(string(r.Body)), body)
		}
		return ""
	}
	bad := e.ew.checkErrorPage(status, q, r)
	if bad == "" {
		bad = e.ew.conf.BadHSTS(r.Header.Values("Strict-Transport-Security"))
	}
	no := false
	if bad == "" {
		bad = checkHeaders(r, nil, &no, false)
	}
	if bad == "" && auth != (r.Header.Get("Www-Authenticate") != "") {
		bad = fmt.Sprintf("Www-Authenticate %q", r.Header.Values("Www-Authenticate"))
	}
	return bad
}

func TestE01(t *testing.T) {
	vt.Check(t, 600, 8000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		workers := rapid.SampledFrom([]int{1, 1, 1, 5}).Draw(rt, "workers")
		var es []*embedded
		var texts []string
		for i := n(rt, "instances", 1, 3); i > 0; i-- {
			e := genEmbedded(rt, w, len(es), workers == 1)
			if e.out != nil {
				defer e.out.Close()
			}
			es = append(es, e)
			texts = append(texts, e.text)
		}
		text := strings.Join(texts, "\n")
		type job struct {
			e      *embedded
			q      k.Req
			status int
			body   string
			auth   bool
		}
		var jobs []job
		var log []string
		kinds := map[int]bool{}
		for i := n(rt, "requests", 4, 40); i > 0; i-- {
			q := es[0].ew.genReq(rt) // its paths, methods, types, credentials
			if !chance(rt, "foreign", 4) {
				p := pick(rt, "epath", "/", "/api", "/api/", "/api/v1", "/api/v1/y", "/x", "/x/", "/x/y", "/served", "/o p", "/ü", "/metrics", "/metrics/deep", "/none")
				q.Target = spell(rt, p, !chance(rt, "espelled", 4))
			}
			if chance(rt, "ehost", 2) {
				q.Host = rapid.SampledFrom(ownHosts[2:]).Draw(rt, "ehostname")
			}
			q.Remote = "192.0.2.1:5"
			if chance(rt, "stop", 4) {
				q.Header = append(q.Header, [2]string{"X-Stop", "1"})
			}
			e := rapid.SampledFrom(es).Draw(rt, "instance")
			if !chance(rt, "unaimed", 4) {
				r := rapid.SampledFrom(e.routes).Draw(rt, "aim")
				q.Method = r.method
				if r.host != "DEFAULT" {
					q.Host = r.host
				}
				p := r.path
				if chance(rt, "below", 3) {
					p = strings.TrimSuffix(p, "/") + pick(rt, "rest", "/y", "/y/z", "/", "/v1")
				}
				q.Target = spell(rt, p, !chance(rt, "aspelled", 4))
				if ct := strings.Split(r.content, ";"); r.content != "*" && !chance(rt, "othertype", 5) {
					q.Header = append([][2]string{{"Content-Type", ct[n(rt, "type", 0, len(ct)-1)]}}, q.Header...)
				}
			}
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			status, body, line, auth := e.decide(q, pr)
			jobs = append(jobs, job{e, q, status, body, auth})
			if line {
				e.lines = append(e.lines, access{status: status, method: pr.Method, host: k.HostName(q.Host), full: q.Host, path: k.Canon(pr.URL.Path)})
			}
			log = append(log, fmt.Sprintf("%s: %s", e.log[len(e.log)-4:], q))
			kinds[status] = true
			c.Labelf("answer %d", status)
		}
		vt.Note(text + "\n" + strings.Join(log, "\n"))
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := ""
		for g := 0; g < workers; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := g; i < len(jobs); i += workers {
					j := jobs[i]
					pr, err := j.q.Parse()
					vt.Must(err)
					rec := k.NewRec()
					r := (&k.Srv{S: j.e.s}).Serve(rec, pr)
					if x := j.e.judge(j.q, r, j.status, j.body, j.auth); x != "" {
						mu.Lock()
						if bad == "" {
							bad = fmt.Sprintf("request %d (%s): %s", i, log[i], x)
						}
						mu.Unlock()
					}
				}
			}(g)
		}
		wg.Wait()
		for i, e := range es {
			if bad != "" {
				break
			}
			b, err := os.ReadFile(e.log)
			if err != nil && !os.IsNotExist(err) {
				vt.Harness("%v", err)
			}
			var lines []string
			for _, m := range reNet.FindAllStringSubmatch(string(b), -1) {
				lines = append(lines, m[1])
			}
			want := e.lines
			if e.level < 1 {
				want = nil
			}
			if len(lines) != len(want) {
				bad = fmt.Sprintf("instance %d has %d access lines, want %d (%v):\n%s", i, len(lines), len(want), want, b)
			} else if x := unmatched(want, lines); x != "" {
				bad = fmt.Sprintf("instance %d: %s", i, x)
			}
			if _, err := os.Stat(e.ew.w.Path("metrics.json")); bad == "" && err == nil {
				bad = fmt.Sprintf("instance %d saved metrics", i)
			}
		}
		if bad != "" {
			rt.Fatalf("%s\n%s\nhistory (%d at once)\n%s", bad, text, workers, strings.Join(log, "\n"))
		}
		c.LabelIf(workers > 1, "concurrent")
		c.Labelf("%d instances", len(es))
		c.NonTrivial(len(kinds) > 1)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}
