package serverp

import (
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// S03: errors reach the client with their true status.

type errWorld struct {
	mark  string // in the error template
	w     *k.World
	conf  *k.Conf
	pages map[string]map[string]string // host -> code -> content of a readable page
	hosts []string
	files map[string]*fs
}

var errCodes = []string{"401", "403", "404", "405", "406", "429", "502"}

func genPages(rt *rapid.T, ew *errWorld, host string, h *k.Host, odds int) {
	ew.pages[host] = map[string]string{}
	for _, code := range errCodes {
		if n(rt, "custom", 1, 6) > odds {
			continue
		}
		if h.Errors == nil {
			h.Errors = map[string]string{}
		}
		dir := "err/" + strings.Map(func(r rune) rune {
			if r == '.' {
				return '-'
			}
			return r
		}, host) + "x" + code
		p := dir + "/" + pick(rt, "pagename", "page.html", "index.html", "err.txt", "noext", "p.json", "ü q.html", "page.html", "x.htm")
		body := fmt.Sprintf("<p>own page %s of %q</p>", code, host) + strings.Repeat("x", n(rt, "pagelen", 0, 2000))
		if vt.Rare(rt, "bigpage", 12) {
			body += strings.Repeat("big page ", rapid.SampledFrom([]int{450, 1000, 3640, 3641, 7300, 30000, 120000, 500000}).Draw(rt, "bigpagelen"))
		}
		h.Errors[code] = ew.w.Path(p)
		switch n(rt, "pagekind", 0, 9) {
		case 0: // not there
		case 1: // a directory, in the second case with an index page
			k.Tree(ew.w.Dir, map[string]string{p + "/": ""})
		case 2:
			k.Tree(ew.w.Dir, map[string]string{p + "/index.html": "index of a directory", p + "/nm.txt": ""})
		case 3:
			body = ""
			fallthrough
		default:
			k.Tree(ew.w.Dir, map[string]string{p: body})
			ew.pages[host][code] = body
		}
	}
}

// changePage removes, makes or rewrites a custom page while the server runs.
func (ew *errWorld) changePage(rt *rapid.T) string {
	var all [][2]string
	for host := range ew.pages {
		for code := range ew.conf.HostConf(host).Errors {
			all = append(all, [2]string{host, code})
		}
	}
	if len(all) == 0 {
		return ""
	}
	sort.Slice(all, func(i, j int) bool { return all[i][0]+all[i][1] < all[j][0]+all[j][1] })
	x := rapid.SampledFrom(all).Draw(rt, "changed")
	host, code := x[0], x[1]
	file := ew.conf.HostConf(host).Errors[code]
	old, readable := ew.pages[host][code]
	body := fmt.Sprintf("<p>new page %s of %q</p>", code, host) + strings.Repeat("y", n(rt, "pagelen", 0, 2000))
	how := "removed"
	switch {
	case readable && chance(rt, "remove", 3):
		vt.Must(os.Remove(file))
		delete(ew.pages[host], code)
	case readable:
		body, how = rewrite(rt, file, old, body)
		ew.pages[host][code] = body
	default:
		vt.Must(os.RemoveAll(file))
		vt.Must(os.MkdirAll(filepath.Dir(file), 0o755))
		vt.Must(os.WriteFile(file, []byte(body), 0o644))
		ew.pages[host][code], how = body, "made"
	}
	return fmt.Sprintf("page %s of %q %s (%d bytes)", code, host, how, len(body))
}

func genGuard(rt *rapid.T, h *k.Host) {
	if chance(rt, "tight", 2) {
		h.NoRefill(n(rt, "burst", 0, 6))
	} else {
		h.NoRefill(100000)
	}
	h.FilterOnIP = chance(rt, "iponly", 2)
	if chance(rt, "firewall", 2) {
		h.FW = k.Firewall{Enabled: true, Blacklisting: chance(rt, "black", 2), Subpath: chance(rt, "subpath", 2), Rules: map[string][]string{}}
		for i := n(rt, "rules", 0, 4); i > 0; i-- {
			if vt.Rare(rt, "bigrule", 30) {
				h.FW.Rules[vt.BigPath(rt, "big", 2000, 3000)] = []string{"*"}
			}
			h.FW.Rules[pick(rt, "rule", "/", "/docs", "/docs/deep", "/a.txt", "/blocked", "/x", "/o p")] = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"*", "192.0.2.1", "192.0.2.2", "2001:db8::1", "192.0.2.11", "127.0.0.1", "::1"}), 1, 2, rapid.ID[string]).Draw(rt, "who")
		}
	}
}

func genMethods(rt *rapid.T, h *k.Host) {
	h.Methods = map[string]string{}
	norms := map[string]bool{}
	for i := n(rt, "nmethods", 1, 4); i > 0; i-- {
		p := pick(rt, "mpath", "/", "/", "/docs/", "/docs", "/docs/deep/", "/a.txt", "/blocked/", "/x/", "/b.html", "/o p/")
		if vt.Rare(rt, "bigroute", 30) {
			p = vt.BigPath(rt, "big", 2000, 3000) + pick(rt, "bigslash", "", "/")
		}
		np := strings.TrimSuffix(p, "/")
		if norms[np] {
			continue
		}
		norms[np] = true
		h.Methods[p] = pick(rt, "ms", "GET", "GET", "GET;POST", "GET;HEAD", "POST", "PUT;DELETE", "OPTIONS;GET", "GET;HEAD;POST;PUT;PATCH", "CONNECT;GET")
		if chance(rt, "rtype", 3) {
			if h.ReqTypes == nil {
				h.ReqTypes = map[string]string{}
			}
			h.ReqTypes[p] = pick(rt, "types", "text/html", ";text/html", "application/json;text/html", "application/json;", "*", "text/html;")
		}
	}
}

// genVHosts draws the names of one to three virtual hosts.
func genVHosts(rt *rapid.T) []string {
	if !chance(rt, "odd names", 3) {
		return []string{"a.test", "b.test", "sub.a.test"}[:n(rt, "nvhosts", 1, 3)]
	}
	names := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a.test", "b.test", "sub.a.test", "www.a.test", "test"}), 1, 3, rapid.ID[string]).Draw(rt, "vnames")
	sort.Strings(names)
	return names
}

// genServer generates a whole configuration with files and error pages.
func genServer(rt *rapid.T, w *k.World) *errWorld {
	return genServerWith(rt, w, chance(rt, "vhosts", 2))
}

func genServerWith(rt *rapid.T, w *k.World, vhosts bool) *errWorld {
	ew := &errWorld{w: w, conf: &k.Conf{}, pages: map[string]map[string]string{}, files: map[string]*fs{}}
	c := ew.conf
	names := []string{""}
	if vhosts {
		names = genVHosts(rt)
		c.VHosts = map[string]*k.Host{}
	}
	if vhosts && chance(rt, "main too", 2) {
		// the main configuration has content too, which then counts for nothing
		names = append(names, "")
	}
	for i, name := range names {
		h := &k.Host{}
		genGuard(rt, h)
		dir := fmt.Sprintf("www%d", i)
		switch n(rt, "mode", 0, 5) {
		case 0, 1, 2:
			h.Dir, h.Index = w.Path(dir), pick(rt, "index", "index.html", "start.html")
			genMethods(rt, h)
		case 3:
			h.Dir, h.Index = w.Path(dir), "index.html"
			h.Download, h.Exts = true, []string{".txt", ".zip"}
		default:
			h.Proxy = true
			rule := name
			if rule == "" {
				rule = "p.test"
			}
			h.Rules = map[string]string{rule: fmt.Sprintf("http://up%d.internal:8%d", i, i)}
			if chance(rt, "scheme", 4) {
				h.Rules[rule] = fmt.Sprintf("https://up%d.internal", i)
			}
			if name == "" && chance(rt, "rule2", 2) {
				h.Rules["q.test"] = "http://other.internal"
			}
			h.ProxyMethods = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS"}), 1, 4, rapid.ID[string]).Draw(rt, "pmethods")
			if chance(rt, "pheaders", 2) {
				h.ProxyHeaders = map[string]string{"X-Proxy": "p" + name}
			}
		}
		if h.Dir != "" {
			f := newFS()
			for _, p := range []string{"/a.txt", "/b.html", "/docs/c.json", "/docs/deep/d.txt", "/docs/" + h.Index, "/" + h.Index, "/blocked/e.zip", "/x/f", "/o p/g.txt"} {
				if chance(rt, "exists", 5) {
					continue
				}
				f.add(p, fmt.Sprintf("file %s of %q", p, name))
			}
			f.mkdir("/x/dir")
			if chance(rt, "assets", 6) {
				for _, p := range wellKnown {
					if chance(rt, "asset", 4) {
						f.add(p, fmt.Sprintf("file %s of %q", p, name))
					}
				}
			}
			if chance(rt, "resptypes", 2) {
				h.RespTypes = map[string]string{}
				for _, p := range []string{"/x/f", "/raw", "/docs/" + h.Index, "/a.txt", "/docs/x.own"} {
					if chance(rt, "resptype", 2) {
						h.RespTypes[p] = pick(rt, "resptypeis", "text/markdown", "application/x-own", "image/webp", "video/x-"+dir)
					}
				}
			}
			if chance(rt, "untyped", 2) {
				f.add("/raw", "raw of "+name)
				f.add("/docs/x.own", "own of "+name)
			}
			ew.files[name] = f
			k.Tree(w.Path(dir), f.tree())
		}
		if vhosts && name == "" {
			delete(ew.files, "")
			h.Headers = genHeaders(rt)
			c.Main = *h
			break
		}
		genPages(rt, ew, name, h, n(rt, "pageodds", 0, 5))
		if vhosts {
			c.VHosts[name] = h
		} else {
			c.Main = *h
		}
		ew.hosts = append(ew.hosts, name)
	}
	if vhosts {
		if c.Main.Dir == "" && !c.Main.Proxy {
			c.Main.NoRefill(3)
		}
		if chance(rt, "mainerrs", 2) {
			genPages(rt, ew, "", &c.Main, 3)
		}
	}
	if chance(rt, "tls", 2) {
		c.TLS = true
		if chance(rt, "hsts", 2) {
			c.HSTSMaxAge = rapid.OneOf(rapid.IntRange(-1, 1), rapid.IntRange(1, 1000000)).Draw(rt, "maxage")
			c.HSTSPreload, c.HSTSSubs = chance(rt, "preload", 2), chance(rt, "subs", 2)
		}
		if chance(rt, "metrics", 2) {
			c.Metrics, c.MetricsPath, c.MetricsOut = true, "/metrics", w.Path("metrics.json")
			c.MetricsUsers = map[string]string{"admin": "pw", "u:": "", "": "x"}
			delete(c.MetricsUsers, []string{"u:", "", "none"}[n(rt, "nouser", 0, 2)])
		}
	}
	c.WebDAV = chance(rt, "webdav", 6)
	return ew
}

func (ew *errWorld) genReq(rt *rapid.T) k.Req {
	c := ew.conf
	hosts := []string{"h.test", "p.test", "q.test", "a.test", "b.test", "sub.a.test", "a.test", "b.test", "sub.a.test", "www.a.test", "test", "www.h.test"}
	q := k.Req{Host: rapid.SampledFrom(hosts).Draw(rt, "host")}
	if chance(rt, "known", 2) {
		if name := rapid.SampledFrom(ew.hosts).Draw(rt, "known"); name != "" {
			q.Host = name
		} else if c.Main.Proxy {
			q.Host = "p.test"
		}
	}
	if chance(rt, "port", 5) {
		q.Host += ":8443"
	}
	p := pick(rt, "path", "/", "/a.txt", "/b.html", "/docs", "/docs/", "/docs/c.json", "/docs/deep/d.txt", "/docs/deep/", "/blocked/e.zip", "/blocked", "/x/f", "/x/dir", "/x/dir/", "/o p/g.txt", "/nothing", "/docs/nothing/index.html", "/index.html", "/raw", "/docs/x.own", "/metrics", "/metrics/", "/metrics/x", "/docs/index.html")
	if chance(rt, "wellknown", 8) {
		p = rapid.SampledFrom(wellKnown).Draw(rt, "wellknown")
	}
	if vt.Rare(rt, "bigpath", 25) {
		var ps []string
		for _, name := range ew.hosts {
			h := ew.conf.HostConf(name)
			for mp := range h.Methods {
				ps = append(ps, mp)
			}
			for rp := range h.FW.Rules {
				ps = append(ps, rp)
			}
		}
		ps = append(ps, "/", "/docs", "/x")
		sort.Strings(ps)
		p = rapid.SampledFrom(ps).Draw(rt, "bigbase")
		if chance(rt, "bigtail", 2) {
			p = strings.TrimSuffix(p, "/") + vt.BigPath(rt, "big", 4000, 6000)
		}
	}
	q.Target = spell(rt, p, !chance(rt, "spelled", 3))
	q.Method = pick(rt, "method", "GET", "GET", "GET", "GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "FOO", "get")
	if chance(rt, "ct", 4) {
		q.Header = append(q.Header, [2]string{"Content-Type", pick(rt, "ctype", "text/html", "application/json", "text/html; charset=utf-8", "image/png", "")})
	}
	if chance(rt, "cond", 3) {
		q.Header = append(q.Header, rapid.SampledFrom([][2]string{{"Range", "bytes=0-3"}, {"Range", "bytes=99999-"}, {"If-None-Match", "*"}, {"If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT"}, {"If-Match", "\"x\""}, {"If-Unmodified-Since", "Sat, 01 Jan 2000 00:00:00 GMT"}, {"Accept", "application/json"}}).Draw(rt, "conditional"))
	}
	if chance(rt, "auth", 3) {
		q.Header = append(q.Header, rapid.SampledFrom([][2]string{k.BasicAuth("admin", "pw"), k.BasicAuth("admin", "PW"), k.BasicAuth("u:", ""), k.BasicAuth("", "x"), k.BasicAuth("", ""), {"Authorization", "Basic"}, {"Authorization", "Bearer x"}, {"Authorization", "Basic !!"}, k.BasicAuth("nobody", "")}).Draw(rt, "authz"))
	}
	if chance(rt, "ua", 2) {
		q.Header = append(q.Header, [2]string{"User-Agent", pick(rt, "agent", "A", "B")})
	} else if vt.Rare(rt, "longagent", 30) {
		q.Header = append(q.Header, [2]string{"User-Agent", vt.Long(rt, "agent", "Mozilla/5.0 (X11)", 5000)})
	}
	if q.Method == "POST" || q.Method == "PUT" || chance(rt, "body", 12) {
		q.Body = pick(rt, "bodytext", "", "hello", strings.Repeat("b", 3000))
		q.Chunked = chance(rt, "chunked", 3)
	}
	if chance(rt, "hint", 4) {
		q.Header = append(q.Header, rapid.SampledFrom(hints).Draw(rt, "hinted"))
	}
	if chance(rt, "pairs", 4) {
		q.Header = withPairs(rt, q.Header)
	}
	q.Remote = pick(rt, "remote", "192.0.2.1:1000", "192.0.2.1:1001", "192.0.2.2:1000", "[2001:db8::1]:7", "127.0.0.1:1000", "[::1]:7", "10.0.0.1:80")
	return q
}

// together are headers that have a meaning with one another.
var together = [][]string{
	{"Range", "If-Range"}, {"Range", "If-Match"}, {"If-None-Match", "If-Modified-Since"}, {"Origin", "Access-Control-Request-Headers"},
	{"Accept", "Accept-Language"}, {"Cookie", "Cache-Control"}, {"X-Forwarded-For", "X-Forwarded-Proto"}, {"Depth", "Destination"}, {"Via", "Max-Forwards"},
	{"Connection", "Upgrade"},
}

// withPairs adds two headers or more, each with a value that is meant for it.
func withPairs(rt *rapid.T, header [][2]string) [][2]string {
	names := rapid.SampledFrom(together).Draw(rt, "together")
	if chance(rt, "anytwo", 2) {
		names = rapid.SliceOfNDistinct(rapid.SampledFrom(pairNames), 2, 4, rapid.ID[string]).Draw(rt, "two")
	}
	for _, name := range names {
		have := false
		for _, h := range header {
			have = have || strings.EqualFold(h[0], name)
		}
		if !have {
			header = append(header, [2]string{name, rapid.SampledFrom(properFor[name]).Draw(rt, "pairvalue")})
		}
	}
	return header
}

// pairNames are the headers that neither frame the request nor are judged.
var pairNames = func() (out []string) {
	for _, name := range properNames {
		switch name {
		case "Authorization", "Content-Type", "User-Agent", "Te", "Expect":
		default:
			out = append(out, name)
		}
	}
	return out
}()

// wellKnown are paths that are often treated in a way of their own.
var wellKnown = []string{"/site.css", "/app.js", "/logo.png", "/docs/logo.svg", "/favicon.ico", "/robots.txt", "/sitemap.xml", "/.well-known/security.txt", "/.well-known/acme-challenge/x", "/health", "/healthz", "/ping", "/status", "/fonts/a.woff2", "/docs/data.json", "/blocked/x.css", "/x/y.js", "/manifest.json", "/sw.js", "/humans.txt", "/apple-touch-icon.png", "/crossdomain.xml", "/login", "/admin", "/api/v1", "/index.php", "/.env", "/.git/config", "/wp-login.php", "/server-status", "/debug/pprof", "/templates/error.html"}

// near makes a request that differs from another in one detail of its host or
// path, mostly at the far end of a long one.
func near(rt *rapid.T, q k.Req) k.Req {
	path, query, found := strings.Cut(q.Target, "?")
	if found {
		query = "?" + query
	}
	switch n(rt, "near", 0, 7) {
	case 0, 1, 2:
		big := strings.TrimSuffix(path, "/") + vt.BigPath(rt, "nearbig", 3000, 5000)
		path = big + pick(rt, "tail", "1", "2", "12", "/", "/1", "/2", "x", "%20", "")
	case 3:
		path = strings.TrimSuffix(path, "/") + pick(rt, "tail", "/", "", "//", "/.", "x", "%01", "%20", ".")
	case 4:
		path = strings.ToUpper(path)
		if strings.Contains(path, "%") {
			path = q.Target
			query = ""
		}
	case 5:
		query = pick(rt, "nearquery", "", "?", "?a", "?a=b", "?b")
	case 6:
		name, port, _ := strings.Cut(q.Host, ":")
		q.Host = pick(rt, "nearhost", strings.ToUpper(name), name+".", "x"+name, name+"x") + pick(rt, "nearport", "", ":"+port)
		q.Host = strings.TrimSuffix(q.Host, ":")
	default:
		q.Method = pick(rt, "nearmethod", "GET", "HEAD", "POST", "FOO")
	}
	q.Target = path + query
	return q
}

// hints are headers that must not change who a client is or what it asks for.
var hints = [][2]string{
	{"X-Forwarded-For", "192.0.2.2"}, {"X-Forwarded-For", "127.0.0.1, 192.0.2.9"}, {"X-Real-Ip", "192.0.2.2"}, {"Forwarded", "for=192.0.2.2;host=b.test;proto=https"},
	{"X-Forwarded-Host", "b.test"}, {"X-Forwarded-Proto", "https"}, {"X-Forwarded-Prefix", "/docs"}, {"Client-Ip", "127.0.0.1"}, {"True-Client-Ip", "192.0.2.2"}, {"X-Client-Ip", "127.0.0.1"},
	{"X-Http-Method-Override", "GET"}, {"X-Http-Method-Override", "DELETE"}, {"X-Method-Override", "POST"}, {"X-Http-Method", "GET"}, {"X-Original-Url", "/blocked/e.zip"}, {"X-Rewrite-Url", "/"}, {"X-Original-Host", "a.test"},
	{"Origin", "https://evil.test"}, {"Referer", "http://a.test/"}, {"Cookie", "a=b; admin=1"}, {"Accept-Encoding", "gzip, br"}, {"Accept-Language", "de"}, {"Accept", "*/*;q=0"},
	{"Content-Encoding", "gzip"}, {"Cache-Control", "no-cache"}, {"Pragma", "no-cache"}, {"Dnt", "1"}, {"Upgrade-Insecure-Requests", "1"}, {"Purpose", "prefetch"}, {"Sec-Fetch-Mode", "no-cors"},
	{"X-Requested-With", "XMLHttpRequest"}, {"Access-Control-Request-Method", "PUT"}, {"Max-Forwards", "0"}, {"Depth", "infinity"}, {"Destination", "/x/f"}, {"Overwrite", "T"}, {"If", "(<x>)"}, {"Debug", "1"}, {"X-Debug", "true"}, {"Via", "1.1 x"}, {"Keep-Alive", "timeout=5"}, {"Te", "trailers"}, {"Early-Data", "1"}, {"X-Token", "admin"}, {"Accept-Charset", "utf-8"},
}

func (ew *errWorld) String() string {
	var s []string
	for h, f := range ew.files {
		s = append(s, fmt.Sprintf("%q: %s", h, f))
	}
	for h, m := range ew.pages {
		for c, b := range m {
			s = append(s, fmt.Sprintf("page %q/%s (%d bytes)", h, c, len(b)))
		}
	}
	sort.Strings(s)
	return ew.conf.Text() + " " + strings.Join(s, " ")
}

// final completes a decision with what the handler makes of it: 0 if the
// status is not determined by the configuration (partial content and such).
func (ew *errWorld) final(d k.Decision, r *k.Resp, q k.Req, upFails bool) int {
	if d.Status != 200 {
		return d.Status
	}
	switch d.Kind {
	case "proxy":
		if upFails {
			return 502
		}
		return 0
	case "serve":
		if resolve(ew.files[d.Owner], d.Host.Index, r.Path).status == 404 {
			return 404
		}
	case "download":
		if _, ok := ew.files[d.Owner].files[r.Path]; !ok && r.Path != "/" && r.Path != "/"+d.Host.Index && !ew.files[d.Owner].dirs[r.Path] {
			return 404
		}
	}
	return 0
}

// checkErrorPage judges the answer to a rejected or failed request.
func (ew *errWorld) checkErrorPage(want int, q k.Req, r *k.Resp) string {
	if r.Status != want {
		return fmt.Sprintf("status %d (Location %q), want %d", r.Status, r.Loc(), want)
	}
	if s := contentLength(r, q); s != "" {
		return s
	}
	if q.Method == "HEAD" {
		return ""
	}
	host := r.HostNam
	known := true
	if ew.conf.VHosts == nil {
		host = ""
	} else if _, known = ew.conf.VHosts[host]; !known {
		host = ""
	}
	builtin := strings.Contains(string(r.Body), fmt.Sprintf("Error %d", want)) && strings.Contains(string(r.Body), ew.mark)
	if page, ok := ew.pages[host][fmt.Sprint(want)]; ok {
		if string(r.Body) == page || !known && builtin {
			return ""
		}
		return "error page: " + diff(r.Body, page)
	}
	if !builtin {
		return fmt.Sprintf("the body is not the built-in page for %d: %q", want, cut(string(r.Body)))
	}
	return ""
}

func refuse(k.UpReq) (*http.Response, error) { return nil, errors.New("connection refused") }

func TestS03(t *testing.T) {
	vt.Example(t, "custom page", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		k.Tree(w.Dir, map[string]string{"404.html": "not here", "e/index.html": "index page", "dir/": ""})
		c := &k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Methods: map[string]string{"/": "GET"}, Errors: map[string]string{"404": w.Path("404.html"), "405": w.Path("e/index.html"), "406": w.Path("dir")}}).Unlimited()}
		s := w.Start(c)
		for _, q := range []k.Req{
			{Target: "/none"}, {Target: "/none/index.html"}, {Target: "/", Header: [][2]string{{"Range", "bytes=0-1"}}}, {Target: "/x", Header: [][2]string{{"If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT"}}},
			{Method: "POST", Target: "/"}, {Method: "POST", Target: "/x/index.html"},
			{Target: "/", Header: [][2]string{{"Content-Type", "a/b"}}}, {Target: "/x/index.html", Header: [][2]string{{"Content-Type", "a/b"}}}} {
			q.Host = "h"
			r := s.Do(q)
			want, body := 404, "not here"
			if q.Method == "POST" {
				want, body = 405, "index page"
			} else if len(q.Header) > 0 && q.Header[0][0] == "Content-Type" {
				want, body = 406, ""
			}
			if r.Fatal() != "" || r.Status != want || body != "" && string(r.Body) != body || body == "" && !strings.Contains(string(r.Body), "Error 406") {
				t.Fatalf("%s: status %d body %q, want %d %q", q, r.Status, cut(string(r.Body)), want, body)
			}
		}
	})
	vt.Check(t, 1500, 20000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		text := ew.String()
		vt.Note(text)
		s := w.Start(ew.conf)
		m := k.NewModel(ew.conf)
		var log []string
		var last k.Req
		for i := n(rt, "requests", 5, 40); i > 0; i-- {
			if chance(rt, "changepage", 10) {
				if how := ew.changePage(rt); how != "" {
					log = append(log, how)
					c.Label("page changed")
				}
			}
			q := ew.genReq(rt)
			if len(log) > 1 && chance(rt, "again", 4) {
				q = last
			}
			last = q
			fails := chance(rt, "upfails", 2)
			if fails {
				s.Up.Respond = refuse
			} else {
				s.Up.Respond = nil
			}
			log = append(log, fmt.Sprintf("%s upfails=%v", q, fails))
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			r := s.Do(q)
			want := ew.final(m.Decide(q, pr, r.Path), r, q, fails)
			c.Labelf("answer %d", r.Status)
			bad := ""
			if want != 0 {
				if bad = r.Fatal(); bad == "" {
					bad = ew.checkErrorPage(want, q, r)
				}
				c.NonTrivial(true)
				if _, ok := ew.pages[k.HostName(q.Host)][fmt.Sprint(want)]; ok {
					c.Label("custom page")
				}
			}
			if bad != "" {
				rt.Fatalf("%s\n%s\nconfig %s\nhistory\n%s", bad, q, text, strings.Join(log, "\n"))
			}
		}
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}
