package guardp

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"testing"

	"github.com/redmaner/MaguroHTTP/guard"
	"github.com/redmaner/MaguroHTTP/router"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// covers tells whether a rule of the path or of an ancestor lists the client.
func covers(rules map[string][]string, subpath bool, p, ip string) bool {
	lists := func(rule string) bool {
		for _, v := range rules[rule] {
			if v == ip || v == "*" {
				return true
			}
		}
		return false
	}
	q := p
	for len(q) > 1 {
		if lists(q) {
			return true
		}
		i := strings.LastIndexByte(q, '/')
		if i < 0 {
			break
		}
		q = q[:i] // of a path with trailing slash: the directory itself
	}
	if p == "/" || !subpath {
		return lists("/")
	}
	return false
}

type fwCase struct {
	black, subpath, proxy bool
	rules                 map[string][]string
	addr, ip, path        string
	viaRouter             bool
	custom                bool
	vary                  int
}

func (f fwCase) String() string {
	var rs []string
	for k, v := range f.rules {
		rs = append(rs, fmt.Sprintf("%s:%v", k, v))
	}
	sort.Strings(rs)
	return fmt.Sprintf("blacklisting=%v subpath=%v proxy=%v router=%v rules=%v client=%s path=%q disguise=%d", f.black, f.subpath, f.proxy, f.viaRouter, rs, f.addr, f.path, f.vary)
}

func runFirewall(f fwCase) (passed bool, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	fw := guard.NewFirewall()
	fw.Blacklisting, fw.Subpath, fw.Rules = f.black, f.subpath, f.rules
	errs := 0
	if f.custom {
		fw.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) {
			errs++
			http.Error(w, "custom", code)
		}
	}
	ran := 0
	inner := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { ran++; w.Write([]byte("ok")) })
	mw := fw.BlockHTTP
	if f.proxy {
		mw = fw.BlockProxy
	}
	r := &http.Request{Method: "GET", URL: &url.URL{Path: f.path}, Host: "h", Header: http.Header{}, RemoteAddr: f.addr}
	disguise(r, f.vary, false)
	w := httptest.NewRecorder()
	if f.viaRouter {
		sr := router.NewRouter()
		sr.AddRoute(router.DefaultHost, "/", true, "GET", "*", inner)
		if r.Method != "GET" && r.Method != "PROPFIND" {
			sr.AddRoute(router.DefaultHost, "/", true, r.Method, "*", inner)
		} else {
			r.Method = "GET"
		}
		sr.UseMiddleware(router.DefaultHost, "/", router.MiddlewareHandlerFunc(mw))
		sr.ServeHTTP(w, r)
	} else {
		mw(inner)(w, r)
	}
	switch {
	case ran == 1 && w.Code == 200 && w.Body.String() == "ok" && errs == 0:
		return true, ""
	case ran == 0 && w.Code == 403 && (!f.custom || errs == 1) && !strings.Contains(w.Body.String(), "ok"):
		return false, ""
	}
	return false, fmt.Sprintf("handler ran %d times, error handler %d times, status %d, body %q", ran, errs, w.Code, w.Body.String())
}

func canonical(p string) string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	r := "/" + strings.Join(out, "/")
	if strings.HasSuffix(p, "/") && r != "/" {
		r += "/"
	}
	return r
}

func judge(f fwCase) string {
	p := f.path
	if f.viaRouter {
		p = canonical(p)
	}
	covered := covers(f.rules, f.subpath, p, f.ip)
	got, bad := runFirewall(f)
	if bad != "" {
		return bad
	}
	if want := covered != f.black; got != want {
		return fmt.Sprintf("covered=%v, request passed on=%v, want %v", covered, got, want)
	}
	return ""
}

func TestG04(t *testing.T) {
	for _, f := range []fwCase{
		{black: true, addr: "192.0.2.1:1", ip: "192.0.2.1", path: "/"},
		{black: false, addr: "192.0.2.1:1", ip: "192.0.2.1", path: "/"},
		{black: true, addr: "192.0.2.1:1", ip: "192.0.2.1", path: "*"},
	} {
		f := f
		vt.Example(t, f.String(), func(t *testing.T) {
			if bad := judge(f); bad != "" {
				t.Fatalf("%v: %s", f, bad)
			}
		})
	}
	addrs := []struct{ addr, ip string }{
		{"192.0.2.1:1", "192.0.2.1"}, {"192.0.2.11:80", "192.0.2.11"}, {"[2001:db8::1]:9", "2001:db8::1"}, {"[::1]:9", "::1"}, {"[fe80::1%eth0]:1", "fe80::1%eth0"},
	}
	listed := []string{"192.0.2.1", "192.0.2.11", "192.0.2.2", "192.0.2.1:1", "2001:db8::1", "::1", "192.0.2.", "192.0.2.1*", "", "*"}
	seg := rapid.SampledFrom([]string{"a", "b", "ab", "c.html", "a b", "é", "A", "C.html", "É", "ſ", "s", "K", "k"})
	genPath := rapid.Custom(func(rt *rapid.T) string {
		s := rapid.SliceOfN(seg, 0, 5).Draw(rt, "segs")
		return "/" + strings.Join(s, "/")
	})
	vt.Check(t, 50000, 600000, func(rt *rapid.T, c *vt.Case) {
		a := rapid.SampledFrom(addrs).Draw(rt, "client")
		f := fwCase{
			black: rapid.Bool().Draw(rt, "black"), subpath: rapid.Bool().Draw(rt, "subpath"),
			proxy: rapid.Bool().Draw(rt, "proxy"), viaRouter: rapid.Bool().Draw(rt, "router"),
			custom: rapid.Bool().Draw(rt, "custom"), addr: a.addr, ip: a.ip,
		}
		if rapid.IntRange(0, 2).Draw(rt, "disguised") == 0 {
			f.vary = rapid.IntRange(0, len(disguises)-1).Draw(rt, "disguise")
		}
		p := genPath.Draw(rt, "path")
		if vt.Rare(rt, "bigpath", 25) {
			p = strings.TrimSuffix(p, "/") + vt.BigPath(rt, "big", 3000, 5000)
			c.Label("big path")
		}
		f.rules = map[string][]string{}
		// Rules at the path, at its ancestors and elsewhere.
		for n := rapid.IntRange(0, 4).Draw(rt, "rules"); n > 0; n-- {
			rp := p
			switch rapid.IntRange(0, 3).Draw(rt, "where") {
			case 0:
				rp = genPath.Draw(rt, "elsewhere")
			case 1, 2:
				parts := strings.Split(p, "/")
				rp = strings.Join(parts[:rapid.IntRange(1, len(parts)).Draw(rt, "depth")], "/")
				if rp == "" {
					rp = "/"
				}
				switch rapid.IntRange(0, 5).Draw(rt, "othercase") {
				case 0:
					rp = strings.ToUpper(rp)
				case 1:
					rp = strings.ToLower(rp)
				}
			}
			who := rapid.SliceOfN(rapid.SampledFrom(append([]string{a.ip, a.ip}, listed...)), 0, 3).Draw(rt, "list")
			if vt.Rare(rt, "longlist", 30) {
				many := vt.Many(rt, "listed", 300)
				at := rapid.IntRange(0, many).Draw(rt, "listat")
				var l []string
				for i := 0; i < many; i++ {
					if i == at {
						l = append(l, who...)
					}
					l = append(l, fmt.Sprintf("10.0.%d.%d", i/256, i%256))
				}
				who = l
				c.Label("long list")
			}
			f.rules[rp] = who
		}
		if vt.Rare(rt, "manyrules", 30) {
			for i := vt.Many(rt, "rules2", 300); i > 0; i-- {
				f.rules[fmt.Sprintf("/other%d", i)] = []string{"*"}
			}
			c.Label("many rules")
		}
		if len(f.rules) == 0 && rapid.Bool().Draw(rt, "nil") {
			f.rules = nil
		}
		if len(f.rules) > 0 && rapid.IntRange(0, 5).Draw(rt, "rootrule") == 0 {
			f.rules["/"] = rapid.SliceOfN(rapid.SampledFrom(append([]string{a.ip, a.ip}, listed...)), 0, 3).Draw(rt, "rootlist")
		}
		if rapid.IntRange(0, 3).Draw(rt, "slash") == 0 && p != "/" {
			p += "/"
		}
		if f.viaRouter {
			switch rapid.IntRange(0, 5).Draw(rt, "mess") {
			case 0:
				p = strings.ReplaceAll(p, "/", "//")
			case 1:
				p = "/x/.." + p
			case 2:
				p = p[1:]
			case 3:
				p = strings.Replace(p, "/", "/./", 1)
			}
		} else if !f.subpath && rapid.IntRange(0, 9).Draw(rt, "odd") == 0 {
			p = rapid.SampledFrom([]string{"*", "", "rel", "."}).Draw(rt, "oddpath")
		}
		f.path = p
		text := f.String()
		c.Desc(text)
		vt.Note(text)
		if bad := judge(f); bad != "" {
			rt.Fatalf("%s\n%s", bad, text)
		}
		cov := covers(f.rules, f.subpath, canonical(f.path), f.ip)
		c.Labelf("black=%v/covered=%v", f.black, cov)
		c.LabelIf(f.subpath && len(f.rules["/"]) > 0, "root-rule-with-subpath")
		c.LabelIf(f.proxy, "proxy")
		c.NonTrivial(len(f.rules) > 0)
	})
}
