package serverp

import (
	"bytes"
	"fmt"
	"io"
	"mime"
	"net/http"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// S05: each virtual host is served only from its own configuration.

// echo answers with what the upstream saw.
func echo(u k.UpReq) (*http.Response, error) {
	return &http.Response{StatusCode: 200 + len(u.Body)%4, Header: http.Header{"X-Up": {u.Host}, "Set-Cookie": {"a=1", "b=2"}},
		Body: io.NopCloser(strings.NewReader(u.Method + " " + u.Scheme + "://" + u.Host + u.URI + " " + u.HostHeader + " " + u.Body))}, nil
}

// sameAnswer compares two answers.
func sameAnswer(a, b *k.Resp) string {
	if x, y := a.Fatal(), b.Fatal(); x != y && (x == "" || y == "") {
		return fmt.Sprintf("one ended with %q, the other with %q", x, y)
	}
	if a.Status != b.Status {
		return fmt.Sprintf("status %d and %d", a.Status, b.Status)
	}
	a, b = sameBoundary(a), sameBoundary(b)
	if !bytes.Equal(a.Body, b.Body) {
		return "bodies differ: " + diff(a.Body, string(b.Body))
	}
	return sameHeader(a.Header, b.Header)
}

// sameBoundary gives an answer of several ranges, whose boundary net/http
// draws at random, a fixed one of the same length.
func sameBoundary(r *k.Resp) *k.Resp {
	kind, ps, err := mime.ParseMediaType(r.Header.Get("Content-Type"))
	bound := ps["boundary"]
	if err != nil || kind != "multipart/byteranges" || len(bound) != 60 || strings.Trim(bound, "0123456789abcdef") != "" {
		return r
	}
	fixed := strings.Repeat("b", len(bound))
	same := *r
	same.Header = r.Header.Clone()
	same.Header.Set("Content-Type", strings.ReplaceAll(r.Header.Get("Content-Type"), bound, fixed))
	same.Body = bytes.ReplaceAll(r.Body, []byte(bound), []byte(fixed))
	return &same
}

func sameHeader(a, b http.Header) string {
	names := map[string]bool{}
	for n := range a {
		names[n] = true
	}
	for n := range b {
		names[n] = true
	}
	var ns []string
	for n := range names {
		if n != "Date" {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		if x, y := strings.Join(a[n], "\n"), strings.Join(b[n], "\n"); x != y || len(a[n]) != len(b[n]) {
			return fmt.Sprintf("header %s is %q and %q", n, a[n], b[n])
		}
	}
	return ""
}

func upString(u k.UpReq) string {
	var hs []string
	for n, v := range u.Header {
		hs = append(hs, fmt.Sprintf("%s=%q", n, v))
	}
	sort.Strings(hs)
	return fmt.Sprintf("%s %s://%s%s host=%s %v %q", u.Method, u.Scheme, u.Host, u.URI, u.HostHeader, hs, u.Body)
}

// elsewhere: the servers that have one virtual host each are in processes of their own.
func runS05(ew *errWorld, w *k.World, qs []k.Req, elsewhere bool, c *vt.Case) (string, int) {
	conf := ew.conf
	s := w.Start(conf)
	s.Up.Respond = echo
	single := map[string]*k.Srv{}
	var names []string
	for name := range conf.VHosts {
		names = append(names, name)
	}
	sort.Strings(names)
	alone := map[string][]aloneAnswer{}
	for i, name := range names {
		sc := *conf
		sc.VHosts = nil
		sc.Main = *conf.VHosts[name]
		sub := &k.World{Dir: w.Path(fmt.Sprintf("single%d", i))}
		if elsewhere {
			var mine []k.Req
			for _, q := range qs {
				if r, err := q.Parse(); err == nil && k.HostName(r.Host) == name {
					mine = append(mine, q)
				}
			}
			as, bad := aloneElsewhere(sub.Dir, sc, mine)
			if bad != "" {
				return bad, 0
			}
			alone[name] = as
			continue
		}
		k.Tree(sub.Dir, nil)
		single[name] = sub.Start(&sc)
		single[name].Up.Respond = echo
	}
	used := map[string]bool{}
	for _, q := range qs {
		if _, err := q.Parse(); err != nil {
			continue
		}
		before := s.Up.Count()
		r := s.Do(q)
		saw := s.Up.Reqs[before:]
		one := single[r.HostNam]
		if conf.VHosts[r.HostNam] == nil {
			if r.Fatal() != "" || r.Status != 404 || len(saw) > 0 {
				return fmt.Sprintf("%s: host %q is not configured but was answered %d (%d upstream requests) %s", q, r.HostNam, r.Status, len(saw), r.Fatal()), 0
			}
			continue
		}
		used[r.HostNam] = true
		if elsewhere {
			as := alone[r.HostNam]
			if len(as) == 0 {
				return fmt.Sprintf("%s: answered %d, alone not at all", q, r.Status), 0
			}
			alone[r.HostNam] = as[1:]
			if bad := sameAlone(r, saw, &as[0]); bad != "" {
				return fmt.Sprintf("%s: with the other virtual hosts / alone in a process: %s", q, bad), 0
			}
			if c != nil {
				c.Labelf("answer %d", r.Status)
			}
			continue
		}
		before = one.Up.Count()
		want := one.Do(q)
		sawWant := one.Up.Reqs[before:]
		if bad := sameAnswer(r, want); bad != "" {
			return fmt.Sprintf("%s: with the other virtual hosts / alone: %s", q, bad), 0
		}
		if len(saw) != len(sawWant) {
			return fmt.Sprintf("%s: %d upstream requests, alone %d", q, len(saw), len(sawWant)), 0
		}
		for i := range saw {
			if upString(saw[i]) != upString(sawWant[i]) {
				return fmt.Sprintf("%s: forwarded\n%s\nalone\n%s", q, upString(saw[i]), upString(sawWant[i])), 0
			}
		}
		if c != nil {
			c.Labelf("answer %d", r.Status)
		}
	}
	return "", len(used)
}

func TestS05(t *testing.T) {
	vt.Example(t, "rule for another host", func(t *testing.T) {
		for i := 0; i < 8; i++ {
			w := k.NewWorld()
			k.Tree(w.Path("b"), map[string]string{"index.html": "b"})
			c := &k.Conf{VHosts: map[string]*k.Host{
				"a.test": (&k.Host{Proxy: true, Rules: map[string]string{"a.test": "http://up", "b.test": "http://up", "z.test": "http://up"}, ProxyMethods: []string{"GET"}}).NoRefill(2),
				"b.test": (&k.Host{Dir: w.Path("b"), Index: "index.html", Methods: map[string]string{"/": "GET"}}).NoRefill(5)}}
			var qs []k.Req
			for j := 0; j < 7; j++ {
				qs = append(qs, k.Req{Target: "/", Host: "b.test"}, k.Req{Target: "/", Host: "z.test"})
			}
			bad, _ := runS05(&errWorld{conf: c}, w, qs, i == 0, nil)
			w.Close()
			if bad != "" {
				t.Fatalf("%s", bad)
			}
		}
	})
	vt.Check(t, 2000, 15000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServerWith(rt, w, true)
		ew.conf.Metrics = false
		if chance(rt, "alike", 2) { // virtual hosts with the same settings still are apart
			like := ew.conf.VHosts[ew.hosts[0]]
			if chance(rt, "tightlike", 2) {
				like.NoRefill(n(rt, "burstlike", 1, 4))
			}
			for _, name := range ew.hosts[1:] {
				h := ew.conf.VHosts[name]
				h.Rate, h.Burst, h.FilterOnIP = like.Rate, like.Burst, like.FilterOnIP
				if chance(rt, "firewall alike", 2) {
					h.FW = like.FW
				}
			}
		}
		for _, name := range ew.hosts {
			h := ew.conf.VHosts[name]
			if h.Proxy {
				for i := n(rt, "otherrules", 0, 2); i > 0; i-- {
					o := pick(rt, "other", "a.test", "b.test", "sub.a.test", "z.test", "DEFAULT")
					if h.Rules[o] == "" {
						h.Rules[o] = "http://foreign.internal"
					}
				}
			} else {
				h.Headers = genHeaders(rt)
			}
		}
		var qs []k.Req
		var log []string
		for i := n(rt, "requests", 5, 40); i > 0; i-- {
			q := ew.genReq(rt)
			if chance(rt, "strange", 15) {
				q.Host = pick(rt, "stranger", "DEFAULT", "z.test", "a.tes", "xa.test", "test", "a.test.b", "a.test/docs", "b.test/", "")
			}
			if chance(rt, "slash in host", 12) { // host and path only together spell a configured path
				name := rapid.SampledFrom(ew.hosts).Draw(rt, "slash host")
				paths := []string{q.Target}
				for p := range ew.conf.VHosts[name].Methods {
					paths = append(paths, p, p)
				}
				sort.Strings(paths)
				p := rapid.SampledFrom(paths).Draw(rt, "slash path")
				var cuts []int
				for i := 1; i < len(p); i++ {
					if p[i] == '/' {
						cuts = append(cuts, i)
					}
				}
				if p[0] == '/' && len(cuts) > 0 {
					cut := rapid.SampledFrom(cuts).Draw(rt, "cut")
					q.Host, q.Target = name+p[:cut], p[cut:]
					if chance(rt, "below", 3) && strings.HasSuffix(q.Target, "/") {
						q.Target += "index.html"
					}
				}
			}
			if q.Host == "" {
				q.Host = "none"
			}
			qs = append(qs, q)
			log = append(log, q.String())
			if chance(rt, "to others", 4) { // the same of other virtual hosts
				if chance(rt, "untyped", 3) {
					q.Method, q.Target, q.Header, q.Body = "GET", pick(rt, "untypedpath", "/raw", "/x/f", "/docs/x.own"), nil, ""
				}
				for j := n(rt, "others", 1, 4); j > 0; j-- {
					q.Host = rapid.SampledFrom(ew.hosts).Draw(rt, "other host")
					qs = append(qs, q)
					log = append(log, q.String())
				}
			}
		}
		text := ew.String()
		vt.Note(text + "\n" + strings.Join(log, "\n"))
		elsewhere := vt.Rare(rt, "elsewhere", 40)
		bad, hosts := runS05(ew, w, qs, elsewhere, c)
		c.LabelIf(elsewhere, "compared with processes of their own")
		if bad != "" {
			rt.Fatalf("%s\nconfig %s\nhistory\n%s", bad, text, strings.Join(log, "\n"))
		}
		c.LabelIf(hosts > 1, "several virtual hosts used")
		c.NonTrivial(hosts > 1)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}
