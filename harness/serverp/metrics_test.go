package serverp

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// counts is what metrics have to show: status and host+path -> number.
type counts map[string]int

func ckey(status int, host, path string) string { return strconv.Itoa(status) + " " + host + path }

var (
	reTotal   = regexp.MustCompile(`<b>Total requests:</b> (\d+)<br>`)
	reSection = regexp.MustCompile(`(?s)<br><b>(\d+)</b><ul>(.*?)</ul>`)
	reItem    = regexp.MustCompile(`(?s)<li>Amount: (\d+) - Path: (.*?)</li>`)
)

// parsePage reads the metrics page.
func parsePage(body string) (int, counts, string) {
	m := reTotal.FindStringSubmatch(body)
	if m == nil {
		return 0, nil, "no total on the metrics page: " + cut(body)
	}
	total, _ := strconv.Atoi(m[1])
	got := counts{}
	for _, sec := range reSection.FindAllStringSubmatch(body, -1) {
		for _, it := range reItem.FindAllStringSubmatch(sec[2], -1) {
			num, _ := strconv.Atoi(it[1])
			key := sec[1] + " " + html.UnescapeString(it[2])
			if _, ok := got[key]; ok {
				return 0, nil, fmt.Sprintf("%q is shown twice", key)
			}
			got[key] = num
		}
	}
	return total, got, ""
}

func escKey(key string) string {
	i := strings.IndexByte(key, ' ')
	return key[:i+1] + (&url.URL{Path: key[i+1:]}).EscapedPath()
}

// compare tells how shown and expected counts differ. A path may be shown as
// it is or percent-escaped.
func (want counts) compare(total int, got counts) string {
	left := counts{}
	sum := 0
	for key, num := range got {
		left[key] = num
	}
	var bad []string
	for key, num := range want {
		sum += num
		shown := key
		v, ok := left[key]
		if !ok {
			shown = escKey(key)
			v, ok = left[shown]
		}
		if !ok || v != num {
			bad = append(bad, fmt.Sprintf("%q: %d shown, %d answered", key, v, num))
		}
		delete(left, shown)
	}
	for key, num := range left {
		bad = append(bad, fmt.Sprintf("%q: %d shown, 0 answered", key, num))
	}
	sort.Strings(bad)
	if total != sum {
		bad = append(bad, fmt.Sprintf("total %d, but %d were answered", total, sum))
	}
	return strings.Join(bad, "; ")
}

const viewer = "admin"

func metricsConf(c *k.Conf, w *k.World) {
	c.TLS = true
	c.Metrics, c.MetricsPath, c.MetricsOut = true, "/metrics", w.Path("metrics.json")
	c.MetricsUsers = map[string]string{viewer: "pw"}
}

func viewReq() k.Req {
	return k.Req{Target: "/metrics", Host: "view.test", Header: [][2]string{k.BasicAuth(viewer, "pw")}}
}

// view fetches the metrics page, compares it, and counts the view itself.
func (want counts) view(s *k.Srv) string {
	r := s.Do(viewReq())
	if r.Fatal() != "" || r.Status != 200 {
		return fmt.Sprintf("metrics page: status %d %s", r.Status, r.Fatal())
	}
	total, got, bad := parsePage(string(r.Body))
	if bad == "" {
		bad = want.compare(total, got)
	}
	want[ckey(200, "view.test", "/metrics")]++
	return bad
}

// earlier writes a metrics file of an earlier run, which counts are continued
// from, and gives the length of its entries on the page.
func (want counts) earlier(rt *rapid.T, c *k.Conf, c2 *vt.Case, most int) int {
	entries := min(most, rapid.SampledFrom([]int{1, 3, 20, 300, 2500}).Draw(rt, "earlier entries"))
	long := rapid.SampledFrom([]int{0, 10, 120, 3000}).Draw(rt, "earlier length")
	if entries*long > 1<<20 {
		long = 200
	}
	statuses := rapid.SliceOfNDistinct(rapid.SampledFrom([]int{200, 206, 304, 401, 404, 405, 416, 429, 502}), 1, 5, rapid.ID[int]).Draw(rt, "earlier statuses")
	top := rapid.SampledFrom([]int{1, 40, 1 << 31, 1 << 40}).Draw(rt, "earlier most")
	paths := map[string]map[string]int{}
	total, length := 0, 0
	for i := 0; i < entries; i++ {
		st, p := statuses[i%len(statuses)], fmt.Sprintf("%s/%d%s", []string{"h.test", "a.test", "earlier.test"}[i%3], i/2, strings.Repeat("e", long))
		if i == 0 {
			st, p = 200, "view.test/metrics"
		}
		num := 1 + i*7919%top
		if paths[strconv.Itoa(st)] == nil {
			paths[strconv.Itoa(st)] = map[string]int{}
		}
		paths[strconv.Itoa(st)][p] = num
		want[strconv.Itoa(st)+" "+p] = num
		total += num
		length += len(p) + 30
	}
	b, err := json.Marshal(map[string]interface{}{"TotalRequests": total, "Paths": paths})
	vt.Must(err)
	vt.Must(os.WriteFile(c.MetricsOut, b, 0o644))
	c2.Label("continued")
	c2.LabelIf(length > 1<<16, "large page")
	return length
}

func (want counts) add(r *k.Resp) { want[ckey(r.Status, r.HostNam, r.Path)]++ }

var oddTargets = []string{"/per%25cent", "/%ff", "/%fe%ff", "/a%ffb", "/%e2%82", "/%3Cb%3E", "/%22q%22", "/a%26b", "/new%0aline", "/%E2%80%A8", "/%EF%BF%BD", "/%F0%9F%98%80", "/a%27b", "/-%20Path:%20x", "/%3C/li%3E", "/%25ff", "/tab%09"}

// M01: metrics count every answered request exactly once.

func TestM01(t *testing.T) {
	vt.Example(t, "statuses", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Methods: map[string]string{"/": "GET"}}).Unlimited()}
		k.Tree(w.Path("www"), map[string]string{"index.html": "0123456789", "d/x": "x"})
		metricsConf(c, w)
		s := w.Start(c)
		want := counts{}
		for i := 0; i < 2; i++ {
			for _, q := range []k.Req{{Target: "/"}, {Target: "/", Header: [][2]string{{"Range", "bytes=0-1"}}}, {Target: "/", Header: [][2]string{{"Range", "bytes=99-"}}},
				{Target: "/", Header: [][2]string{{"If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT"}}}, {Target: "/d"}, {Target: "/%ff"}, {Target: "/%fe"}, {Target: "/none"}, {Method: "POST", Target: "/"}, {Target: "/metrics"}} {
				q.Host = "h.test:80"
				want.add(s.Do(q))
			}
		}
		if bad := want.view(s); bad != "" {
			t.Fatalf("%s", bad)
		}
		if bad := want.view(s); bad != "" {
			t.Fatalf("%s", bad)
		}
	})
	vt.LargeExample(t, "very many paths", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Methods: map[string]string{"/": "GET"}}).Unlimited()}
		k.Tree(w.Path("www"), map[string]string{"index.html": "x"})
		metricsConf(c, w)
		c.LogOut = w.Path("log")
		s := w.Start(c)
		want := counts{}
		for i := 0; i < 70000; i++ {
			q := k.Req{Host: "h.test", Target: fmt.Sprintf("/p/%d", i)}
			if i%7 == 0 {
				q.Method = "POST"
			}
			want.add(s.Do(q))
		}
		for i := 0; i < 70000; i++ {
			want.add(s.Do(k.Req{Host: "h.test", Target: "/same"}))
		}
		for i := 0; i < 70000; i += 9 {
			want.add(s.Do(k.Req{Host: "h.test", Target: fmt.Sprintf("/p/%d", i)}))
		}
		if bad := want.view(s); bad != "" {
			t.Fatalf("%s", cut(bad))
		}
	})
	vt.Check(t, 200, 6000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		if chance(rt, "nolimit", 2) {
			ew.unlimited()
		}
		metricsConf(ew.conf, w)
		want := counts{}
		var log []string
		if chance(rt, "earlier", 8) {
			want.earlier(rt, ew.conf, c, 300)
			log = append(log, "(after an earlier run)")
		}
		s := w.Start(ew.conf)
		s.Up.Respond = fickle
		text := ew.String()
		var last *k.Req
		gen := func() (k.Req, bool) {
			q := ew.genReq(rt)
			switch n(rt, "mkind", 0, 8) {
			case 0:
				q.Target = rapid.SampledFrom(oddTargets).Draw(rt, "odd")
			case 1:
				q.Header = append(q.Header, [2]string{"X-Up", pick(rt, "up", "fail", "moved")})
			case 2:
				q = viewReq()
			case 3:
				if last != nil {
					q = *last
				}
				q = near(rt, q)
			}
			last = &q
			_, err := q.Parse()
			return q, err == nil
		}
		statuses := map[int]bool{}
		for round := n(rt, "rounds", 1, 4); round > 0; round-- {
			var qs []k.Req
			for i := n(rt, "requests", 1, 25); i > 0; i-- {
				if q, ok := gen(); ok {
					qs = append(qs, q)
					log = append(log, q.String())
				}
			}
			if vt.Rare(rt, "many", 12) { // many different paths
				q := ew.genReq(rt)
				total := n(rt, "paths", 50, 1500)
				for i := 0; i < total; i++ {
					q.Target = fmt.Sprintf("/many/%d", i)
					qs = append(qs, q)
				}
				log = append(log, fmt.Sprintf("%d paths like %s", total, q))
				c.Label("many paths")
			}
			workers := rapid.SampledFrom([]int{1, 1, 4, 8}).Draw(rt, "workers")
			log = append(log, fmt.Sprintf("(by %d)", workers))
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			bad := ""
			var mu sync.Mutex
			var wg sync.WaitGroup
			for g := 0; g < workers; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := g; i < len(qs); i += workers {
						r := s.Do(qs[i])
						mu.Lock()
						if f := r.Fatal(); f != "" {
							bad = fmt.Sprintf("%s: %s", qs[i], f)
						}
						want.add(r)
						statuses[r.Status] = true
						mu.Unlock()
					}
				}(g)
			}
			wg.Wait()
			if bad == "" {
				bad = want.view(s)
			}
			if bad != "" {
				rt.Fatalf("%s\nconfig %s\nhistory\n%s", bad, text, strings.Join(log, "\n"))
			}
			c.LabelIf(workers > 1, "concurrent round")
		}
		for st := range statuses {
			c.Labelf("answer %d", st)
		}
		c.NonTrivial(len(statuses) > 1)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

// M03: the metrics page is only for authenticated users and is inert.

var reTag = regexp.MustCompile(`<[^<>]*>`)

var markup = []string{"<script>alert(1)</script>", "<img src=x onerror=alert(1)>", "</li><li>Amount: 9 - Path: x", "\"><b>", "'onclick='", "&lt;i&gt;", "&#60;b&#62;", "<!--", "</ul></div>", "<b", "a>b", "<<x>>", "<\x00b>", "</html>", "&amp;", "{{.}}", "<?x?>", "\u2028<b>", "<B>", "\xff<u>"}

func TestM03(t *testing.T) {
	vt.Check(t, 1200, 15000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		metricsConf(ew.conf, w)
		users := map[string]string{}
		for i := n(rt, "users", 0, 3); i > 0; i-- {
			users[pick(rt, "user", "admin", "bob", "", "ü", "Admin")] = pick(rt, "pass", "pw", "PW", "", "p:w", "pass word")
		}
		ew.conf.MetricsUsers = users
		ew.conf.MetricsPath = pick(rt, "mpath", "/metrics", "/admin/metrics", "/secret.html", "/metrics/", "/admin/metrics/")
		text := ew.String()
		vt.Note(text)
		s := w.Start(ew.conf)
		s.Up.Respond = fickle
		var log, paths []string
		seen := map[string]bool{}
		var names []string
		for u := range users {
			names = append(names, u)
		}
		sort.Strings(names)
		pages := 0
		for i := n(rt, "requests", 3, 30); i > 0; i-- {
			var q k.Req
			switch n(rt, "kind", 0, 2) {
			case 0: // hostile request
				q = ew.genReq(rt)
				p := "/" + rapid.SampledFrom(markup).Draw(rt, "hostile")
				if chance(rt, "deeper", 3) {
					p += "/" + rapid.SampledFrom(markup).Draw(rt, "hostile2")
				}
				q.Target = encode(rt, p, chance(rt, "plain", 2))
				if chance(rt, "odd host", 4) {
					q.Host = pick(rt, "hhost", "a&lt;b&gt;.test", "a'b", "x;y", "&amp;", "a&#60;b")
				}
			default:
				q = k.Req{Host: rapid.SampledFrom([]string{"h.test", "a.test", "b.test", "p.test", "h.test:8443"}).Draw(rt, "host"), Remote: pick(rt, "remote", "192.0.2.9:9", "127.0.0.1:9", "[::1]:9", "10.1.2.3:9")}
				q.Target = spell(rt, ew.conf.MetricsPath, !chance(rt, "spelled", 3))
				if chance(rt, "near", 4) {
					q.Target += pick(rt, "suffix", "/", "/x", "x", "/../metrics", "%20", "/.")
				}
				q.Method = pick(rt, "method", "GET", "GET", "GET", "GET", "HEAD", "POST", "OPTIONS", "get")
				if len(names) > 0 && !chance(rt, "badcreds", 2) {
					u := rapid.SampledFrom(names).Draw(rt, "who")
					q.Header = [][2]string{k.BasicAuth(u, users[u])}
				} else {
					switch n(rt, "cred", 0, 6) {
					case 0:
					case 1:
						q.Header = [][2]string{{"Authorization", pick(rt, "raw", "Basic", "Basic ", "Bearer pw", "Basic !!!", "Basic YWRtaW4=", "basic", "Digest x", "Basic Og==", "Basic")}}
					default:
						q.Header = [][2]string{k.BasicAuth(pick(rt, "u", "admin", "bob", "", "ü", "Admin", "nobody"), pick(rt, "p", "pw", "PW", "", "p:w", "pass word", "pw "))}
					}
				}
				if chance(rt, "ct", 8) {
					q.Header = append(q.Header, [2]string{"Content-Type", "text/html"})
				}
			}
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			log = append(log, q.String())
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			r := s.Do(q)
			d := ew.conf.Route(r.HostNam, r.Path, pr.Method, pr.Header.Get("Content-Type"))
			ok := d.Status == 200 && d.Kind == "metrics" && ew.conf.Authorized(pr.Header.Get("Authorization"))
			body := string(r.Body)
			bad := r.Fatal()
			// Whether a path configured with a final slash answers with or
			// without it is left open, but not who gets the page.
			open := strings.HasSuffix(ew.conf.MetricsPath, "/") && r.Path == ew.conf.MetricsPath
			switch {
			case bad != "":
			case open:
				if reTotal.MatchString(body) && (pr.Method != "GET" || !ew.conf.Authorized(pr.Header.Get("Authorization"))) {
					bad = fmt.Sprintf("metrics were disclosed with status %d", r.Status)
				}
				c.Label("final slash")
			case !ok:
				if reTotal.MatchString(body) || d.Kind != "proxy" && strings.Contains(body, "Amount:") {
					bad = fmt.Sprintf("metrics were disclosed with status %d", r.Status)
				} else if d.Kind == "metrics" && d.Status == 200 && r.Status != 401 {
					bad = fmt.Sprintf("status %d, want 401", r.Status)
				} else if d.Status != 200 && r.Status != d.Status {
					bad = fmt.Sprintf("status %d, want %d", r.Status, d.Status)
				}
				c.Labelf("refused %d", r.Status)
			case r.Status != 200:
				bad = fmt.Sprintf("status %d with valid credentials, want the page", r.Status)
			default:
				pages++
				c.Label("page")
				bad = inert(s, body, seen, paths)
			}
			if bad != "" {
				rt.Fatalf("%s\n%s\nconfig %s\nhistory\n%s", bad, q, text, strings.Join(log, "\n"))
			}
			if key := ckey(r.Status, r.HostNam, r.Path); !seen[key] {
				seen[key] = true
				paths = append(paths, r.HostNam+r.Path)
			}
		}
		c.NonTrivial(pages > 0)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

var benignTags map[string]bool

// inert tells whether the page has markup of its own only and shows the paths
// as text.
func inert(s *k.Srv, body string, seen map[string]bool, paths []string) string {
	if benignTags == nil {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Methods: map[string]string{"/": "GET"}}).Unlimited()}
		metricsConf(c, w)
		b := w.Start(c)
		b.Do(k.Req{Target: "/x", Host: "h"})
		benignTags = map[string]bool{}
		for _, tag := range reTag.FindAllString(string(b.Do(viewReq()).Body), -1) {
			benignTags[tag] = true
		}
	}
	rest := body
	tags := map[string]int{}
	for _, tag := range reTag.FindAllString(body, -1) {
		tags[tag]++
		if !benignTags[tag] {
			return fmt.Sprintf("the page has the markup %q, which no harmless request causes", tag)
		}
	}
	rest = reTag.ReplaceAllString(rest, "")
	if i := strings.IndexByte(rest, '<'); i >= 0 {
		return fmt.Sprintf("the page has an unescaped <: %q", cut(rest[i:]))
	}
	if tags["<li>"] != len(seen) {
		return fmt.Sprintf("the page has %d list items for %d different requests", tags["<li>"], len(seen))
	}
	shown := html.UnescapeString(rest)
	for _, p := range paths {
		if !strings.Contains(shown, p) && !strings.Contains(shown, (&url.URL{Path: p}).EscapedPath()) && !strings.Contains(p, "\x00") {
			return fmt.Sprintf("%q is not shown as text", p)
		}
	}
	return ""
}

// M04: a failing or slow metrics viewer never blocks the server.

// within runs f, which has to end while this process observes 20 seconds.
func within(what string, f func()) string {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	for i := 0; i < 200; i++ {
		select {
		case <-done:
			return ""
		case <-time.After(100 * time.Millisecond):
		}
	}
	return what + " was not answered within 20 s"
}

func TestM04(t *testing.T) {
	vt.Check(t, 800, 10000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		ew.unlimited()
		metricsConf(ew.conf, w)
		text := ew.String()
		vt.Note(text)
		want := counts{}
		var log []string
		page := 1500
		if chance(rt, "earlier", 3) {
			page += want.earlier(rt, ew.conf, c, 2500)
			log = append(log, fmt.Sprintf("(after an earlier run, entries of %d bytes)", page))
		}
		position := func(label string) int {
			return rapid.OneOf(rapid.IntRange(0, 1500), rapid.IntRange(0, page)).Draw(rt, label)
		}
		s := w.Start(ew.conf)
		free := []chan struct{}{}
		var slow sync.WaitGroup
		var mu sync.Mutex
		slowBad := ""
		defer func() {
			for _, f := range free {
				close(f)
			}
		}()
		stall := func(at int) string {
			pr, _ := viewReq().Parse()
			rec := k.NewRec()
			gate := make(chan struct{})
			reached := make(chan struct{})
			var once sync.Once
			var passed bool
			rec.Block = func(written int) {
				if written >= at && !passed {
					once.Do(func() { close(reached) })
					<-gate
					passed = true
				}
			}
			free = append(free, gate)
			slow.Add(1)
			ended := make(chan struct{})
			go func() {
				defer slow.Done()
				defer close(ended)
				if r := s.Serve(rec, pr); r.Panic != nil {
					mu.Lock()
					slowBad = r.Fatal()
					mu.Unlock()
				}
			}()
			// wait until it stalls (or the page was shorter)
			return within("the stalling view", func() {
				select {
				case <-reached:
				case <-ended:
				}
			})
		}
		for i := n(rt, "steps", 2, 14); i > 0; i-- {
			bad := ""
			switch n(rt, "step", 0, 4) {
			case 0: // the receiver goes away after some bytes
				at := position("at")
				what := "broken pipe"
				log = append(log, fmt.Sprintf("viewer gone after %d bytes", at))
				c.Label("failing viewer")
				pr, _ := viewReq().Parse()
				rec := k.NewRec()
				rec.FailAt = at
				var r *k.Resp
				if bad = within("the failing view ("+what+")", func() { r = s.Serve(rec, pr) }); bad == "" {
					want[ckey(200, "view.test", "/metrics")]++
					if r.Panic != nil {
						bad = r.Fatal()
					}
				}
			case 1: // receivers read nothing more from some byte on
				crowd := 1
				if vt.Rare(rt, "crowd", 8) {
					crowd = n(rt, "viewers", 2, 300)
					c.Label("crowd of viewers")
				}
				at := position("at")
				log = append(log, fmt.Sprintf("%d viewers stall after %d bytes", crowd, at))
				c.Label("stalling viewer")
				for ; crowd > 0 && bad == ""; crowd-- {
					bad = stall(at)
				}
			default:
				q := ew.genReq(rt)
				if chance(rt, "view", 3) {
					q = viewReq()
				}
				if _, err := q.Parse(); err != nil {
					continue
				}
				log = append(log, q.String())
				var r *k.Resp
				if bad = within(q.String(), func() { r = s.Do(q) }); bad == "" {
					if bad = r.Fatal(); bad == "" {
						want.add(r)
					}
				}
			}
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			if bad != "" {
				rt.Fatalf("%s\nconfig %s\nhistory\n%s", bad, text, strings.Join(log, "\n"))
			}
		}
		stalled := len(free)
		for _, f := range free {
			close(f)
		}
		free = nil
		bad := within("a stalled view that goes on", slow.Wait)
		if bad == "" && slowBad != "" {
			bad = slowBad
		}
		if stalled > 0 {
			want[ckey(200, "view.test", "/metrics")] += stalled
		}
		if bad == "" {
			if d := within("the last view", func() { bad = want.view(s) }); d != "" {
				bad = d
			}
		}
		if bad != "" {
			rt.Fatalf("%s\nconfig %s\nhistory\n%s", bad, text, strings.Join(log, "\n"))
		}
		c.NonTrivial(stalled > 0)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

// TestM04Wire has viewers that do not read from a real connection.
func TestM04Wire(t *testing.T) {
	vt.Check(t, 2, 30, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		conf := &k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Methods: map[string]string{"/": "GET"}}).Unlimited()}
		k.Tree(w.Path("www"), map[string]string{"index.html": "hello"})
		metricsConf(conf, w)
		s := w.Start(conf)
		want := counts{}
		size := n(rt, "entries", 3000, 9000)
		statuses := rapid.Bool().Draw(rt, "two statuses")
		for i := 0; i < size; i++ {
			q := k.Req{Host: "h.test", Target: fmt.Sprintf("/%d%s", i, strings.Repeat("x", 1500))}
			if statuses && i%2 == 0 {
				q.Method = "POST"
			}
			want.add(s.Do(q))
			if i%1000 == 0 {
				vt.Progress()
			}
		}
		do, stop, l := overWireL(s)
		defer stop()
		viewers := n(rt, "viewers", 1, 3)
		desc := fmt.Sprintf("%d entries, %d viewers that do not read", size, viewers)
		vt.Note(desc)
		for i := 0; i < viewers; i++ {
			conn := dial(l)
			defer conn.Close()
			io.WriteString(conn, viewReq().Raw())
			one := make([]byte, 1)
			if _, err := conn.Read(one); err != nil && !errors.Is(err, io.EOF) {
				rt.Fatalf("%s: %v", desc, err)
			}
		}
		for i := n(rt, "requests", 1, 5); i > 0; i-- {
			q := k.Req{Host: "h.test", Target: "/"}
			var r *k.Resp
			if bad := within("a request beside "+desc, func() { r = do(q) }); bad != "" {
				rt.Fatalf("%s", bad)
			}
			if r.Status != 200 || string(r.Body) != "hello" {
				rt.Fatalf("%s: status %d", desc, r.Status)
			}
			want.add(r)
		}
		var r *k.Resp
		if bad := within("another view beside "+desc, func() { r = do(viewReq()) }); bad != "" {
			rt.Fatalf("%s", bad)
		}
		_, got, bad := parsePage(string(r.Body))
		if bad == "" {
			for _, key := range []string{"view.test/metrics"} {
				delete(got, "200 "+key) // the viewers may be counted or not yet
			}
			sum := 0
			for _, v := range want {
				sum += v
			}
			bad = want.compare(sum, got)
		}
		if bad != "" {
			rt.Fatalf("%s: %s", desc, cut(bad))
		}
		c.NonTrivial(true)
		c.Desc(desc)
	})
}

var _ = http.StatusOK
