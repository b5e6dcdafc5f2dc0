package serverp

import (
	"fmt"
	"html"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// D01: the download index lists exactly the downloadable files and its links work.

var (
	linkRE = regexp.MustCompile(`(?s)<a\s[^>]*?href="([^"]*)"[^>]*>(.*?)</a>(.*?)(</tr>|<a\s|$)`)
	sizeRE = regexp.MustCompile(`>\s*(\d+)\s*<`)
	tagRE  = regexp.MustCompile(`(?s)<[^>]*>`)
	openA  = regexp.MustCompile(`<a\s`)
)

type link struct{ href, text, size string }

func parseListing(body string) ([]link, string) {
	var ls []link
	i := strings.Index(body, "<table border")
	if i < 0 {
		i = strings.Index(body, "<body")
	}
	if i < 0 {
		i = 0
	}
	body = body[i:]
	for _, m := range linkRE.FindAllStringSubmatch(body, -1) {
		l := link{href: html.UnescapeString(m[1]), text: html.UnescapeString(tagRE.ReplaceAllString(m[2], ""))}
		if s := sizeRE.FindStringSubmatch(m[3]); s != nil {
			l.size = s[1]
		}
		ls = append(ls, l)
	}
	if c := len(openA.FindAllString(body, -1)); c != len(ls) {
		return nil, fmt.Sprintf("%d links begin but %d can be read", c, len(ls))
	}
	return ls, ""
}

func extOf(p string) string {
	base := p[strings.LastIndexByte(p, '/')+1:]
	if i := strings.LastIndexByte(base, '.'); i >= 0 {
		return base[i:]
	}
	return ""
}

// checkListing compares the listing with the tree and follows every link.
func checkListing(f *fs, h *k.Host, host string, do func(k.Req) *k.Resp, target string) (string, int) {
	r := do(k.Req{Method: "GET", Target: target, Host: host})
	if s := r.Fatal(); s != "" {
		return "listing: " + s, 0
	}
	if r.Status != 200 {
		return fmt.Sprintf("listing %s answered %d", target, r.Status), 0
	}
	if s := contentLength(r, k.Req{}); s != "" {
		return s, 0
	}
	if ct := r.Header.Get("Content-Type"); !strings.HasPrefix(ct, "text/html") {
		return fmt.Sprintf("listing has Content-Type %q", ct), 0
	}
	ls, bad := parseListing(string(r.Body))
	if bad != "" {
		return bad + "\n" + cutTail(r.Body), 0
	}
	// An extension is what follows the last dot of a name. Whether one that is
	// configured without its dot, or with a dot inside, means any file is not
	// judged, but it means no file without such an ending after a dot.
	want, may := map[string]bool{}, map[string]bool{}
	for p := range f.files {
		for _, e := range h.Exts {
			base := p[strings.LastIndexByte(p, '/')+1:]
			switch {
			case extOf(p) == e:
				want[p] = true
			case !strings.HasPrefix(e, ".") && strings.HasSuffix(base, "."+e), strings.Count(e, ".") > 1 && strings.HasSuffix(base, e):
				may[p] = true
			}
		}
	}
	base, err := url.Parse("http://x" + target)
	vt.Must(err)
	seen := map[string]bool{}
	// Every request may cost a walk of the whole tree: of a long listing only
	// some links are followed, spread over all of it.
	follow := 1 + len(ls)/100
	for i, l := range ls {
		u, err := base.Parse(l.href)
		if err != nil || u.Host != "x" {
			return fmt.Sprintf("link %q cannot be followed: %v %v", l.href, u, err), 0
		}
		p := k.Canon(u.Path)
		if !want[p] && !may[p] {
			return fmt.Sprintf("link %q (text %q) leads to %q, which is no downloadable file", l.href, l.text, p), 0
		}
		if seen[p] {
			return fmt.Sprintf("%q is listed twice", p), 0
		}
		seen[p] = true
		if shown := strings.TrimPrefix(strings.TrimSpace(l.text), "/"); shown != p[strings.LastIndexByte(p, '/')+1:] && shown != p[1:] {
			return fmt.Sprintf("file %q is shown as %q", p, l.text), 0
		}
		if l.size != fmt.Sprint(len(f.files[p])) {
			return fmt.Sprintf("file %q of %d bytes is listed with size %q", p, len(f.files[p]), l.size), 0
		}
		if i%follow != 0 && i < len(ls)-3 {
			continue
		}
		q := k.Req{Method: "GET", Target: u.RequestURI(), Host: host}
		vt.Progress()
		d := do(q)
		if d == nil {
			return fmt.Sprintf("link %q cannot be requested", l.href), 0
		}
		if bad := checkDownload(f, h, p, q, d); bad != "" {
			return fmt.Sprintf("following %q: %s", l.href, bad), 0
		}
	}
	for p := range want {
		if !seen[p] {
			return fmt.Sprintf("%q is not listed", p), 0
		}
	}
	return "", len(ls)
}

func cutTail(b []byte) string {
	if len(b) > 1500 {
		b = b[len(b)-1500:]
	}
	return string(b)
}

func checkDownload(f *fs, h *k.Host, p string, q k.Req, r *k.Resp) string {
	if s := r.Fatal(); s != "" {
		return s
	}
	if r.Status != 200 {
		return fmt.Sprintf("status %d (Location %q), want 200", r.Status, r.Loc())
	}
	if s := contentLength(r, q); s != "" {
		return s
	}
	if d := diff(r.Body, f.files[p]); d != "" {
		return d
	}
	cd := r.Header.Values("Content-Disposition")
	if len(cd) != 1 {
		return fmt.Sprintf("Content-Disposition %q", cd)
	}
	kind := strings.ToLower(strings.TrimSpace(strings.SplitN(cd[0], ";", 2)[0]))
	if kind == "" || kind == "inline" {
		return fmt.Sprintf("Content-Disposition %q does not ask for a download", cd[0])
	}
	if strings.ToLower(p) == p {
		if ct := r.Header.Values("Content-Type"); len(ct) != 1 || ct[0] != h.WantType(p) {
			return fmt.Sprintf("Content-Type %q, want %q", ct, h.WantType(p))
		}
	}
	return ""
}

func TestD01(t *testing.T) {
	vt.Example(t, "listing", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		f := newFS()
		for _, p := range append([]string{"/d/a.txt", "/e/a.txt", "/d/index.html"}, oddPaths()...) {
			f.add(p, "content of "+p)
		}
		f.mkdir("/d.txt")
		k.Tree(w.Path("www"), f.tree())
		for _, index := range []string{"index.html", "/list", "list"} {
			c := &k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: index, Download: true, Exts: []string{".txt", ".json", ".html"}}).Unlimited()}
			s := w.Start(c)
			for _, target := range []string{"/", "/" + strings.TrimPrefix(index, "/")} {
				if bad, _ := checkListing(f, &c.Main, "h", s.Do, target); bad != "" {
					t.Fatalf("GET %s: %s", target, bad)
				}
			}
			for _, target := range []string{"/nothing.txt", "/d", "/d/", "/a.txt/x", "/d.txt"} {
				if r := s.Get("h", target); r.Status != 404 && !(r.Status > 300 && target == "/d" || r.Status > 300 && target == "/d.txt") || r.Fatal() != "" {
					t.Fatalf("GET %s answered %d, want 404 %s", target, r.Status, r.Fatal())
				}
			}
		}
	})
	vt.LargeExample(t, "very many files", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		k.Tree(w.Path("www/sub"), map[string]string{"x.txt": "x"})
		const total = 20000
		for i := 1; i < total; i++ {
			vt.Must(os.WriteFile(fmt.Sprintf("%s/%d.txt", w.Path("www")+[]string{"", "/sub"}[i%2], i), nil, 0o644))
		}
		s := w.Start(&k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Download: true, Exts: []string{".txt"}}).Unlimited()})
		ls, bad := parseListing(string(s.Get("h", "/").Body))
		links := map[string]bool{}
		for _, l := range ls {
			links[l.href] = true
		}
		if bad != "" || len(ls) != total || len(links) != total {
			t.Fatalf("%d links (%d different), want %d: %s", len(ls), len(links), total, bad)
		}
	})
	vt.LargeExample(t, "huge files", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		k.Tree(w.Path("www"), map[string]string{"two.txt": "", "five.txt": ""})
		sizes := map[string]int64{"two.txt": 2 << 30, "five.txt": 5<<30 + 7}
		for name, size := range sizes { // they take no space
			if err := os.Truncate(w.Path("www")+"/"+name, size); err != nil {
				return
			}
		}
		c := &k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Download: true, Exts: []string{".txt"}}).Unlimited()}
		s := w.Start(c)
		ls, bad := parseListing(string(s.Get("h", "/").Body))
		if bad != "" || len(ls) != len(sizes) {
			t.Fatalf("%d links, want %d: %s", len(ls), len(sizes), bad)
		}
		for _, l := range ls {
			if want := fmt.Sprint(sizes[l.text]); l.size != want {
				t.Fatalf("%q of %s bytes is listed with size %q", l.text, want, l.size)
			}
			q := k.Req{Host: "h", Target: l.href, Header: [][2]string{{"Range", fmt.Sprintf("bytes=%d-", sizes[l.text]-3)}}}
			if r := s.Do(q); r.Status != 206 || string(r.Body) != "\x00\x00\x00" {
				t.Fatalf("%s answered %d with %q", q, r.Status, cut(string(r.Body)))
			}
		}
	})
	vt.Example(t, "missing root", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{Main: *(&k.Host{Dir: w.Path("none"), Index: "index.html", Download: true, Exts: []string{".txt"}}).Unlimited()}
		s := w.Start(c)
		for _, target := range []string{"/", "/a.txt"} {
			if r := s.Get("h", target); r.Status < 400 || r.Fatal() != "" {
				t.Fatalf("GET %s in a missing root answered %d %s", target, r.Status, r.Fatal())
			}
		}
	})
	vt.Check(t, 120, 2500, func(rt *rapid.T, c *vt.Case) {
		serial = 0
		w := k.NewWorld()
		defer w.Close()
		f := genFS(rt, "", 12)
		index := pick(rt, "index", "index.html", "list", "/index.html", "files.htm")
		// a file bearing the name of the index page could not be reached
		delete(f.files, "/"+strings.TrimPrefix(index, "/"))
		h := k.Host{Dir: w.Path("www") + pick(rt, "slash", "", "/"), Index: index, Download: true}
		h.Exts = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{".txt", ".html", ".zip", ".json", ".gz", ".css", ".pdf", ".d", ".js"}), 1, 5, rapid.ID[string]).Draw(rt, "exts")
		if chance(rt, "oddexts", 4) {
			e := pick(rt, "oddext", "txt", "html", "json", ".tar.gz", "tar.gz", "x", "d")
			h.Exts = append(h.Exts, e)
			for _, name := range []string{"a" + e, "a." + strings.TrimPrefix(e, "."), e + ".no", "dir/b" + e, "c" + strings.TrimPrefix(e, ".")} {
				if chance(rt, "oddfile", 2) && k.Canon("/"+name) != "/"+strings.TrimPrefix(index, "/") {
					f.add("/"+name, "content of "+name)
				}
			}
			c.Label("extension of another form")
		}
		if vt.Rare(rt, "many exts", 25) {
			for i := vt.Many(rt, "further exts", 300); i > 0; i-- {
				h.Exts = append(h.Exts, fmt.Sprintf(".e%d", i))
				if i < 3 || chance(rt, "file of ext", 10) {
					f.add(fmt.Sprintf("/many.e%d", i), fmt.Sprint("content of ", i))
				}
			}
			c.Label("many extensions")
		}
		h.RespTypes = genRespTypes(rt, f)
		h.Unlimited()
		conf := &k.Conf{Main: h}
		if chance(rt, "vhost", 3) {
			conf = &k.Conf{VHosts: map[string]*k.Host{"a.test": &h}}
		}
		text := conf.Text()
		vt.Note(text + " tree " + f.String())
		k.Tree(w.Path("www"), f.tree())
		s := w.Start(conf)
		do := s.Do
		if chance(rt, "wire", 6) {
			c.Label("over loopback")
			var stop func()
			do, stop = overWire(s)
			defer stop()
		}
		var log []string
		links := 0
		fail := func(bad string) {
			if bad != "" {
				rt.Fatalf("%s\nconfig %s\ntree %s\nhistory %s", bad, text, f, strings.Join(log, "\n"))
			}
		}
		for i := n(rt, "steps", 2, 10); i > 0; i-- {
			vt.Note(text + "\ntree " + f.String() + "\n" + strings.Join(log, "\n"))
			switch n(rt, "step", 0, 7) {
			case 0, 1, 2:
				target := pick(rt, "page", "/", "/"+strings.TrimPrefix(index, "/"))
				log = append(log, "list "+target)
				bad, l := checkListing(f, &h, "a.test", do, target)
				fail(bad)
				links += l
			case 3, 4:
				if len(f.files) > 0 {
					log = append(log, mutate(rt, f, w.Path("www"), ""))
					p := "/" + strings.TrimPrefix(index, "/")
					if _, ok := f.files[p]; ok || f.dirs[p] {
						return
					}
				}
			case 5:
				p := genPath(rt)
				if len(f.files) > 0 && chance(rt, "beside", 2) {
					p = rapid.SampledFrom(f.paths()).Draw(rt, "file") + pick(rt, "suffix", "x", "/x", "/", "\x00")
				}
				if k.Canon(p) == "/"+strings.TrimPrefix(index, "/") {
					continue
				}
				q := k.Req{Method: "GET", Target: spell(rt, p, false), Host: "a.test"}
				log = append(log, q.String())
				r := do(q)
				if r == nil {
					continue
				}
				if _, ok := f.files[r.Path]; ok {
					fail(checkDownload(f, &h, r.Path, q, r))
				} else {
					fail(r.Fatal())
					if r.Status != 404 && !(f.dirs[r.Path] && r.Status > 300 && r.Status < 309) {
						fail(fmt.Sprintf("%s answered %d, want 404", q, r.Status))
					}
				}
			case 6:
				log = append(log, "list while the tree changes")
				if bad := churn(w.Path("www"), do); bad != "" {
					fail(bad)
				}
				c.Label("changing tree")
			default:
				log = append(log, "root is gone")
				vt.Must(os.Rename(w.Path("www"), w.Path("gone")))
				for _, target := range []string{"/", "/a.txt"} {
					r := do(k.Req{Method: "GET", Target: target, Host: "a.test"})
					fail(r.Fatal())
					if r.Status < 400 {
						fail(fmt.Sprintf("GET %s without root answered %d", target, r.Status))
					}
				}
				vt.Must(os.Rename(w.Path("gone"), w.Path("www")))
				c.Label("missing root")
			}
		}
		c.NonTrivial(links > 0)
		c.LabelIf(links > 0, "links followed")
		c.Desc(text + " tree " + f.String() + " " + strings.Join(log, " | "))
	})
}

func oddPaths() []string {
	var ps []string
	for _, o := range oddNames {
		ps = append(ps, "/"+o+".txt")
	}
	sort.Strings(ps)
	return ps
}

// churn lists while files and directories come and go.
func churn(root string, do func(k.Req) *k.Resp) string {
	stop := make(chan bool)
	var wg sync.WaitGroup
	d := root + "/churn-dir"
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				p := fmt.Sprintf("%s%d", d, g)
				os.MkdirAll(p+"/sub", 0o755)
				for j := 0; j < 8; j++ {
					os.WriteFile(fmt.Sprintf("%s/sub/%d.txt", p, j), []byte("x"), 0o644)
				}
				os.RemoveAll(p)
			}
		}(g)
	}
	bad := ""
	for i := 0; i < 25 && bad == ""; i++ {
		r := do(k.Req{Method: "GET", Target: "/", Host: "a.test"})
		if bad = r.Fatal(); bad == "" && r.Status != 200 && r.Status < 400 {
			bad = fmt.Sprintf("listing of a changing tree answered %d", r.Status)
		}
	}
	close(stop)
	wg.Wait()
	return bad
}
