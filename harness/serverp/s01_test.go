package serverp

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// S01: files are served byte for byte with the right type.

// expectation for a canonical path in a tree
type expect struct {
	status int // 200, 301 for a redirect, 404
	file   string
}

func resolve(f *fs, index, p string) expect {
	target := p
	if strings.HasSuffix(p, "/") {
		target = p + index
	}
	if strings.IndexByte(target, 0) >= 0 {
		return expect{404, ""}
	}
	if _, ok := f.files[target]; ok {
		return expect{200, target}
	}
	if f.dirs[target] && !strings.HasSuffix(p, "/") {
		return expect{301, ""}
	}
	return expect{404, ""}
}

func checkServed(f *fs, h *k.Host, q k.Req, r *k.Resp) string {
	e := resolve(f, h.Index, r.Path)
	if s := r.Fatal(); s != "" {
		return s
	}
	if s := contentLength(r, q); s != "" {
		return s
	}
	switch e.status {
	case 404:
		if r.Status != 404 {
			return fmt.Sprintf("status %d (Location %q), want 404: nothing is there", r.Status, r.Loc())
		}
	case 301:
		if r.Status < 301 || r.Status > 308 || r.Status == 304 {
			return fmt.Sprintf("status %d, want a redirect: the path names a directory", r.Status)
		}
		base, _ := url.Parse("http://h" + (&url.URL{Path: r.Path}).EscapedPath())
		if u, err := base.Parse(r.Loc()); err != nil || u.Host != "h" || u.Path != r.Path+"/" {
			return fmt.Sprintf("redirected to %q, that is %v, want %q", r.Loc(), u, r.Path+"/")
		}
	default:
		want := f.files[e.file]
		rng := ""
		for _, x := range q.Header {
			if x[0] == "Range" {
				rng = x[1]
			}
		}
		if rng != "" && r.Status == 206 {
			var a, b int
			if c, _ := fmt.Sscanf(rng, "bytes=%d-%d", &a, &b); c == 2 && a < len(want) && b >= a {
				if b >= len(want) {
					b = len(want) - 1
				}
				if d := diff(r.Body, want[a:b+1]); d != "" {
					return "range " + rng + ": " + d
				}
				if cr := r.Header.Get("Content-Range"); cr != fmt.Sprintf("bytes %d-%d/%d", a, b, len(want)) {
					return fmt.Sprintf("Content-Range %q for %s of %d bytes", cr, rng, len(want))
				}
			} else {
				return "206 for range " + rng
			}
			return ""
		}
		if rng != "" && r.Status == 416 {
			return ""
		}
		if r.Status != 200 {
			return fmt.Sprintf("status %d (Location %q), want 200 with file %q", r.Status, r.Loc(), e.file)
		}
		if d := diff(r.Body, want); d != "" {
			return fmt.Sprintf("file %q: %s", e.file, d)
		}
		if ce := r.Header.Values("Content-Encoding"); len(ce) > 0 && ce[0] != "identity" {
			return fmt.Sprintf("file %q is sent with Content-Encoding %q", e.file, ce)
		}
		if ext := e.file[strings.LastIndexByte(e.file, '/'):]; strings.ToLower(ext) == ext {
			if ct := r.Header.Values("Content-Type"); len(ct) != 1 || ct[0] != h.WantType(e.file) {
				return fmt.Sprintf("file %q has Content-Type %q, want %q", e.file, ct, h.WantType(e.file))
			}
		}
	}
	return ""
}

func genTarget(rt *rapid.T, f *fs, index string) string {
	var p string
	switch n(rt, "what", 0, 11) {
	case 0, 1, 2, 3, 4:
		p = rapid.SampledFrom(f.paths()).Draw(rt, "file")
	case 5, 6:
		p = rapid.SampledFrom(f.dirList()).Draw(rt, "dir") + "/"
	case 7:
		p = rapid.SampledFrom(f.dirList()).Draw(rt, "dir")
	case 8:
		p = genPath(rt)
	case 9:
		p = rapid.SampledFrom(f.paths()).Draw(rt, "file") + pick(rt, "suffix", "/", "/x", "x", ".html", " ", "/"+index, "\x00", "~", "?")
	case 10:
		p = rapid.SampledFrom(f.dirList()).Draw(rt, "dir") + "/" + genName(rt)
	default:
		q := rapid.SampledFrom(f.paths()).Draw(rt, "file")
		p = q[:len(q)-1]
	}
	if p == "" {
		p = "/"
	}
	if vt.Rare(rt, "bigtarget", 40) {
		p = strings.TrimSuffix(p, "/") + vt.BigPath(rt, "big", 4000, 6000)
	}
	return spell(rt, p, chance(rt, "plain", 2))
}

func genRespTypes(rt *rapid.T, f *fs) map[string]string {
	m := map[string]string{}
	for i := n(rt, "resptypes", 0, 4); i > 0; i-- {
		m[rapid.SampledFrom(append(f.paths(), "/nowhere", "/docs/", "c")).Draw(rt, "rtpath")] = pick(rt, "rtype", "application/x-own", "text/markdown", "image/webp", "text/html; charset=utf-8")
	}
	for p := range m {
		if !validConfKey(p) {
			delete(m, p)
		}
	}
	return m
}

// validConfKey: keys the configuration language can express
func validConfKey(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] < 0x20 || p[i] >= 0x7f || strings.IndexByte("\"\\${}", p[i]) >= 0 {
			return false
		}
	}
	return true
}

// preferences are headers by which clients tell what they would rather have.
var preferences = [][2]string{
	{"Accept-Language", "de"}, {"Accept-Language", "en-GB,en;q=0.9"}, {"Accept-Language", "fr, *;q=0.1"}, {"Accept-Encoding", "gzip"}, {"Accept-Encoding", "gzip, deflate, br, zstd"}, {"Accept-Encoding", "br"}, {"Accept-Encoding", "zstd"},
	{"Accept", "image/avif,image/webp,*/*"}, {"Accept", "text/html"}, {"Accept", "application/json"}, {"Accept", "text/plain;q=0.1"}, {"Accept", "application/xhtml+xml"}, {"Accept-Charset", "iso-8859-1"},
	{"User-Agent", "Mozilla/5.0 (iPhone; CPU iPhone OS 17_0 like Mac OS X) AppleWebKit/605.1.15 Mobile/15E148"}, {"User-Agent", "Mozilla/5.0 (compatible; Googlebot/2.1; +http://www.google.com/bot.html)"}, {"User-Agent", "curl/8.0"}, {"User-Agent", "Mozilla/4.0 (compatible; MSIE 6.0; Windows NT 5.1)"}, {"User-Agent", ""},
	{"Save-Data", "on"}, {"Dpr", "2"}, {"Width", "300"}, {"Sec-Ch-Ua-Mobile", "?1"}, {"Sec-Ch-Prefers-Color-Scheme", "dark"}, {"Cookie", "lang=de"}, {"Cookie", "theme=dark; mobile=1"}, {"Cache-Control", "no-cache"}, {"If-None-Match", `"x"`}, {"Want-Digest", "sha-256"}, {"Purpose", "prefetch"}, {"Sec-Purpose", "prefetch"}, {"Sec-Fetch-Dest", "image"}, {"X-Requested-With", "XMLHttpRequest"}, {"Prefer", "return=minimal"}, {"Dnt", "1"}, {"Te", "trailers"}, {"Referer", "https://other.test/"}, {"Origin", "https://other.test"},
}

var indexNames = []string{"index.html", "index.html", "index.htm", "main", "home.txt", "default.xhtml", "i"}

func TestS01(t *testing.T) {
	vt.LargeExample(t, "huge files", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		sizes := map[string]int64{"one.txt": 1<<30 + 5, "two": 2<<30 + 9, "five.zip": 5<<30 + 7}
		for name, size := range sizes { // they take no space
			k.Tree(w.Path("www"), map[string]string{name: "begin"})
			if err := os.Truncate(w.Path("www")+"/"+name, size); err != nil {
				return
			}
		}
		s := w.Start(&k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Methods: map[string]string{"/": "GET;HEAD"}}).Unlimited()})
		for name, size := range sizes {
			q := k.Req{Host: "h", Target: "/" + name, Header: [][2]string{{"Range", fmt.Sprintf("bytes=%d-", size-3)}}}
			if r := s.Do(q); r.Status != 206 || string(r.Body) != "\x00\x00\x00" {
				t.Fatalf("%s of a file of %d bytes answered %d with %q", q, size, r.Status, cut(string(r.Body)))
			}
			q = k.Req{Method: "HEAD", Host: "h", Target: "/" + name}
			if r := s.Do(q); r.Status != 200 || r.Header.Get("Content-Length") != fmt.Sprint(size) {
				t.Fatalf("%s of a file of %d bytes answered %d, Content-Length %q", q, size, r.Status, r.Header.Get("Content-Length"))
			}
		}
		_, stop, l := overWireL(s)
		defer stop()
		conn := dial(l)
		defer conn.Close()
		io.WriteString(conn, "GET /one.txt HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n")
		resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
		if err != nil {
			t.Fatalf("a file of %d bytes: %v", sizes["one.txt"], err)
		}
		vt.Progress()
		got, err := io.Copy(io.Discard, resp.Body)
		if err != nil || got != sizes["one.txt"] {
			t.Fatalf("%d bytes of a file of %d bytes, %v", got, sizes["one.txt"], err)
		}
	})
	vt.Example(t, "range-and-nul", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		k.Tree(w.Path("www"), map[string]string{"a.txt": "hello", "index.html": "start", "d/index.html/": ""})
		c := &k.Conf{Main: k.Host{Dir: w.Path("www"), Index: "index.html", Methods: map[string]string{"/": "GET"}}}
		c.Main.Unlimited()
		s := w.Start(c)
		f := newFS()
		f.add("/a.txt", "hello")
		f.add("/index.html", "start")
		f.mkdir("/d/index.html")
		for _, target := range []string{"/", "/index.html", "/a.txt", "/a.txt%00", "/a.txt/", "/d", "/d/", "/d/index.html", "/d/index.html/", "//a.txt", "/x/../a.txt"} {
			q := k.Req{Target: target, Host: "h"}
			if bad := checkServed(f, &c.Main, q, s.Do(q)); bad != "" {
				t.Fatalf("GET %s: %s", target, bad)
			}
		}
	})
	vt.Check(t, 700, 8000, func(rt *rapid.T, c *vt.Case) {
		serial = 0
		w := k.NewWorld()
		defer w.Close()
		index := rapid.SampledFrom(indexNames).Draw(rt, "index")
		f := genFS(rt, index, 12)
		if len(f.files) == 0 {
			f.add("/a.txt", "x")
		}
		h := k.Host{Dir: w.Path("www") + pick(rt, "slash", "", "/"), Index: index, RespTypes: genRespTypes(rt, f)}
		h.Methods = map[string]string{"/": pick(rt, "methods", "GET", "GET;HEAD", "POST;GET")}
		if chance(rt, "more", 3) {
			h.Methods["/docs/"] = "GET"
		}
		h.Unlimited()
		conf := &k.Conf{Main: h}
		if chance(rt, "vhost", 3) {
			conf = &k.Conf{VHosts: map[string]*k.Host{"a.test": &h}}
		}
		vt.Note(conf.Text() + " tree " + f.String())
		k.Tree(w.Path("www"), f.tree())
		s := w.Start(conf)
		do := s.Do
		if chance(rt, "wire", 5) {
			c.Label("over loopback")
			var stop func()
			do, stop = overWire(s)
			defer stop()
		}
		var log []string
		served := 0
		for i := n(rt, "steps", 3, 25); i > 0; i-- {
			if chance(rt, "mutate", 3) {
				log = append(log, mutate(rt, f, w.Path("www"), index))
				if len(f.files) == 0 {
					break
				}
				continue
			}
			if vt.Rare(rt, "rewritten", 8) {
				// asked for, replaced and asked for again
				p := rapid.SampledFrom(f.paths()).Draw(rt, "rewritten")
				q := k.Req{Method: "GET", Target: (&url.URL{Path: p}).EscapedPath(), Host: "a.test"}
				for i := 0; i < 3; i++ {
					log = append(log, q.String())
					if r := do(q); r != nil {
						if bad := checkServed(f, &h, q, r); bad != "" {
							rt.Fatalf("%s: %s\nconfig %s\ntree %s\nhistory\n%s", q, bad, conf.Text(), f, strings.Join(log, "\n"))
						}
					}
					var how string
					f.files[p], how = rewrite(rt, w.Path("www")+p, f.files[p], content(rt))
					log = append(log, fmt.Sprintf("rewrite %q (%d bytes, %s)", p, len(f.files[p]), how))
				}
				c.Label("rewritten")
				continue
			}
			if vt.Rare(rt, "preferences", 10) {
				// a file with others that could stand in for it, and clients with preferences
				p := rapid.SampledFrom(f.paths()).Draw(rt, "preferred")
				at := strings.LastIndexByte(p, '.')
				if at < strings.LastIndexByte(p, '/')+2 {
					at = len(p)
				}
				for i, end := range append(append([]string{}, besideExts...), variants...) {
					v := p + end
					if i >= len(besideExts) {
						v = p[:at] + end + p[at:]
					}
					if len(v)-strings.LastIndexByte(v, '/') < 240 && len(v) < 3000 {
						if _, ok := f.files[v]; !ok && f.add(v, "stands in: "+end) {
							vt.Must(os.WriteFile(w.Path("www")+v, []byte(f.files[v]), 0o644))
						}
					}
				}
				target := p
				if strings.HasSuffix(p, "/"+index) && chance(rt, "asindex", 2) {
					target = strings.TrimSuffix(p, index)
				}
				log = append(log, fmt.Sprintf("all preferences for %q", target))
				for _, pref := range preferences {
					q := k.Req{Method: "GET", Target: (&url.URL{Path: target}).EscapedPath(), Host: "a.test", Header: [][2]string{pref}}
					if r := do(q); r != nil {
						if bad := checkServed(f, &h, q, r); bad != "" {
							rt.Fatalf("%s: %s\nconfig %s\ntree %s\nhistory\n%s", q, bad, conf.Text(), f, strings.Join(log, "\n"))
						}
					}
				}
				c.Label("preferences")
				continue
			}
			q := k.Req{Method: "GET", Target: genTarget(rt, f, index), Host: pick(rt, "host", "a.test", "a.test:8080")}
			if chance(rt, "range", 8) {
				q.Header = append(q.Header, [2]string{"Range", fmt.Sprintf("bytes=%d-%d", n(rt, "from", 0, 30), n(rt, "to", 0, 90))})
			}
			if chance(rt, "hint", 3) {
				q.Header = append(q.Header, rapid.SampledFrom(hints).Draw(rt, "hinted"))
			}
			if chance(rt, "encodings", 4) {
				q.Header = append(q.Header, [2]string{"Accept-Encoding", pick(rt, "encoding", "gzip", "gzip, deflate, br", "br;q=1, *;q=0", "identity;q=0", "zstd")})
			}
			log = append(log, q.String())
			vt.Note(conf.Text() + "\ntree " + f.String() + "\n" + strings.Join(log, "\n"))
			r := do(q)
			if r == nil {
				continue
			}
			if bad := checkServed(f, &h, q, r); bad != "" {
				rt.Fatalf("%s\nconfig %s\ntree %s\nhistory\n%s", bad, conf.Text(), f, strings.Join(log, "\n"))
			}
			e := resolve(f, index, r.Path)
			c.Labelf("answer %d", e.status)
			if e.status == 200 {
				served++
				c.LabelIf(strings.HasSuffix(r.Path, "/"), "index")
			}
		}
		c.NonTrivial(served > 0)
		c.Desc(conf.Text() + " tree " + f.String() + " " + strings.Join(log, " | "))
	})
}

// rewrite replaces the contents of the file in one of the ways editors, copies
// and deployments do, in part such that size and modification time tell nothing.
func rewrite(rt *rapid.T, file, old, body string) (string, string) {
	fi, err := os.Stat(file)
	vt.Must(err)
	how := pick(rt, "rewrite", "kept size and time", "kept size and time", "kept size", "kept time", "older", "new")
	if strings.Contains(how, "kept size") {
		body = ""
		for i := 0; i < len(old); i++ {
			body += string(rune('a' + (int(old[i])+1)%26))
			if i > 5000 {
				body += old[i+1:]
				break
			}
		}
	}
	name := file
	if chance(rt, "replace", 2) && len(file) < 4000 && len(file)-strings.LastIndexByte(file, '/') < 200 {
		name = file + ".tmp-x"
		how += ", moved there"
	}
	vt.Must(os.WriteFile(name, []byte(body), 0o644))
	switch {
	case strings.HasSuffix(how, "older"):
		vt.Must(os.Chtimes(name, fi.ModTime().Add(-time.Hour), fi.ModTime().Add(-time.Hour)))
	case strings.Contains(how, "time"):
		vt.Must(os.Chtimes(name, fi.ModTime(), fi.ModTime()))
	}
	if name != file {
		vt.Must(os.Rename(name, file))
	}
	return body, how
}

func mutate(rt *rapid.T, f *fs, root, index string) string {
	switch n(rt, "mutation", 0, 4) {
	case 0, 1:
		p := rapid.SampledFrom(f.paths()).Draw(rt, "mfile")
		c := content(rt)
		f.files[p] = c
		vt.Must(os.WriteFile(root+p, []byte(c), 0o644))
		return fmt.Sprintf("write %q (%d bytes)", p, len(c))
	case 2:
		p := rapid.SampledFrom(f.paths()).Draw(rt, "mfile")
		delete(f.files, p)
		vt.Must(os.Remove(root + p))
		return fmt.Sprintf("remove %q", p)
	case 3:
		p := genPath(rt)
		c := content(rt)
		if f.add(p, c) {
			k.Tree(root, map[string]string{p[1:]: c})
		}
		return fmt.Sprintf("create %q", p)
	default:
		p := rapid.SampledFrom(f.paths()).Draw(rt, "mfile")
		if strings.IndexByte(p[1:], '/') < 0 && len(f.files) > 1 {
			delete(f.files, p)
			vt.Must(os.Remove(root + p))
			f.mkdir(p)
			vt.Must(os.Mkdir(root+p, 0o755))
			return fmt.Sprintf("%q becomes a directory", p)
		}
		return "-"
	}
}

// overWire sends the requests over a loopback connection.
func overWire(s *k.Srv) (func(q k.Req) *k.Resp, func()) {
	do, stop, _ := overWireL(s)
	return do, stop
}

func overWireL(s *k.Srv) (func(q k.Req) *k.Resp, func(), net.Listener) {
	l := k.Listen()
	srv := &http.Server{Handler: s.S.Router, ErrorLog: quiet}
	go srv.Serve(l)
	return func(q k.Req) *k.Resp {
		pr, err := q.Parse()
		if err != nil {
			return nil
		}
		conn := k.Dial(l.Addr().String())
		defer conn.Close()
		return wireAnswer(conn, q, pr)
	}, func() { srv.Close() }, l
}

func wireAnswer(conn net.Conn, q k.Req, pr *http.Request) *k.Resp {
	go io.WriteString(conn, strings.Replace(q.Raw(), "\r\n\r\n", "\r\nConnection: close\r\n\r\n", 1))
	return readAnswer(conn, pr)
}
