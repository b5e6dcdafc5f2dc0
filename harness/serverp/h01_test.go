package serverp

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// H01: page templates are used as they are found and completed if missing.

// tpl is a page template: text with the action between the segments.
type tpl struct {
	segs    []string
	action  string
	exists  bool
	builtin bool
}

func (p tpl) text() string { return strings.Join(p.segs, p.action) }

// filled tells whether the body is the template with the same text, which has
// to satisfy ok, in place of each action.
func (p tpl) filled(body string, ok func(string) bool) string {
	if p.builtin { // its comments need not be kept
		low := strings.ToLower(strings.TrimSpace(body))
		if !strings.HasPrefix(low, "<!doctype html>") || !strings.HasSuffix(low, "</html>") || strings.Count(low, "<body>") != 1 || !ok(body) {
			return fmt.Sprintf("the body is not the built-in page filled: ...%q", body[strings.Index(body, "<body>")+1:])
		}
		return ""
	}
	if len(p.segs) == 1 {
		if body != p.segs[0] {
			return fmt.Sprintf("the template has no action, but %s", diff([]byte(body), p.segs[0]))
		}
		return ""
	}
	rest := len(body)
	for _, s := range p.segs {
		rest -= len(s)
	}
	k := len(p.segs) - 1
	if rest < 0 || rest%k != 0 {
		return fmt.Sprintf("the body is not the template %q with a text in %d places: %q", cut(p.text()), k, cut(body))
	}
	x := ""
	if strings.HasPrefix(body, p.segs[0]) {
		x = body[len(p.segs[0]):][:rest/k]
	}
	if want := strings.Join(p.segs, x); want != body {
		return "compared with the template, " + diff([]byte(body), want)
	}
	if !ok(x) {
		return fmt.Sprintf("the template was filled with %q", cut(x))
	}
	return ""
}

var (
	tplWords   = []string{"<p>text</p>", "\n", "Ünï ✓", "<b class=\"x\">", "</b>", "&amp;", "<div><span>", "<br>", "100%", "{ }", "a\r\nb", "\ttab", "<h1>My own page</h1>", "%s%d%v", "</div>", "<hr/>", "$1"}
	actionsErr = []string{"{{.HTTPError}}", "{{ .HTTPError }}", "{{.HTTPError}}"}
	actionsDL  = []string{"{{.DownloadTable}}", "{{ .DownloadTable }}", "{{.DownloadTable}}"}
)

func genTpl(rt *rapid.T, actions []string) tpl {
	p := tpl{action: rapid.SampledFrom(actions).Draw(rt, "action"), exists: !chance(rt, "missing", 3)}
	for i := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(rt, "places"); i >= 0; i-- {
		p.segs = append(p.segs, strings.Join(rapid.SliceOfN(rapid.SampledFrom(tplWords), 0, 4).Draw(rt, "words"), ""))
	}
	if chance(rt, "long", 6) {
		most := 3000
		if vt.Rare(rt, "huge", 6) {
			most = 40000
		}
		p.segs[n(rt, "fillat", 0, len(p.segs)-1)] += strings.Repeat("<i>filler</i>\n", n(rt, "filler", 1, most))
	}
	return p
}

// snapshot reads all files below a directory.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	vt.Must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			m[p+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		m[p] = fmt.Sprintf("%v %s", fi.Mode(), b)
		return err
	}))
	return m
}

// builtin is the built-in design, as the first server without templates made it.
var builtin = map[string]string{}

func TestH01(t *testing.T) {
	vt.Check(t, 2000, 20000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		fileDir := w.Path(pick(rt, "filedir", "fd", "fd/deeper", "file dir", "ü/ä"))
		tdir := fileDir + "/templates/"
		tpls := map[string]*tpl{"error.html": nil, "download.html": nil}
		e, d := genTpl(rt, actionsErr), genTpl(rt, actionsDL)
		tpls["error.html"], tpls["download.html"] = &e, &d
		extra := chance(rt, "extra", 2)
		conf := &k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Download: true, Exts: []string{".txt"}}).Unlimited()}
		if chance(rt, "vhosts", 3) {
			h := conf.Main
			conf.VHosts = map[string]*k.Host{"h": &h}
			conf.Main = *(&k.Host{}).Unlimited()
		}
		conf.FileDir = fileDir
		if chance(rt, "slash", 2) {
			conf.FileDir += "/"
		}
		names := []string{"a.txt", "x/b.txt", "c d.txt"}[:n(rt, "files", 1, 3)]
		k.Tree(w.Path("www"), map[string]string{"other.bin": "x"})
		for _, f := range names {
			k.Tree(w.Path("www"), map[string]string{f: "content of " + f})
		}
		starts, some := n(rt, "starts", 1, 3), e.exists || d.exists
		text := fmt.Sprintf("FileDir %q, error.html %v %q, download.html %v %q, extra files %v, %d files, %d starts", conf.FileDir, e.exists, e.text(), d.exists, d.text(), extra, len(names), starts)
		c.Desc(text)
		vt.Note(text)
		for name, p := range tpls {
			if p.exists {
				k.Tree(tdir, map[string]string{name: p.text()})
				if chance(rt, "readonly", 3) {
					vt.Must(os.Chmod(tdir+name, 0o444))
				}
			}
		}
		if extra {
			k.Tree(fileDir, map[string]string{"templates/error.html.bak": "old", "templates/index.html": "x", "certs/key": "secret", "error.html": "elsewhere", "templates/sub/error.html": "y"})
			for _, name := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"notes.tmp", "page.12.tmp", "tmp", ".hidden", "error", "Error.html", "error.htm", "download.htm", "footer.html", "empty.html", "backup~", "download.html.orig", "broken.tmpl", "404.html", "sub/x.tmp"}), 0, 5, func(s string) string { return s }).Draw(rt, "beside") {
				k.Tree(tdir, map[string]string{name: pick(rt, "contents", "", "mine", "{{", "{{.HTTPError}}", "<html>", "\n")})
			}
		}
		for i := 0; i < starts; i++ {
			before := map[string]string{}
			if _, err := os.Stat(fileDir); err == nil {
				before = snapshot(fileDir)
			}
			s := w.Start(conf)
			bad := ""
			after := snapshot(fileDir)
			for p, content := range before {
				if after[p] != content {
					bad = fmt.Sprintf("start %d changed %s", i+1, p)
				}
			}
			for p := range after {
				if _, ok := before[p]; ok || bad != "" || strings.HasSuffix(p, "/") && strings.HasPrefix(tdir, p) {
					continue
				}
				name := strings.TrimPrefix(p, tdir)
				q, ok := tpls[name]
				if !ok {
					bad = fmt.Sprintf("start %d made %s", i+1, p)
					continue
				}
				q.exists = true
				action := actionsErr[0]
				if name == "download.html" {
					action = actionsDL[0]
				}
				b, err := os.ReadFile(p)
				vt.Must(err)
				page := string(b)
				if builtin[name] == "" {
					builtin[name] = page
					low := strings.ToLower(page)
					if strings.Count(page, "{{") != 1 || !strings.Contains(page, action) || !strings.HasPrefix(low, "<!doctype html>") || !strings.HasSuffix(strings.TrimSpace(low), "</html>") {
						bad = fmt.Sprintf("the %s that was made is no complete page with %s in one place: %q", name, action, page)
					}
				} else if page != builtin[name] {
					bad = fmt.Sprintf("the %s that was made differs from the one made before: %s", name, diff(b, builtin[name]))
				}
				q.segs, q.action, q.builtin = nil, action, true
			}
			for name, q := range tpls {
				if bad == "" && !q.exists {
					bad = fmt.Sprintf("%s was not made", name)
				}
			}
			// the pages
			for j := n(rt, "requests", 1, 5); j > 0 && bad == ""; j-- {
				q := k.Req{Host: "h", Target: pick(rt, "target", "/", "/index.html", "/none.txt", "/", "/other", "/x")}
				q.Method = pick(rt, "method", "GET", "GET", "GET", "POST", "HEAD")
				r := s.Do(q)
				bad = r.Fatal()
				body := string(r.Body)
				switch {
				case bad != "" || q.Method == "HEAD":
				case r.Status == 200:
					bad = d.filled(body, func(x string) bool {
						for _, f := range names {
							if !strings.Contains(x, f[strings.LastIndexByte(f, '/')+1:]) {
								return false
							}
						}
						return !strings.Contains(x, "{{") && !strings.Contains(x, "&lt;")
					})
					c.Label("listing")
				default:
					want := 404
					if q.Method != "GET" {
						want = 405
					}
					if r.Status != want {
						bad = fmt.Sprintf("status %d, want %d", r.Status, want)
						break
					}
					bad = e.filled(body, func(x string) bool {
						return strings.Contains(x, fmt.Sprintf("Error %d", want)) && !strings.Contains(x, "{{") && !strings.Contains(x, "&lt;")
					})
					c.Label("error page")
				}
				if bad != "" {
					bad = fmt.Sprintf("start %d, %s: %s", i+1, q, bad)
				}
			}
			if bad == "" && len(after) != len(snapshot(fileDir)) {
				bad = "requests changed the file directory"
			}
			if bad != "" {
				rt.Fatalf("%s\n%s", bad, text)
			}
			// between starts: templates are edited or removed
			for _, name := range []string{"error.html", "download.html"} {
				q := tpls[name]
				switch n(rt, "between", 0, 3) {
				case 0:
					vt.Must(os.Remove(tdir + name))
					q.exists = false
					c.Label("removed")
				case 1:
					a := actionsErr
					if name == "download.html" {
						a = actionsDL
					}
					*q = genTpl(rt, a)
					os.Remove(tdir + name)
					if q.exists {
						k.Tree(tdir, map[string]string{name: q.text()})
						c.Label("edited")
					}
				}
			}
		}
		c.LabelIf(e.exists != d.exists, "one missing")
		c.NonTrivial(starts > 1 || some)
	})
}
