package serverp

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// S02: nothing outside the document root is ever disclosed.

type secret struct {
	path    string // below the scratch directory
	content string // unique token inside
	name    string // unique token in the name
}

type discWorld struct {
	conf    *k.Conf
	w       *k.World
	roots   map[string]string // host -> directory below the scratch directory
	secrets []secret
	errs    map[string]map[string]secret // host -> code -> page
	fileDir []string                     // what is in FileDir
}

// scan looks for tokens of files the answer must not disclose.
func (d *discWorld) scan(host string, q k.Req, r *k.Resp) string {
	root, known := d.roots[host]
	h := d.conf.HostConf(host)
	var text strings.Builder
	text.Write(r.Body)
	var hs []string
	for n := range r.Header {
		hs = append(hs, n)
	}
	sort.Strings(hs)
	for _, n := range hs {
		text.WriteString("\n" + n + ": " + strings.Join(r.Header[n], ", "))
	}
	all := text.String()
	asked := q.Target + " " + r.Path + " " + q.Host
	for _, s := range d.secrets {
		rel := ""
		inside := known && strings.HasPrefix(s.path, root+"/")
		if inside {
			rel = s.path[len(root):]
		}
		content, name := strings.Contains(all, s.content), strings.Contains(all, s.name) && !strings.Contains(asked, s.name)
		for _, page := range d.errs[host] {
			if page.path == s.path {
				content = false
			}
		}
		if content {
			ok := inside
			if inside {
				// content of a file in the root: only the named one
				target := r.Path
				if strings.HasSuffix(target, "/") {
					target += h.Index
				}
				ok = target == rel && (r.Status == 200 || r.Status == 206)
			}
			if !ok {
				return fmt.Sprintf("the answer discloses the content of %s (document root %q, status %d)", s.path, root, r.Status)
			}
		}
		if name {
			listed := false
			if inside && h.Download && (r.Path == "/" || r.Path == "/"+strings.TrimPrefix(h.Index, "/")) {
				for _, e := range h.Exts {
					base := rel[strings.LastIndexByte(rel, '/')+1:]
					if i := strings.LastIndexByte(base, '.'); i >= 0 && base[i:] == e {
						listed = true
					}
				}
				// a directory name is shown as part of the link of a listed file
				if strings.HasSuffix(s.path, "/") {
					listed = true
				}
			}
			if !listed {
				return fmt.Sprintf("the answer discloses the name %s (document root %q, status %d)", s.path, root, r.Status)
			}
		}
	}
	return ""
}

func (d *discWorld) put(p string) secret {
	i := len(d.secrets)
	s := secret{path: p, content: fmt.Sprintf("CANARY%03dX", i)}
	base := p[strings.LastIndexByte(p, '/')+1:]
	s.name = base
	d.secrets = append(d.secrets, s)
	return s
}

func (d *discWorld) build() {
	files := map[string]string{}
	for _, s := range d.secrets {
		if strings.HasSuffix(s.path, "/") {
			files[s.path] = ""
			continue
		}
		files[s.path] = "<html>" + s.content + "</html>"
	}
	k.Tree(d.w.Dir, files)
}

// outside files around every root
func genDisc(rt *rapid.T, w *k.World) *discWorld {
	d := &discWorld{w: w, roots: map[string]string{}, errs: map[string]map[string]secret{}}
	names := []string{"", "a.test", "b.test"}[:1]
	if chance(rt, "vhosts", 2) {
		names = []string{"a.test", "b.test"}
	}
	d.conf = &k.Conf{}
	if len(names) > 1 {
		d.conf.VHosts = map[string]*k.Host{}
	}
	serialName := 0
	tok := func(ext string) string { serialName++; return fmt.Sprintf("nm%02dq%s", serialName, ext) }
	exts := []string{".txt", ".html", ".zip", ".key", "", ".json", ".txt.key", ".zip.html", ".txt.", "txt", "zip", ".ztxt", ".txt~", ".zipx", ".txt.d", ".tx", ".t.xt"}
	base := []string{"srv/www", "srv/www2", "srv/www/inner", "srv"}
	taken := map[string]bool{}
	for _, nme := range names {
		dir := rapid.SampledFrom(base).Draw(rt, "root")
		for taken[dir] {
			dir += "x"
		}
		taken[dir] = true
		h := &k.Host{Dir: w.Path(dir) + pick(rt, "slash", "", "/", "/"), Index: pick(rt, "index", "index.html", "start.html", "list")}
		h.Unlimited()
		if chance(rt, "download", 3) {
			h.Download = true
			h.Exts = []string{".txt", ".zip"}[:n(rt, "exts", 1, 2)]
		} else {
			h.Methods = map[string]string{"/": "GET;POST"}
			if chance(rt, "methods", 3) {
				h.Methods = map[string]string{"/docs/": "GET", "/": "GET"}
			}
		}
		d.roots[nme] = dir
		if d.conf.VHosts != nil {
			d.conf.VHosts[nme] = h
		} else {
			d.conf.Main = *h
		}
	}
	for _, nme := range names {
		dir := d.roots[nme]
		h := d.conf.HostConf(nme)
		for _, sub := range []string{"", "/docs", "/docs/deep", "/.priv"} {
			for i := n(rt, "in", 0, 2); i > 0; i-- {
				d.put(dir + sub + "/" + tok(rapid.SampledFrom(exts).Draw(rt, "ext")))
			}
			if chance(rt, "indexfile", 2) && !h.Download {
				s := d.put(dir + sub + "/" + h.Index)
				d.secrets[len(d.secrets)-1].name = s.content + "-" // the index name is no secret
			} else if chance(rt, "indexdir", 4) && !h.Download {
				d.put(dir + sub + "/" + h.Index + "/" + tok(".txt"))
			}
		}
	}
	// outside: siblings, parents, directories whose name continues the root's
	for _, nme := range names {
		dir := d.roots[nme]
		parent := dir[:max(strings.LastIndexByte(dir, '/'), 0)]
		if parent != "" {
			d.put(parent + "/" + tok(".txt"))
		}
		d.put(dir + "-secret/" + tok(".txt"))
		d.put(dir + tok(".html"))
		d.put(dir + "index.html/" + tok(".txt"))
	}
	d.put("etc/" + tok(".txt"))
	d.put(tok(".txt"))
	if chance(rt, "errors", 2) {
		for _, nme := range names {
			h := d.conf.HostConf(nme)
			if d.conf.VHosts == nil {
				h = &d.conf.Main
			}
			h.Errors = map[string]string{}
			d.errs[nme] = map[string]secret{}
			for _, code := range []string{"404", "405"} {
				if chance(rt, "page", 2) {
					s := d.put("errs/" + tok(".html"))
					h.Errors[code] = w.Path(s.path)
					d.errs[nme][code] = s
				}
			}
		}
	}
	// The directory of templates and certificates, its own or the root's parent.
	if chance(rt, "filedir", 2) {
		fd := pick(rt, "fdpath", "fd", "srv", "srv/fd")
		d.conf.FileDir = w.Path(fd) + "/"
		for _, p := range []string{"certs/" + tok(".key"), "templates/" + tok(".html"), "metrics/" + tok(".json"), tok(".conf"), "log/" + tok(".log"), "www/" + tok(".html")} {
			if chance(rt, "fdfile", 2) {
				d.put(fd + "/" + p)
				d.fileDir = append(d.fileDir, p)
			}
		}
		d.fileDir = append(d.fileDir, "templates/error.html", "templates/download.html")
	}
	// every content token has to be unique and the names too
	d.build()
	return d
}

// hostile writes targets that try to leave the root.
func hostile(rt *rapid.T, d *discWorld, host string) string {
	root := d.roots[host]
	s := rapid.SampledFrom(d.secrets).Draw(rt, "victim")
	up := pick(rt, "up", "../", "..%2f", "%2e%2e/", ".%2e/", "..\\", "..%5c", "..;/", "....//", "%252e%252e/", "..%00/", "../", "..//", "/../", "%2e%2e%2f", "..%c0%af", "..％2f")
	depth := strings.Count(root, "/") + 1
	var t string
	if len(d.fileDir) > 0 && chance(rt, "in filedir", 5) {
		return "/" + rapid.SampledFrom(d.fileDir).Draw(rt, "fdtarget")
	}
	switch n(rt, "attack", 0, 9) {
	case 0, 1, 2, 3:
		t = "/" + strings.Repeat(up, n(rt, "ups", 1, depth+1)) + s.path
	case 4:
		t = "/" + pick(rt, "in", "docs/", "x/", "docs/deep/", "nm01q.txt/") + strings.Repeat(up, n(rt, "ups", 1, depth+3)) + s.path
	case 5: // the path of the root continued
		if strings.HasPrefix(s.path, root) {
			t = s.path[len(root):]
		} else {
			t = s.path
		}
	case 6:
		t = d.w.Path(s.path)
	case 7:
		t = "http://" + host + "/" + up + s.path
	case 8:
		t = "/" + encode(rt, s.path, false)
	default:
		if strings.HasPrefix(s.path, root+"/") {
			t = s.path[len(root):]
			if chance(rt, "dironly", 2) {
				t = t[:strings.LastIndexByte(t, '/')+pick01(rt)]
			}
		} else {
			t = "/" + strings.Repeat(up, depth) + s.path[:strings.LastIndexByte(s.path, '/')+1]
		}
	}
	if t == "" {
		t = "/"
	}
	if chance(rt, "dirslash", 6) {
		t += "/"
	}
	if chance(rt, "query", 10) {
		t += "?x=../" + s.path
	}
	return t
}

func pick01(rt *rapid.T) int { return n(rt, "slashed", 0, 1) }

func TestS02(t *testing.T) {
	vt.Example(t, "index is a directory", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		for _, download := range []bool{false, true} {
			d := &discWorld{w: w, roots: map[string]string{"": "www"}, errs: map[string]map[string]secret{}}
			d.put("www/index.html/nmA.txt")
			d.put("www/d/nmB.key")
			d.put("www/d/index.html/nmC.key")
			d.put("nmD.txt")
			d.build()
			d.conf = &k.Conf{Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Download: download, Exts: []string{".none"}}).Unlimited()}
			if !download {
				d.conf.Main.Methods = map[string]string{"/": "GET"}
			}
			s := w.Start(d.conf)
			for _, target := range []string{"/", "/d/", "/d", "/index.html/", "/d/index.html/", "/../", "/x/../../nmD.txt"} {
				q := k.Req{Target: target, Host: "h"}
				r := s.Do(q)
				if bad := d.scan("", q, r); bad != "" {
					t.Fatalf("download=%v GET %s: %s", download, target, bad)
				}
			}
		}
	})
	vt.Check(t, 1500, 15000, func(rt *rapid.T, c *vt.Case) {
		serial = 0
		w := k.NewWorld()
		defer w.Close()
		d := genDisc(rt, w)
		text := d.conf.Text()
		vt.Note(text)
		s := w.Start(d.conf)
		var hosts []string
		for h := range d.roots {
			hosts = append(hosts, h)
		}
		sort.Strings(hosts)
		var log []string
		attacks := 0
		for i := n(rt, "requests", 4, 30); i > 0; i-- {
			host := rapid.SampledFrom(hosts).Draw(rt, "host")
			q := k.Req{Method: pick(rt, "method", "GET", "GET", "GET", "POST", "HEAD"), Target: hostile(rt, d, host), Host: host}
			if host == "" {
				q.Host = "h"
			} else if chance(rt, "stranger", 8) {
				host, q.Host = "stranger", pick(rt, "strange", "stranger", "../a.test", "a.test/../b.test", "srv", "a.test.", "")
			}
			if chance(rt, "port", 8) && q.Host != "" {
				q.Host += ":81"
			}
			if chance(rt, "range", 12) {
				q.Header = append(q.Header, [2]string{"Range", "bytes=0-20"})
			}
			log = append(log, q.String())
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			r := s.Do(q)
			if r == nil {
				c.Label("refused by net/http")
				continue
			}
			if d.conf.VHosts != nil {
				host = k.HostName(r.HostNam)
				if _, ok := d.roots[host]; !ok {
					host = "stranger"
				}
			}
			attacks++
			bad := d.scan(host, q, r)
			if bad == "" && host == "stranger" && r.Status != 404 {
				bad = fmt.Sprintf("unknown host answered %d", r.Status)
			}
			c.Labelf("answer %d", r.Status)
			if bad != "" {
				rt.Fatalf("%s\n%s\nconfig %s\nsecrets %v\nbody %q", bad, q, text, d.secrets, cut(string(r.Body)))
			}
		}
		c.NonTrivial(attacks > 0)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}
