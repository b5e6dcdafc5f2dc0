package serverp

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// S06: only configured paths, methods and content types are served.

func TestS06(t *testing.T) {
	vt.Check(t, 500, 12000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		dirs := []string{"", "/docs", "/docs/deep", "/docs/deep/er", "/x", "/docsx", "/o p"}
		f := newFS()
		index := pick(rt, "index", "index.html", "start.txt")
		for _, d := range dirs {
			for _, name := range []string{index, "a.txt", "b.html"} {
				f.add(d+"/"+name, "content of "+d+"/"+name)
			}
		}
		h := &k.Host{Dir: w.Path("www"), Index: index, Methods: map[string]string{}, ReqTypes: map[string]string{}}
		norms := map[string]bool{}
		var many []string
		dav := chance(rt, "webdav", 4)
		all := []string{"GET", "PUT", "POST", "DELETE", "PATCH", "OPTIONS", "HEAD"}
		if dav {
			all = append(all, "PROPFIND", "MOVE")
		}
		for i := n(rt, "nmethods", 1, 7); i > 0; i-- {
			p := rapid.SampledFrom(dirs).Draw(rt, "mdir")
			switch n(rt, "mkind", 0, 5) {
			case 0, 1, 2:
				p += "/"
			case 3:
				p += "/" + pick(rt, "mfile", "a.txt", "b.html", index)
			case 4:
				p += "/none/"
			}
			if p == "" {
				p = "/"
			}
			np := strings.TrimSuffix(p, "/")
			if norms[np] {
				continue
			}
			norms[np] = true
			ms := rapid.SliceOfNDistinct(rapid.SampledFrom(all), 1, 4, rapid.ID[string]).Draw(rt, "ms")
			if chance(rt, "get", 2) {
				ms[0] = "GET"
			}
			h.Methods[p] = strings.Join(ms, ";")
			if chance(rt, "types", 2) {
				h.ReqTypes[p] = pick(rt, "rt", "text/html", ";text/html", "application/json;text/html", "application/json;", "*", "text/html;image/png", ";")
			}
			if vt.Rare(rt, "many types", 15) {
				for i := vt.Many(rt, "further types", 300); i > 0; i-- {
					many = append(many, fmt.Sprintf("application/x-%d", len(many)))
				}
				h.ReqTypes[p] = strings.Join(many, ";")
			}
			if chance(rt, "othertype", 6) {
				h.ReqTypes[np+"/other"] = "image/png"
			}
		}
		h.Unlimited()
		conf := &k.Conf{Main: *h, WebDAV: dav}
		if chance(rt, "vhosts", 3) {
			conf = &k.Conf{VHosts: map[string]*k.Host{"a.test": h, "b.test": (&k.Host{Dir: w.Path("www"), Index: index, Methods: map[string]string{"/": "GET;POST;PUT"}}).Unlimited()}, WebDAV: dav}
		}
		text := conf.Text()
		k.Tree(w.Path("www"), f.tree())
		vt.Note(text)
		s := w.Start(conf)
		var log []string
		for i := n(rt, "requests", 5, 40); i > 0; i-- {
			p := rapid.SampledFrom(dirs).Draw(rt, "rdir") + pick(rt, "rfile", "", "/", "/a.txt", "/b.html", "/"+index, "/none", "/none/x", "/a.txt/", "x")
			if p == "" {
				p = "/"
			}
			q := k.Req{Target: spell(rt, p, !chance(rt, "spelled", 3)), Host: "a.test"}
			q.Method = rapid.SampledFrom(append(all, "GET", "GET", "GET", "POST", "TRACE", "PROPFIND", "get", "GETX", "X;GET")).Draw(rt, "method")
			if chance(rt, "ct", 2) {
				q.Header = [][2]string{{"Content-Type", pick(rt, "ctype", "text/html", "text/html; charset=utf-8", "application/json", "image/png", "text/htm", "text/html2", "*", ";", "text/html;image/png")}}
			}
			if len(many) > 0 && chance(rt, "one of many", 2) {
				i := rapid.IntRange(0, len(many)).Draw(rt, "which") // the last is not among them
				q.Header = [][2]string{{"Content-Type", fmt.Sprintf("application/x-%d", i)}}
			}
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			log = append(log, q.String())
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			r := s.Do(q)
			d := conf.Route("a.test", r.Path, pr.Method, pr.Header.Get("Content-Type"))
			bad := r.Fatal()
			if bad == "" {
				e := resolve(f, index, r.Path)
				want := d.Status
				if want == 200 {
					want = e.status
				}
				switch {
				case want == 301:
					if r.Status < 301 || r.Status > 308 {
						bad = fmt.Sprintf("status %d, want a redirect", r.Status)
					}
				case r.Status != want:
					bad = fmt.Sprintf("status %d, want %d (routing says %d)", r.Status, want, d.Status)
				case want == 200 && pr.Method != "HEAD":
					bad = diff(r.Body, f.files[e.file])
				}
				if bad == "" && d.Status != 200 && strings.Contains(string(r.Body), "content of") {
					bad = fmt.Sprintf("refused with %d, but content was sent: %q", r.Status, cut(string(r.Body)))
				}
			}
			c.Labelf("routing %d", d.Status)
			c.NonTrivial(d.Status == 200 || d.Status == 405 || d.Status == 406)
			if bad != "" {
				rt.Fatalf("%s\n%s\nconfig %s", bad, q, text)
			}
		}
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}
