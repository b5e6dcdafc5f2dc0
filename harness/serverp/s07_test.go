package serverp

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// S07: firewall and rate limit guard every configured route.

// leaked tells whether an answer contains content of the served files.
func (ew *errWorld) leaked(r *k.Resp) string {
	if bytes.Contains(r.Body, []byte("file /")) {
		return fmt.Sprintf("content was delivered: %q", cut(string(r.Body)))
	}
	for _, f := range ew.files {
		for p := range f.files {
			if i := strings.LastIndexByte(p, '/'); bytes.Contains(r.Body, []byte(">"+p[i+1:]+"<")) {
				return fmt.Sprintf("the name of %q was delivered", p)
			}
		}
	}
	return ""
}

func TestS07(t *testing.T) {
	vt.LargeExample(t, "large bursts", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		k.Tree(w.Path("www"), map[string]string{"i.html": "i", "a.txt": "a"})
		kinds := []struct {
			name string
			host k.Host
		}{
			{"serve", k.Host{Dir: w.Path("www"), Index: "i.html", Methods: map[string]string{"/": "GET"}}},
			{"download", k.Host{Dir: w.Path("www"), Index: "list.html", Download: true, Exts: []string{".txt"}}},
			{"proxy", k.Host{Proxy: true, Rules: map[string]string{"a.test": "http://up"}, ProxyMethods: []string{"GET"}}},
		}
		for i, kind := range kinds {
			for _, burst := range []int{120, 1100, 12000} {
				for _, virtual := range []bool{false, true} {
					h := kind.host
					h.Rate, h.Burst = 0.001, burst // fills in less than 292 years
					conf := &k.Conf{Main: h}
					if virtual {
						conf = &k.Conf{VHosts: map[string]*k.Host{"a.test": &h}}
					}
					s := w.Start(conf)
					admitted := 0
					for j := 0; j < burst+50; j++ {
						r := s.Get("a.test", []string{"/", "/a.txt"}[(i+j)%2])
						if x := r.Fatal(); x != "" {
							t.Fatal(x)
						}
						if r.Status != 429 {
							admitted++
						}
					}
					if admitted != burst {
						t.Fatalf("%s, virtual host %v: of %d requests %d were admitted, want %d", kind.name, virtual, burst+50, admitted, burst)
					}
				}
			}
		}
	})
	vt.Check(t, 500, 12000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		// custom pages are S03's business
		for _, name := range ew.hosts {
			if ew.conf.VHosts != nil {
				ew.conf.VHosts[name].Errors = nil
			}
		}
		ew.conf.Main.Errors = nil
		text := ew.conf.Text()
		vt.Note(text)
		s := w.Start(ew.conf)
		m := k.NewModel(ew.conf)
		var log []string
		hits := 0
		for i := n(rt, "requests", 10, 80); i > 0; i-- {
			q := ew.genReq(rt)
			log = append(log, q.String())
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			before := s.Up.Count()
			r := s.Do(q)
			d := m.Decide(q, pr, r.Path)
			up := s.Up.Count() - before
			bad := r.Fatal()
			switch {
			case bad != "":
			case d.Status != 200:
				if r.Status != d.Status {
					bad = fmt.Sprintf("status %d, want %d", r.Status, d.Status)
				} else if up != 0 {
					bad = fmt.Sprintf("refused with %d, but %d upstream requests were made", r.Status, up)
				} else if bad = ew.leaked(r); bad != "" {
					bad = fmt.Sprintf("refused with %d, but %s", r.Status, bad)
				}
			case r.Status == 401 || r.Status == 403 || r.Status == 405 || r.Status == 406 || r.Status == 429 || r.Status == 502:
				bad = fmt.Sprintf("status %d, but the request is allowed (%s)", r.Status, d.Kind)
			case d.Kind == "proxy" && up != 1:
				bad = fmt.Sprintf("allowed proxied request made %d upstream requests", up)
			case d.Kind != "proxy" && up != 0:
				bad = fmt.Sprintf("%s request made %d upstream requests", d.Kind, up)
			}
			if bad != "" {
				rt.Fatalf("%s\n%s\nconfig %s\nhistory\n%s", bad, q, text, strings.Join(log, "\n"))
			}
			c.Labelf("%s %d", d.Kind, d.Status)
			if d.Status == 403 || d.Status == 429 {
				hits++
			}
		}
		c.NonTrivial(hits > 0)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}
