package serverp

import (
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// S04: security headers are on every locally produced response.

func genHeaders(rt *rapid.T) map[string]string {
	m := map[string]string{}
	for i := n(rt, "nheaders", 0, 4); i > 0; i-- {
		m[pick(rt, "hname", "X-Frame-Options", "x-content-type-options", "X-XSS-Protection", "referrer-policy", "Content-Security-Policy", "Feature-Policy", "Server", "X-Own", "Access-Control-Allow-Origin", "Set-Cookie", "Link")] = pick(rt, "hvalue", "DENY", "default-src *", "own", "same-origin", "a=b; c", "*", "")
	}
	if vt.Rare(rt, "many headers", 60) {
		for i := vt.Many(rt, "further headers", 300); i > 0; i-- {
			m[fmt.Sprintf("X-Own-%d", i)] = strconv.Itoa(i)
		}
	}
	return m
}

// checkHeaders compares the headers of a locally produced response. served
// tells whether the configured headers apply; nil: either way is right.
func checkHeaders(r *k.Resp, own map[string]string, served *bool, metrics bool) string {
	conf := map[string]string{}
	for n, v := range own {
		conf[http.CanonicalHeaderKey(n)] = v
	}
	strict := k.StrictHeaders()
	names := map[string]bool{}
	for n := range strict {
		names[n] = true
	}
	for n := range conf {
		names[n] = true
	}
	var sorted []string
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	for _, n := range sorted {
		got := r.Header.Values(n)
		sv, isStrict := strict[n]
		cv, isConf := conf[n]
		okStrict := isStrict && len(got) == 1 && got[0] == sv || !isStrict && len(got) == 0
		okConf := isConf && len(got) == 1 && got[0] == cv
		ok := false
		switch {
		case metrics && n == "Content-Security-Policy":
			ok = true
		case served == nil:
			ok = okStrict || okConf
		case *served && isConf:
			ok = okConf
		default:
			ok = okStrict
		}
		if !ok {
			want := fmt.Sprintf("%q", sv)
			if isConf {
				want += fmt.Sprintf(" (configured for served content: %q)", cv)
			}
			return fmt.Sprintf("header %s is %q, want %s", n, got, want)
		}
	}
	return ""
}

func TestS04(t *testing.T) {
	yes, no := true, false
	vt.Example(t, "proxied and local", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{TLS: true, HSTSMaxAge: 5, HSTSPreload: true, VHosts: map[string]*k.Host{
			"p.test": (&k.Host{Proxy: true, Rules: map[string]string{"p.test": "http://up"}, ProxyMethods: []string{"GET"}}).Unlimited()}}
		s := w.Start(c)
		s.Up.Respond = func(k.UpReq) (*http.Response, error) {
			return &http.Response{StatusCode: 302, Header: http.Header{"Strict-Transport-Security": {"max-age=1", "max-age=2"}}, Body: io.NopCloser(strings.NewReader("x"))}, nil
		}
		for _, h := range []string{"p.test", "other"} {
			r := s.Get(h, "/")
			if bad := c.BadHSTS(r.Header.Values("Strict-Transport-Security")); bad != "" {
				t.Fatalf("%s: %s", h, bad)
			}
		}
	})
	vt.Check(t, 1800, 15000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		for _, name := range ew.hosts {
			h := &ew.conf.Main
			if ew.conf.VHosts != nil {
				h = ew.conf.VHosts[name]
			}
			if !h.Proxy {
				h.Headers = genHeaders(rt)
			}
		}
		if ew.conf.VHosts != nil {
			ew.conf.Main.Headers = genHeaders(rt)
		}
		text := ew.String()
		vt.Note(text)
		s := w.Start(ew.conf)
		m := k.NewModel(ew.conf)
		var log []string
		local := 0
		for i := n(rt, "requests", 5, 40); i > 0; i-- {
			q := ew.genReq(rt)
			mode := n(rt, "up", 0, 3)
			s.Up.Respond = nil
			switch mode {
			case 0:
				s.Up.Respond = refuse
			case 1:
				s.Up.Respond = func(k.UpReq) (*http.Response, error) {
					h := http.Header{"X-Up": {"1"}}
					if ew.conf.TLS {
						h["Strict-Transport-Security"] = []string{"max-age=1", "max-age=7"}
					}
					return &http.Response{StatusCode: 302, Header: h, Body: io.NopCloser(strings.NewReader("moved"))}, nil
				}
			}
			log = append(log, fmt.Sprintf("%s up=%d", q, mode))
			vt.Note(text + "\n" + strings.Join(log, "\n"))
			pr, err := q.Parse()
			if err != nil {
				continue
			}
			r := s.Do(q)
			d := m.Decide(q, pr, r.Path)
			c.Labelf("answer %d %s", r.Status, d.Kind)
			bad := r.Fatal()
			if bad == "" {
				bad = ew.conf.BadHSTS(r.Header.Values("Strict-Transport-Security"))
			}
			if bad == "" && !(d.Status == 200 && d.Kind == "proxy" && mode != 0) {
				local++
				var served *bool
				own := ew.conf.HostConf(r.HostNam).Headers
				if ew.conf.VHosts == nil {
					own = ew.conf.Main.Headers
				}
				switch {
				case d.Status != 200 || r.Status >= 400 && r.Status != 416 && r.Status != 412:
					served = &no
				case d.Kind == "metrics":
					own = nil
					served = &no
				case r.Status == 200 || r.Status == 206:
					served = &yes
				}
				bad = checkHeaders(r, own, served, d.Kind == "metrics")
			}
			if bad != "" {
				rt.Fatalf("%s\n%s answered %d\nconfig %s\nhistory\n%s", bad, q, r.Status, text, strings.Join(log, "\n"))
			}
		}
		c.NonTrivial(local > 0)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}
