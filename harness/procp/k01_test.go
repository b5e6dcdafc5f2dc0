package procp

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/redmaner/MaguroHTTP/tuna"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// The documented settings and their kinds: s string, i int, b bool, f float,
// l list, m string map, r map of lists.
var coreSettings = map[string]string{
	"Core.Address": "s", "Core.Port": "s", "Core.FileDir": "s", "Core.LogLevel": "i", "Core.LogOut": "s",
	"Core.ReadTimeout": "i", "Core.ReadHeaderTimeout": "i", "Core.WriteTimeout": "i",
	"Core.WebDAV": "b", "Core.VirtualHosting": "b", "Core.VirtualHosts": "m",
	"Core.TLS.Enabled": "b", "Core.TLS.TLSCert": "s", "Core.TLS.TLSKey": "s", "Core.TLS.PrivateCA": "l",
	"Core.TLS.AutoCert.Enabled": "b", "Core.TLS.AutoCert.Certificates": "l",
	"Core.TLS.HSTS.MaxAge": "i", "Core.TLS.HSTS.Preload": "b", "Core.TLS.HSTS.IncludeSubdomains": "b",
	"Core.Metrics.Enabled": "b", "Core.Metrics.Path": "s", "Core.Metrics.Out": "s", "Core.Metrics.Users": "m",
}

var hostSettings = map[string]string{
	"Serve.ServeDir": "s", "Serve.ServeIndex": "s", "Serve.Headers": "m", "Serve.Methods": "m",
	"Serve.MIMETypes.ResponseTypes": "m", "Serve.MIMETypes.RequestTypes": "m",
	"Serve.Download.Enabled": "b", "Serve.Download.Exts": "l",
	"Errors":        "m",
	"Proxy.Enabled": "b", "Proxy.Rules": "m", "Proxy.Methods": "l", "Proxy.Headers": "m",
	"Guard.Rate": "f", "Guard.RateBurst": "i", "Guard.FilterOnIP": "b",
	"Guard.Firewall.Enabled": "b", "Guard.Firewall.Blacklisting": "b", "Guard.Firewall.Subpath": "b", "Guard.Firewall.Rules": "r",
}

func defaults(vhost bool) tuna.Config {
	var c tuna.Config
	c.Guard.Rate = 100
	c.Guard.RateBurst = 50
	if !vhost {
		c.Core.Port = "80"
		c.Core.FileDir = "/usr/lib/magurohttp/"
		c.Core.ReadTimeout = 30
		c.Core.ReadHeaderTimeout = 8
		c.Core.WriteTimeout = 30
		c.Core.TLS.HSTS.MaxAge = 31557600
	}
	return c
}

func names(ms ...map[string]string) []string {
	var r []string
	for _, m := range ms {
		for k := range m {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

var texts = []string{"", "a", "example.com", "/srv/www", "/srv/www/", "./rel", "true", "false", "0", "12", "-1", "null", "x y", " lead", "trail ", "a\"b", "a\\b", "c:\\dir\\", "tab\there", "two\nlines", "ünï", "日本", "#no comment", "// no comment", "/* no */", "{}", "[1]", "a = b", "a,b", "default-src 'self'; img-src *", "GET;POST", "$x", "%24{x}", "{x}", "<<EOF", "é\"\\ü", "127.0.0.1", "::1", "https://u:p@h:1/x?y#z", "*", "'", "`", "\\n", "\\u0041", "a/b/../c", "..", "0x10", "1e3", ".zip", "=", "x{", "}", "\\\\", "\"", "\\\""}

func text(rt *rapid.T) string {
	if chance(rt, "longtext", 12) {
		return strings.Repeat(pick(rt, "unit", "ab", "é", "\"", "\\", "a b "), n(rt, "len", 1, 400))
	}
	return rapid.SampledFrom(texts).Draw(rt, "text")
}

var keys = []string{"a", "/", "/x", "/x/y.html", "localhost", "127.0.0.1", "example.com", "404", "500", "X-Frame-Options", "content-security-policy", "a b", "key\"q", "ünï", "/trail/", "[::1]", "text/html", "*", "#", "a=b", "a.b.c", "0", "true", "Enabled", "Core", "back\\slash", "/ü/日本", "A", "_", "-"}

func genKeys(rt *rapid.T) []string {
	m := map[string]bool{}
	for i := n(rt, "keys", 0, 4); i > 0; i-- {
		m[rapid.SampledFrom(keys).Draw(rt, "key")] = true
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func genList(rt *rapid.T) []string {
	l := []string{}
	for i := n(rt, "items", 0, 4); i > 0; i-- {
		l = append(l, text(rt))
	}
	return l
}

var ints = []int{0, 1, -1, 2, 3, 7, 30, 50, 99, 100, 443, 31557600, 63072000, 2147483647, -30, 5}

// gen draws a value of the kind: what is written and what is meant.
func gen(rt *rapid.T, kind string) (interface{}, interface{}) {
	switch kind {
	case "s":
		s := text(rt)
		return s, s
	case "i":
		v := rapid.SampledFrom(ints).Draw(rt, "int")
		if chance(rt, "quoted", 6) {
			return fmt.Sprint(v), v
		}
		return v, v
	case "b":
		v := rapid.Bool().Draw(rt, "bool")
		return v, v
	case "f":
		v := rapid.SampledFrom([]float64{0, 1, 0.5, 100, 12.25, 0.001, 1000000, 59.999, 50}).Draw(rt, "float")
		return v, v
	case "l":
		l := genList(rt)
		return l, l
	case "m":
		m := map[string]string{}
		for _, k := range genKeys(rt) {
			m[k] = text(rt)
		}
		return m, m
	}
	m := map[string][]string{}
	for _, k := range genKeys(rt) {
		m[k] = genList(rt)
	}
	return m, m
}

func field(c *tuna.Config, name string) reflect.Value {
	v := reflect.ValueOf(c).Elem()
	for _, p := range strings.Split(name, ".") {
		v = v.FieldByName(p)
		if !v.IsValid() {
			vt.Harness("no setting %s", name)
		}
	}
	return v
}

func set(c *tuna.Config, name string, v interface{}) {
	f := field(c, name)
	f.Set(reflect.ValueOf(v).Convert(f.Type()))
}

// show writes the configuration in a form that is the same for equal settings.
func show(c *tuna.Config, names []string) string {
	var b strings.Builder
	for _, nm := range names {
		v := field(c, nm).Interface()
		switch x := v.(type) {
		case map[string]string:
			fmt.Fprintf(&b, "%s = %q\n", nm, fmt.Sprintf("%q", x))
		case map[string][]string:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			fmt.Fprintf(&b, "%s = ", nm)
			for _, k := range ks {
				fmt.Fprintf(&b, "%q: [%q] ", k, x[k])
			}
			b.WriteString("\n")
		case []string:
			fmt.Fprintf(&b, "%s = %d %q\n", nm, len(x), x)
		default:
			fmt.Fprintf(&b, "%s = %#v\n", nm, v)
		}
	}
	return b.String()
}

func differ(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range w {
		if i >= len(g) || g[i] != w[i] {
			return fmt.Sprintf("got  %s\nwant %s", g[i], w[i])
		}
	}
	return ""
}

// TestK01Load: any settings, read into the defaults.
func TestK01Load(t *testing.T) {
	all := names(coreSettings, hostSettings)
	kinds := map[string]string{}
	for k, v := range coreSettings {
		kinds[k] = v
	}
	for k, v := range hostSettings {
		kinds[k] = v
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	vt.Check(t, 500, 12000, func(rt *rapid.T, c *vt.Case) {
		vhost := rapid.Bool().Draw(rt, "vhost")
		o := obj{}
		want := defaults(vhost)
		dense := n(rt, "density", 1, 8)
		mentioned := 0
		for _, nm := range all {
			if !chance(rt, "mention "+nm, dense) {
				continue
			}
			mentioned++
			w, v := gen(rt, kinds[nm])
			put(o, nm, w)
			set(&want, nm, v)
		}
		hcl := rapid.Bool().Draw(rt, "hcl")
		p := filepath.Join(dir, pick(rt, "file", "c.json", "c.hcl", "config", "c.conf"))
		src := write(rt, p, o, hcl)
		vt.Note(src)
		got := tuna.NewConfig()
		if vhost {
			got = tuna.NewVhostConfig()
		}
		tuna.LoadConfigFromFile(p, &got)
		c.Desc(src)
		c.NonTrivial(mentioned >= 2)
		c.Label(map[bool]string{true: "HCL", false: "JSON"}[hcl])
		c.LabelIf(mentioned == 0, "empty")
		if d := differ(show(&got, all), show(&want, all)); d != "" {
			rt.Fatalf("setting differs (virtual host: %v):\n%s\nfile:\n%s", vhost, d, src)
		}
	})
}

func slashed(s string) string {
	if s != "" && !strings.HasSuffix(s, "/") {
		s += "/"
	}
	return s
}

// genHost draws valid settings of a host.
func genHost(rt *rapid.T, dir, own string, webdav bool) (obj, func(*tuna.Config)) {
	o := obj{}
	var sets []func(*tuna.Config)
	note := func(nm string, w, v interface{}) {
		put(o, nm, w)
		sets = append(sets, func(c *tuna.Config) { set(c, nm, v) })
	}
	dense := n(rt, "hostdensity", 1, 6)
	for _, nm := range names(hostSettings) {
		if !chance(rt, "mention "+nm, dense) {
			continue
		}
		switch nm {
		case "Serve.ServeDir", "Serve.ServeIndex", "Serve.Methods", "Serve.Download.Enabled", "Proxy.Enabled", "Proxy.Rules", "Proxy.Methods":
			continue
		}
		w, v := gen(rt, hostSettings[nm])
		note(nm, w, v)
	}
	methods := []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT"}
	if webdav {
		methods = append(methods, "PROPFIND", "MKCOL", "LOCK", "UNLOCK", "COPY", "MOVE", "PROPPATCH")
	}
	some := func(label string) []string {
		return rapid.SliceOfNDistinct(rapid.SampledFrom(methods), 1, 3, func(s string) string { return s }).Draw(rt, label)
	}
	d := filepath.Join(dir, pick(rt, "dir", "www", "x", "a b"))
	if chance(rt, "odd dir", 4) {
		d = pick(rt, "which dir", dir+"/../x", dir+"//www", dir+"/./www", "relative", "./relative", "../relative", ".", "..", "~/www", "$HOME", "C:", " "+dir, dir+" ", "//host/share", "file:///srv", "ü", "a\\")
	}
	if rapid.Bool().Draw(rt, "dirslash") {
		d += "/"
	}
	mode := pick(rt, "mode", "serve", "serve", "download", "proxy", "none", "proxy+dir")
	if mode == "proxy" || mode == "proxy+dir" {
		note("Proxy.Enabled", true, true)
		r := map[string]string{}
		for i := n(rt, "rules", 1, 3); i > 0; i-- {
			r[pick(rt, "rulehost", "a.test", "b.test", own, "127.0.0.1")] = pick(rt, "target", "http://127.0.0.1:9", "https://up.test", "http://x")
		}
		delete(r, "")
		if len(r) == 0 {
			r["a.test"] = "http://127.0.0.1:9"
		}
		note("Proxy.Rules", r, r)
		if rapid.Bool().Draw(rt, "hasmethods") {
			m := some("pmethods")
			note("Proxy.Methods", m, m)
		}
	} else if chance(rt, "proxyoff", 3) {
		note("Proxy.Enabled", false, false)
	}
	if mode == "serve" || mode == "download" || mode == "proxy+dir" {
		note("Serve.ServeDir", d, slashed(d))
		ix := pick(rt, "index", "index.html", "i.htm", "x y.html")
		if chance(rt, "odd index", 3) {
			ix = pick(rt, "which index", "/index.html", "./index.html", "../index.html", "sub/index.html", "/sub/index.html", "index.html/", "index", "INDEX.HTML", " index.html", "index.html ", ".html", "//", ".", "index.html;index.htm", "index.html, index.htm", "ü.html", "%69ndex.html", "a\\b")
		}
		note("Serve.ServeIndex", ix, ix)
	}
	if mode == "serve" {
		m := map[string]string{}
		for i := n(rt, "paths", 1, 4); i > 0; i-- {
			m[pick(rt, "mpath", "/", "/a", "/a/", "/b/c", "/ü/", "/x y")] = strings.Join(some("methods"), ";")
		}
		note("Serve.Methods", m, m)
	}
	if mode == "download" {
		note("Serve.Download.Enabled", true, true)
	}
	return o, func(c *tuna.Config) {
		for _, f := range sets {
			f(c)
		}
	}
}

// TestK01Instance: the settings a created server works with.
func TestK01Instance(t *testing.T) {
	host := names(hostSettings)
	all := names(coreSettings, hostSettings)
	vt.Check(t, 120, 3000, func(rt *rapid.T, c *vt.Case) {
		dir := scratch()
		defer os.RemoveAll(dir)
		o := obj{}
		want := defaults(false)
		note := func(nm string, w, v interface{}) {
			put(o, nm, w)
			set(&want, nm, v)
		}
		dense := n(rt, "density", 1, 5)
		webdav := chance(rt, "webdav", 3)
		vhosting := rapid.Bool().Draw(rt, "vhosting")
		for _, nm := range names(coreSettings) {
			switch nm {
			case "Core.FileDir", "Core.LogOut", "Core.LogLevel", "Core.VirtualHosting", "Core.VirtualHosts", "Core.WebDAV", "Core.TLS.Enabled", "Core.Metrics.Enabled", "Core.Metrics.Path", "Core.Metrics.Out", "Core.Port", "Core.TLS.AutoCert.Enabled":
				continue
			}
			if chance(rt, "mention "+nm, dense) {
				w, v := gen(rt, coreSettings[nm])
				note(nm, w, v)
			}
		}
		fd := filepath.Join(dir, "fd")
		if rapid.Bool().Draw(rt, "fdslash") {
			fd += "/"
		}
		note("Core.FileDir", fd, slashed(fd))
		lo := pick(rt, "logout", "stderr", "stdout", filepath.Join(dir, "log"))
		note("Core.LogOut", lo, lo)
		if rapid.Bool().Draw(rt, "haslevel") {
			l := n(rt, "level", 0, 3)
			note("Core.LogLevel", l, l)
		}
		if rapid.Bool().Draw(rt, "hasport") {
			p := pick(rt, "port", "80", "8080", "443", "http", ":80", "0", "080", " 80", "0x50", "https", "99999", "127.0.0.1:80")
			note("Core.Port", p, p)
		}
		if webdav || chance(rt, "webdavoff", 3) {
			note("Core.WebDAV", webdav, webdav)
		}
		if chance(rt, "tls", 3) {
			note("Core.TLS.Enabled", true, true)
			for _, nm := range []string{"Core.TLS.TLSCert", "Core.TLS.TLSKey"} {
				f := pick(rt, nm, "c", "k", "/etc/x/c.pem", "./c.pem", "../c.pem", "certs/c.pem", "/c/", "c d.pem", "ü", ".", "c\\k", "~/c.pem")
				note(nm, f, f)
			}
			if chance(rt, "autocert", 3) {
				note("Core.TLS.AutoCert.Enabled", true, true)
				l := []string{"a.test", "b.test"}
				note("Core.TLS.AutoCert.Certificates", l, l)
				note("Core.Port", "443", "443")
			}
		}
		if chance(rt, "metrics", 4) {
			note("Core.Metrics.Enabled", true, true)
			mp := pick(rt, "mpath", "/metrics", "/metrics", "/metrics/", "/a/b", "/m x", "/ü", "/M", "/metrics?x", "/%6d")
			note("Core.Metrics.Path", mp, mp)
			out := dir + "/" + pick(rt, "mout", "m.json", "m.json", "m", "a b.json", "./m.json", "fd/../m.json", "/m.json", "ü", "m.json ", "m\\n")
			note("Core.Metrics.Out", out, out)
		}
		mo, mset := genHost(rt, dir, "", webdav)
		for k, v := range mo {
			o[k] = v
		}
		mset(&want)

		type vh struct {
			name string
			want tuna.Config
		}
		var vhs []vh
		src := ""
		hcl := rapid.Bool().Draw(rt, "hcl")
		if vhosting {
			m := map[string]string{}
			for i, nm := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a.test", "b.test", "c.test", "127.0.0.1"}), 1, 3, func(s string) string { return s }).Draw(rt, "vhosts") {
				vo, vset := genHost(rt, dir, nm, webdav)
				if chance(rt, "vhostcore", 4) { // ignored in a virtual host
					put(vo, "Core.Port", "99")
					put(vo, "Core.FileDir", "/nowhere")
					put(vo, "Core.VirtualHosting", false)
				}
				w := defaults(true)
				vset(&w)
				p := filepath.Join(dir, fmt.Sprintf("v%d.conf", i))
				src += nm + ":\n" + write(rt, p, vo, rapid.Bool().Draw(rt, "vhcl"))
				m[nm] = p
				vhs = append(vhs, vh{nm, w})
			}
			note("Core.VirtualHosting", true, true)
			note("Core.VirtualHosts", m, m)
		} else if chance(rt, "vhostingoff", 3) {
			note("Core.VirtualHosting", false, false)
			note("Core.VirtualHosts", map[string]string{"x": "/nonexistent"}, map[string]string{"x": "/nonexistent"})
		}
		p := filepath.Join(dir, "main.conf")
		src = write(rt, p, o, hcl) + src
		vt.Note(src)
		c.Desc(strings.ReplaceAll(src, dir, "DIR"))
		c.NonTrivial(true)
		c.Label(map[bool]string{true: "HCL", false: "JSON"}[hcl])
		c.LabelIf(vhosting, "virtual hosts")

		s := tuna.NewInstanceFromConfig(p)
		// Directories nothing is served from may stay as written.
		got := s.Cfg
		if vhosting || want.Proxy.Enabled || !(want.Serve.Download.Enabled || len(want.Serve.Methods) > 0) {
			got.Serve.ServeDir = slashed(got.Serve.ServeDir)
		}
		if d := differ(show(&got, all), show(&want, all)); d != "" {
			rt.Fatalf("setting differs:\n%s\nfile:\n%s", d, src)
		}
		if len(s.Vhosts) != len(vhs) {
			rt.Fatalf("%d virtual hosts, want %d\n%s", len(s.Vhosts), len(vhs), src)
		}
		for _, v := range vhs {
			got, ok := s.Vhosts[v.name]
			if !ok {
				rt.Fatalf("no virtual host %q\n%s", v.name, src)
			}
			if v.want.Proxy.Enabled {
				got.Serve.ServeDir = slashed(got.Serve.ServeDir)
			}
			if d := differ(show(&got, host), show(&v.want, host)); d != "" {
				rt.Fatalf("setting of virtual host %s differs:\n%s\n%s", v.name, d, src)
			}
		}
	})
}
