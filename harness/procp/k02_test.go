package procp

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

const started = "VT-SERVER-CREATED"

func init() {
	children["config"] = func() {
		tuna.NewInstanceFromConfig(os.Getenv("VT_CONF"))
		fmt.Println(started)
		os.Exit(0)
	}
}

// confSpec is a configuration with the reasons, if any, for which it is invalid.
type confSpec struct {
	rt     *rapid.T
	dir    string
	webdav bool
	bad    []string
	// defects to plant, one out of so many places
	rate    int
	planted int
}

func (s *confSpec) wrong(reason string) bool {
	if s.rate > 0 && s.planted < 2 && chance(s.rt, "defect: "+reason, s.rate) {
		s.planted++
		return true
	}
	return false
}

func (s *confSpec) invalid(reason string) { s.bad = append(s.bad, reason) }

var plainMethods = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT"}
var davMethods = []string{"PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"}

// methods draws a method list that is used for routing.
func (s *confSpec) methods() []string {
	var ms []string
	for i := n(s.rt, "methods", 1, 3); i > 0; i-- {
		if s.webdav && chance(s.rt, "dav", 3) {
			ms = append(ms, rapid.SampledFrom(davMethods).Draw(s.rt, "davmethod"))
		} else {
			ms = append(ms, rapid.SampledFrom(plainMethods).Draw(s.rt, "method"))
		}
	}
	if s.wrong("unknown method") {
		bad := []string{"FOO", "get", "TRACE", "Get", "GETT", "GE T", "*", "SEARCH", "GET,POST", " GET", "GET ", "Propfind"}
		if !s.webdav {
			bad = append(bad, davMethods...)
		}
		i := n(s.rt, "where", 0, len(ms))
		ms = append(ms[:i:i], append([]string{rapid.SampledFrom(bad).Draw(s.rt, "badmethod")}, ms[i:]...)...)
		s.invalid("unknown method")
	}
	return ms
}

// host draws the settings of a host; routed tells whether they are used.
func (s *confSpec) host(o obj, own string, routed bool) {
	rt := s.rt
	note := func(why string) {
		if routed {
			s.invalid(why)
		}
	}
	mode := pick(rt, "mode", "serve", "serve", "download", "proxy", "none")
	dir := func() {
		if s.wrong("no ServeDir") {
			if rapid.Bool().Draw(rt, "empty") {
				put(o, "Serve.ServeDir", "")
			}
			note("no ServeDir")
		} else {
			put(o, "Serve.ServeDir", s.dir+pick(rt, "root", "/www", "/www/", "/missing"))
		}
		if s.wrong("no ServeIndex") {
			if rapid.Bool().Draw(rt, "empty") {
				put(o, "Serve.ServeIndex", "")
			}
			note("no ServeIndex")
		} else {
			put(o, "Serve.ServeIndex", "index.html")
		}
	}
	switch mode {
	case "serve":
		dir()
		m := map[string]string{}
		k := len(s.bad)
		for i := n(rt, "paths", 1, 3); i > 0; i-- {
			m[pick(rt, "path", "/", "/a", "/a/b")+strings.Repeat("x", i)] = strings.Join(s.methods(), ";")
		}
		if !routed {
			s.bad = s.bad[:k]
		}
		put(o, "Serve.Methods", m)
	case "download":
		dir()
		put(o, "Serve.Download.Enabled", true)
		if rapid.Bool().Draw(rt, "exts") {
			put(o, "Serve.Download.Exts", []string{".zip"})
		}
	case "proxy":
		put(o, "Proxy.Enabled", true)
		r := map[string]string{}
		if s.wrong("no proxy rules") {
			note("no proxy rules")
			if rapid.Bool().Draw(rt, "empty") {
				put(o, "Proxy.Rules", r)
			}
		} else {
			name := own
			if name == "" {
				name = "p.test"
			}
			r[name] = "http://127.0.0.1:9"
			if rapid.Bool().Draw(rt, "second") {
				r["q.test"] = "https://127.0.0.1:9"
			}
			put(o, "Proxy.Rules", r)
			if chance(rt, "pmethods", 2) {
				k := len(s.bad)
				put(o, "Proxy.Methods", s.methods())
				if !routed {
					s.bad = s.bad[:k]
				}
			}
		}
		if rapid.Bool().Draw(rt, "dirtoo") {
			put(o, "Serve.ServeDir", s.dir+"/www")
		}
	case "none":
		if rapid.Bool().Draw(rt, "dirtoo") {
			put(o, "Serve.ServeDir", s.dir+"/www")
		}
	}
	if rapid.Bool().Draw(rt, "guard") {
		put(o, "Guard.Rate", 10)
		put(o, "Guard.Firewall.Enabled", rapid.Bool().Draw(rt, "fw"))
	}
	if chance(rt, "errors", 3) {
		put(o, "Errors", map[string]string{"404": s.dir + "/missing.html"})
	}
}

func (s *confSpec) core(o obj, tls bool) {
	rt := s.rt
	switch {
	case s.wrong("Port empty"):
		put(o, "Core.Port", "")
		s.invalid("Port empty")
	case rapid.Bool().Draw(rt, "hasport"):
		put(o, "Core.Port", pick(rt, "port", "80", "8080", "http"))
	}
	if s.wrong("LogOut") {
		s.invalid("LogOut")
		switch n(rt, "how", 0, 3) {
		case 0:
			put(o, "Core.LogOut", "")
		case 1:
			put(o, "Core.LogOut", s.dir+"/missing/log")
		case 2:
			put(o, "Core.LogOut", s.dir+"/w")
		}
	} else {
		put(o, "Core.LogOut", pick(rt, "logout", "stdout", "stderr", s.dir+"/w/log"))
	}
	if s.wrong("LogLevel") {
		s.invalid("LogLevel")
		put(o, "Core.LogLevel", rapid.SampledFrom([]int{-1, 4, -2, 5, 100, -2147483648, 99999}).Draw(rt, "badlevel"))
	} else if rapid.Bool().Draw(rt, "haslevel") {
		put(o, "Core.LogLevel", n(rt, "level", 0, 3))
	}
	if s.wrong("FileDir") {
		s.invalid("FileDir")
		put(o, "Core.FileDir", pick(rt, "badfiledir", "", "/", "//", "/.", "/./", "/..", "/x/..", "/x/../", "///", "/../.."))
	} else {
		put(o, "Core.FileDir", s.dir+"/w/fd"+pick(rt, "fdslash", "", "/"))
	}
	if s.webdav || chance(rt, "davoff", 3) {
		put(o, "Core.WebDAV", s.webdav)
	}
	if tls {
		put(o, "Core.TLS.Enabled", true)
		auto := chance(rt, "autocert", 2)
		if auto {
			put(o, "Core.TLS.AutoCert.Enabled", true)
			if s.wrong("autocert without certificates") {
				s.invalid("autocert without certificates")
				if rapid.Bool().Draw(rt, "empty") {
					put(o, "Core.TLS.AutoCert.Certificates", []string{})
				}
			} else {
				put(o, "Core.TLS.AutoCert.Certificates", []string{"a.test"})
			}
			core := o["Core"].(obj)
			switch {
			case core["Port"] == "":
			case s.wrong("autocert port"):
				s.invalid("autocert port")
				put(o, "Core.Port", pick(rt, "wrongport", "80", "8443", "4430", "44", "https", "0443"))
			default:
				put(o, "Core.Port", "443")
			}
			if rapid.Bool().Draw(rt, "certtoo") {
				put(o, "Core.TLS.TLSCert", "c")
			}
		} else {
			if rapid.Bool().Draw(rt, "autolist") {
				put(o, "Core.TLS.AutoCert.Certificates", []string{"a.test"})
			}
			for _, f := range []string{"Core.TLS.TLSCert", "Core.TLS.TLSKey"} {
				if s.wrong("no " + f) {
					s.invalid("no " + f)
					if rapid.Bool().Draw(rt, "empty") {
						put(o, f, "")
					}
				} else {
					put(o, f, s.dir+"/some")
				}
			}
		}
	} else {
		if chance(rt, "tlsoff", 3) {
			put(o, "Core.TLS.Enabled", false)
			put(o, "Core.TLS.AutoCert.Enabled", rapid.Bool().Draw(rt, "autooff"))
		}
	}
	if chance(rt, "metrics", 3) {
		put(o, "Core.Metrics.Enabled", true)
		put(o, "Core.Metrics.Path", "/metrics")
		put(o, "Core.Metrics.Out", s.dir+"/w/metrics.json")
		if rapid.Bool().Draw(rt, "users") {
			put(o, "Core.Metrics.Users", map[string]string{"a": "b"})
		}
	}
}

// spoil makes a syntax error. (The JSON reader of the HCL library accepts some
// files that end too early or go on after their end; those are not generated.)
func spoil(rt *rapid.T, src string) string {
	return pick(rt, "syntax", "@\n", "Core = = 1\n", "{{", "\"", "Core {\n x = = 1 }\n", "[") + src
}

// generate writes a configuration and gives its path and its source.
func (s *confSpec) generate(tls bool, extra func(obj)) (string, string) {
	rt := s.rt
	o := obj{}
	s.webdav = chance(rt, "webdav", 3)
	s.core(o, tls)
	vhosting := chance(rt, "vhosting", 3)
	s.host(o, "", !vhosting)
	hcl := rapid.Bool().Draw(rt, "hcl")
	all := ""
	if vhosting {
		put(o, "Core.VirtualHosting", true)
		m := map[string]string{}
		if s.wrong("no virtual hosts") {
			s.invalid("no virtual hosts")
		} else {
			for i := n(rt, "vhosts", 1, 3); i > 0; i-- {
				name := fmt.Sprintf("v%d.test", i)
				p := fmt.Sprintf("%s/v%d.conf", s.dir, i)
				if len(m) > 0 && chance(rt, "samefile", 4) {
					for _, first := range []string{"v3.test", "v2.test"} {
						if f, ok := m[first]; ok {
							m[name] = f
							all += fmt.Sprintf("%s has the file of %s\n", name, first)
							break
						}
					}
					continue
				}
				vo := obj{}
				s.host(vo, name, true)
				if s.wrong("nested") {
					s.invalid("nested virtual hosting")
					put(vo, "Core.VirtualHosting", true)
					if rapid.Bool().Draw(rt, "nestedlist") {
						put(vo, "Core.VirtualHosts", map[string]string{"n.test": p})
					}
				}
				h := rapid.Bool().Draw(rt, "vhcl")
				src := write(rt, p, vo, h)
				switch {
				case s.wrong("vhost file missing"):
					s.invalid("missing virtual host file")
					os.Remove(p)
				case s.wrong("vhost file empty name"):
					s.invalid("empty virtual host file name")
					p = ""
				case s.wrong("vhost file broken"):
					s.invalid("broken virtual host file")
					src = spoil(rt, src)
					vt.Must(os.WriteFile(p, []byte(src), 0o644))
				case os.Getuid() == 0 && s.wrong("vhost file unreadable"):
					s.invalid("unreadable virtual host file")
					vt.Must(os.Chmod(p, 0))
				}
				m[name] = p
				all += fmt.Sprintf("%s %s:\n%s", name, p, src)
			}
		}
		if len(m) > 0 || rapid.Bool().Draw(rt, "emptymap") {
			put(o, "Core.VirtualHosts", m)
		}
	} else if chance(rt, "vhostingoff", 4) {
		put(o, "Core.VirtualHosting", false)
		put(o, "Core.VirtualHosts", map[string]string{"x": s.dir + "/missing.conf"})
	}
	if extra != nil {
		extra(o)
	}
	p := filepath.Join(s.dir, pick(rt, "file", "c.json", "c.hcl"))
	src := write(rt, p, o, hcl)
	switch {
	case s.wrong("file missing"):
		s.invalid("missing file")
		os.Remove(p)
	case s.wrong("file broken"):
		s.invalid("broken file")
		src = spoil(rt, src)
		vt.Must(os.WriteFile(p, []byte(src), 0o644))
	}
	return p, src + all
}

func newSpec(rt *rapid.T) *confSpec {
	s := &confSpec{rt: rt, dir: scratch(), rate: rapid.SampledFrom([]int{0, 4, 12, 30, 60}).Draw(rt, "rate")}
	open(s.dir + "/w")
	vt.Must(os.Mkdir(s.dir+"/www", 0o755))
	vt.Must(os.WriteFile(s.dir+"/some", []byte("x"), 0o644))
	return s
}

func (s *confSpec) label(c *vt.Case, src string) {
	sort.Strings(s.bad)
	c.Desc(strings.ReplaceAll(src, s.dir, "DIR") + strings.Join(s.bad, ", "))
	c.NonTrivial(true)
	c.LabelIf(len(s.bad) == 0, "valid")
	for _, b := range s.bad {
		c.Label("invalid: " + b)
	}
	c.LabelIf(len(s.bad) > 1, "several defects")
}

func TestK02(t *testing.T) {
	vt.Check(t, 400, 6000, func(rt *rapid.T, c *vt.Case) {
		s := newSpec(rt)
		defer os.RemoveAll(s.dir)
		p, src := s.generate(rapid.Bool().Draw(rt, "tls"), nil)
		s.label(c, src)
		vt.Note(src)
		pr := child(s.dir, "config", "VT_CONF="+p)
		if !pr.within(60 * time.Second) {
			pr.kill()
			rt.Fatalf("no decision within a minute\n%s\n%s", src, tail(pr.out.String()))
		}
		ok := strings.Contains(pr.out.String(), started) && pr.code() == 0
		if ok != (len(s.bad) == 0) {
			rt.Fatalf("server created: %v (exit %d), reasons against: %q\n%s\noutput: %s", ok, pr.code(), s.bad, src, tail(pr.out.String()))
		}
		if !ok && pr.code() == 0 {
			rt.Fatalf("the process refused the configuration but ended with success: %q\n%s", s.bad, src)
		}
		if !ok && pr.code() < 0 {
			rt.Fatalf("the process died: %v\n%s\n%s", pr.err, src, tail(pr.out.String()))
		}
	})
}

// TestK02Server: the same with the real program: it listens or it ends.
func TestK02Server(t *testing.T) {
	vt.Check(t, 80, 1500, func(rt *rapid.T, c *vt.Case) {
		s := newSpec(rt)
		defer os.RemoveAll(s.dir)
		addr := nextAddr()
		p, src := s.generate(false, func(o obj) {
			put(o, "Core.Address", addr)
			if core := o["Core"].(obj); core["Port"] != "" {
				put(o, "Core.Port", "8080")
			}
		})
		s.label(c, strings.ReplaceAll(src, addr, "ADDR"))
		vt.Note(src)
		pr := launch(s.dir, false, nil, serverBinary(), p)
		defer pr.kill()
		up := pr.listening(rt, addr+":8080")
		if up != (len(s.bad) == 0) {
			rt.Fatalf("listening: %v, reasons against: %q\n%s\noutput: %s", up, s.bad, src, tail(pr.out.String()))
		}
		if !up {
			if pr.code() == 0 {
				rt.Fatalf("the program refused the configuration but ended with success: %q\n%s", s.bad, src)
			}
			return
		}
		conn, err := net.DialTimeout("tcp", addr+":8080", 30*time.Second)
		if err != nil {
			rt.Fatalf("listening but not connectable: %v\n%s", err, src)
		}
		conn.Close()
	})
}
