// Package srvkit starts MaguroHTTP servers in this process from generated
// configuration files, sends them requests, and predicts from the generated
// configuration alone how a request has to be decided.
package srvkit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/vt"
)

// Firewall settings of one host.
type Firewall struct {
	Enabled, Blacklisting, Subpath bool
	Rules                          map[string][]string
}

// Host is the configuration of one (virtual) host.
type Host struct {
	Dir, Index string
	Headers    map[string]string
	Methods    map[string]string
	ReqTypes   map[string]string
	RespTypes  map[string]string

	Download bool
	Exts     []string

	Proxy        bool
	Rules        map[string]string
	ProxyMethods []string
	ProxyHeaders map[string]string

	Errors map[string]string

	Rate       float64
	Burst      int
	FilterOnIP bool
	FW         Firewall
}

// Conf is a whole configuration.
type Conf struct {
	Main   Host
	VHosts map[string]*Host // nil: no virtual hosting

	TLS                    bool
	HSTSMaxAge             int // 0: not set, -1: set to 0
	HSTSPreload, HSTSSubs  bool
	Metrics                bool
	MetricsPath            string
	MetricsOut             string
	MetricsUsers           map[string]string
	WebDAV                 bool
	LogLevel               int
	LogOut                 string
	FileDir                string
	Address, Port          string
	Cert, Key              string
	ReadTimeout, WriteTime int
	HeaderTimeout          int
}

type obj = map[string]interface{}

func (h *Host) fill(o obj) {
	serve := obj{}
	if h.Dir != "" {
		serve["ServeDir"] = h.Dir
	}
	if h.Index != "" {
		serve["ServeIndex"] = h.Index
	}
	if len(h.Headers) > 0 {
		serve["Headers"] = h.Headers
	}
	if len(h.Methods) > 0 {
		serve["Methods"] = h.Methods
	}
	mt := obj{}
	if len(h.ReqTypes) > 0 {
		mt["RequestTypes"] = h.ReqTypes
	}
	if len(h.RespTypes) > 0 {
		mt["ResponseTypes"] = h.RespTypes
	}
	if len(mt) > 0 {
		serve["MIMETypes"] = mt
	}
	if h.Download {
		serve["Download"] = obj{"Enabled": true, "Exts": h.Exts}
	}
	if len(serve) > 0 {
		o["Serve"] = serve
	}
	if h.Proxy {
		p := obj{"Enabled": true}
		if len(h.Rules) > 0 {
			p["Rules"] = h.Rules
		}
		if len(h.ProxyMethods) > 0 {
			p["Methods"] = h.ProxyMethods
		}
		if len(h.ProxyHeaders) > 0 {
			p["Headers"] = h.ProxyHeaders
		}
		o["Proxy"] = p
	}
	if len(h.Errors) > 0 {
		o["Errors"] = h.Errors
	}
	g := obj{"Rate": h.Rate, "RateBurst": h.Burst}
	if h.FilterOnIP {
		g["FilterOnIP"] = true
	}
	if h.FW.Enabled {
		f := obj{"Enabled": true, "Blacklisting": h.FW.Blacklisting, "Subpath": h.FW.Subpath}
		if len(h.FW.Rules) > 0 {
			f["Rules"] = h.FW.Rules
		}
		g["Firewall"] = f
	}
	o["Guard"] = g
}

func writeJSON(path string, o obj) {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	vt.Must(e.Encode(o))
	vt.Must(os.WriteFile(path, b.Bytes(), 0o644))
}

// Write writes the configuration files into dir and returns the main one.
func (c *Conf) Write(dir string) string {
	core := obj{"Port": "8080", "LogLevel": c.LogLevel, "LogOut": c.LogOut, "FileDir": c.FileDir, "Address": "127.0.0.1"}
	if c.Address != "" {
		core["Address"] = c.Address
	}
	if c.Port != "" {
		core["Port"] = c.Port
	}
	if c.ReadTimeout != 0 {
		core["ReadTimeout"] = c.ReadTimeout
	}
	if c.WriteTime != 0 {
		core["WriteTimeout"] = c.WriteTime
	}
	if c.HeaderTimeout != 0 {
		core["ReadHeaderTimeout"] = c.HeaderTimeout
	}
	if c.WebDAV {
		core["WebDAV"] = true
	}
	if c.TLS {
		t := obj{"Enabled": true, "TLSCert": "unused.cert", "TLSKey": "unused.key"}
		if c.Cert != "" {
			t["TLSCert"], t["TLSKey"] = c.Cert, c.Key
		}
		hs := obj{}
		if c.HSTSMaxAge != 0 {
			hs["MaxAge"] = max(c.HSTSMaxAge, 0)
		}
		if c.HSTSPreload {
			hs["Preload"] = true
		}
		if c.HSTSSubs {
			hs["IncludeSubdomains"] = true
		}
		if len(hs) > 0 {
			t["HSTS"] = hs
		}
		core["TLS"] = t
	}
	if c.Metrics {
		m := obj{"Enabled": true, "Path": c.MetricsPath, "Out": c.MetricsOut}
		if len(c.MetricsUsers) > 0 {
			m["Users"] = c.MetricsUsers
		}
		core["Metrics"] = m
	}
	o := obj{"Core": core}
	if c.VHosts != nil {
		vh := map[string]string{}
		var names []string
		for n := range c.VHosts {
			names = append(names, n)
		}
		sort.Strings(names)
		for i, n := range names {
			p := filepath.Join(dir, fmt.Sprintf("vhost%d.json", i))
			vo := obj{}
			c.VHosts[n].fill(vo)
			writeJSON(p, vo)
			vh[n] = p
		}
		core["VirtualHosting"] = true
		core["VirtualHosts"] = vh
	}
	c.Main.fill(o)
	p := filepath.Join(dir, "config.json")
	writeJSON(p, o)
	return p
}

// Text is the written form of the configuration.
func (c *Conf) Text() string {
	b, err := json.Marshal(c)
	vt.Must(err)
	return string(b)
}

// Unlimited gives a host limits that are never reached.
func (h *Host) Unlimited() *Host {
	h.Rate, h.Burst = 6e7, 1000000000
	return h
}

// ------------------------------------------------------------- reference

// Canon is the canonical form of a path.
func Canon(p string) string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	r := "/" + strings.Join(out, "/")
	if strings.HasSuffix(p, "/") && r != "/" {
		r += "/"
	}
	return r
}

type route struct {
	fallback bool
	content  string
	owner    string // virtual host whose configuration made the route, "" main
	kind     string // serve download proxy metrics
}

type table map[string]map[string]map[string]route // host path method

func norm(p string) string {
	if p != "/" && strings.HasSuffix(p, "/") {
		return p[:len(p)-1]
	}
	return p
}

func (t table) add(host, path, method string, r route) {
	path = norm(path)
	if t[host] == nil {
		t[host] = map[string]map[string]route{}
	}
	if t[host][path] == nil {
		t[host][path] = map[string]route{}
	}
	if method != "" {
		t[host][path][method] = r
	}
}

const defaultHost = "DEFAULT"

func (t table) addHost(host, owner string, h *Host) {
	switch {
	case h.Proxy:
		for target := range h.Rules {
			if owner != "" && target != host {
				continue // a virtual host only answers for itself
			}
			t.add(target, "/", "", route{})
			for _, m := range h.ProxyMethods {
				t.add(target, "/", m, route{true, "*", owner, "proxy"})
			}
		}
	case h.Download:
		t.add(host, "/", "GET", route{true, "", owner, "download"})
	default:
		for p, ms := range h.Methods {
			ct := ";"
			if v, ok := h.ReqTypes[p]; ok {
				ct = v
			}
			for _, m := range strings.Split(ms, ";") {
				t.add(host, p, m, route{strings.HasSuffix(p, "/"), ct, owner, "serve"})
			}
		}
	}
}

func (c *Conf) table() table {
	t := table{}
	if c.VHosts != nil {
		for n, h := range c.VHosts {
			t.addHost(n, n, h)
		}
	} else {
		t.addHost(defaultHost, "", &c.Main)
	}
	if c.Metrics {
		t.add(defaultHost, c.MetricsPath, "GET", route{false, "", "", "metrics"})
	}
	return t
}

func (t table) match(host, path string) (string, bool, bool) {
	if _, ok := t[host][path]; ok {
		return path, true, true
	}
	for p := path; p != "/"; {
		p = p[:strings.LastIndexByte(p, '/')]
		if p == "" {
			p = "/"
		}
		if _, ok := t[host][p]; ok {
			return p, false, true
		}
	}
	return "", false, false
}

func (t table) decide(host, path, method, ct string) (int, route) {
	hp, hexact, hok := t.match(host, path)
	dp, dexact, dok := t.match(defaultHost, path)
	var h, p string
	var exact bool
	switch {
	case !hok && !dok:
		return 404, route{}
	case hok && (hexact || !dok || !dexact):
		h, p, exact = host, hp, hexact
	default:
		h, p, exact = defaultHost, dp, dexact
	}
	r, ok := t[h][p][method]
	if !ok {
		return 405, route{}
	}
	if r.content != "*" {
		if i := strings.IndexByte(ct, ';'); i >= 0 {
			ct = ct[:i]
		}
		ok := false
		for _, v := range strings.Split(r.content, ";") {
			ok = ok || v == ct
		}
		if !ok {
			return 406, route{}
		}
	}
	if !exact && !r.fallback {
		return 404, route{}
	}
	return 200, r
}

// Table is a reference router.
type Table struct{ t table }

// NewTable makes an empty one.
func NewTable() Table { return Table{table{}} }

// Add registers a route with a name; an empty method only registers the path.
func (t Table) Add(host, path string, fallback bool, method, content, name string) {
	t.t.add(host, path, method, route{fallback: fallback, content: content, kind: name})
}

// Decide gives the status of the routing rules and the name of the route. The
// host and path it was registered for come with it.
func (t Table) Decide(host, path, method, ct string) (int, string) {
	status, r := t.t.decide(host, path, method, ct)
	return status, r.kind
}

// Decision is what routing and guards make of a request.
type Decision struct {
	Status int    // 200: handled by the handler of Kind
	Kind   string // serve download proxy metrics
	Owner  string // the virtual host whose route it is
	Host   *Host  // its settings
}

// Route gives the decision of the routing rules.
func (c *Conf) Route(host, path, method, ct string) Decision {
	status, r := c.table().decide(host, path, method, ct)
	if status != 200 {
		return Decision{Status: status}
	}
	d := Decision{Status: 200, Kind: r.kind, Owner: r.owner, Host: &c.Main}
	if r.owner != "" {
		d.Host = c.VHosts[r.owner]
	}
	return d
}

// HostConf is the configuration of the requested host.
func (c *Conf) HostConf(host string) *Host {
	if c.VHosts != nil {
		if h, ok := c.VHosts[host]; ok {
			return h
		}
	}
	return &c.Main
}

// Covers tells whether a firewall rule covers the client at the path.
func (f *Firewall) Covers(p, ip string) bool {
	lists := func(rule string) bool {
		for _, v := range f.Rules[rule] {
			if v == ip || v == "*" {
				return true
			}
		}
		return false
	}
	for q := p; len(q) > 1; q = q[:strings.LastIndexByte(q, '/')] {
		if lists(q) {
			return true
		}
	}
	if p == "/" || !f.Subpath {
		return lists("/")
	}
	return false
}

// Blocks tells whether the firewall answers 403.
func (f *Firewall) Blocks(p, ip string) bool {
	return f.Enabled && f.Covers(p, ip) == f.Blacklisting
}

// TypeByExt is the content type that belongs to an extension, "" if none.
func TypeByExt(p string) string {
	base := p[strings.LastIndexByte(p, '/')+1:]
	i := strings.LastIndexByte(base, '.')
	if i < 0 {
		return ""
	}
	return map[string]string{
		".aac": "audio/aac", ".avi": "video/x-msvideo", ".bmp": "image/bmp", ".css": "text/css", ".csv": "text/csv", ".gif": "image/gif",
		".html": "text/html", ".htm": "text/html", ".jpeg": "image/jpeg", ".jpg": "image/jpeg", ".js": "text/javascript", ".json": "text/json",
		".mpeg": "video/mpeg", ".png": "image/png", ".pdf": "application/pdf", ".svg": "image/svg+xml", ".txt": "text/plain",
		".xhtml": "application/xhtml-xml", ".xml": "application/xml", ".zip": "application/zip",
	}[base[i:]]
}

// WantType is the content type a served path has to have.
func (h *Host) WantType(p string) string {
	if t := TypeByExt(p); t != "" {
		return t
	}
	if t, ok := h.RespTypes[p]; ok {
		return t
	}
	return "application/octet-stream"
}

// StrictHeaders are the security headers every local response starts from.
func StrictHeaders() map[string]string {
	return map[string]string{
		"X-Frame-Options":         "SAMEORIGIN",
		"X-Content-Type-Options":  "nosniff",
		"X-Xss-Protection":        "1; mode=block",
		"Referrer-Policy":         "no-referrer",
		"Content-Security-Policy": "default-src 'self'",
		"Feature-Policy":          "geolocation 'none'; midi 'none'; notifications 'none'; push 'none'; sync-xhr 'none'; microphone 'none'; camera 'none'; magnetometer 'none'; gyroscope 'none'; speaker 'none'; vibrate 'none'; fullscreen 'none'; payment 'none';",
		"Server":                  "MaguroHTTP",
	}
}

// BadHSTS compares a Strict-Transport-Security header with the settings.
func (c *Conf) BadHSTS(got []string) string {
	if !c.TLS {
		if len(got) != 0 {
			return fmt.Sprintf("Strict-Transport-Security %q without TLS", got)
		}
		return ""
	}
	if len(got) != 1 {
		return fmt.Sprintf("Strict-Transport-Security %q, want exactly one", got)
	}
	want := map[string]bool{}
	age := c.HSTSMaxAge
	switch age {
	case 0:
		age = 31557600
	case -1:
		age = 0
	}
	want[fmt.Sprintf("max-age=%d", age)] = true
	if c.HSTSPreload {
		want["preload"] = true
	}
	if c.HSTSSubs {
		want["includesubdomains"] = true
	}
	for _, d := range strings.Split(got[0], ";") {
		d = strings.ToLower(strings.TrimSpace(d))
		if d == "" {
			continue
		}
		if !want[d] {
			return fmt.Sprintf("Strict-Transport-Security %q has %q", got[0], d)
		}
		delete(want, d)
	}
	if len(want) > 0 {
		return fmt.Sprintf("Strict-Transport-Security %q lacks %v", got[0], want)
	}
	return ""
}
