package procp

import (
	"bufio"
	"bytes"
	"context"
	"crypto/rand"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

var strong12 = map[uint16]string{
	0xc02b: "ECDHE_ECDSA_AES_128_GCM", 0xc02c: "ECDHE_ECDSA_AES_256_GCM", 0xc02f: "ECDHE_RSA_AES_128_GCM", 0xc030: "ECDHE_RSA_AES_256_GCM",
	0xcca8: "ECDHE_RSA_CHACHA20", 0xcca9: "ECDHE_ECDSA_CHACHA20",
}
var strong13 = map[uint16]string{0x1301: "AES_128_GCM", 0x1302: "AES_256_GCM", 0x1303: "CHACHA20"}

var allSuites = []uint16{
	0x0000, 0x0001, 0x0002, 0x0003, 0x0004, 0x0005, 0x0008, 0x0009, 0x000a, 0x0013, 0x0016, 0x0018, 0x001b, 0x002f, 0x0033, 0x0034, 0x0035, 0x0039, 0x003b, 0x003c, 0x003d, 0x0067, 0x006b, 0x006c,
	0x0084, 0x009c, 0x009d, 0x009e, 0x009f, 0x00a6, 0x00a8, 0x00ff, 0x5600, 0xc006, 0xc007, 0xc008, 0xc009, 0xc00a, 0xc010, 0xc011, 0xc012, 0xc013, 0xc014, 0xc018, 0xc023, 0xc024, 0xc027, 0xc028, 0xc02d, 0xc031, 0xccaa,
	0xc02b, 0xc02c, 0xc02f, 0xc030, 0xcca8, 0xcca9, 0x1301, 0x1302, 0x1303, 0x1304, 0x1305, 0x0a0a,
}

// offer is a handshake as a client may try it.
type offer struct {
	record, version uint16
	suites          []uint16
	versions        []uint16 // supported_versions, nil: no such extension
	groups          bool
	sni             string
	ssl2            bool
}

func (o offer) String() string {
	return fmt.Sprintf("hello record=%04x version=%04x supported=%04x suites=%04x groups=%v sni=%q ssl2=%v", o.record, o.version, o.versions, o.suites, o.groups, o.sni, o.ssl2)
}

func u16(v int) []byte { return binary.BigEndian.AppendUint16(nil, uint16(v)) }

func vec16(b []byte) []byte { return append(u16(len(b)), b...) }

func (o offer) bytes() []byte {
	rnd := make([]byte, 32)
	rand.Read(rnd)
	var suites []byte
	for _, s := range o.suites {
		suites = append(suites, u16(int(s))...)
	}
	if o.ssl2 {
		var cs []byte
		for _, s := range o.suites {
			cs = append(cs, 0, byte(s>>8), byte(s))
		}
		b := []byte{1}
		b = append(b, u16(int(o.version))...)
		b = append(b, u16(len(cs))...)
		b = append(b, 0, 0, 0, 16)
		b = append(b, cs...)
		b = append(b, rnd[:16]...)
		return append([]byte{0x80 | byte(len(b)>>8), byte(len(b))}, b...)
	}
	var ext []byte
	if o.sni != "" {
		e := append([]byte{0}, vec16([]byte(o.sni))...)
		ext = append(ext, append(u16(0), vec16(vec16(e))...)...)
	}
	if o.groups {
		ext = append(ext, append(u16(10), vec16(vec16([]byte{0, 23, 0, 24, 0, 25, 0, 29}))...)...)
		ext = append(ext, append(u16(11), vec16([]byte{1, 0})...)...)
	}
	ext = append(ext, append(u16(13), vec16(vec16([]byte{4, 3, 5, 3, 6, 3, 8, 4, 8, 5, 4, 1, 5, 1, 6, 1, 2, 1, 2, 3}))...)...)
	if o.versions != nil {
		var vs []byte
		for _, v := range o.versions {
			vs = append(vs, u16(int(v))...)
		}
		ext = append(ext, append(u16(43), vec16(append([]byte{byte(len(vs))}, vs...))...)...)
		ext = append(ext, append(u16(51), vec16(vec16(nil))...)...) // no key share yet
	}
	h := u16(int(o.version))
	h = append(h, rnd...)
	h = append(h, 0)
	h = append(h, vec16(suites)...)
	h = append(h, 1, 0)
	h = append(h, vec16(ext)...)
	m := append([]byte{1, 0}, vec16(h)...)
	r := append([]byte{22}, u16(int(o.record))...)
	return append(r, vec16(m)...)
}

// hello makes the offer and gives the chosen version and suite, or false when
// the server refused.
func hello(addr string, o offer) (version, suite uint16, ok bool, got []byte) {
	c, err := net.DialTimeout("tcp", addr, 30*time.Second)
	vt.Must(err)
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	c.Write(o.bytes())
	r := bufio.NewReader(c)
	head := make([]byte, 5)
	if m, err := io.ReadFull(r, head); err != nil {
		return 0, 0, false, head[:m]
	}
	if head[0] == 21 {
		return 0, 0, false, nil
	}
	if head[0] != 22 {
		rest := make([]byte, 200)
		m, _ := io.ReadFull(r, rest)
		return 0, 0, false, append(head, rest[:m]...)
	}
	rec := make([]byte, int(head[3])<<8|int(head[4]))
	if _, err := io.ReadFull(r, rec); err != nil || len(rec) < 4+2+32+1 || rec[0] != 2 {
		return 0, 0, false, nil
	}
	b := rec[4:]
	version = uint16(b[0])<<8 | uint16(b[1])
	sid := int(b[34])
	b = b[35+sid:]
	suite = uint16(b[0])<<8 | uint16(b[1])
	b = b[3:]
	if len(b) >= 2 {
		for b = b[2:]; len(b) >= 4; {
			l := int(b[2])<<8 | int(b[3])
			if b[0] == 0 && b[1] == 43 && l == 2 {
				version = uint16(b[4])<<8 | uint16(b[5])
			}
			b = b[4+l:]
		}
	}
	return version, suite, true, nil
}

func weak(version, suite uint16) string {
	switch {
	case version == tls.VersionTLS12 && strong12[suite] != "":
	case version == tls.VersionTLS13 && strong13[suite] != "":
	default:
		return fmt.Sprintf("version %04x with cipher suite %04x (%s)", version, suite, tls.CipherSuiteName(suite))
	}
	return ""
}

// plain sends bytes without TLS and complains about answers other than the
// plain refusal.
func plain(addr, req, secret string) string {
	c, err := net.DialTimeout("tcp", addr, 30*time.Second)
	if err != nil {
		return ""
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(10 * time.Second))
	io.WriteString(c, req)
	if tc, ok := c.(*net.TCPConn); ok {
		tc.CloseWrite()
	}
	b, _ := io.ReadAll(io.LimitReader(c, 1<<16))
	if strings.Contains(string(b), secret) {
		return fmt.Sprintf("content in plaintext for %q: %q", req, b)
	}
	if bytes.HasPrefix(b, []byte("HTTP/")) && !bytes.HasPrefix(b, []byte("HTTP/1.0 400 ")) && !bytes.HasPrefix(b, []byte("HTTP/1.1 400 ")) || bytes.HasPrefix(b, []byte("\x00\x00")) {
		return fmt.Sprintf("answer in plaintext to %q: %q", req, b)
	}
	return ""
}

func plainRequest(rt *rapid.T) string {
	return pick(rt, "plain", "GET /x.txt HTTP/1.1\r\nHost: one.test\r\n\r\n", "GET /x.txt HTTP/1.0\r\n\r\n", "GET /x.txt\r\n\r\n", "POST /x.txt HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\n\r\nabc",
		"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00", "GET /x.txt HTTP/1.1\r\nHost: a\r\nUpgrade: h2c\r\nConnection: Upgrade, HTTP2-Settings\r\nHTTP2-Settings: AAMAAABkAAQAAP__\r\n\r\n",
		"OPTIONS * HTTP/1.1\r\nHost: a\r\nUpgrade: TLS/1.2\r\nConnection: Upgrade\r\n\r\n", "HEAD / HTTP/1.1\r\nHost: one.test\r\n\r\n", "\r\n\r\n", "GET http://one.test/x.txt HTTP/1.1\r\nHost: one.test\r\n\r\n")
}

func genOffer(rt *rapid.T, sni string) offer {
	o := offer{
		record:  rapid.SampledFrom([]uint16{0x0300, 0x0301, 0x0302, 0x0303}).Draw(rt, "record"),
		version: rapid.SampledFrom([]uint16{0x0303, 0x0303, 0x0303, 0x0303, 0x0303, 0x0302, 0x0301, 0x0300, 0x0304, 0x0002}).Draw(rt, "version"),
		groups:  !chance(rt, "nogroups", 6),
	}
	if !chance(rt, "nosni", 4) {
		o.sni = sni
	}
	ns := n(rt, "suites", 1, 30)
	switch n(rt, "choice", 0, 4) {
	case 0:
		for i := 0; i < ns; i++ {
			s := rapid.SampledFrom([]uint16{0x002f, 0x0035, 0x003c, 0x009c, 0x009d, 0x000a, 0x0005, 0xc007, 0xc009, 0xc00a, 0xc011, 0xc012, 0xc013, 0xc014, 0xc023, 0xc027}).Draw(rt, "gosuite")
			o.suites = append(o.suites, s)
		}
	case 1:
		for i := 0; i < ns; i++ {
			s := rapid.SampledFrom(allSuites).Draw(rt, "suite")
			if strong12[s] == "" && strong13[s] == "" {
				o.suites = append(o.suites, s)
			}
		}
	default:
		for i := 0; i < ns; i++ {
			if chance(rt, "strong", 4) {
				o.suites = append(o.suites, rapid.SampledFrom([]uint16{0xc02b, 0xc02c, 0xc02f, 0xc030, 0xcca8, 0xcca9, 0x1301, 0x1302, 0x1303}).Draw(rt, "strongsuite"))
			}
			o.suites = append(o.suites, rapid.SampledFrom(allSuites).Draw(rt, "suite"))
		}
	}
	if len(o.suites) == 0 {
		o.suites = []uint16{0x002f}
	}
	if chance(rt, "supported", 3) {
		o.versions = rapid.SliceOfN(rapid.SampledFrom([]uint16{0x0300, 0x0301, 0x0302, 0x0303, 0x0304}), 1, 3).Draw(rt, "versions")
	}
	o.ssl2 = chance(rt, "ssl2", 12)
	return o
}

type keyPair struct{ what, cert, key string } // file contents; "-" missing, "d" directory, "!" unreadable

func genPair(rt *rapid.T, c *cert) (keyPair, bool) {
	other := certs()[n(rt, "other", 0, len(certs())-1)]
	good := []keyPair{
		{"good", c.pem, c.key},
		{"good, other key form", c.pem, c.keySEC1},
		{"good, both in one file", c.pem + c.key, c.key + c.pem},
		{"good, with text around", "some text\n" + c.pem + "\n# end\n" + certs()[0].pem, "# key\n" + c.key},
	}
	bad := []keyPair{
		{"no certificate", "-", c.key}, {"no key", c.pem, "-"}, {"neither", "-", "-"},
		{"empty certificate", "", c.key}, {"empty key", c.pem, ""}, {"swapped", c.key, c.pem},
		{"garbage certificate", "garbage", c.key}, {"garbage key", c.pem, "\x00\x01garbage"},
		{"cut certificate", c.pem[:len(c.pem)/2], c.key}, {"cut key", c.pem, c.key[:len(c.key)/2]},
		{"certificate is a directory", "d", c.key}, {"key is a directory", c.pem, "d"},
	}
	if other != c {
		bad = append(bad, keyPair{"key of another certificate", c.pem, other.key}, keyPair{"certificate of another key", other.pem, c.key})
	}
	if os.Getuid() == 0 {
		bad = append(bad, keyPair{"unreadable key", c.pem, "!" + c.key}, keyPair{"unreadable certificate", "!" + c.pem, c.key})
	}
	if chance(rt, "badpair", 3) {
		return rapid.SampledFrom(bad).Draw(rt, "bad"), false
	}
	return rapid.SampledFrom(good).Draw(rt, "good"), true
}

func writeCert(p, s string) {
	switch {
	case s == "-":
	case s == "d":
		vt.Must(os.Mkdir(p, 0o755))
	case strings.HasPrefix(s, "!"):
		vt.Must(os.WriteFile(p, []byte(s[1:]), 0))
	default:
		vt.Must(os.WriteFile(p, []byte(s), 0o644))
	}
}

// get sends a request over a TLS connection as the configuration makes it.
func get(addr string, cfg *tls.Config, h2 bool, url string) (*http.Response, []byte, *tls.ConnectionState, error) {
	tr := &http.Transport{TLSClientConfig: cfg, ForceAttemptHTTP2: h2, DisableKeepAlives: !h2, DisableCompression: true,
		DialContext: func(ctx context.Context, network, _ string) (net.Conn, error) {
			var d net.Dialer
			return d.DialContext(ctx, "tcp", addr)
		}}
	defer tr.CloseIdleConnections()
	resp, err := (&http.Client{Transport: tr, Timeout: 30 * time.Second}).Get(url)
	if err != nil {
		return nil, nil, nil, err
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	return resp, b, resp.TLS, err
}

// roundTrip sends one request over a connection of its own.
func roundTrip(addr string, req *http.Request) (int, string, error) {
	tr := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableKeepAlives: true, DisableCompression: true,
		DialContext: func(ctx context.Context, network, _ string) (net.Conn, error) {
			var d net.Dialer
			return d.DialContext(ctx, "tcp", addr)
		}}
	defer tr.CloseIdleConnections()
	resp, err := (&http.Client{Transport: tr, Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}).Do(req)
	if err != nil {
		return 0, "", err
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	return resp.StatusCode, string(b), err
}

const secret = "only-over-tls-7461"

func TestT01(t *testing.T) {
	vt.Check(t, 60, 1200, func(rt *rapid.T, c *vt.Case) {
		dir := scratch()
		defer os.RemoveAll(dir)
		open(dir + "/w")
		vt.Must(os.Mkdir(dir+"/www", 0o755))
		vt.Must(os.WriteFile(dir+"/www/x.txt", []byte(secret), 0o644))
		addr := nextAddr()
		crt := rapid.SampledFrom(certs()).Draw(rt, "cert")
		pair, usable := genPair(rt, crt)
		writeCert(dir+"/cert", pair.cert)
		writeCert(dir+"/key", pair.key)
		o := obj{}
		for k, v := range map[string]interface{}{
			"Core.Address": addr, "Core.Port": "8443", "Core.LogOut": "stderr", "Core.LogLevel": 3, "Core.FileDir": dir + "/w/fd",
			"Core.TLS.Enabled": true, "Core.TLS.TLSCert": dir + "/cert", "Core.TLS.TLSKey": dir + "/key",
			"Serve.ServeDir": dir + "/www", "Serve.ServeIndex": "index.html", "Serve.Methods": map[string]string{"/": "GET;HEAD;POST"},
		} {
			put(o, k, v)
		}
		switch n(rt, "ca", 0, 5) {
		case 0:
			vt.Must(os.WriteFile(dir+"/ca", []byte(certs()[0].pem), 0o644))
			put(o, "Core.TLS.PrivateCA", []string{dir + "/ca"})
		case 1:
			put(o, "Core.TLS.PrivateCA", []string{dir + "/missing"})
		case 2:
			vt.Must(os.WriteFile(dir+"/ca", []byte("no certificate"), 0o644))
			put(o, "Core.TLS.PrivateCA", []string{dir + "/ca", dir + "/missing"})
		}
		desc := "certificate: " + pair.what
		p := dir + "/c.json"
		write(rt, p, o, false)
		pr := launch(dir, false, nil, serverBinary(), p)
		defer pr.kill()
		c.Label(pair.what)
		if !usable {
			c.Desc(desc)
			c.NonTrivial(true)
			vt.Note(desc)
			for i := 0; i < 500 && !pr.ended(); i++ {
				if bad := plain(addr+":8443", plainRequest(rt), secret); bad != "" {
					rt.Fatalf("%s: %s", desc, bad)
				}
				if resp, b, _, err := get(addr+":8443", &tls.Config{InsecureSkipVerify: true}, false, "https://one.test/x.txt"); err == nil {
					rt.Fatalf("%s: served %d %q", desc, resp.StatusCode, b)
				}
				time.Sleep(10 * time.Millisecond)
			}
			c.LabelIf(pr.ended(), "ended")
			return
		}
		if !pr.listening(rt, addr+":8443") {
			rt.Fatalf("%s: the server ended: %s", desc, tail(pr.out.String()))
		}
		for i := n(rt, "clients", 3, 12); i > 0; i-- {
			switch n(rt, "kind", 0, 3) {
			case 0:
				q := plainRequest(rt)
				desc += fmt.Sprintf("\nplain %q", q)
				vt.Note(desc)
				c.Label("plaintext")
				if bad := plain(addr+":8443", q, secret); bad != "" {
					rt.Fatalf("%s\n%s", desc, bad)
				}
			case 1, 2:
				for j := n(rt, "hellos", 1, 4); j > 0; j-- {
					of := genOffer(rt, crt.parsed.DNSNames[0])
					desc += "\n" + of.String()
					vt.Note(desc)
					v, s, ok, odd := hello(addr+":8443", of)
					c.Label(map[bool]string{true: "hello accepted", false: "hello refused"}[ok])
					if ok {
						if bad := weak(v, s); bad != "" {
							rt.Fatalf("%s\nthe server agreed to %s", desc, bad)
						}
					}
					if bytes.Contains(odd, []byte("HTTP/")) && !bytes.Contains(odd, []byte(" 400 ")) {
						rt.Fatalf("%s\nthe server answered %q", desc, odd)
					}
				}
			default:
				lo := rapid.SampledFrom([]uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}).Draw(rt, "min")
				hi := rapid.SampledFrom([]uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}).Draw(rt, "max")
				if lo > hi {
					lo, hi = hi, lo
				}
				cfg := &tls.Config{InsecureSkipVerify: true, MinVersion: lo, MaxVersion: hi, ServerName: crt.parsed.DNSNames[0]}
				if chance(rt, "othername", 2) {
					cfg.ServerName = pick(rt, "sni", "other.test", "one.test", "", "127.0.0.1", "a.b.c.example", strings.Repeat("long.", 30)+"test", "ONE.test", "xn--e1afmkfd.test", "localhost")
				}
				var offered []uint16
				if rapid.Bool().Draw(rt, "ownsuites") {
					for _, s := range append(tls.CipherSuites(), tls.InsecureCipherSuites()...) {
						if chance(rt, "with "+s.Name, 3) {
							cfg.CipherSuites = append(cfg.CipherSuites, s.ID)
						}
					}
					if cfg.CipherSuites == nil {
						cfg.CipherSuites = []uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA}
					}
					offered = cfg.CipherSuites
				}
				want := hi == tls.VersionTLS13
				if hi == tls.VersionTLS12 {
					want = offered == nil
					for _, s := range offered {
						nm := strong12[s]
						want = want || nm != "" && strings.HasPrefix(nm, "ECDHE_ECDSA") == crt.ecdsa
					}
				}
				h2 := rapid.Bool().Draw(rt, "h2")
				desc += fmt.Sprintf("\nclient versions %04x-%04x suites %04x h2 %v name %q", lo, hi, offered, h2, cfg.ServerName)
				vt.Note(desc)
				resp, b, st, err := get(addr+":8443", cfg, h2, "https://one.test/x.txt")
				if err != nil {
					c.Label("client refused")
					// A client with HTTP/2 may itself refuse suites.
					if want && !(h2 && offered != nil) {
						rt.Fatalf("%s\nrefused: %v\n%s", desc, err, tail(pr.out.String()))
					}
					continue
				}
				c.Label("client served")
				c.NonTrivial(true)
				if bad := weak(st.Version, st.CipherSuite); bad != "" {
					rt.Fatalf("%s\nserved over %s", desc, bad)
				}
				if len(st.PeerCertificates) == 0 || !st.PeerCertificates[0].Equal(crt.parsed) {
					rt.Fatalf("%s\nnot served with the configured certificate", desc)
				}
				if resp.StatusCode != 200 || string(b) != secret {
					rt.Fatalf("%s\nanswered %d %q", desc, resp.StatusCode, b)
				}
			}
		}
		c.Desc(desc)
		c.NonTrivial(true)
		if pr.ended() {
			rt.Fatalf("%s\nthe server ended: %s", desc, tail(pr.out.String()))
		}
	})
}

// TestT01Auto: automatic certificates, as far as they are there already.
func TestT01Auto(t *testing.T) {
	if os.Getuid() != 0 {
		t.Skip("port 443 needs root")
	}
	certs()
	vt.Check(t, 15, 200, func(rt *rapid.T, c *vt.Case) {
		dir := scratch()
		defer os.RemoveAll(dir)
		vt.Must(os.MkdirAll(dir+"/fd/certs", 0o700))
		for _, nm := range []string{"auto.test", "other.test"} {
			vt.Must(os.WriteFile(dir+"/fd/certs/"+nm, []byte(pool.auto[0].keySEC1+pool.auto[0].pem), 0o600))
			vt.Must(os.WriteFile(dir+"/fd/certs/"+nm+"+rsa", []byte(pool.auto[1].keySEC1+pool.auto[1].pem), 0o600))
		}
		vt.Must(os.Mkdir(dir+"/www", 0o755))
		vt.Must(os.WriteFile(dir+"/www/x.txt", []byte(secret), 0o644))
		addr := nextAddr()
		o := obj{}
		for k, v := range map[string]interface{}{
			"Core.Address": addr, "Core.Port": "443", "Core.LogOut": "stderr", "Core.LogLevel": 3, "Core.FileDir": dir + "/fd",
			"Core.TLS.Enabled": true, "Core.TLS.AutoCert.Enabled": true, "Core.TLS.AutoCert.Certificates": []string{"auto.test", "more.test"},
			"Serve.ServeDir": dir + "/www", "Serve.ServeIndex": "index.html", "Serve.Methods": map[string]string{"/": "GET;HEAD;POST"},
		} {
			put(o, k, v)
		}
		p := dir + "/c.json"
		write(rt, p, o, false)
		pr := launch(dir, true, nil, serverBinary(), p)
		defer pr.kill()
		if !pr.listening(rt, addr+":443") {
			rt.Fatalf("the server ended: %s", tail(pr.out.String()))
		}
		desc := "automatic certificates"
		for i := n(rt, "clients", 2, 8); i > 0; i-- {
			switch n(rt, "kind", 0, 3) {
			case 0:
				q := plainRequest(rt)
				desc += fmt.Sprintf("\nplain %q", q)
				if bad := plain(addr+":443", q, secret); bad != "" {
					rt.Fatalf("%s\n%s", desc, bad)
				}
			case 1:
				of := genOffer(rt, "auto.test")
				desc += "\n" + of.String()
				v, s, ok, _ := hello(addr+":443", of)
				if ok {
					if bad := weak(v, s); bad != "" {
						rt.Fatalf("%s\nthe server agreed to %s", desc, bad)
					}
				}
			default:
				name := pick(rt, "name", "auto.test", "auto.test", "other.test", "AUTO.test")
				hi := rapid.SampledFrom([]uint16{tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}).Draw(rt, "max")
				cfg := &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10, MaxVersion: hi, ServerName: name}
				h2 := rapid.Bool().Draw(rt, "h2")
				desc += fmt.Sprintf("\nclient %s up to %04x h2 %v", name, hi, h2)
				vt.Note(desc)
				resp, b, st, err := get(addr+":443", cfg, h2, "https://"+name+"/x.txt")
				c.Labelf("%s served: %v", name, err == nil)
				if err != nil {
					if name == "auto.test" && hi > tls.VersionTLS11 {
						rt.Fatalf("%s\nrefused: %v\n%s", desc, err, tail(pr.out.String()))
					}
					continue
				}
				if bad := weak(st.Version, st.CipherSuite); bad != "" {
					rt.Fatalf("%s\nserved over %s", desc, bad)
				}
				if name == "other.test" {
					rt.Fatalf("%s\na name that is not configured was served", desc)
				}
				if len(st.PeerCertificates) == 0 || !st.PeerCertificates[0].Equal(pool.auto[0].parsed) && !st.PeerCertificates[0].Equal(pool.auto[1].parsed) {
					rt.Fatalf("%s\nnot served with the certificate of the name", desc)
				}
				if resp.StatusCode != 200 || string(b) != secret {
					rt.Fatalf("%s\nanswered %d %q", desc, resp.StatusCode, b)
				}
			}
		}
		c.Desc(desc)
		c.NonTrivial(true)
	})
}
