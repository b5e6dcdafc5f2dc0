package serverp

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// X01: nothing that is sent to the server harms it.

// attacker is what one client does on one connection.
type attacker struct {
	Kind  string
	Data  string
	TLS   bool
	H2    bool
	Parts int
	Reset bool // goes away without reading
}

func (h attacker) String() string {
	return fmt.Sprintf("%s tls=%v h2=%v parts=%d reset=%v %q", h.Kind, h.TLS, h.H2, h.Parts, h.Reset, cutMore(h.Data))
}

func cutMore(s string) string {
	if len(s) > 600 {
		return fmt.Sprintf("%s...(%d bytes)...%s", s[:400], len(s), s[len(s)-150:])
	}
	return s
}

var attackTargets = []string{"*", "/", "//", "///", "http://h.test/a.txt", "http://[::1]:80/", "http://[fe80::1%25eth0]/", "http://u:p@h.test/", "h.test:80", "/%", "/%2", "/%zz", "/%00", "/%2e%2e/%2e%2e/%2e%2e/etc/passwd", "/..", "/../../../../../../etc/passwd", "/\\..\\..", "?", "/?", "/#", "/a.txt#frag", "http:", "http://", "http:///x", "//h.test/x", "/;x", "/a\x00b", "/\xff\xfe", "/a\tb", "ftp://h.test/", "unix:/tmp/x", "/a.txt?" + strings.Repeat("a=b&", 500), "/" + strings.Repeat("a/", 3000), "/" + strings.Repeat("../", 3000), "/" + strings.Repeat("%2f", 2000), "/o p", "./a.txt", "a.txt", "..", "", "/x/../../..//", "http://p.test:99999/", "http://p.test:x/", "javascript:1", "/docs/%2F..%2F..%2Fa.txt"}

var attackHeaders = []string{"Host: h.test", "Host: p.test", "Host:", "Host: a.test, b.test", "Host: [::1", "Host: [::1]:80:90", "Host: a.test:-1", "Host: ../../etc", "Host: \xff", "Host: a b", "Host: " + strings.Repeat("h", 5000), "Host: :", "Host: :80", "Host: @", "Host: a.test/x",
	"Content-Length: 0", "Content-Length: 5", "Content-Length: -1", "Content-Length: +5", "Content-Length: 99999999999999999999", "Content-Length: 4611686018427387904", "Content-Length: 5, 5", "Content-Length: 0x5", "Content-Length:", "Content-Length: 1000000000",
	"Transfer-Encoding: chunked", "Transfer-Encoding: chunked, chunked", "Transfer-Encoding: gzip", "Transfer-Encoding: identity", "Transfer-Encoding: \x0bchunked", "Transfer-encoding : chunked", "Transfer-Encoding: CHUNKED",
	"Range: bytes=0-", "Range: bytes=-1", "Range: bytes=5-2", "Range: bytes=0-0,2-2,4-4", "Range: bytes=" + strings.Repeat("0-0,", 1000) + "1-1", "Range: bytes=18446744073709551615-", "Range: bytes=-9223372036854775808", "Range: lines=1-2", "Range: bytes", "Range: bytes=a-b", "Range: bytes=--", "Range: bytes=,", "Range: bytes=0-18446744073709551616",
	"If-Range: \"x\"", "If-Match: \"", "If-None-Match: W/", "If-None-Match: ,,,", "If-None-Match: \"a", "If-Modified-Since: yesterday", "If-Modified-Since: Mon, 99 Jan 9999 99:99:99 GMT", "If-Unmodified-Since: ", "If-Match: " + strings.Repeat("\"a\",", 1000),
	"Authorization: Basic", "Authorization: Basic ====", "Authorization: Basic " + strings.Repeat("QUFB", 3000), "Authorization: Basic Og==", "Authorization: ", "Authorization: Digest x", "Authorization: Basic \xff", "Authorization: Bas",
	"Content-Type: ", "Content-Type: ;", "Content-Type: ;;;;", "Content-Type: text/html;", "Content-Type: /", "Content-Type: " + strings.Repeat(";", 3000), "Content-Type: multipart/form-data; boundary=",
	"Connection: close", "Connection: keep-alive", "Connection: Upgrade, HTTP2-Settings", "Upgrade: h2c", "Upgrade: websocket", "HTTP2-Settings: AAMAAABkAARAAAAAAAIAAAAA", "Expect: 100-continue", "Expect: 200-ok", "Te: trailers", "Trailer: X", "Trailer: Content-Length", "Keep-Alive: x",
	"User-Agent: ", "User-Agent: " + strings.Repeat("u", 9000), "User-Agent: \x01", "X-Forwarded-For: x", "X: y", ": empty", "No colon here", "X y: z", "X\x00: z", "X: a\x00b", " folded: x", "\tfolded", "X: " + strings.Repeat("v", 70000), "Accept-Encoding: gzip", "X: \r", "Proxy-Connection: x", "Proxy-Authorization: Basic eDp5"}

var attackBodies = []string{"", "", "hello", "5\r\nhello\r\n0\r\n\r\n", "5\r\nhel", "ffffffffffffffff\r\nx", "-1\r\n", "0\r\nX: y\r\n\r\n", "5;ext=1\r\nhello\r\n0\r\n\r\n", "zz\r\n", "0\r\n\r\nGET /docs/c.json HTTP/1.1\r\nHost: h.test\r\n\r\n", strings.Repeat("1\r\na\r\n", 2000) + "0\r\n\r\n", strings.Repeat("\x00", 3000), "80000000\r\n", "5\nhello\n0\n\n", "1" + strings.Repeat("0", 40) + "\r\n"}

// rawRequest makes something that resembles a request.
func rawRequest(rt *rapid.T, ew *errWorld) string {
	switch n(rt, "proper", 0, 10) {
	case 0:
		return ew.genReq(rt).Raw()
	case 10:
		// a request that gets to a handler that may want its body
		host, m := "pcanary.test", pick(rt, "lmethod", "POST", "GET")
		if chance(rt, "other host", 2) {
			host = rapid.SampledFrom(ew.hosts).Draw(rt, "lhost")
			if p := ew.conf.HostConf(host); p.Proxy {
				m = rapid.SampledFrom(p.ProxyMethods).Draw(rt, "pmethod")
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%s %s HTTP/1.%d\r\nHost: %s\r\n", m, pick(rt, "lpath", "/", "/a.txt", "/x/y"), n(rt, "minor", 0, 1), host)
		if chance(rt, "length", 2) {
			fmt.Fprintf(&b, "Content-Length: %s\r\n", pick(rt, "announced", "9223372036854775807", "9223372036854775295", "9223372036854775296", "4611686018427387904", "4611686018427387903", "1000000000000", "4294967296", "4294967295", "2147483648", "2147483647", "1000000000", "65536", "0", "007"))
		} else {
			fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n")
			if chance(rt, "trailer", 2) {
				fmt.Fprintf(&b, "Trailer: %s\r\n", pick(rt, "announced trailer", "X", "X-A, X-B", "Etag", "x;y", ""))
			}
		}
		if chance(rt, "typed", 3) {
			fmt.Fprintf(&b, "Content-Type: %s\r\n", pick(rt, "ltype", "application/json", "application/x-www-form-urlencoded", "multipart/form-data", "multipart/form-data; boundary=x", "text/html"))
		}
		if chance(rt, "expecting", 5) {
			b.WriteString("Expect: 100-continue\r\n")
		}
		return b.String() + "\r\n" + rapid.SampledFrom(attackBodies).Draw(rt, "lbody")
	case 1, 2, 3, 4:
		// proper but for one thing, which gets it past everything that is right
		q := ew.genReq(rt)
		if chance(rt, "post", 3) {
			q.Method = "POST"
		}
		switch n(rt, "the one thing", 0, 5) {
		case 0:
			q.Target = rapid.SampledFrom(attackTargets).Draw(rt, "ht")
		case 1:
			q.Method = pick(rt, "odd method", "CONNECT", "TRACE", "PRI", "get", "FOO", strings.Repeat("M", 3000), "SEARCH", "*", "GET/")
		case 2:
			q.Host = pick(rt, "odd host", "", ":", ":80", "h.test:", "h.test:x", "[::1]", "[::1]:80", "[::1", "]", "a.test.", ".a.test", "A.TEST", "a.test:0443", strings.Repeat("h", 3000), "%61.test", "a.test%00", "*", "..")
		case 3:
			name := rapid.SampledFrom(sensitive).Draw(rt, "sensitive")
			kept := without(q.Header, name)
			odd := genOdd(rt)
			q.Header = append(kept, [2]string{name, odd})
		default:
			h := rapid.SampledFrom(attackHeaders).Draw(rt, "hh")
			raw := q.Raw()
			at := strings.Index(raw, "\r\n") + 2
			return raw[:at] + h + "\r\n" + raw[at:]
		}
		return q.Raw()
	}
	var b strings.Builder
	m := pick(rt, "hmethod", "GET", "GET", "GET", "POST", "HEAD", "PUT", "OPTIONS", "CONNECT", "TRACE", "PRI", "get", "", "G\x00T", "FOO", strings.Repeat("M", 3000), "GET ", "\r\nGET", "PROPFIND", "SEARCH")
	target := pick(rt, "htarget", "/a.txt", "/docs/c.json", "/", "/x/f", "/metrics")
	if chance(rt, "oddtarget", 2) {
		target = rapid.SampledFrom(attackTargets).Draw(rt, "ht")
	}
	fmt.Fprintf(&b, "%s %s %s", m, target, pick(rt, "version", "HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/1.2", "HTTP/11", "http/1.1", "", "HTTP/1.1 x", "HTTP/1.-1"))
	eol := pick(rt, "eol", "\r\n", "\r\n", "\r\n", "\r\n", "\n", "\r", "\r\r\n")
	b.WriteString(eol)
	if !chance(rt, "nohost", 5) {
		b.WriteString("Host: " + pick(rt, "hhost", "h.test", "p.test", "q.test", "a.test", "b.test", "sub.a.test", "p.test:80") + eol)
	}
	for i := n(rt, "headers", 0, 5); i > 0; i-- {
		b.WriteString(rapid.SampledFrom(attackHeaders).Draw(rt, "hh") + eol)
	}
	if chance(rt, "many", 25) {
		b.WriteString(strings.Repeat("X-Many: header"+eol, n(rt, "times", 100, 20000)))
	}
	if !chance(rt, "unfinished", 8) {
		b.WriteString(eol + rapid.SampledFrom(attackBodies).Draw(rt, "hbody"))
	}
	return b.String()
}

var sensitive = []string{"Content-Type", "Content-Type", "Authorization", "Authorization", "Range", "User-Agent", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since", "If-Range", "If-Match", "Upgrade", "X-Forwarded-For", "Accept-Encoding", "Accept", "Origin", "Depth", "Destination", "Cookie", "Te", "X"}

func without(header [][2]string, name string) (kept [][2]string) {
	for _, h := range header {
		if h[0] != name {
			kept = append(kept, h)
		}
	}
	return kept
}

// genOdd makes a value for a header that is legal but not what is expected.
func genOdd(rt *rapid.T) string {
	if chance(rt, "delimited", 3) {
		// delimiters in an unusual order, one of them missing or doubled
		pair := rapid.SampledFrom([]string{"()", "[]", "{}", "<>", "\"\"", "''", "/*", ",;", ";=", "=;", ":@", "@:", "?&", "%%", "- ", " -", "/.", "./"}).Draw(rt, "pair")
		a, b := pair[:1], pair[1:]
		word := pick(rt, "word", "", "x", "Linux 5", "gzip", "1")
		return rapid.SampledFrom([]string{a + word, word + a, b + word, word + b, a + word + b, b + word + a, "x" + b + word + a, b + word + a + "x", a + a + word + b, a + word + b + b, b + a, a + b, b, a}).Draw(rt, "order")
	}
	odd := rapid.SliceOfN(rapid.SampledFrom([]string{";", ";", " ", ",", "=", "\"", "Basic", "Basic ", "QUFB", ":", "bytes=", "-", "0", "1-2", "99999999999999999999", "text/html", "/", "*", "%", "close", "W/", "\t", "\xff", "\xc3\xa9", "(", ")", "[", "]", "{", "}", "<", ">", ")(", "'", "\\", "|", "=", "@", "#", "Mon, 01 Jan 2001 00:00:00 GMT"}), 0, 4).Draw(rt, "odd value")
	return strings.Join(odd, "")
}

// sweep is many requests for one resource that differ in one header only.
func sweep(rt *rapid.T, ew *errWorld) string {
	var b strings.Builder
	q := ew.genReq(rt)
	q.Method, q.Chunked = pick(rt, "smethod", "GET", "GET", "HEAD", "POST"), false
	name := rapid.SampledFrom(sensitive).Draw(rt, "sensitive")
	kept := without(q.Header, name)
	for i := n(rt, "sweep", 5, 30); i > 0; i-- {
		q.Header = append(kept[:len(kept):len(kept)], [2]string{name, genOdd(rt)})
		b.WriteString(q.Raw())
	}
	return b.String()
}

// frame makes an HTTP/2 frame.
func frame(length int, typ, flags byte, stream uint32, payload string) string {
	b := []byte{byte(length >> 16), byte(length >> 8), byte(length), typ, flags}
	b = binary.BigEndian.AppendUint32(b, stream)
	return string(b) + payload
}

func genFrames(rt *rapid.T) string {
	var b strings.Builder
	if !chance(rt, "nopreface", 8) {
		b.WriteString("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + frame(0, 4, 0, 0, ""))
	}
	// ":method GET", ":path /", ":scheme https" are indexed; ":authority" is literal
	headers := "\x82\x84\x87\x41\x06h.test"
	for i := n(rt, "frames", 1, 12); i > 0; i-- {
		stream := uint32(rapid.SampledFrom([]int{0, 1, 1, 3, 5, 7, 2, 1 << 30}).Draw(rt, "stream"))
		switch n(rt, "ftype", 0, 8) {
		case 0, 1, 2:
			h := rapid.SampledFrom([]string{headers, headers, headers + "\x40\x01x\x01y", "\x82\x84\x87", "\x82", headers + headers, "\xff\xff\xff\xff\xff", "\x00\x0aconnection\x05close", headers + "\x00\x0econtent-length\x015", "\x00\x07:method\x00", "\x82\x87\x41\x06h.test\x44\x02..", "\x82\x87\x41\x06p.test\x44\x05/%zz?", "\x82\x87\x41\x06a test\x44\x01*", headers + "\x00\x01X\x00", ""}).Draw(rt, "block")
			b.WriteString(frame(len(h), 1, byte(rapid.SampledFrom([]int{5, 5, 4, 1, 0, 255}).Draw(rt, "flags")), stream, h))
		case 3:
			d := rapid.SampledFrom([]string{"", "hello", strings.Repeat("d", 16384)}).Draw(rt, "data")
			b.WriteString(frame(len(d), 0, byte(n(rt, "dflags", 0, 9)), stream, d))
		case 4:
			b.WriteString(frame(6, 4, 0, 0, "\x00\x04"+string([]byte{byte(n(rt, "w", 0, 255)), 255, 255, 255})))
		case 5:
			b.WriteString(frame(4, 8, 0, stream, "\x7f\xff\xff\xff"))
		case 6:
			b.WriteString(frame(4, 3, 0, stream, "\x00\x00\x00\x08"))
		case 7:
			b.WriteString(frame(n(rt, "len", 0, 1<<24-1), byte(n(rt, "t", 0, 12)), byte(n(rt, "f", 0, 255)), stream, string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "payload"))))
		default:
			b.WriteString(frame(8, 6, 0, 0, "12345678"))
		}
	}
	return b.String()
}

func mangle(rt *rapid.T, s string) string {
	b := []byte(s)
	for i := n(rt, "mutations", 1, 8); i > 0 && len(b) > 0; i-- {
		at := n(rt, "at", 0, len(b)-1)
		switch n(rt, "mutation", 0, 5) {
		case 0:
			b[at] = rapid.Byte().Draw(rt, "byte")
		case 1:
			b[at] ^= 1 << n(rt, "bit", 0, 7)
		case 2:
			b = append(b[:at], b[min(at+n(rt, "cut", 1, 20), len(b)):]...)
		case 3:
			b = append(b[:at:at], append([]byte(pick(rt, "ins", "\x00", "\r\n", "\n", ":", " ", "%", "../", "\r\n\r\n", "0", "\xff")), b[at:]...)...)
		case 4:
			end := min(at+n(rt, "dup", 1, 50), len(b))
			b = append(b[:end:end], b[at:]...)
		default:
			b = b[:at]
		}
	}
	return string(b)
}

func genAttacker(rt *rapid.T, ew *errWorld) attacker {
	h := attacker{TLS: ew.conf.TLS && !chance(rt, "not tls", 6), Parts: rapid.SampledFrom([]int{1, 1, 1, 2, 5}).Draw(rt, "parts"), Reset: chance(rt, "reset", 6)}
	switch n(rt, "hkind", 0, 11) {
	case 10, 11:
		h.Kind, h.Data = "sweep", sweep(rt, ew)
	case 0:
		h.Kind, h.Data = "bytes", string(rapid.SliceOfN(rapid.Byte(), 0, 400).Draw(rt, "bytes"))
	case 1:
		if ew.conf.TLS {
			h.Kind, h.Data, h.TLS = "hello", mangle(rt, "\x16\x03\x01\x00\x80\x01\x00\x00\x7c\x03\x03"+strings.Repeat("r", 32)+"\x00\x00\x04\xc0\x2f\x13\x01\x01\x00\x00\x4f"+strings.Repeat("\x00\x0a\x00\x04\x00\x02\x00\x17", 9)), false
			break
		}
		fallthrough
	case 2, 3:
		if ew.conf.TLS {
			h.Kind, h.TLS, h.H2, h.Data = "frames", true, true, genFrames(rt)
		} else {
			h.Kind, h.Data = "frames", genFrames(rt)
		}
		if chance(rt, "mutated", 3) {
			h.Data = mangle(rt, h.Data)
		}
	default:
		h.Kind = "request"
		for i := rapid.SampledFrom([]int{1, 1, 1, 2, 5}).Draw(rt, "pipelined"); i > 0; i-- {
			h.Data += rawRequest(rt, ew)
		}
		if chance(rt, "mutated", 3) {
			h.Data = mangle(rt, h.Data)
		}
	}
	return h
}

// x01Limit is how long a connection may live on after its client has finished.
const x01Limit = 40 * time.Second

// act plays the client and judges what came back.
func (h attacker) act(addr string) string {
	d := net.Dialer{Timeout: 30 * time.Second}
	tcp, err := d.Dial("tcp", addr)
	if err != nil {
		return fmt.Sprintf("no connection: %v", err)
	}
	defer tcp.Close()
	conn := tcp
	closeWrite := tcp.(*net.TCPConn).CloseWrite
	if h.TLS {
		cfg := &tls.Config{InsecureSkipVerify: true, ServerName: "h.test", NextProtos: []string{"http/1.1"}}
		if h.H2 {
			cfg.NextProtos = []string{"h2"}
		}
		t := tls.Client(tcp, cfg)
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		err := t.HandshakeContext(ctx)
		cancel()
		if err != nil {
			return fmt.Sprintf("no TLS handshake: %v", err)
		}
		conn, closeWrite = t, t.CloseWrite
	}
	conn.SetDeadline(time.Now().Add(x01Limit))
	written := make(chan struct{})
	go func() {
		defer close(written)
		s := h.Data
		size := len(s)/h.Parts + 1
		for len(s) > 0 {
			p := min(size, len(s))
			if _, err := io.WriteString(conn, s[:p]); err != nil {
				return
			}
			s = s[p:]
			if len(s) > 0 {
				time.Sleep(time.Millisecond)
			}
		}
		if !h.Reset {
			closeWrite()
		}
	}()
	if h.Reset {
		<-written
		tcp.(*net.TCPConn).SetLinger(0)
		return ""
	}
	got, err := io.ReadAll(conn)
	<-written
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() {
		return fmt.Sprintf("the connection still was open %v after the client had finished; received %q", x01Limit, cutMore(string(got)))
	}
	if bytes.Contains(got, []byte("planted-secret")) {
		return fmt.Sprintf("a secret was disclosed: %q", cutMore(string(got)))
	}
	if h.H2 || h.Kind != "request" && h.Kind != "sweep" || len(got) == 0 || !h.TLS && bytes.HasPrefix(got, []byte{0x15, 3}) {
		return ""
	}
	return wellFormed(got)
}

// wellFormed tells whether the bytes are HTTP responses one after the other.
func wellFormed(got []byte) string {
	// Which requests were HEAD is not known, so that either reading of a body is tried.
	var try func(rest []byte, depth int) bool
	try = func(rest []byte, depth int) bool {
		if len(rest) == 0 {
			return true
		}
		if depth > 40 {
			return true
		}
		for _, m := range []string{"GET", "HEAD"} {
			rd := bytes.NewReader(rest)
			br := bufio.NewReaderSize(rd, 16)
			resp, err := http.ReadResponse(br, &http.Request{Method: m})
			if err != nil {
				// the end may be missing if the server gave up on the connection
				if errors.Is(err, io.ErrUnexpectedEOF) {
					return true
				}
				return false
			}
			if resp.StatusCode < 100 || resp.StatusCode > 999 {
				return false
			}
			_, err = io.Copy(io.Discard, resp.Body)
			if errors.Is(err, io.ErrUnexpectedEOF) {
				return true
			}
			if err != nil {
				continue
			}
			if try(rest[len(rest)-rd.Len()-br.Buffered():], depth+1) {
				return true
			}
		}
		return false
	}
	if !try(got, 0) {
		return fmt.Sprintf("the answer is no sequence of HTTP responses: %q", cutMore(string(got)))
	}
	return ""
}

var oddResponses = []string{"", "\r\n", "garbage", "HTTP/1.1\r\n\r\n", "HTTP/1.1 200", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 999 Odd\r\nContent-Length: 2\r\n\r\nhi", "HTTP/1.1 99 Low\r\n\r\n", "HTTP/1.1 1000 High\r\n\r\n", "HTTP/1.1 -1 x\r\n\r\n", "HTTP/1.1 000 Zero\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi", "HTTP/1.1 103 Early Hints\r\nLink: x\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi", "HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\nConnection: Upgrade\r\n\r\nrest",
	"HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\nhi", "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\nhi", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nContent-Length: 3\r\n\r\nhi!", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nhi\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: gzip, chunked\r\n\r\n0\r\n\r\n", "HTTP/1.1 204 No\r\nContent-Length: 5\r\n\r\nhello", "HTTP/1.1 304 No\r\nContent-Length: 5\r\n\r\n", "HTTP/1.1 200 OK\r\nX: " + strings.Repeat("y", 200000) + "\r\n\r\n", "HTTP/1.1 200 OK\r\n" + strings.Repeat("X: y\r\n", 20000) + "\r\n", "HTTP/1.1 200 OK\r\nBad Header: x\r\n\r\n", "HTTP/1.1 200 OK\r\nX: a\x00b\r\n\r\n", "HTTP/1.1 200 OK\r\nX: \xff\x01\r\nContent-Length: 0\r\n\r\n", "HTTP/1.0 200 OK\r\n\r\nuntil the end", "HTTP/0.9 200 OK\r\n\r\n", "HTTP/2.0 200 OK\r\n\r\n", "HTTP/1.1 200 \x00\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nConnection: X-A\r\nX-A: 1\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nTrailer: X\r\nTransfer-Encoding: chunked\r\n\r\n0\r\nX: y\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Type:\r\nDate:\r\nServer:\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 407 Auth\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"}

// genResponse makes a response that is proper but for the values of a few
// headers that someone may want to understand.
func genResponse(rt *rapid.T) string {
	var b strings.Builder
	body := pick(rt, "rbody", "", "hi", "{}", "<html>", "\x1f\x8b", "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff", strings.Repeat("r", 5000))
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", rapid.SampledFrom([]int{200, 200, 200, 201, 204, 206, 301, 302, 304, 307, 400, 401, 404, 416, 429, 500, 502, 503, 504, 511, 599}).Draw(rt, "rstatus"), pick(rt, "reason", "OK", "", "a b"))
	for i := n(rt, "rheaders", 0, 5); i > 0; i-- {
		name := pick(rt, "rheader", "Content-Type", "Content-Type", "Content-Encoding", "Content-Encoding", "Content-Encoding", "Location", "Location", "Content-Location", "Date", "Last-Modified", "Expires", "Server", "Set-Cookie", "Set-Cookie", "Cache-Control", "Content-Range", "Accept-Ranges", "Retry-After", "Www-Authenticate", "Etag", "Vary", "Upgrade", "Connection", "Keep-Alive", "Age", "Via", "Link", "Content-Disposition", "Content-Language", "Strict-Transport-Security", "Access-Control-Allow-Origin", "X-Accel-Redirect", "X-Sendfile", "X-Forwarded-For", "Proxy-Authenticate", "Alt-Svc", "Refresh")
		value := ""
		switch n(rt, "rvalue", 0, 2) {
		case 0:
			value = genOdd(rt)
		default:
			value = pick(rt, "rtoken", "gzip", "gzip", "deflate", "br", "identity", "GZIP", "gzip, gzip", "x-gzip", "text/html", "text/html; charset", "text/html; charset=", "multipart/byteranges; boundary=", "http://", "http://%", "//", "/", "?", "://", "http://[::1", "../../secret.txt", "/etc/passwd", "0", "-1", "99999999999999999999", "bytes */*", "bytes 0-", "bytes 5-1/0", "max-age=", "max-age=x", "a=b; Path", "a=b; Max-Age=x; Domain=", "=", ";", "Basic", "Basic realm", "Basic realm=\"", "\"", "W/\"", "*", "close", "Mon, 99 Jan 0000 00:00:00 GMT", "h2=\":443\"; ma=x", "<>; rel", "<")
		}
		if name == "Connection" && strings.EqualFold(value, "upgrade") {
			value = "close"
		}
		b.WriteString(name + ": " + value + "\r\n")
	}
	switch n(rt, "rlength", 0, 3) {
	case 0:
		b.WriteString("\r\n" + body)
	case 1:
		fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(body), body)
		if body != "" {
			b.WriteString("0\r\n\r\n")
		}
	default:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
	}
	return b.String()
}

// evil is an upstream that answers canaries properly and everything else with
// the given bytes in turn.
type evil struct {
	ln    net.Listener
	turn  uint32
	bytes []string
}

func newEvil(addr string, answers []string) *evil {
	ln, err := net.Listen("tcp", addr)
	vt.Must(err)
	e := &evil{ln: ln, bytes: answers}
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go e.serve(conn)
		}
	}()
	return e
}

func (e *evil) serve(conn net.Conn) {
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	br := bufio.NewReader(conn)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, req.Body)
		if strings.HasSuffix(req.URL.Path, "/canary") {
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nContent-Length: 6\r\nX-Canary: 1\r\n\r\ncanary")
			continue
		}
		b := e.bytes[int(atomic.AddUint32(&e.turn, 1))%len(e.bytes)]
		io.WriteString(conn, b)
		return
	}
}

// panicked is what the runtime and net/http write about a panic.
var panicked = regexp.MustCompile(`(?m)^panic: |^fatal error: |^goroutine \d+ \[|http2?: panic serving `)

func TestX01(t *testing.T) {
	vt.Check(t, 45, 900, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		w.Open()
		addr := k.NextAddr()
		ew := genServerWith(rt, w, true)
		conf := ew.conf
		conf.VHosts["canary.test"] = (&k.Host{Dir: w.Path("canary"), Index: "index.html", Methods: map[string]string{"/": "GET;HEAD"}}).Unlimited()
		conf.VHosts["pcanary.test"] = (&k.Host{Proxy: true, Rules: map[string]string{"pcanary.test": "http://" + addr + ":9000"}, ProxyMethods: []string{"GET", "POST"}}).Unlimited()
		for _, h := range conf.VHosts {
			for host := range h.Rules {
				h.Rules[host] = "http://" + addr + ":9000"
			}
			if h.Burst < 100000 {
				h.Unlimited()
			}
		}
		k.Tree(w.Path("canary"), map[string]string{"index.html": "the canary sings"})
		k.Tree(w.Dir, map[string]string{"secret.txt": "planted-secret", "canaryx/secret": "planted-secret"})
		crt, key := certificate()
		k.Tree(w.Dir, map[string]string{"crt": crt, "key": key})
		port := "8080"
		if conf.TLS {
			port, conf.Cert, conf.Key = "8443", w.Path("crt"), w.Path("key")
		}
		if conf.Metrics {
			conf.MetricsOut = w.Path("w", "metrics.json")
		}
		conf.Address, conf.Port, conf.LogOut, conf.FileDir, conf.LogLevel = addr, port, w.Path("w", "log"), w.Path("w", "fd"), n(rt, "level", 0, 3)
		conf.ReadTimeout, conf.WriteTime, conf.HeaderTimeout = 12, 12, 12
		answers := rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) string {
			s := rapid.SampledFrom(oddResponses).Draw(rt, "response")
			if chance(rt, "proper response", 2) {
				s = genResponse(rt)
			}
			if chance(rt, "mutated response", 4) && s != "" {
				s = mangle(rt, s)
			}
			return s
		}), 1, 24).Draw(rt, "answers")
		up := newEvil(addr+":9000", answers)
		defer up.ln.Close()
		rounds := n(rt, "rounds", 1, 3)
		var plan [][]attacker
		var log []string
		for i := 0; i < rounds; i++ {
			var hs []attacker
			for j := n(rt, "clients", 1, 25); j > 0; j-- {
				h := genAttacker(rt, ew)
				hs = append(hs, h)
				log = append(log, fmt.Sprintf("round %d: %s", i, h))
				c.Label(h.Kind)
			}
			plan = append(plan, hs)
		}
		text := ew.String() + fmt.Sprintf("\nupstream answers %q", answers)
		vt.Note(text + "\n" + strings.Join(log, "\n"))
		p, err := w.Run(conf.Write(w.Dir), addr+":"+port)
		if err != nil {
			rt.Fatalf("%v\n%s", err, text)
		}
		defer p.Kill()
		canary := client{addr: addr + ":" + port, fresh: true}
		if conf.TLS {
			canary.tls = noH2(tls.VersionTLS13)
		}
		check := func() string {
			got := canary.run([]k.Req{{Host: "canary.test", Target: "/"}, {Host: "pcanary.test", Target: "/canary", Method: "POST", Body: "x"}, {Host: "canary.test", Target: "/none"}, {Host: "unknown.test", Target: "/"}})
			for i, want := range []string{"200 the canary sings", "200 canary", "404 ", "404 "} {
				if g := fmt.Sprintf("%d %s", got[i].status, got[i].body); got[i].err != nil || !strings.HasPrefix(g, want) {
					return fmt.Sprintf("afterwards request %d of another client was answered %s (%v), want %s", i, cut(g), got[i].err, want)
				}
			}
			return ""
		}
		bad := check()
		for _, hs := range plan {
			if bad != "" {
				break
			}
			var mu sync.Mutex
			var wg sync.WaitGroup
			for _, h := range hs {
				wg.Add(1)
				go func(h attacker) {
					defer wg.Done()
					x := h.act(addr + ":" + port)
					if x != "" {
						mu.Lock()
						if bad == "" {
							bad = fmt.Sprintf("%s\n%s", x, h)
						}
						mu.Unlock()
					}
				}(h)
			}
			wg.Wait()
			vt.Progress()
			if bad == "" {
				bad = check()
			}
			if p.Ended() {
				bad = "the server ended\n" + tailOf(p.Output())
			}
		}
		if bad == "" {
			b, _ := os.ReadFile(conf.LogOut)
			b = append(b, p.Output()...)
			// requests are logged on one line, so that no client can write these
			if at := panicked.FindIndex(b); at != nil {
				bad = fmt.Sprintf("the server panicked: %s", cutMore(string(b[max(0, at[0]-200):])))
			}
		}
		if bad != "" {
			rt.Fatalf("%s\nconfig %s\nclients\n%s", bad, text, strings.Join(log, "\n"))
		}
		c.LabelIf(conf.TLS, "TLS")
		c.NonTrivial(true)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

func tailOf(s string) string {
	if len(s) > 3000 {
		s = "..." + s[len(s)-3000:]
	}
	return s
}
