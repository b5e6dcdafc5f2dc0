package serverp

import (
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// TestX01Handlers gives whole servers, without a network, many requests and
// upstream answers that are proper but for one value. Any panic shows at once.

// genListed makes a value of many elements or of an unusual size.
func genListed(rt *rapid.T) string {
	elem := pick(rt, "elem", "0-0", "1-2", "-1", "a", "\"a\"", "W/\"a\"", "a=b", "text/html", "text/html;q=0.5", "gzip", "gzip;q=0.5", "192.0.2.1", "for=192.0.2.1", "x", "", "*", "en-GB", "<a>", "QUFB", "0", "9", "%41", "()", "bytes=0-1", "k=v; Path=/", "Basic eDp5", "é", "1.0", "a b")
	sep := pick(rt, "sep", ",", ", ", ";", "; ", " ", "=", ":", "/", "&", "", "-", ".")
	times := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 20, 21, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1025, 4096, 8192}).Draw(rt, "times")
	pre := pick(rt, "lead", "", "", "bytes=", "bytes=", "Basic ", "\"", "(", "text/html; ", "=", sep)
	s := pre + strings.Repeat(elem+sep, times) + pick(rt, "end", elem, elem, "", sep, "\"", "x")
	if len(s) > 60000 {
		s = s[:60000]
	}
	return s
}

// properFor are values that the header is meant to have.
var properFor = map[string][]string{
	"Content-Type":                   {"text/html", "application/json; charset=utf-8", "multipart/form-data; boundary=x", "text/html; charset", "text/html; charset=\"utf-8", "a/b; c=d; c=e", "multipart/mixed"},
	"Authorization":                  {"Basic eDp5", "Basic eA==", "Basic " + strings.Repeat("eDp5", 500), "Bearer a.b.c", "Digest username=\"x\"", "basic eDp5", "Basic eDp5 ", "Basic  eDp5", "Negotiate"},
	"Range":                          {"bytes=0-0", "bytes=-0", "bytes=-1", "bytes=1-", "bytes=0-0,1-1", "bytes=3-1", "bytes=9-9,0-0", "items=0-1", "bytes=0-9223372036854775807", "bytes=9223372036854775807-", "bytes = 0-1", "bytes=0-0,"},
	"User-Agent":                     {"Mozilla/5.0 (X11; Linux)", "curl/8", "", "-", "Mozilla/5.0 (X11", "/", "a/b/c (d) e/f"},
	"If-None-Match":                  {"*", "\"x\"", "W/\"x\"", "\"x\", \"y\"", "x", "\"", "W/"},
	"If-Match":                       {"*", "\"x\"", "\"x", "W/\"\""},
	"If-Modified-Since":              {"Mon, 01 Jan 2001 00:00:00 GMT", "Monday, 01-Jan-01 00:00:00 GMT", "Mon Jan  1 00:00:00 2001", "0", "-1", "2001-01-01", "Fri, 31 Feb 2100 00:00:00 GMT"},
	"If-Range":                       {"\"x\"", "Mon, 01 Jan 2001 00:00:00 GMT", "x"},
	"Accept-Encoding":                {"gzip", "gzip;q=0", "gzip;q=", "*;q=0", "gzip;q=1.0001", ";q=1", "br, gzip;q=x", "identity"},
	"Accept":                         {"*/*", "text/html;level=1;q=0.1", "/", "*", ";", "text/*;q", "text", "text/html,"},
	"Accept-Language":                {"de", "de;q=x", "-", "de-", "*", "x;q=1;q=2"},
	"Cookie":                         {"a=b", "a", "=", "a=b; a=c", "a=\"b", "; ;", "a=b;c"},
	"X-Forwarded-For":                {"192.0.2.1", "192.0.2.1, x", ",", "[::1]:80", "[::1", "unknown", ":", "1.2.3.4:"},
	"Forwarded":                      {"for=192.0.2.1", "for=\"[::1]:80\"", "for=", "for", ";;", "for=\"", "host=x;proto"},
	"Referer":                        {"http://a.test/", "http://%", "://", "about:blank", "/x", "http://[::1", "?"},
	"Origin":                         {"null", "http://a.test", "http://", ":", "a.test:"},
	"Expect":                         {"100-continue", "x"},
	"Connection":                     {"close", "x", "keep-alive, X-Up", "upgrade"},
	"Upgrade":                        {"websocket", "h2c", "TLS/1.0, HTTP/1.1", "/", "x/"},
	"Te":                             {"trailers", "gzip;q=0.5", ";"},
	"Content-Encoding":               {"gzip", "identity", "x, y", ""},
	"Content-Language":               {"de", ""},
	"Content-Range":                  {"bytes 0-1/2", "bytes */2", "bytes", "bytes 0-"},
	"Date":                           {"x", "Mon, 01 Jan 2001 00:00:00 GMT"},
	"Cache-Control":                  {"max-age=0", "max-age=", "max-age", "no-cache=\"x", "=", "max-age=x,"},
	"Depth":                          {"0", "1", "infinity", "-1", "x"},
	"Destination":                    {"/x", "http://a.test/x", "http://%", ""},
	"Via":                            {"1.1 x", "1.1", "x"},
	"Max-Forwards":                   {"0", "-1", "x"},
	"Pragma":                         {"no-cache", "="},
	"Keep-Alive":                     {"timeout=5, max=1", "timeout", "x"},
	"X-Request-Id":                   {"x", "%s%n", "../../x"},
	"X-Forwarded-Proto":              {"https", "x,y"},
	"X-Forwarded-Host":               {"a.test", ":", "[::1", ""},
	"Access-Control-Request-Headers": {"x", ",", ""},
}

var properNames = func() (out []string) {
	for name := range properFor {
		out = append(out, name)
	}
	sort.Strings(out)
	return out
}()

func genValueFor(rt *rapid.T, name string) string {
	switch n(rt, "valuekind", 0, 3) {
	case 0:
		return genOdd(rt)
	case 1:
		return genListed(rt)
	case 2:
		v := rapid.SampledFrom(properFor[name]).Draw(rt, "proper")
		if len(v) > 0 && chance(rt, "cut", 2) {
			return v[:n(rt, "cutat", 0, len(v)-1)]
		}
		return v
	}
	v := rapid.SampledFrom(properFor[name]).Draw(rt, "proper")
	return v + pick(rt, "tail", "", ",", ";", " ", ", ", "; ", "=", "\"", "x", ";q=", ",,", "\t") + rapid.SampledFrom(properFor[name]).Draw(rt, "proper2")
}

// oddUp answers with what the test set.
type oddUp struct{ answer func() *http.Response }

func (u *oddUp) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Body != nil {
		io.Copy(io.Discard, r.Body)
		r.Body.Close()
	}
	resp := u.answer()
	resp.Request = r
	return resp, nil
}

func TestX01Handlers(t *testing.T) {
	vt.Check(t, 500, 15000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		ew.unlimited()
		ew.conf.LogOut, ew.conf.LogLevel = w.Path("log"), n(rt, "level", 0, 3)
		text := ew.String()
		s := w.Start(ew.conf)
		header := http.Header{}
		up := &oddUp{func() *http.Response {
			return &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: header.Clone(), Body: io.NopCloser(strings.NewReader("body of upstream"))}
		}}
		s.S.Transport = up
		do := func(q k.Req, more string) int {
			pr, err := q.Parse()
			if err != nil {
				return 0
			}
			vt.Note(fmt.Sprintf("%s%s\n%s", cutMore(q.String()), more, text))
			r := s.Serve(k.NewRec(), pr)
			if r.Panic != nil {
				rt.Fatalf("panic: %v\n%s\n%s%s\n%s", r.Panic, r.Stack, cutMore(q.String()), more, text)
			}
			if r.Status < 100 || r.Status > 999 {
				rt.Fatalf("status %d\n%s%s\n%s", r.Status, cutMore(q.String()), more, text)
			}
			return r.Status
		}
		for i := n(rt, "requests", 1, 6); i > 0; i-- {
			q := ew.genReq(rt)
			st := do(q, "")
			if !chance(rt, "any", 4) { // one that gets far
				for j := 0; j < 30 && st != 200; j++ {
					q = ew.genReq(rt)
					if st = do(q, ""); st == 406 {
						q.Header = without(q.Header, "Content-Type")
						st = do(q, "")
					}
				}
			}
			c.Labelf("with %d", st)
			c.NonTrivial(st != 0)
			for j := n(rt, "variations", 1, 40); j > 0; j-- {
				v := q
				switch n(rt, "varied", 0, 9) {
				case 0:
					v.Target = rapid.SampledFrom(attackTargets).Draw(rt, "target")
					if chance(rt, "tail", 2) {
						v.Target = q.Target + pick(rt, "tailis", "?", "?"+genListed(rt), "/", "//", "/.", "/..", "%00", "%", ";x", ".", "~", ":80", "@x", "%2f", "/"+strings.Repeat("../", 50), "/%c0%ae", "\\", "%5c..", " ", "%20", "#", "?#", "/*", "%0a")
					}
				case 1:
					v.Host = pick(rt, "host", "", ":", ":80", q.Host+":", q.Host+".", q.Host+":x", "[::1]", "[::1]:80", "[::1", "]", "[]", "[]:1", "."+q.Host, strings.ToUpper(q.Host), "*", "..", q.Host+":"+strings.Repeat("9", 30), strings.Repeat("h", 3000), strings.Repeat("a.", 200)+"test", "%", "a%b", "::", "1.2.3.4", "1:2:3")
				case 2:
					v.Method = pick(rt, "vmethod", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "PRI", "get", "M-SEARCH", strings.Repeat("M", 300), "!", "PROPFIND", "COPY", "LOCK")
				case 3:
					v.Remote = pick(rt, "vremote", "", "@", "x", ":", "1.2.3.4", "[::1]", "[::1", "[fe80::1%eth0]:1", "pipe", "1.2.3.4:", ":1", "/tmp/sock", "999.1.1.1:1", "::1:1")
				case 4: // an upstream's header
					name := pick(rt, "upname", "Content-Type", "Content-Length", "Content-Encoding", "Location", "Set-Cookie", "Www-Authenticate", "Cache-Control", "Expires", "Date", "Last-Modified", "Etag", "Vary", "Retry-After", "Link", "Refresh", "Connection", "Trailer", "Content-Range", "Content-Security-Policy", "Access-Control-Allow-Origin", "Server", "Age", "X", "")
					val := genOdd(rt)
					if chance(rt, "uplist", 3) {
						val = genListed(rt)
					}
					old := header
					header = http.Header{name: {val}}
					if chance(rt, "upnone", 6) {
						header[name] = nil
					}
					do(v, fmt.Sprintf("\nupstream header %q: %q", name, cutMore(val)))
					header = old
					continue
				default:
					name := rapid.SampledFrom(properNames).Draw(rt, "vname")
					v.Header = append(without(q.Header, name), [2]string{name, genValueFor(rt, name)})
					if chance(rt, "twice", 8) {
						v.Header = append(v.Header, [2]string{name, genValueFor(rt, name)})
					}
				}
				do(v, "")
			}
			c.Desc(cutMore(q.String()) + " " + text)
		}
	})
}
