package srvkit

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/harness/vt"
)

// World is a scratch directory of one case.
type World struct{ Dir string }

var fileDir struct {
	sync.Once
	path string
}

// NewWorld makes a scratch directory.
func NewWorld() *World {
	d, err := os.MkdirTemp("", "case")
	vt.Must(err)
	return &World{d}
}

// Close removes it.
func (w *World) Close() { os.RemoveAll(w.Dir) }

// Path is a path in the scratch directory.
func (w *World) Path(p ...string) string { return filepath.Join(append([]string{w.Dir}, p...)...) }

// Tree writes files (and directories: names ending in a slash) below base.
func Tree(base string, files map[string]string) {
	vt.Must(os.MkdirAll(base, 0o755))
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := base + "/" + n
		if strings.HasSuffix(n, "/") {
			vt.Must(os.MkdirAll(p, 0o755))
			continue
		}
		vt.Must(os.MkdirAll(filepath.Dir(p), 0o755))
		vt.Must(os.WriteFile(p, []byte(files[n]), 0o644))
	}
}

// SharedFileDir is a FileDir (templates) used by all cases of the process.
func SharedFileDir() string {
	fileDir.Do(func() {
		d, err := os.MkdirTemp("", "filedir")
		vt.Must(err)
		fileDir.path = d + "/"
	})
	return fileDir.path
}

// Srv is a server instance in this process.
type Srv struct {
	S   *tuna.Server
	Up  *Upstream
	Own http.RoundTripper // the transport the server made, in place of which Up stands
	C   *Conf
}

// Start writes the configuration and makes an instance from it. A server that
// refuses the configuration ends the process: the noted case is then reported.
func (w *World) Start(c *Conf) *Srv {
	if c.FileDir == "" {
		c.FileDir = SharedFileDir()
	}
	if c.LogOut == "" {
		c.LogOut = "stderr"
	}
	p := c.Write(w.Dir)
	s := &Srv{S: tuna.NewInstanceFromConfig(p), Up: &Upstream{}, C: c}
	s.Own = s.S.Transport
	s.S.Transport = s.Up
	return s
}

// ------------------------------------------------------------- requests

// Req is one request as a client would send it.
type Req struct {
	Method, Target, Host string
	Header               [][2]string
	Body                 string
	Chunked              bool
	Remote               string
}

// Raw is the request on the wire.
func (q Req) Raw() string {
	var b strings.Builder
	m := q.Method
	if m == "" {
		m = "GET"
	}
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", m, q.Target, q.Host)
	for _, h := range q.Header {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	switch {
	case q.Chunked:
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for s := q.Body; len(s) > 0; {
			n := len(s)
			if n > 700 {
				n = 700
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, s[:n])
			s = s[n:]
		}
		b.WriteString("0\r\n\r\n")
	case q.Body != "":
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(q.Body), q.Body)
	default:
		b.WriteString("\r\n")
	}
	return b.String()
}

func (q Req) String() string {
	b := q.Body
	if len(b) > 60 {
		b = fmt.Sprintf("%s...(%d)", b[:60], len(b))
	}
	return fmt.Sprintf("%s %q host=%q header=%q body=%q from=%s", q.Method, q.Target, q.Host, q.Header, b, q.Remote)
}

// IP is the client's address without port.
func (q Req) IP() string {
	r := q.Remote
	if r == "" {
		r = "192.0.2.1:1234"
	}
	h, _, err := net.SplitHostPort(r)
	vt.Must(err)
	return h
}

// Parse makes the server-side request, as net/http does.
func (q Req) Parse() (*http.Request, error) {
	r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(q.Raw())))
	if err != nil {
		return nil, err
	}
	r.RemoteAddr = q.Remote
	if r.RemoteAddr == "" {
		r.RemoteAddr = "192.0.2.1:1234"
	}
	return r, nil
}

// HostName is the host without port.
func HostName(h string) string {
	if n, _, err := net.SplitHostPort(h); err == nil {
		return n
	}
	return h
}

// Resp is what the handler made of a request.
type Resp struct {
	Status  int
	Header  http.Header
	Body    []byte
	Panic   interface{} // other than http.ErrAbortHandler
	Stack   string
	Aborted bool // http.ErrAbortHandler: net/http breaks the connection off
	Wrote   bool
	Path    string // canonical path by the reference
	HostNam string // requested host without port
}

// Loc is the Location header.
func (r *Resp) Loc() string { return r.Header.Get("Location") }

// Rec records a response as net/http would send it.
type Rec struct {
	H       http.Header
	Snap    http.Header
	Status  int
	Buf     bytes.Buffer
	Head    bool
	FailAt  int // >= 0: writing fails after so many body bytes
	Block   func(written int)
	Fails   int
	Flushes int
}

// NewRec makes a recorder.
func NewRec() *Rec { return &Rec{H: http.Header{}, FailAt: -1} }

// Header implements http.ResponseWriter.
func (w *Rec) Header() http.Header { return w.H }

// WriteHeader implements http.ResponseWriter.
func (w *Rec) WriteHeader(code int) {
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if w.Status != 0 || code < 200 && code != 101 {
		return
	}
	w.Status = code
	w.Snap = w.H.Clone()
}

// Write implements http.ResponseWriter.
func (w *Rec) Write(b []byte) (int, error) {
	if w.Status == 0 {
		w.WriteHeader(200)
	}
	if w.Block != nil {
		w.Block(w.Buf.Len())
	}
	if w.FailAt >= 0 && w.Buf.Len()+len(b) > w.FailAt {
		n := w.FailAt - w.Buf.Len()
		w.Buf.Write(b[:n])
		w.Fails++
		return n, errors.New("write: broken pipe")
	}
	if w.Head || w.Status == 204 || w.Status == 304 {
		if w.Head {
			return len(b), nil
		}
		return 0, http.ErrBodyNotAllowed
	}
	w.Buf.Write(b)
	return len(b), nil
}

// Serve runs one request through the server's router into w.
func (s *Srv) Serve(w *Rec, r *http.Request) *Resp {
	res := &Resp{HostNam: HostName(r.Host)}
	res.Path = Canon(r.URL.Path)
	w.Head = r.Method == "HEAD"
	func() {
		defer func() {
			if p := recover(); p != nil {
				if p == http.ErrAbortHandler {
					res.Aborted = true
					return
				}
				res.Panic = p
				buf := make([]byte, 6000)
				res.Stack = string(buf[:runtime.Stack(buf, false)])
			}
		}()
		s.S.Router.ServeHTTP(w, r)
	}()
	res.Wrote = w.Status != 0
	if w.Status == 0 && res.Panic == nil && !res.Aborted {
		w.WriteHeader(200)
	}
	res.Status, res.Header, res.Body = w.Status, w.Snap, w.Buf.Bytes()
	if res.Header == nil {
		res.Header = http.Header{}
	}
	return res
}

// Do sends one request. It returns nil if net/http itself would refuse it.
func (s *Srv) Do(q Req) *Resp {
	r, err := q.Parse()
	if err != nil {
		return nil
	}
	return s.Serve(NewRec(), r)
}

// Get is a plain GET.
func (s *Srv) Get(host, target string) *Resp {
	return s.Do(Req{Method: "GET", Host: host, Target: target})
}

// Fatal describes an unacceptable end of a handler, "" if there is none.
func (r *Resp) Fatal() string {
	if r.Panic != nil {
		return fmt.Sprintf("handler panicked: %v\n%s", r.Panic, r.Stack)
	}
	if r.Aborted {
		return "response was broken off"
	}
	return ""
}

// ------------------------------------------------------------- upstream

// UpReq is a request as the network would have seen it.
type UpReq struct {
	Method, Scheme, Host, HostHeader, Path, EscapedPath, RawQuery string
	URI                                                           string
	Header                                                        http.Header
	Body                                                          string
}

// Upstream stands in for the network: it records instead of connecting.
type Upstream struct {
	mu      sync.Mutex
	Reqs    []UpReq
	Respond func(u UpReq) (*http.Response, error)
	Opened  int
	Closed  int
}

type tracked struct {
	io.Reader
	u    *Upstream
	once sync.Once
}

func (t *tracked) Close() error {
	t.once.Do(func() { t.u.mu.Lock(); t.u.Closed++; t.u.mu.Unlock() })
	return nil
}

// RoundTrip implements http.RoundTripper.
func (u *Upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	host := r.Host
	if host == "" {
		host = r.URL.Host
	}
	q := UpReq{Method: r.Method, Scheme: r.URL.Scheme, Host: r.URL.Host, HostHeader: host, Path: r.URL.Path, EscapedPath: r.URL.EscapedPath(),
		RawQuery: r.URL.RawQuery, URI: r.URL.RequestURI(), Header: r.Header.Clone(), Body: string(body)}
	u.mu.Lock()
	u.Reqs = append(u.Reqs, q)
	f := u.Respond
	u.mu.Unlock()
	if f == nil {
		f = func(UpReq) (*http.Response, error) {
			return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("up"))}, nil
		}
	}
	resp, err := f(q)
	if resp != nil {
		if resp.Body == nil {
			resp.Body = http.NoBody
		}
		u.mu.Lock()
		u.Opened++
		u.mu.Unlock()
		resp.Body = &tracked{Reader: resp.Body, u: u}
		resp.Request = r
	}
	return resp, err
}

// Count is the number of requests seen.
func (u *Upstream) Count() int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return len(u.Reqs)
}

// Leaks is the number of bodies not closed.
func (u *Upstream) Leaks() int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return u.Opened - u.Closed
}
