package procp

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

// T03: the configured time limits are kept, and only those.

const (
	earlyBy = 900 * time.Millisecond  // how much before a limit a client in time is done
	lateBy  = 2500 * time.Millisecond // how much after a limit it must have been enforced
	tooSoon = 100 * time.Millisecond  // enforcing a limit this much early is early
)

type limitConf struct {
	read, header, write int
	tls                 bool
}

// slow is a client that is slow in one way.
type slow struct {
	kind  string
	late  bool // beyond the limit
	prior int  // requests made on the connection before
}

func (s slow) String() string {
	t := s.kind + " in time"
	if s.late {
		t = s.kind + " beyond the limit"
	}
	if s.prior > 0 {
		t += fmt.Sprintf(" after %d other requests", s.prior)
	}
	return t
}

type t03 struct {
	limitConf
	addr   string
	upMu   sync.Mutex
	upSaw  map[string]string
	file   []byte
	client tls.Config
}

func (e *t03) dial() (net.Conn, error) {
	c, err := net.DialTimeout("tcp", e.addr+":8443", 5*time.Second)
	if err != nil {
		return nil, err
	}
	c.(*net.TCPConn).SetReadBuffer(64 << 10)
	if e.tls {
		t := tls.Client(c, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"http/1.1"}})
		if err := t.Handshake(); err != nil {
			c.Close()
			return nil, err
		}
		return t, nil
	}
	return c, nil
}

// ended waits until the server ends the connection and gives what it sent.
func ended(c net.Conn, until time.Time) ([]byte, time.Time, bool) {
	c.SetReadDeadline(until)
	b, err := io.ReadAll(c)
	ne, ok := err.(net.Error)
	return b, time.Now(), !(ok && ne.Timeout())
}

// run is one client. It gives what went wrong.
func (e *t03) run(s slow, id string) string {
	var limit time.Duration
	sec := func(n int) time.Duration { return time.Duration(n) * time.Second }
	t0 := time.Now()
	fail := func(f string, a ...interface{}) string {
		return fmt.Sprintf("client %s (%v, limit %v, after %v): ", id, s, limit, time.Since(t0).Round(time.Millisecond)) + fmt.Sprintf(f, a...)
	}
	if s.kind == "handshake" {
		limit = sec(max(e.read, e.header, e.write))
		c, err := net.DialTimeout("tcp", e.addr+":8443", 5*time.Second)
		if err != nil {
			return fail("%v", err)
		}
		defer c.Close()
		c.Write([]byte{22, 3, 1}) // the beginning of a hello
		if _, _, ok := ended(c, t0.Add(limit+lateBy)); !ok {
			return fail("an unfinished handshake was not ended")
		}
		return ""
	}
	if strings.HasPrefix(s.kind, "HTTP/2") {
		return e.run2(s, id)
	}
	if s.kind == "crowd" {
		return e.crowd(id)
	}
	c, err := e.dial()
	if err != nil {
		return fail("connecting: %v", err)
	}
	defer c.Close()
	br := bufio.NewReader(c)
	response := func() (int, []byte, error) {
		resp, err := http.ReadResponse(br, &http.Request{Method: "GET"})
		if err != nil {
			return 0, nil, err
		}
		b, err := io.ReadAll(resp.Body)
		return resp.StatusCode, b, err
	}
	start := time.Now() // not after the server's
	// drip sends data in small pieces until a time, and the rest then.
	drip := func(data string, until time.Time) error {
		steps := 12
		for i := 0; i < steps; i++ {
			cut := len(data) / (steps - i)
			if i == steps-1 {
				cut = len(data)
			}
			if cut > 0 {
				if _, err := io.WriteString(c, data[:cut]); err != nil {
					return err
				}
				data = data[cut:]
			}
			if i < steps-1 {
				time.Sleep(time.Until(until) / time.Duration(steps-1-i))
			}
		}
		return nil
	}
	small := "GET /small.txt HTTP/1.1\r\nHost: files.test\r\nX-Long: " + strings.Repeat("x", 200) + "\r\n"
	for i := 0; i < s.prior; i++ {
		if i%2 == 0 {
			io.WriteString(c, small+"\r\n")
			if st, b, err := response(); err != nil || st != 200 || string(b) != "small" {
				return fail("request %d on its connection: status %d, %q, %v", i, st, b, err)
			}
		} else {
			one := fmt.Sprintf("%s-%d", id, i)
			fmt.Fprintf(c, "POST /%s HTTP/1.1\r\nHost: proxy.test\r\nContent-Length: 5000\r\nContent-Type: text/plain\r\n\r\n%s", one, body(one, 5000))
			if st, b, err := response(); err != nil || st != 200 || string(b) != "got "+one {
				return fail("request %d on its connection: status %d, %q, %v", i, st, b, err)
			}
		}
		time.Sleep(time.Duration(50*(i+1)) * time.Millisecond)
		start = time.Now()
	}
	switch s.kind {
	case "silent", "header", "second header":
		limit = sec(e.header)
		if s.kind == "second header" {
			io.WriteString(c, small+"\r\n")
			if st, b, err := response(); err != nil || st != 200 || string(b) != "small" {
				return fail("first request: status %d, %q, %v", st, b, err)
			}
			time.Sleep(300 * time.Millisecond)
			start = time.Now()
		}
		if !s.late {
			if err := drip(small, start.Add(limit-earlyBy)); err != nil {
				return fail("disconnected while sending its header: %v", err)
			}
			io.WriteString(c, "\r\n")
			if st, b, err := response(); err != nil || st != 200 || string(b) != "small" {
				return fail("status %d, %q, %v", st, b, err)
			}
			return ""
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		if s.kind != "silent" {
			io.WriteString(c, small)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					if _, err := io.WriteString(c, "X-Drip: 1\r\n"); err != nil {
						return
					}
					select {
					case <-stop:
						return
					case <-time.After(150 * time.Millisecond):
					}
				}
			}()
		}
		b, at, ok := ended(c, start.Add(limit+lateBy))
		close(stop)
		wg.Wait()
		if !ok {
			return fail("still connected without having sent its header")
		}
		if bytes.HasPrefix(b, []byte("HTTP/1.1 2")) {
			return fail("got an answer without having sent its header: %q", b)
		}
		if at.Sub(start) < limit-tooSoon {
			return fail("disconnected early, %v after it began", at.Sub(start))
		}
	case "body", "chunked body":
		limit = sec(e.read)
		data := body(id, 5000)
		framing := fmt.Sprintf("Content-Length: %d", len(data))
		if s.kind == "chunked body" {
			framing = "Transfer-Encoding: chunked"
			rest, chunked := data, ""
			for size := 700; rest != ""; rest = rest[size:] {
				size = min(size, len(rest))
				chunked += fmt.Sprintf("%x\r\n%s\r\n", size, rest[:size])
			}
			data = chunked + "0\r\n\r\n"
		}
		head := fmt.Sprintf("POST /%s HTTP/1.1\r\nHost: proxy.test\r\n%s\r\nContent-Type: text/plain\r\n\r\n", id, framing)
		io.WriteString(c, head)
		if !s.late {
			if err := drip(data, start.Add(limit-earlyBy)); err != nil {
				return fail("disconnected while sending its body: %v", err)
			}
			st, b, err := response()
			if e.write < e.read+1 && time.Since(start) > sec(e.write)-tooSoon {
				return "" // its answer was beyond the other limit
			}
			if err != nil || st != 200 || string(b) != "got "+id {
				return fail("status %d, %q, %v", st, b, err)
			}
			return ""
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < len(data)-1; i++ {
				if _, err := io.WriteString(c, data[i:i+1]); err != nil {
					return
				}
				select {
				case <-stop:
					return
				case <-time.After(100 * time.Millisecond):
				}
			}
		}()
		// answered 502 or disconnected
		c.SetReadDeadline(start.Add(limit + lateBy))
		st, _, err := response()
		at := time.Now()
		close(stop)
		wg.Wait()
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return fail("neither answered nor disconnected without having sent its body")
		}
		if err == nil && st != 502 && st != 408 {
			return fail("answered %d without having sent its body", st)
		}
		if at.Sub(start) < limit-tooSoon {
			return fail("given up early, %v after it began (status %d, %v)", at.Sub(start), st, err)
		}
		e.upMu.Lock()
		saw, there := e.upSaw[id]
		e.upMu.Unlock()
		if there {
			return fail("a request whose body was not complete was forwarded (%s)", saw)
		}
	case "upstream":
		limit = sec(e.header)
		wait := limit - earlyBy
		if s.late {
			wait = limit + lateBy + 500*time.Millisecond
		}
		fmt.Fprintf(c, "GET /%s?%d HTTP/1.1\r\nHost: proxy.test\r\n\r\n", id, wait.Milliseconds())
		if !s.late {
			if sec(e.write)-wait < earlyBy {
				return "" // its answer is beyond the other limit
			}
			if st, b, err := response(); err != nil || st != 200 || string(b) != "late "+id {
				return fail("an upstream that answered in time: status %d, %q, %v", st, b, err)
			}
			return ""
		}
		c.SetReadDeadline(start.Add(limit + lateBy))
		st, _, err := response()
		at := time.Now()
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return fail("an upstream that does not answer was not given up")
		}
		if at.Sub(start) < limit-tooSoon {
			return fail("an upstream was given up early, after %v (status %d, %v)", at.Sub(start), st, err)
		}
		if e.write-e.header >= 3 && (err != nil || st != 502) {
			return fail("an upstream that does not answer: status %d, %v", st, err)
		}
	case "trickling upstream":
		// beyond the limit it is still answering, in small pieces
		limit = sec(e.write)
		last := limit - 2*earlyBy
		if s.late {
			last = limit + lateBy
		} else if e.write < 2 {
			return ""
		}
		fmt.Fprintf(c, "GET /trickle?%d HTTP/1.1\r\nHost: proxy.test\r\n\r\n", last.Milliseconds())
		c.SetReadDeadline(start.Add(last + 20*time.Second))
		st, b, err := response()
		if !s.late && (err != nil || st != 200 || string(b) != strings.Repeat("trickle ", 20)) {
			return fail("status %d, %q, %v", st, b, err)
		}
		if s.late && err == nil {
			return fail("got the whole answer (status %d, %q), which took longer than the limit", st, b)
		}
	case "steady reader", "proxied steady reader":
		limit = sec(e.write)
		host := "files.test"
		if s.kind == "proxied steady reader" {
			host = "proxy.test"
		}
		fmt.Fprintf(c, "GET /big.bin HTTP/1.1\r\nHost: %s\r\n\r\n", host)
		resp, err := http.ReadResponse(br, &http.Request{Method: "GET"})
		if err != nil || resp.StatusCode != 200 {
			return fail("%v", err)
		}
		until := start.Add(limit + lateBy)
		if !s.late {
			if e.write < 2 {
				return ""
			}
			until = start.Add(limit - 2*earlyBy)
		}
		// a quarter of it steadily until then, and the rest at once
		steps := 20
		var got []byte
		buf := make([]byte, len(e.file)/4/steps)
		for i := 0; i < steps && err == nil; i++ {
			time.Sleep(time.Until(until) / time.Duration(steps-i))
			_, err = io.ReadFull(resp.Body, buf)
			got = append(got, buf...)
		}
		if err == nil {
			var rest []byte
			c.SetReadDeadline(time.Now().Add(20 * time.Second))
			rest, err = io.ReadAll(resp.Body)
			got = append(got, rest...)
		}
		if !s.late && (err != nil || !bytes.Equal(got, e.file)) {
			return fail("%d bytes of %d, %v", len(got), len(e.file), err)
		}
		if s.late && err == nil {
			return fail("got the whole answer (%d bytes) although it did not take it within the limit", len(got))
		}
	case "reader", "proxied reader":
		limit = sec(e.write)
		host := "files.test"
		if s.kind == "proxied reader" {
			host = "proxy.test"
		}
		fmt.Fprintf(c, "GET /big.bin HTTP/1.1\r\nHost: %s\r\n\r\n", host)
		if !s.late {
			if e.write < 2 {
				return ""
			}
			time.Sleep(time.Until(start.Add(limit - 2*earlyBy)))
			if st, b, err := response(); err != nil || st != 200 || !bytes.Equal(b, e.file) {
				return fail("status %d, %d bytes of %d, %v", st, len(b), len(e.file), err)
			}
			return ""
		}
		time.Sleep(time.Until(start.Add(limit + lateBy)))
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		if st, b, err := response(); err == nil {
			return fail("got the whole answer (status %d, %d bytes) without reading until after the limit", st, len(b))
		}
	}
	return ""
}

// crowd is many clients whose answers take some time, all at once.
func (e *t03) crowd(id string) string {
	wait := time.Duration(min(e.header, e.write)) * 600 * time.Millisecond
	bads := make([]string, 250)
	var wg sync.WaitGroup
	for i := range bads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			one := fmt.Sprintf("%s-%d", id, i)
			c, err := e.dial()
			if err != nil {
				bads[i] = err.Error()
				return
			}
			defer c.Close()
			start := time.Now()
			c.SetReadDeadline(start.Add(wait + 4*time.Second))
			fmt.Fprintf(c, "GET /%s?%d HTTP/1.1\r\nHost: proxy.test\r\n\r\n", one, wait.Milliseconds())
			resp, err := http.ReadResponse(bufio.NewReader(c), nil)
			if err != nil {
				bads[i] = err.Error()
				return
			}
			b, err := io.ReadAll(resp.Body)
			if err != nil || resp.StatusCode != 200 || string(b) != "late "+one {
				bads[i] = fmt.Sprintf("status %d, %q, %v after %v", resp.StatusCode, b, err, time.Since(start))
			}
		}()
	}
	wg.Wait()
	for i, bad := range bads {
		if bad != "" {
			return fmt.Sprintf("client %d of %d whose answers take %v: %s", i, len(bads), wait, bad)
		}
	}
	return ""
}

// run2 is a client that speaks HTTP/2.
func (e *t03) run2(s slow, id string) string {
	var limit time.Duration
	start := time.Now()
	fail := func(f string, a ...interface{}) string {
		return fmt.Sprintf("client %s (%v, limit %v, after %v): ", id, s, limit, time.Since(start).Round(time.Millisecond)) + fmt.Sprintf(f, a...)
	}
	tr := &http.Transport{ForceAttemptHTTP2: true, DisableCompression: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true},
		DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			return (&net.Dialer{Timeout: 5 * time.Second}).DialContext(ctx, "tcp", e.addr+":8443")
		}}
	defer tr.CloseIdleConnections()
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	ask := func(method, url string, body io.Reader) (*http.Response, error) {
		req, err := http.NewRequestWithContext(ctx, method, url, body)
		vt.Must(err)
		if body != nil {
			req.Header.Set("Content-Type", "text/plain")
		}
		resp, err := tr.RoundTrip(req)
		if err == nil && resp.ProtoMajor != 2 {
			resp.Body.Close()
			return nil, fmt.Errorf("not HTTP/2")
		}
		return resp, err
	}
	all := func(resp *http.Response, err error) (int, []byte, error) {
		if err != nil {
			return 0, nil, err
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		return resp.StatusCode, b, err
	}
	sec := func(n int) time.Duration { return time.Duration(n) * time.Second }
	if st, b, err := all(ask("GET", "https://files.test/small.txt", nil)); err != nil || st != 200 || string(b) != "small" {
		return fail("first request: status %d, %q, %v", st, b, err)
	}
	start = time.Now()
	switch s.kind {
	case "HTTP/2 body":
		limit = sec(e.read)
		data := body(id, 5000)
		until := start.Add(limit - earlyBy)
		if s.late {
			until = start.Add(limit + lateBy)
		}
		rd, wr := io.Pipe()
		go func() {
			for i := 0; i < 12; i++ {
				if _, err := io.WriteString(wr, data[5000*i/12:5000*(i+1)/12]); err != nil {
					return
				}
				if i < 11 {
					time.Sleep(time.Until(until) / time.Duration(11-i))
				}
			}
			wr.Close()
		}()
		st, b, err := all(ask("POST", "https://proxy.test/"+id, rd))
		took := time.Since(start)
		rd.Close()
		if !s.late {
			if e.write < e.read+1 && took > sec(e.write)-tooSoon {
				return ""
			}
			if err != nil || st != 200 || string(b) != "got "+id {
				return fail("status %d, %q, %v", st, b, err)
			}
			return ""
		}
		if took > limit+lateBy {
			return fail("neither answered nor refused without having sent its body")
		}
		if err == nil && st != 502 && st != 408 {
			return fail("answered %d without having sent its body", st)
		}
		if took < min(limit, sec(e.write))-tooSoon {
			return fail("given up early (status %d, %v)", st, err)
		}
		e.upMu.Lock()
		saw, there := e.upSaw[id]
		e.upMu.Unlock()
		if there {
			return fail("a request whose body was not complete was forwarded (%s)", saw)
		}
	case "HTTP/2 upstream":
		limit = sec(e.header)
		wait := limit - earlyBy
		if s.late {
			wait = limit + lateBy + 500*time.Millisecond
		} else if sec(e.write)-wait < earlyBy {
			return ""
		}
		st, b, err := all(ask("GET", fmt.Sprintf("https://proxy.test/%s?%d", id, wait.Milliseconds()), nil))
		took := time.Since(start)
		if !s.late {
			if err != nil || st != 200 || string(b) != "late "+id {
				return fail("an upstream that answered in time: status %d, %q, %v", st, b, err)
			}
			return ""
		}
		if took > limit+lateBy {
			return fail("an upstream that does not answer was not given up")
		}
		if took < min(limit, sec(e.write))-tooSoon {
			return fail("an upstream was given up early (status %d, %v)", st, err)
		}
		if e.write-e.header >= 3 && (err != nil || st != 502) {
			return fail("an upstream that does not answer: status %d, %v", st, err)
		}
	case "HTTP/2 reader":
		limit = sec(e.write)
		if !s.late && e.write < 2 {
			return ""
		}
		resp, err := ask("GET", "https://files.test/big.bin", nil)
		if err != nil || resp.StatusCode != 200 {
			return fail("%v", err)
		}
		wait := limit - 2*earlyBy
		if s.late {
			wait = limit + lateBy
		}
		time.Sleep(time.Until(start.Add(wait)))
		_, b, err := all(resp, nil)
		if !s.late && (err != nil || !bytes.Equal(b, e.file)) {
			return fail("%d bytes of %d, %v", len(b), len(e.file), err)
		}
		if s.late && err == nil {
			return fail("got the whole answer (%d bytes) without reading until after the limit", len(b))
		}
	}
	return ""
}

func TestT03(t *testing.T) {
	crt := certs()[0]
	big := []byte(body("big", 16<<20))
	vt.Check(t, 3, 40, func(rt *rapid.T, c *vt.Case) {
		dir := scratch()
		defer os.RemoveAll(dir)
		open(dir + "/w")
		writeCert(dir+"/cert", crt.pem)
		writeCert(dir+"/key", crt.key)
		vt.Must(os.Mkdir(dir+"/www", 0o755))
		vt.Must(os.WriteFile(dir+"/www/small.txt", []byte("small"), 0o644))
		vt.Must(os.WriteFile(dir+"/www/big.bin", big, 0o644))

		e := &t03{addr: nextAddr(), upSaw: map[string]string{}, file: big}
		e.tls = rapid.Bool().Draw(rt, "tls")
		// three limits that are well apart
		v := rapid.Permutation([]int{n(rt, "short", 1, 2), n(rt, "middle", 5, 6), n(rt, "long", 9, 10)}).Draw(rt, "limits")
		e.read, e.header, e.write = v[0], v[1], v[2]

		var l net.Listener
		var err error
		l, err = net.Listen("tcp", e.addr+":9000")
		vt.Must(err)
		up := http.Server{ErrorLog: quiet, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			id := strings.TrimPrefix(r.URL.Path, "/")
			if id == "big.bin" {
				w.Write(big)
				return
			}
			if r.Method == "POST" {
				all, err := io.ReadAll(r.Body)
				e.upMu.Lock()
				e.upSaw[id] = fmt.Sprintf("%d bytes, %v", len(all), err)
				e.upMu.Unlock()
				if string(all) == body(id, 5000) {
					io.WriteString(w, "got "+id)
				}
				return
			}
			var ms int
			fmt.Sscan(r.URL.RawQuery, &ms)
			if id == "trickle" {
				for i := 0; i < 20; i++ {
					if _, err := io.WriteString(w, "trickle "); err != nil {
						return
					}
					w.(http.Flusher).Flush()
					if i < 19 {
						time.Sleep(time.Duration(ms) * time.Millisecond / 19)
					}
				}
				return
			}
			select {
			case <-time.After(time.Duration(ms) * time.Millisecond):
			case <-r.Context().Done():
			}
			io.WriteString(w, "late "+id)
		})}
		go up.Serve(l)
		defer up.Close()

		o := obj{}
		for k, v := range map[string]interface{}{
			"Core.Address": e.addr, "Core.Port": "8443", "Core.LogOut": "stderr", "Core.LogLevel": 0, "Core.FileDir": dir + "/w/fd",
			"Core.ReadTimeout": e.read, "Core.WriteTimeout": e.write, "Core.ReadHeaderTimeout": e.header,
			"Core.TLS.Enabled": e.tls, "Core.TLS.TLSCert": dir + "/cert", "Core.TLS.TLSKey": dir + "/key",
			"Core.VirtualHosting": true, "Core.VirtualHosts": map[string]string{"files.test": dir + "/v1", "proxy.test": dir + "/v2"},
		} {
			put(o, k, v)
		}
		write(rt, dir+"/v1", obj{"Serve": obj{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": map[string]string{"/": "GET"}}, "Guard": obj{"Rate": 100000, "RateBurst": 100000}}, false)
		write(rt, dir+"/v2", obj{"Proxy": obj{"Enabled": true, "Rules": map[string]string{"proxy.test": "http://" + e.addr + ":9000"}, "Methods": []string{"GET", "POST"}},
			"Serve": obj{"MIMETypes": obj{"RequestTypes": map[string]string{"/": "text/plain"}}}, "Guard": obj{"Rate": 100000, "RateBurst": 100000}}, false)
		conf := dir + "/c.json"
		write(rt, conf, o, false)

		var clients []slow
		kinds := []string{"silent", "header", "second header", "body", "chunked body", "upstream", "trickling upstream", "reader", "proxied reader", "steady reader", "proxied steady reader"}
		if e.tls {
			kinds = append(kinds, "handshake", "HTTP/2 body", "HTTP/2 upstream", "HTTP/2 reader")
		}
		for i := n(rt, "clients", 10, 20); i > 0; i-- {
			s := slow{kind: pick(rt, "kind", kinds...), late: rapid.Bool().Draw(rt, "late")}
			if s.kind == "silent" || s.kind == "handshake" {
				s.late = true
			}
			if s.kind != "silent" && s.kind != "handshake" && !strings.HasPrefix(s.kind, "HTTP/2") && chance(rt, "reused", 2) {
				s.prior = n(rt, "prior", 1, 3)
			}
			clients = append(clients, s)
			c.Label(s.String())
		}
		if chance(rt, "crowd", 2) {
			clients = append(clients, slow{kind: "crowd"})
			c.Label("crowd")
		}
		desc := fmt.Sprintf("TLS %v, ReadTimeout %d, ReadHeaderTimeout %d, WriteTimeout %d, clients %v", e.tls, e.read, e.header, e.write, clients)
		vt.Note(desc)
		c.Desc(desc)
		c.NonTrivial(true)
		c.LabelIf(e.tls, "TLS")

		pr := launch(dir, false, nil, serverBinary(), conf)
		defer pr.kill()
		if !pr.listening(rt, e.addr+":8443") {
			rt.Fatalf("no start: %s\n%s", desc, tail(pr.out.String()))
		}
		// others are served meanwhile
		ctx, cancel := context.WithCancel(context.Background())
		var quickBad string
		var quickDone = make(chan struct{})
		go func() {
			defer close(quickDone)
			for i := 0; ctx.Err() == nil; i++ {
				bad := ""
				for try := 0; try < 3; try++ {
					if bad = e.quick(fmt.Sprint("quick", i, "-", try)); bad == "" {
						break
					}
				}
				if bad != "" {
					quickBad = bad
					return
				}
				select {
				case <-ctx.Done():
				case <-time.After(400 * time.Millisecond):
				}
			}
		}()
		bads := make([]string, len(clients))
		var wg sync.WaitGroup
		for i, s := range clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				// what is wrong every time is not the doing of a busy machine
				for try := 0; try < 3; try++ {
					vt.Progress()
					if bads[i] = e.run(s, fmt.Sprintf("c%d-%d", i, try)); bads[i] == "" {
						return
					}
				}
			}()
		}
		wg.Wait()
		cancel()
		<-quickDone
		if pr.ended() {
			rt.Fatalf("the server ended (%v): %s\n%s", pr.err, desc, tail(pr.out.String()))
		}
		for _, bad := range append(bads, quickBad) {
			if bad != "" {
				rt.Fatalf("%s\n%s", bad, desc)
			}
		}
	})
}

// quick is a client that is not slow.
func (e *t03) quick(id string) string {
	c, err := e.dial()
	if err != nil {
		return "a quick client: " + err.Error()
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(8 * time.Second))
	req := "GET /small.txt HTTP/1.1\r\nHost: files.test\r\n\r\n"
	want := "small"
	if len(id)%2 == 0 {
		req, want = fmt.Sprintf("GET /%s?0 HTTP/1.1\r\nHost: proxy.test\r\n\r\n", id), "late "+id
	}
	io.WriteString(c, req)
	resp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return "a quick client: " + err.Error()
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != 200 || string(b) != want {
		return fmt.Sprintf("a quick client: status %d, %q, %v", resp.StatusCode, b, err)
	}
	return ""
}
