package procp

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

// upstream is a proxied server whose answers wait.
type upstream struct {
	l       net.Listener
	srv     http.Server
	mu      sync.Mutex
	arrived map[string]chan struct{}
	release chan struct{}
}

func body(id string, size int) string {
	return strings.Repeat("<"+id+">", size/(len(id)+2)+1)[:size]
}

func newUpstream(addr string) *upstream {
	u := &upstream{arrived: map[string]chan struct{}{}, release: make(chan struct{})}
	var err error
	u.l, err = net.Listen("tcp", addr)
	vt.Must(err)
	u.srv.ErrorLog = quiet
	u.srv.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		id := strings.TrimPrefix(r.URL.Path, "/")
		kind, _, _ := strings.Cut(id, "-")
		here := u.signal(id)
		if r.Header.Get("X-Quick") != "" {
			io.WriteString(w, "quick")
			return
		}
		switch kind {
		case "wait":
			close(here)
			<-u.release
			io.WriteString(w, body(id, 3000))
		case "half":
			io.WriteString(w, body(id, 200000)[:60000])
			w.(http.Flusher).Flush()
			close(here)
			<-u.release
			io.WriteString(w, body(id, 200000)[60000:])
		case "status":
			close(here)
			<-u.release
			w.WriteHeader(503)
			io.WriteString(w, body(id, 10))
		case "upload":
			all, _ := io.ReadAll(r.Body)
			if string(all) != body(id, 90000) {
				w.WriteHeader(599)
				return
			}
			io.WriteString(w, "got it")
		}
	})
	go u.srv.Serve(u.l)
	return u
}

func (u *upstream) signal(id string) chan struct{} {
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.arrived[id] == nil {
		u.arrived[id] = make(chan struct{})
	}
	return u.arrived[id]
}

// slowBody is an upload that stops in the middle. It is begun when the handler
// of the request asks for it (100 Continue).
type slowBody struct {
	data    []byte
	half    int
	release chan struct{}
	started func()
	off     int
}

func (s *slowBody) Read(p []byte) (int, error) {
	s.started()
	if s.off >= len(s.data) {
		return 0, io.EOF
	}
	end := len(s.data)
	if s.off < s.half {
		end = s.half
	} else {
		<-s.release
	}
	m := copy(p, s.data[s.off:end])
	s.off += m
	return m, nil
}

const bigSize = 12 << 20

var bigFile = sync.OnceValue(func() []byte { return []byte(body("big", bigSize)) })

type outcome struct {
	id     string
	status int
	bad    string
	host   string
	path   string
}

func TestT02(t *testing.T) { stops(t, 5, 90, []int{0, 0, 100, 700, 1500}) }

// TestT02Long has requests that take long after the signal, but less than the
// 30 s they are given.
func TestT02Long(t *testing.T) { stops(t, 1, 8, []int{25000, 21000, 16000, 11000}) }

func stops(t *testing.T, quick, thorough int, holds []int) {
	crt := certs()[0]
	vt.Check(t, quick, thorough, func(rt *rapid.T, c *vt.Case) {
		dir := scratch()
		defer os.RemoveAll(dir)
		open(dir + "/w")
		writeCert(dir+"/cert", crt.pem)
		writeCert(dir+"/key", crt.key)
		vt.Must(os.Mkdir(dir+"/www", 0o755))
		vt.Must(os.WriteFile(dir+"/www/small.txt", []byte("small"), 0o644))
		useTLS := !chance(rt, "plain", 3)
		addr := nextAddr()
		up := newUpstream(addr + ":9000")
		defer up.srv.Close()
		released := false
		release := func() {
			if !released {
				released = true
				close(up.release)
			}
		}
		defer release()
		o := obj{}
		for k, v := range map[string]interface{}{
			"Core.Address": addr, "Core.Port": "8443", "Core.LogOut": "stderr", "Core.LogLevel": 0, "Core.FileDir": dir + "/w/fd",
			"Core.Metrics.Path": "/metrics", "Core.Metrics.Out": dir + "/w/metrics.json", "Core.Metrics.Enabled": true,
			"Core.ReadTimeout": 900, "Core.WriteTimeout": 900, "Core.ReadHeaderTimeout": 900,
			"Core.TLS.Enabled": useTLS, "Core.TLS.TLSCert": dir + "/cert", "Core.TLS.TLSKey": dir + "/key",
			"Core.VirtualHosting": true, "Core.VirtualHosts": map[string]string{"files.test": dir + "/v1", "proxy.test": dir + "/v2"},
		} {
			put(o, k, v)
		}
		write(rt, dir+"/v1", obj{"Serve": obj{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": map[string]string{"/": "GET"}}, "Guard": obj{"Rate": 100000, "RateBurst": 100000}}, false)
		write(rt, dir+"/v2", obj{"Proxy": obj{"Enabled": true, "Rules": map[string]string{"proxy.test": "http://" + addr + ":9000"}, "Methods": []string{"GET", "POST"}}, "Guard": obj{"Rate": 100000, "RateBurst": 100000}}, false)
		conf := dir + "/c.json"
		write(rt, conf, o, false)

		kinds := []string{}
		least := 0
		if holds[0] > 0 {
			least = 1
		}
		for i := n(rt, "in progress", least, 6); i > 0; i-- {
			kinds = append(kinds, pick(rt, "kind", "wait", "wait", "half", "status", "upload", "download"))
		}
		for _, k := range kinds {
			if k == "download" {
				vt.Must(os.WriteFile(dir+"/www/big.bin", bigFile(), 0o644))
			}
			c.Label(k)
		}
		c.LabelIf(len(kinds) == 0, "idle")
		earlier := n(rt, "earlier", 0, 5)
		h2 := useTLS && rapid.Bool().Draw(rt, "h2")
		sharedConn := rapid.Bool().Draw(rt, "shared")
		idle := 0
		if chance(rt, "idle", 5) {
			idle = n(rt, "idleconns", 1, 2)
		}
		sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}).Draw(rt, "signal")
		hold := rapid.SampledFrom(holds).Draw(rt, "hold")
		var again []syscall.Signal
		if len(kinds) > 0 && chance(rt, "again", 3) {
			again = rapid.SliceOfN(rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}), 1, 3).Draw(rt, "signals")
			hold = max(hold, 100)
		}
		c.LabelIf(again != nil, "several signals")
		desc := fmt.Sprintf("TLS %v, h2 %v, one client %v, in progress %v, %d earlier, %d idle connections, %v and later %v, released %d ms after the listener closed", useTLS, h2, sharedConn, kinds, earlier, idle, sig, again, hold)
		vt.Note(desc)
		c.Desc(desc)
		c.NonTrivial(len(kinds) > 0)
		c.LabelIf(useTLS, "TLS")
		c.LabelIf(h2, "HTTP/2")

		pr := launch(dir, false, nil, serverBinary(), conf)
		defer pr.kill()
		full := addr + ":8443"
		if !pr.listening(rt, full) {
			rt.Fatalf("no start: %s\n%s", desc, tail(pr.out.String()))
		}
		scheme := "http"
		if useTLS {
			scheme = "https"
		}
		want := counts{}
		newClient := func(small bool) *http.Transport {
			return &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, ForceAttemptHTTP2: h2, DisableCompression: true, ExpectContinueTimeout: 60 * time.Second,
				DialContext: func(ctx context.Context, network, _ string) (net.Conn, error) {
					var d net.Dialer
					conn, err := d.DialContext(ctx, "tcp", full)
					if tc, ok := conn.(*net.TCPConn); ok && small {
						tc.SetReadBuffer(256 << 10)
					}
					return conn, err
				}}
		}
		shared := newClient(false)
		defer shared.CloseIdleConnections()
		do := func(tr *http.Transport, method, host, path string, body io.Reader, size int64, quick bool) (*http.Response, error) {
			req, err := http.NewRequest(method, scheme+"://"+host+path, body)
			vt.Must(err)
			req.ContentLength = size
			if quick {
				req.Header.Set("X-Quick", "1")
			}
			if body != nil {
				req.Header.Set("Expect", "100-continue")
			}
			return tr.RoundTrip(req)
		}
		for i := 0; i < earlier; i++ {
			host, path := "files.test", pick(rt, "path", "/small.txt", "/none", "/small.txt/x")
			if chance(rt, "proxied", 3) {
				host, path = "proxy.test", "/early"
			}
			resp, err := do(shared, "GET", host, path, nil, 0, true)
			if err != nil {
				rt.Fatalf("earlier request: %v\n%s", err, desc)
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			want[ckey(resp.StatusCode, host, path)]++
		}
		for i := 0; i < idle; i++ {
			conn, err := net.Dial("tcp", full)
			vt.Must(err)
			defer conn.Close()
		}

		// the requests in progress
		results := make(chan outcome, len(kinds))
		var ready []chan struct{}
		for i, kind := range kinds {
			id := fmt.Sprintf("%s-%d", kind, i)
			tr := shared
			if !sharedConn || kind == "download" {
				tr = newClient(kind == "download")
				defer tr.CloseIdleConnections()
			}
			if kind == "download" {
				here := make(chan struct{})
				ready = append(ready, here)
				go func() {
					out := outcome{id: id, host: "files.test", path: "/big.bin"}
					defer func() { results <- out }()
					once := sync.OnceFunc(func() { close(here) })
					defer once()
					resp, err := do(tr, "GET", out.host, out.path, nil, 0, false)
					if err != nil {
						out.bad = err.Error()
						return
					}
					defer resp.Body.Close()
					out.status = resp.StatusCode
					first := make([]byte, 1000)
					if _, err := io.ReadFull(resp.Body, first); err != nil {
						out.bad = "first bytes: " + err.Error()
						return
					}
					once()
					<-up.release
					rest, err := io.ReadAll(resp.Body)
					if err != nil || !bytes.Equal(append(first, rest...), bigFile()) || out.status != 200 {
						out.bad = fmt.Sprintf("status %d, %d bytes of %d, %v", out.status, len(rest)+1000, bigSize, err)
					}
				}()
				continue
			}
			ready = append(ready, up.signal(id))
			go func() {
				out := outcome{id: id, host: "proxy.test", path: "/" + id}
				defer func() { results <- out }()
				method := "GET"
				var rb io.Reader
				var size int64
				if kind == "upload" {
					method = "POST"
					here := up.signal(id)
					rb, size = &slowBody{data: []byte(body(id, 90000)), half: 30000, release: up.release, started: sync.OnceFunc(func() { close(here) })}, 90000
				}
				resp, err := do(tr, method, out.host, out.path, rb, size, false)
				if err != nil {
					out.bad = err.Error()
					return
				}
				b, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				out.status = resp.StatusCode
				exp, expBody := 200, body(id, 3000)
				switch kind {
				case "half":
					expBody = body(id, 200000)
				case "status":
					exp, expBody = 503, body(id, 10)
				case "upload":
					expBody = "got it"
				}
				if err != nil || out.status != exp || string(b) != expBody {
					out.bad = fmt.Sprintf("status %d, %d bytes of %d, %v", out.status, len(b), len(expBody), err)
				}
			}()
		}
		for i, ch := range ready {
			select {
			case <-ch:
			case out := <-results:
				rt.Fatalf("request %s ended before the signal: %s\n%s", out.id, out.bad, desc)
			case <-time.After(40 * time.Second):
				rt.Fatalf("request %s did not get to its handler\n%s", kinds[i], desc)
			}
		}

		vt.Progress()
		pr.signal(sig)
		t0 := time.Now()
		for {
			conn, err := net.DialTimeout("tcp", full, 10*time.Second)
			if err != nil {
				break
			}
			conn.Close()
			if time.Since(t0) > 15*time.Second {
				rt.Fatalf("15 s after the signal new connections are still accepted\n%s", desc)
			}
			time.Sleep(5 * time.Millisecond)
		}
		lingered := time.Since(t0)
		if len(kinds) > 0 && pr.ended() {
			rt.Fatalf("the process ended with requests in progress (%v)\n%s\n%s", pr.err, desc, tail(pr.out.String()))
		}
		for _, sig := range again {
			pr.signal(sig)
		}
		time.Sleep(time.Duration(hold) * time.Millisecond)
		if len(kinds) > 0 && pr.ended() {
			rt.Fatalf("the process ended with requests in progress (%v)\n%s\n%s", pr.err, desc, tail(pr.out.String()))
		}
		release()
		for range kinds {
			select {
			case out := <-results:
				if out.bad != "" {
					rt.Fatalf("request %s in progress at the signal was not answered completely: %s\n%s", out.id, out.bad, desc)
				}
				want[ckey(out.status, out.host, out.path)]++
			case <-time.After(40 * time.Second):
				rt.Fatalf("a request in progress at the signal was not answered within 40 s\n%s", desc)
			}
		}
		if !pr.within(50 * time.Second) {
			rt.Fatalf("50 s after the last answer the process has not ended\n%s", desc)
		}
		if useTLS {
			got, there, bad := readFile(dir+"/w/metrics.json", want)
			if bad == "" && !there {
				bad = "no metrics were saved"
			}
			if bad == "" {
				bad = got.between(want, want)
			}
			if bad != "" {
				rt.Fatalf("saved metrics: %s\n%s", bad, desc)
			}
		}
		// a busy machine does not take long every time
		for i := 0; i < 4 && lingered > 800*time.Millisecond; i++ {
			vt.Progress()
			pr := launch(dir, false, nil, serverBinary(), conf)
			if pr.listening(rt, full) {
				pr.signal(sig)
				t0 := time.Now()
				for time.Since(t0) < 15*time.Second {
					conn, err := net.DialTimeout("tcp", full, 10*time.Second)
					if err != nil {
						break
					}
					conn.Close()
					time.Sleep(5 * time.Millisecond)
				}
				lingered = min(lingered, time.Since(t0))
			}
			pr.kill()
		}
		if lingered > 800*time.Millisecond {
			rt.Fatalf("%v after the signal new connections were still accepted, each time\n%s", lingered, desc)
		}
	})
}
