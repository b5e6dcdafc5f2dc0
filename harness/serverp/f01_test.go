package serverp

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// F01: requests leave nothing behind.

// openFiles are the descriptors of this process and what they refer to.
func openFiles() map[string]string {
	out := map[string]string{}
	es, err := os.ReadDir("/proc/self/fd")
	vt.Must(err)
	for _, e := range es {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			out[e.Name()] = to
		}
	}
	return out
}

func names(dirs ...string) string {
	var all []string
	for _, d := range dirs {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil {
				all = append(all, p)
			}
			return nil
		})
	}
	sort.Strings(all)
	return strings.Join(all, "\n")
}

// flaky is an upstream that answers in turn with the given bytes.
type flaky struct {
	ln    net.Listener
	mu    sync.Mutex
	conns map[net.Conn]bool
	turn  int
	plan  []upBehaviour
}

// upBehaviour is what an upstream does with one request.
type upBehaviour struct {
	Raw   string
	Size  int           // filler after Raw
	Every time.Duration // between pieces of the filler
	Keep  bool          // further requests on the connection
	Deaf  bool          // does not read the request's body
}

func (b upBehaviour) String() string {
	return fmt.Sprintf("%q+%d every %v keep=%v deaf=%v", cut(b.Raw), b.Size, b.Every, b.Keep, b.Deaf)
}

func newFlaky(plan []upBehaviour) *flaky {
	ln := k.Listen()
	f := &flaky{ln: ln, plan: plan, conns: map[net.Conn]bool{}}
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			f.conns[conn] = true
			f.mu.Unlock()
			go f.serve(conn)
		}
	}()
	return f
}

func (f *flaky) serve(conn net.Conn) {
	defer func() {
		conn.Close()
		f.mu.Lock()
		delete(f.conns, conn)
		f.mu.Unlock()
	}()
	br := bufio.NewReader(conn)
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		f.mu.Lock()
		b := f.plan[f.turn%len(f.plan)]
		f.turn++
		f.mu.Unlock()
		if !b.Deaf {
			if _, err := io.Copy(io.Discard, r.Body); err != nil {
				return
			}
		}
		if _, err := io.WriteString(conn, b.Raw); err != nil {
			return
		}
		for left := b.Size; left > 0; {
			n := min(left, 1<<14)
			if _, err := io.WriteString(conn, strings.Repeat("f", n)); err != nil {
				return
			}
			left -= n
			time.Sleep(b.Every)
		}
		if !b.Keep {
			return
		}
	}
}

// drop ends all connections and tells whether there were none any more.
func (f *flaky) drop() {
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		c.Close()
	}
}

func genBehaviour(rt *rapid.T) upBehaviour {
	var b upBehaviour
	switch n(rt, "behaviour", 0, 5) {
	case 0:
		b.Raw = rapid.SampledFrom(oddResponses).Draw(rt, "odd")
	case 1:
		b.Raw, b.Keep = "HTTP/1.1 "+pick(rt, "ustatus", "200 OK", "404 No", "500 Err", "301 Moved", "099 Low", "000 Zero")+"\r\nContent-Length: 5\r\n\r\nhello", true
	case 2:
		b.Size = n(rt, "ubytes", 1, 3<<20)
		b.Raw, b.Keep = fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", b.Size), chance(rt, "ukeep", 2)
	case 3:
		b.Size, b.Every = n(rt, "sbytes", 1, 300000), time.Duration(n(rt, "every", 0, 5))*time.Millisecond
		b.Raw = fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", b.Size+n(rt, "missing", 0, 1))
	case 4:
		b.Raw, b.Size = "HTTP/1.0 200 OK\r\n\r\n", n(rt, "zbytes", 0, 300000)
	default:
		b.Raw, b.Keep = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n", true
	}
	b.Deaf = chance(rt, "deaf", 6)
	return b
}

// visit is one connection of a client.
type visit struct {
	Reqs []k.Req
	Cut  int  // bytes sent, -1: all of them
	Read int  // bytes read before the client goes away, -1: all of them
	RST  bool // the connection is reset, not closed
	Half bool // the client closes its side first
}

func (v visit) String() string {
	var s []string
	for _, q := range v.Reqs {
		s = append(s, q.String())
	}
	return fmt.Sprintf("sends %d, reads %d, reset=%v, half-closed=%v: %s", v.Cut, v.Read, v.RST, v.Half, strings.Join(s, " ; "))
}

func (v visit) run(addr string) {
	conn := k.Dial(addr)
	defer conn.Close()
	tcp := conn.(*net.TCPConn)
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	var b strings.Builder
	for i, q := range v.Reqs {
		raw := q.Raw()
		if i == len(v.Reqs)-1 {
			raw = addHeader(raw, "Connection: close")
		}
		b.WriteString(raw)
	}
	s := b.String()
	if v.Cut >= 0 {
		s = s[:min(v.Cut, len(s))]
	}
	sent := make(chan struct{})
	go func() {
		defer close(sent)
		if _, err := io.WriteString(conn, s); err == nil && v.Half {
			tcp.CloseWrite()
		}
	}()
	if v.Cut >= 0 && !v.Half {
		// an unfinished request is answered late or not at all
		<-sent
		time.Sleep(time.Millisecond)
	} else if v.Read < 0 {
		io.Copy(io.Discard, conn)
	} else {
		io.CopyN(io.Discard, conn, int64(v.Read))
	}
	if v.RST {
		tcp.SetLinger(0)
	}
	conn.Close()
	<-sent
}

func TestF01(t *testing.T) {
	vt.Check(t, 60, 1500, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		k.Tree(w.Dir, map[string]string{"tmp/": ""})
		old := os.Getenv("TMPDIR")
		os.Setenv("TMPDIR", w.Path("tmp"))
		defer os.Setenv("TMPDIR", old)
		ew := genServerWith(rt, w, !chance(rt, "no vhosts", 4))
		conf := ew.conf
		if conf.VHosts != nil {
			conf.VHosts["up.test"] = &k.Host{Proxy: true, Rules: map[string]string{"up.test": ""}, ProxyMethods: []string{"GET", "POST", "PUT", "HEAD"}}
			conf.VHosts["files.test"] = &k.Host{Dir: w.Path("files"), Index: "index.html", Methods: map[string]string{"/": "GET;HEAD"}}
		}
		ew.unlimited()
		up := newFlaky(rapid.SliceOfN(rapid.Custom(genBehaviour), 1, 6).Draw(rt, "upstream"))
		defer up.ln.Close()
		big := strings.Repeat("0123456789abcdef", 1<<17)
		hosts := []*k.Host{&conf.Main}
		for _, h := range conf.VHosts {
			hosts = append(hosts, h)
		}
		for _, h := range hosts {
			for host := range h.Rules {
				h.Rules[host] = "http://" + up.ln.Addr().String()
			}
			if h.Dir != "" {
				k.Tree(h.Dir, map[string]string{"big.txt": big})
			}
		}
		conf.LogOut, conf.FileDir, conf.LogLevel = w.Path("log"), w.Path("fd"), n(rt, "level", 0, 3)
		var visits []visit
		for i := n(rt, "visits", 3, 25); i > 0; i-- {
			v := visit{Cut: -1, Read: -1, RST: chance(rt, "rst", 3), Half: chance(rt, "half", 6)}
			for j := rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(rt, "requests"); j > 0; j-- {
				q := ew.genReq(rt)
				if chance(rt, "big", 4) {
					q.Target = "/big.txt"
				}
				if conf.VHosts != nil {
					q.Host = pick(rt, "vhost", q.Host, "up.test", "files.test")
				}
				if _, err := q.Parse(); err != nil {
					continue
				}
				if q.Body != "" && chance(rt, "bigbody", 4) {
					q.Body = big[:n(rt, "bodysize", 1, len(big))]
				}
				v.Reqs = append(v.Reqs, q)
			}
			switch n(rt, "end", 0, 4) {
			case 0:
				v.Cut = n(rt, "cut", 0, 400)
			case 1:
				v.Read = n(rt, "read", 0, 100)
			case 2:
				v.Read = n(rt, "read much", 0, 1<<21)
			}
			visits = append(visits, v)
		}
		parallel := rapid.SampledFrom([]int{1, 4}).Draw(rt, "parallel")
		var log []string
		for _, v := range visits {
			log = append(log, v.String())
		}
		text := fmt.Sprintf("%s\nupstream %v\n%d at once:\n%s", ew, up.plan, parallel, strings.Join(log, "\n"))
		vt.Note(text)

		// without collections nothing is closed only because it was forgotten
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		defer runtime.GC()
		s := tuna.NewInstanceFromConfig(conf.Write(w.Dir))
		l := k.Listen()
		srv := &http.Server{Handler: s.Router, ErrorLog: quiet, ReadTimeout: 8 * time.Second, WriteTimeout: 8 * time.Second, IdleTimeout: 8 * time.Second}
		go srv.Serve(l)
		defer srv.Close()
		// the first request may set up what stays
		visit{Reqs: []k.Req{{Host: "warm.test", Target: "/warm"}}, Cut: -1, Read: -1}.run(l.Addr().String())
		time.Sleep(2 * time.Millisecond)
		dirs := []string{w.Dir}
		files, fds, routines := names(dirs...), openFiles(), runtime.NumGoroutine()

		sem := make(chan bool, parallel)
		var wg sync.WaitGroup
		for _, v := range visits {
			wg.Add(1)
			sem <- true
			go func(v visit) {
				defer wg.Done()
				v.run(l.Addr().String())
				<-sem
			}(v)
		}
		wg.Wait()
		bad := ""
		for start := time.Now(); ; time.Sleep(time.Millisecond) {
			up.drop()
			now := openFiles()
			g := runtime.NumGoroutine()
			after := names(dirs...)
			bad = ""
			if len(now) > len(fds) {
				var extra []string
				for fd, to := range now {
					if fds[fd] != to {
						extra = append(extra, fd+" -> "+to)
					}
				}
				bad = fmt.Sprintf("%d descriptors are open, %d were before: %q", len(now), len(fds), extra)
			} else if g > routines {
				buf := make([]byte, 1<<19)
				bad = fmt.Sprintf("%d goroutines, %d were before\n%s", g, routines, buf[:runtime.Stack(buf, true)])
			} else if after != files {
				bad = fmt.Sprintf("files before:\n%s\nafter:\n%s", files, after)
			}
			if bad == "" {
				break
			}
			vt.Progress()
			if time.Since(start) > 25*time.Second {
				rt.Fatalf("left behind: %s\n%s", bad, text)
			}
			if time.Since(start) > 100*time.Millisecond {
				time.Sleep(20 * time.Millisecond)
			}
		}
		aborted := false
		for _, v := range visits {
			aborted = aborted || v.Cut >= 0 || v.Read >= 0
			c.LabelIf(v.Cut >= 0, "incomplete request")
			c.LabelIf(v.Read >= 0, "client gone early")
		}
		up.mu.Lock()
		c.LabelIf(up.turn > 0, "upstream asked")
		up.mu.Unlock()
		c.NonTrivial(aborted)
		c.Desc(text)
	})
}

// heap is what is in use after a collection.
func heap() (objects, bytes int64) {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapObjects), int64(m.HeapAlloc)
}

// plainUp is an upstream that remembers nothing.
type plainUp struct{}

func (plainUp) RoundTrip(r *http.Request) (*http.Response, error) {
	return fickle(k.UpReq{Method: r.Method, Host: r.URL.Host, HostHeader: r.Host, URI: r.URL.RequestURI(), Header: r.Header})
}

func TestF01Memory(t *testing.T) {
	vt.Check(t, 40, 1000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		if chance(rt, "open", 3) {
			ew.unlimited()
		}
		ew.conf.LogOut, ew.conf.LogLevel = w.Path("log"), n(rt, "level", 0, 3)
		var qs []k.Req
		var log []string
		for i := n(rt, "requests", 1, 5); i > 0; i-- {
			q := ew.genReq(rt)
			if chance(rt, "up", 3) {
				q.Header = append(q.Header, [2]string{"X-Up", pick(rt, "upstream", "fail", "break", "moved")})
			}
			if _, err := q.Parse(); err == nil {
				qs = append(qs, q)
				log = append(log, q.String())
			}
		}
		text := ew.String() + "\n" + strings.Join(log, "\n")
		vt.Note(text)
		s := w.Start(ew.conf)
		s.S.Transport = plainUp{}
		const times = 300
		for _, q := range qs {
			many := func() {
				for i := 0; i < times; i++ {
					s.Do(q)
				}
			}
			many()
			var o1, b1, o2, b2 int64
			// only growth that repeats is one
			grew := 0
			o1, b1 = heap()
			for try := 0; try < 4; try++ {
				many()
				o2, b2 = heap()
				if o2-o1 <= times/2 && b2-b1 <= times*100 {
					break
				}
				grew++
				if try < 3 {
					o1, b1 = o2, b2
				}
			}
			if grew == 4 {
				rt.Fatalf("%d further requests %s left %d objects, %d bytes in memory\n%s", times, q, o2-o1, b2-b1, text)
			}
			c.Labelf("answer %d", s.Do(q).Status)
		}
		c.NonTrivial(len(qs) > 0)
		c.Desc(text)
	})
}

// vary gives the request something that no other request had.
func vary(q k.Req, what string, i int) k.Req {
	q.Header = append([][2]string{}, q.Header...)
	id := fmt.Sprintf("v%07d", i)
	set := func(name, v string) {
		for j := range q.Header {
			if q.Header[j][0] == name {
				q.Header = append(q.Header[:j], q.Header[j+1:]...)
				break
			}
		}
		q.Header = append(q.Header, [2]string{name, v})
	}
	path, _, _ := strings.Cut(q.Target, "?")
	switch what {
	case "path":
		q.Target = strings.TrimSuffix(path, "/") + "/" + id
	case "directory":
		q.Target = strings.TrimSuffix(path, "/") + "/" + id + "/"
	case "query":
		q.Target = path + "?" + id + "=" + id
	case "host":
		q.Host = id + "." + q.Host
	case "port":
		name, _, _ := strings.Cut(q.Host, ":")
		q.Host = fmt.Sprintf("%s:%d", name, 1+i%60000)
	case "client port":
		name, _, _ := net.SplitHostPort(q.Remote)
		q.Remote = net.JoinHostPort(name, fmt.Sprint(1+i%60000))
	case "method":
		q.Method = "X" + id
	case "Authorization":
		set(what, k.BasicAuth("u"+id, id)[1])
	case "Range":
		set(what, fmt.Sprintf("bytes=0-%d", i))
	case "Content-Type":
		set(what, "text/x-"+id)
	case "If-None-Match":
		set(what, `"`+id+`"`)
	case "name":
		set("X-"+id, id)
	default: // another header
		set(what, "http://x.test/"+id)
	}
	return q
}

var varied = []string{"path", "path", "directory", "query", "host", "port", "client port", "method", "Authorization", "Range", "Content-Type", "If-None-Match", "name", "User-Agent", "Referer", "Cookie", "Origin", "Accept", "Accept-Language", "X-Forwarded-For", "X-Request-Id"}

// TestF01Variety: neither do requests that differ from all before.
func TestF01Variety(t *testing.T) {
	vt.Check(t, 14, 500, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		ew.unlimited()
		ew.conf.Metrics = false // they count by path
		hosts := []*k.Host{&ew.conf.Main}
		for _, h := range ew.conf.VHosts {
			hosts = append(hosts, h)
		}
		for _, h := range hosts {
			h.FilterOnIP = true // clients are remembered for a time
		}
		ew.conf.LogOut, ew.conf.LogLevel = w.Path("log"), n(rt, "level", 0, 3)
		var qs []k.Req
		var log []string
		for i := n(rt, "requests", 1, 3); i > 0; i-- {
			q := ew.genReq(rt)
			if len(q.Target) > 500 {
				q.Target = "/docs/x"
			}
			if chance(rt, "plain", 2) {
				q.Method, q.Body = "GET", ""
			}
			if _, err := q.Parse(); err == nil {
				qs = append(qs, q)
				log = append(log, q.String())
			}
		}
		what := rapid.SampledFrom(varied).Draw(rt, "varied")
		text := ew.String() + "\nvaried: " + what + "\n" + strings.Join(log, "\n")
		vt.Note(text)
		s := w.Start(ew.conf)
		s.S.Transport = plainUp{}
		const times = 2000
		for _, q := range qs {
			serial := 0
			many := func() {
				for i := 0; i < times; i++ {
					serial++
					s.Do(vary(q, what, serial))
				}
				vt.Progress()
			}
			many()
			o1, b1 := heap()
			for try := 0; ; try++ {
				many()
				o2, b2 := heap()
				if o2-o1 <= times/2 && b2-b1 <= times*100 {
					break
				}
				if try == 4 {
					rt.Fatalf("%d further requests like %s, each with another %s, left %d objects, %d bytes in memory\n%s", times, q, what, o2-o1, b2-b1, text)
				}
				o1, b1 = o2, b2
			}
			c.Labelf("answer %d", s.Do(q).Status)
		}
		c.Label("varied " + what)
		c.NonTrivial(len(qs) > 0)
		c.Desc(text)
	})
}

// TestF01Idle: connections to upstreams are used again, or closed.
func TestF01Idle(t *testing.T) {
	vt.Check(t, 15, 400, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		methods := []string{"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS"}
		h := k.Host{Proxy: true, Rules: map[string]string{"p.test": ""}, ProxyMethods: methods}
		h.Unlimited()
		conf := &k.Conf{Main: h}
		if chance(rt, "vhosts", 2) {
			conf = &k.Conf{VHosts: map[string]*k.Host{"p.test": &h}}
		}
		status := rapid.SampledFrom([]int{200, 200, 201, 204, 206, 301, 304, 404, 429, 500, 502, 503}).Draw(rt, "status")
		body := "HTTP/1.1 " + fmt.Sprint(status) + " X\r\n"
		size := rapid.SampledFrom([]int{0, 1, 100, 5000, 300000}).Draw(rt, "size")
		q := k.Req{Host: "p.test", Target: pick(rt, "target", "/", "/a?b"), Method: rapid.SampledFrom(methods).Draw(rt, "method")}
		if chance(rt, "hint", 3) {
			q.Header = append(q.Header, rapid.SampledFrom(hints).Draw(rt, "hinted"))
		}
		if chance(rt, "pairs", 3) {
			q.Header = without(without(withPairs(rt, q.Header), "Connection"), "Upgrade")
		}
		if q.Method == "POST" || q.Method == "PUT" {
			q.Body = strings.Repeat("b", rapid.SampledFrom([]int{0, 1, 3000, 100000}).Draw(rt, "bodysize"))
		}
		switch {
		case status == 204 || status == 304:
		case chance(rt, "chunked", 3):
			body += "Transfer-Encoding: chunked\r\n"
		default:
			body += fmt.Sprintf("Content-Length: %d\r\n", size)
		}
		for i := n(rt, "uheaders", 0, 2); i > 0; i-- {
			body += pick(rt, "uheader", "Set-Cookie: a=b", "Etag: \"x\"", "Cache-Control: no-store", "Content-Encoding: gzip", "Retry-After: 1", "Location: /y", "Keep-Alive: timeout=5", "Content-Type: text/event-stream") + "\r\n"
		}
		body += "\r\n"
		if q.Method != "HEAD" && status != 204 && status != 304 {
			if strings.Contains(body, "chunked") {
				if size > 0 {
					body += fmt.Sprintf("%x\r\n%s\r\n", size, strings.Repeat("c", size))
				}
				body += "0\r\n\r\n"
			} else {
				body += strings.Repeat("c", size)
			}
		}
		up := newFlaky([]upBehaviour{{Raw: body, Keep: true}})
		defer up.drop()
		defer up.ln.Close()
		h.Rules["p.test"] = "http://" + up.ln.Addr().String()
		conf.LogOut, conf.FileDir = w.Path("log"), k.SharedFileDir()
		const times = 150
		text := fmt.Sprintf("%d times %s\nanswered %q", times, q, cut(body))
		vt.Note(text)
		s := w.Start(conf)
		s.S.Transport = s.Own
		for i := 0; i < times; i++ {
			if r := s.Do(q); r.Fatal() != "" || r.Status != status {
				rt.Fatalf("status %d %s, want %d\n%s", r.Status, r.Fatal(), status, text)
			}
		}
		up.mu.Lock()
		open := len(up.conns)
		up.mu.Unlock()
		if open > 100 {
			rt.Fatalf("%d connections to the upstream are open after %d requests one after the other\n%s", open, times, text)
		}
		c.Labelf("%s %d", q.Method, status)
		c.NonTrivial(true)
		c.Desc(text)
	})
}
