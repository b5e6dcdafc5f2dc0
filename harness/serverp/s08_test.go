package serverp

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// S08: concurrent requests do not disturb each other.

type brokenBody struct {
	io.Reader
}

func (b brokenBody) Read(p []byte) (int, error) {
	m, err := b.Reader.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return m, err
}

func (b brokenBody) Close() error { return nil }

// fickle answers, fails or breaks off as the request asks for.
func fickle(u k.UpReq) (*http.Response, error) {
	switch u.Header.Get("X-Up") {
	case "fail":
		return refuse(u)
	case "break":
		resp, _ := echo(u)
		resp.Body = brokenBody{resp.Body}
		return resp, nil
	case "moved":
		resp, _ := echo(u)
		resp.StatusCode = 302
		resp.Header.Set("Location", "http://elsewhere"+u.Path)
		return resp, nil
	}
	return echo(u)
}

func (ew *errWorld) unlimited() {
	ew.conf.Main.NoRefill(1000000)
	for _, h := range ew.conf.VHosts {
		h.NoRefill(1000000)
	}
}

func TestS08(t *testing.T) {
	vt.LargeExample(t, "crowd", func(t *testing.T) { // many requests in progress at once
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{Main: *(&k.Host{Proxy: true, Rules: map[string]string{"p.test": "http://up"}, ProxyMethods: []string{"GET"}}).Unlimited()}
		s := w.Start(c)
		const crowd = 1500
		gate := make(chan bool)
		s.Up.Respond = func(u k.UpReq) (*http.Response, error) {
			<-gate
			return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(u.URI))}, nil
		}
		bad := make(chan string, crowd)
		for i := 0; i < crowd; i++ {
			go func() {
				target := fmt.Sprintf("/%d", i)
				r := s.Get("p.test", target)
				if x := r.Fatal(); x != "" || r.Status != 200 || string(r.Body) != target {
					bad <- fmt.Sprintf("GET %s while up to %d others are in progress: answered %d %q %s", target, crowd, r.Status, cut(string(r.Body)), x)
					return
				}
				bad <- ""
			}()
		}
		// those refused do not reach the upstream; nothing is lost by not waiting longer
		for i := 0; i < 1000 && s.Up.Count() < crowd && len(bad) == 0; i++ {
			time.Sleep(10 * time.Millisecond)
		}
		close(gate)
		for i := 0; i < crowd; i++ {
			if x := <-bad; x != "" {
				t.Fatal(x)
			}
		}
	})
	vt.Check(t, 500, 6000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		ew.unlimited()
		ew.conf.LogLevel = n(rt, "loglevel", 0, 3)
		ew.conf.LogOut = w.Path("log")
		var qs []k.Req
		var log []string
		// files that few other cases have, for what is remembered across requests
		var fresh []string
		for i := n(rt, "fresh files", 0, 6); i > 0; i-- {
			fresh = append(fresh, fmt.Sprintf("/fresh/f%d.%s%d", n(rt, "fresh", 0, 1<<20), pick(rt, "fresh ext", "x", "htm", "e", "tar."), n(rt, "ext", 0, 1<<20)))
		}
		for name := range ew.files {
			for _, p := range fresh {
				k.Tree(ew.conf.HostConf(name).Dir, map[string]string{p[1:]: "fresh " + p})
			}
		}
		for i := n(rt, "distinct", 2, 14); i > 0; i-- {
			q := ew.genReq(rt)
			if len(fresh) > 0 && chance(rt, "ask fresh", 2) {
				q.Target = rapid.SampledFrom(fresh).Draw(rt, "which fresh")
				if h := ew.conf.HostConf(k.HostName(q.Host)); h == nil || h.Dir == "" {
					for _, name := range ew.hosts {
						if ew.files[name] != nil && name != "" {
							q.Host = name
						}
					}
				}
				if chance(rt, "get fresh", 2) {
					q.Method, q.Body, q.Header = "GET", "", nil
				}
			}
			switch n(rt, "up", 0, 6) {
			case 0:
				q.Header = append(q.Header, [2]string{"X-Up", "fail"})
			case 1:
				q.Header = append(q.Header, [2]string{"X-Up", "break"})
			case 2:
				q.Header = append(q.Header, [2]string{"X-Up", "moved"})
			}
			if _, err := q.Parse(); err != nil {
				continue
			}
			qs = append(qs, q)
			log = append(log, q.String())
		}
		if len(qs) == 0 {
			return
		}
		workers := n(rt, "workers", 2, 8)
		plan := make([][]int, workers)
		fail := make([][]int, workers) // where the client goes away, -1: it does not
		for i := range plan {
			for j := n(rt, "len", 1, 12); j > 0; j-- {
				plan[i] = append(plan[i], n(rt, "which", 0, len(qs)-1))
				at := -1
				if chance(rt, "abort", 8) {
					at = n(rt, "abortat", 0, 60)
				}
				fail[i] = append(fail[i], at)
			}
		}
		wire := chance(rt, "wire", 4)
		text := ew.String() + "\n" + strings.Join(log, "\n") + fmt.Sprintf("\nplan %v aborts %v wire=%v", plan, fail, wire)
		vt.Note(text)

		want := make([]*k.Resp, len(qs))
		metrics := map[int]bool{}
		one := func() {
			alone := w.Start(ew.conf)
			alone.Up.Respond = fickle
			for i, q := range qs {
				if wire {
					do, stop := overWire(alone)
					want[i] = do(q)
					stop()
				} else {
					want[i] = alone.Do(q)
				}
				if want[i].Panic != nil {
					rt.Fatalf("alone: %s: %s", q, want[i].Fatal())
				}
				metrics[i] = ew.conf.Metrics && want[i].Path == ew.conf.MetricsPath && want[i].Status == 200
			}
		}
		// what the process remembers is warm or cold for the batch
		warm := chance(rt, "warm", 2)
		if warm {
			one()
		}

		s := w.Start(ew.conf)
		s.Up.Respond = fickle
		do, stop := s.Do, func() {}
		if wire {
			do, stop = overWire(s)
		}
		defer stop()
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := ""
		begin := make(chan struct{})
		got := make([][]*k.Resp, len(plan))
		for i := range plan {
			got[i] = make([]*k.Resp, len(plan[i]))
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-begin
				for j, x := range plan[i] {
					q := qs[x]
					if fail[i][j] >= 0 && !wire {
						pr, _ := q.Parse()
						rec := k.NewRec()
						rec.FailAt = fail[i][j]
						if r := s.Serve(rec, pr); r.Panic != nil {
							mu.Lock()
							bad = fmt.Sprintf("%s, client gone after %d bytes: %s", q, fail[i][j], r.Fatal())
							mu.Unlock()
						}
						continue
					}
					got[i][j] = do(q)
				}
			}(i)
		}
		close(begin)
		wg.Wait()
		if !warm {
			one()
		}
		for i := range got {
			for j, r := range got[i] {
				d, x := "", plan[i][j]
				switch {
				case r == nil:
				case metrics[x]:
					if r.Status != 200 {
						d = fmt.Sprintf("metrics page: status %d", r.Status)
					}
				default:
					d = sameAnswer(r, want[x])
				}
				if d != "" {
					bad = fmt.Sprintf("%s\nin a batch / alone: %s", qs[x], d)
				}
			}
		}
		if bad != "" {
			rt.Fatalf("%s\n%s", bad, text)
		}
		if l := s.Up.Leaks(); l != 0 {
			rt.Fatalf("%d upstream bodies were not closed\n%s", l, text)
		}
		c.LabelIf(wire, "over the wire")
		c.LabelIf(warm, "alone first")
		for i := range want {
			c.Labelf("answer %d", want[i].Status)
		}
		c.NonTrivial(workers > 1 && len(qs) > 1)
		c.Desc(text)
	})
}

// dialer for raw clients
func dial(l net.Listener) net.Conn {
	conn := k.Dial(l.Addr().String())
	return conn
}
