package procp

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"github.com/redmaner/MaguroHTTP/tuna"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// metricsPlan is what a run of the child does: rounds of requests with a
// periodic save after each.
type metricsPlan struct {
	Conf       string
	Seed       int64
	Rounds     []metricsRound
	Concurrent int // requests at the very moment of each save, by two goroutines
}

type metricsRound struct {
	Requests int
	Limit    int // size files may have during the save of this round, 0: any
}

var metricsPaths = []string{"/", "/a", "/dir/file.txt", "/x%20y", "/%ff", "/%fe", "/100%25", "/ü", "/%22q%22", "/back%5cslash", "/nl%0a", "/%E2%80%A8", "/index.html"}

// request is the i-th request of the plan.
func (p *metricsPlan) request(r *rand.Rand) (host, target string) {
	host = []string{"a.test", "b.test"}[r.Intn(2)]
	target = metricsPaths[r.Intn(len(metricsPaths))]
	if r.Intn(3) == 0 {
		target = fmt.Sprintf("/many/%d", r.Intn(400))
	}
	return
}

func path(target string) string {
	u, err := http.NewRequest("GET", "http://x"+target, nil)
	vt.Must(err)
	return u.URL.Path
}

// after gives the counts after each round: the requests of the round, and
// those together with the ones at the moment of the save.
func (p *metricsPlan) after(base counts) (acked, most []counts) {
	r := rand.New(rand.NewSource(p.Seed))
	c := base.copy()
	c[ckey(200, "view.test", "/metrics")]++
	for _, rd := range p.Rounds {
		for i := 0; i < rd.Requests; i++ {
			h, t := p.request(r)
			c[ckey(p.status(t), h, path(t))]++
		}
		acked = append(acked, c.copy())
		for i := 0; i < p.Concurrent; i++ {
			h, t := p.request(r)
			c[ckey(p.status(t), h, path(t))]++
		}
		most = append(most, c.copy())
	}
	return
}

func (p *metricsPlan) status(t string) int {
	if t == "/" || t == "/index.html" || t == "/a" {
		return 200
	}
	return 404
}

// TestChildMetrics runs in a process of its own.
func TestChildMetrics(t *testing.T) {
	if os.Getenv("VT_PLAN") == "" {
		t.Skip("only as a child")
	}
	b, err := os.ReadFile(os.Getenv("VT_PLAN"))
	vt.Must(err)
	var p metricsPlan
	vt.Must(json.Unmarshal(b, &p))
	debug.SetGCPercent(-1)
	say := func(f string, a ...interface{}) { fmt.Printf("VT "+f+"\n", a...) }
	synctest.Test(t, func(t *testing.T) {
		s := tuna.NewInstanceFromConfig(p.Conf)
		do := func(host, target string, auth bool) string {
			req := httptest.NewRequest("GET", "http://"+host+target, nil)
			if auth {
				req.SetBasicAuth("admin", "pw")
			}
			w := httptest.NewRecorder()
			s.Router.ServeHTTP(w, req)
			return w.Body.String()
		}
		say("page %s", base64.StdEncoding.EncodeToString([]byte(do("view.test", "/metrics", true))))
		r := rand.New(rand.NewSource(p.Seed))
		start := time.Now()
		for i, rd := range p.Rounds {
			for j := 0; j < rd.Requests; j++ {
				h, t := p.request(r)
				do(h, t, false)
			}
			if rd.Limit > 0 {
				vt.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(rd.Limit), Max: ^uint64(0)}))
				say("limit %d", i)
			}
			var wg sync.WaitGroup
			var qs [2][][2]string
			for j := 0; j < p.Concurrent; j++ {
				h, t := p.request(r)
				qs[j%2] = append(qs[j%2], [2]string{h, t})
			}
			for g := range qs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Until(start.Add(time.Duration(i+1) * 20 * time.Minute)))
					for _, q := range qs[g] {
						do(q[0], q[1], false)
					}
				}()
			}
			wg.Wait()
			// Time goes on only when the save is over.
			time.Sleep(time.Until(start.Add(time.Duration(i+1)*20*time.Minute + time.Second)))
			if rd.Limit > 0 {
				vt.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: ^uint64(0), Max: ^uint64(0)}))
			} else {
				say("saved %d", i)
			}
		}
		say("end")
		os.Exit(0)
	})
}

func metricsConfig(dir string, active, tls bool) obj {
	o := obj{}
	for k, v := range map[string]interface{}{
		"Core.Port": "8443", "Core.LogOut": "stderr", "Core.LogLevel": 0, "Core.FileDir": dir + "/w/fd",
		"Core.Metrics.Path": "/metrics", "Core.Metrics.Out": dir + "/w/metrics.json", "Core.Metrics.Users": map[string]string{"admin": "pw"},
		"Core.Metrics.Enabled": active,
		"Core.TLS.Enabled":     tls, "Core.TLS.TLSCert": dir + "/cert", "Core.TLS.TLSKey": dir + "/key",
		"Serve.ServeDir": dir + "/www", "Serve.ServeIndex": "index.html", "Serve.Methods": map[string]string{"/": "GET"},
		"Guard.Rate": 60000000, "Guard.RateBurst": 1000000000,
	} {
		put(o, k, v)
	}
	return o
}

func metricsWorld() string {
	dir := scratch()
	open(dir + "/w")
	vt.Must(os.Mkdir(dir+"/www", 0o755))
	vt.Must(os.WriteFile(dir+"/www/index.html", []byte("index"), 0o644))
	vt.Must(os.WriteFile(dir+"/www/a", []byte("a"), 0o644))
	return dir
}

// TestM02Crash: saves in a controlled time, read and killed at any moment, and
// with writes that fail after any number of bytes.
func TestM02Crash(t *testing.T) {
	vt.Check(t, 60, 600, func(rt *rapid.T, c *vt.Case) {
		dir := metricsWorld()
		defer os.RemoveAll(dir)
		conf := dir + "/c.json"
		out := dir + "/w/metrics.json"
		write(rt, conf, metricsConfig(dir, true, true), false)
		saved := counts{} // what the file is known to hold
		desc, counted := "", false
		for run := n(rt, "runs", 2, 4); run > 0; run-- {
			p := metricsPlan{Conf: conf, Seed: rapid.Int64Range(0, 1<<40).Draw(rt, "seed"), Concurrent: rapid.SampledFrom([]int{0, 0, 4, 40}).Draw(rt, "concurrent")}
			for i := n(rt, "rounds", 1, rapid.SampledFrom([]int{1, 3, 25}).Draw(rt, "most rounds")); i > 0; i-- {
				rd := metricsRound{Requests: rapid.SampledFrom([]int{0, 1, 5, 50, 300}).Draw(rt, "requests")}
				if chance(rt, "limited", 5) {
					rd.Limit = n(rt, "limit", 1, 1<<uint(n(rt, "limitbits", 1, 14)))
				}
				p.Rounds = append(p.Rounds, rd)
			}
			if chance(rt, "nearly saved", 3) {
				// the last save of the run ends shortly before it is complete
				_, most := p.after(saved)
				last := len(p.Rounds) - 1
				p.Rounds[last].Limit = max(1, savedSize(most[last])*n(rt, "limit percent", 30, 105)/100-n(rt, "limit bytes", 0, 40))
			}
			killAt, killDelay := -1, 0
			if chance(rt, "killed", 2) {
				killAt = n(rt, "killround", 0, len(p.Rounds)-1)
				killDelay = rapid.SampledFrom([]int{0, 0, 50, 100, 200, 400, 800, 1500}).Draw(rt, "killdelay")
				c.Label("killed")
			}
			desc += fmt.Sprintf("run: %d rounds %v, %d concurrent, killed after save %d + %d us\n", len(p.Rounds), p.Rounds, p.Concurrent, killAt, killDelay)
			vt.Note(desc)
			acked, most := p.after(saved)
			all := most[len(most)-1]
			b, err := json.Marshal(p)
			vt.Must(err)
			vt.Must(os.WriteFile(dir+"/plan", b, 0o644))

			// the child
			rd, wr, err := os.Pipe()
			vt.Must(err)
			pr := &proc{done: make(chan struct{})}
			pr.cmd = childCmd(dir, wr, &pr.out, "VT_PLAN="+dir+"/plan", "-test.run=^TestChildMetrics$")
			vt.Must(pr.cmd.Start())
			wr.Close()
			go func() { pr.err = pr.cmd.Wait(); close(pr.done) }()

			// what it says
			last := saved
			var mu sync.Mutex
			page, ended, limited := "", false, false
			heard := make(chan struct{})
			go func() {
				defer close(heard)
				sc := bufio.NewScanner(rd)
				sc.Buffer(nil, 1<<24)
				for sc.Scan() {
					f := strings.Fields(sc.Text())
					if len(f) < 2 || f[0] != "VT" {
						continue
					}
					mu.Lock()
					switch f[1] {
					case "page":
						b, err := base64.StdEncoding.DecodeString(f[2])
						vt.Must(err)
						page = string(b)
					case "saved":
						i, _ := strconv.Atoi(f[2])
						last = acked[i]
						if i == killAt {
							mu.Unlock()
							for t0 := time.Now(); time.Since(t0) < time.Duration(killDelay)*time.Microsecond; {
							}
							pr.cmd.Process.Kill()
							mu.Lock()
						}
					case "limit":
						limited = true
					case "end":
						ended = true
					}
					mu.Unlock()
				}
			}()
			// the file meanwhile
			before := saved
			reads := 0
			var prev []byte
			check := func() string {
				mu.Lock()
				low := last
				mu.Unlock()
				b, err := os.ReadFile(out)
				if err != nil {
					if low.total() > 0 {
						return "the metrics file is gone"
					}
					return ""
				}
				if prev != nil && bytes.Equal(b, prev) {
					return ""
				}
				prev = b
				reads++
				got, bad := parseFile(b, all)
				if bad == "" {
					bad = got.between(low, all)
				}
				if bad == "" {
					bad = got.between(before, all)
				}
				before = got
				return bad
			}
			bad := ""
			t0 := time.Now()
			for bad == "" && !pr.ended() {
				bad = check()
				if time.Since(t0) > 60*time.Second {
					break
				}
			}
			if bad != "" || !pr.ended() {
				pr.kill()
				if bad == "" {
					rt.Fatalf("no end of the run within a minute\n%s\n%s", desc, tail(pr.out.String()))
				}
				rt.Fatalf("%s\n%s", bad, desc)
			}
			<-heard
			rd.Close()
			prev = nil
			if bad := check(); bad != "" {
				rt.Fatalf("after the run: %s\n%s", bad, desc)
			}
			if !ended && killAt < 0 && !limited {
				rt.Fatalf("the run ended early: %v\n%s\n%s", pr.err, desc, tail(pr.out.String()))
			}
			if page == "" && killAt < 0 {
				rt.Fatalf("no start: %v\n%s\n%s", pr.err, desc, tail(pr.out.String()))
			}
			if page != "" {
				got, bad := parsePage(page, saved)
				if bad == "" {
					bad = got.between(saved, saved)
				}
				if bad != "" {
					rt.Fatalf("after the start the metrics page does not show what was saved: %s\n%s", bad, desc)
				}
			}
			vt.Count("states of the metrics file seen", int64(reads))
			saved, _, _ = readFile(out, all)
			if saved == nil {
				saved = counts{}
			}
			counted = counted || saved.total() > 0
			if chance(rt, "reset", 5) {
				// counting starts over, whatever the runs left behind otherwise
				os.Remove(out)
				saved = counts{}
				desc += "metrics file removed\n"
				c.Label("started over")
			}
			c.LabelIf(limited, "write failed")
			c.LabelIf(limited && ended, "write failed, went on")
			vt.Progress()
		}
		c.Desc(desc)
		c.NonTrivial(counted)
	})
}

// savedSize is about the size of a file with these counts.
func savedSize(c counts) int {
	paths := map[string]map[string]int{}
	for key, v := range c {
		st, p, _ := strings.Cut(key, " ")
		if paths[st] == nil {
			paths[st] = map[string]int{}
		}
		paths[st][p] = v
	}
	b, err := json.MarshalIndent(map[string]interface{}{"TotalRequests": c.total(), "Paths": paths}, "", "  ")
	vt.Must(err)
	return len(b)
}

// request over TLS.
func visit(addr string, tls bool, host, target string, auth bool) (int, string, error) {
	scheme := "http"
	if tls {
		scheme = "https"
	}
	req, err := http.NewRequest("GET", scheme+"://"+host+target, nil)
	vt.Must(err)
	if auth {
		req.SetBasicAuth("admin", "pw")
	}
	return roundTrip(addr, req)
}

// genSaved is a metrics file of earlier runs.
func genSaved(rt *rapid.T) string {
	paths := map[string]map[string]int{}
	total := 0
	for i := n(rt, "statuses", 0, 6); i > 0; i-- {
		st := strconv.Itoa(rapid.OneOf(rapid.SampledFrom([]int{200, 206, 304, 401, 404, 429, 500, 501, 502, 503}), rapid.IntRange(100, 599)).Draw(rt, "status"))
		if paths[st] == nil {
			paths[st] = map[string]int{}
		}
		for j := n(rt, "paths", 0, 4); j > 0; j-- {
			p := pick(rt, "savedhost", "a.test", "b.test", "c.test", "", "::1", "view.test") + path(rapid.SampledFrom(metricsPaths).Draw(rt, "savedpath"))
			if strings.ContainsRune(p, '%') || !utf8.ValidString(p) {
				p = (&url.URL{Path: p}).EscapedPath()
			}
			num := rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 1<<40), rapid.IntRange(1<<52, 1<<57)).Draw(rt, "number")
			total += num - paths[st][p]
			paths[st][p] = num
		}
	}
	if chance(rt, "many saved", 3) {
		st := pick(rt, "many status", "200", "404", "206")
		if paths[st] == nil {
			paths[st] = map[string]int{}
		}
		long := strings.Repeat("m", rapid.SampledFrom([]int{0, 30, 300}).Draw(rt, "many length"))
		for i := rapid.SampledFrom([]int{150, 1100, 5000}).Draw(rt, "many"); i > 0; i-- {
			paths[st][fmt.Sprintf("many.test/%d%s", i, long)] = i
			total += i
		}
	}
	b, err := json.Marshal(map[string]interface{}{"TotalRequests": total, "Paths": paths})
	if chance(rt, "indent", 2) {
		b, err = json.MarshalIndent(map[string]interface{}{"Paths": paths, "TotalRequests": total}, "", "  ")
	}
	vt.Must(err)
	return string(b)
}

func short(s string) string {
	if len(s) > 3000 {
		return fmt.Sprintf("%s... (%d bytes)", s[:3000], len(s))
	}
	return s
}

// TestM02Runs: runs of the real program.
func TestM02Runs(t *testing.T) {
	vt.Check(t, 30, 300, func(rt *rapid.T, c *vt.Case) {
		dir := metricsWorld()
		defer os.RemoveAll(dir)
		crt := certs()[0]
		writeCert(dir+"/cert", crt.pem)
		writeCert(dir+"/key", crt.key)
		out := dir + "/w/metrics.json"
		saved := counts{}
		desc := ""
		if first := pick(rt, "first", "", "", `{}`, `{"TotalRequests":0,"Paths":null}`, `{"TotalRequests":3,"Paths":{"200":{"a.test/":2},"404":{"b.test/x":1}}}`, "made", "made", "made"); first != "" {
			if first == "made" {
				first = genSaved(rt)
			}
			vt.Must(os.WriteFile(out, []byte(first), 0o666))
			vt.Must(os.Chmod(out, 0o666))
			desc = "file at first: " + short(first) + "\n"
			saved, _ = parseFile([]byte(first), nil)
		}
		active := 0
		for run := n(rt, "runs", 2, 5); run > 0; run-- {
			kind := pick(rt, "kind", "active", "active", "active", "no TLS", "disabled", "disabled, no TLS")
			tls := !strings.HasSuffix(kind, "no TLS")
			addr := nextAddr()
			o := metricsConfig(dir, !strings.HasPrefix(kind, "disabled"), tls)
			put(o, "Core.Address", addr)
			addr += ":8443"
			p := dir + "/c.json"
			write(rt, p, o, false)
			bytesBefore, errBefore := os.ReadFile(out)
			sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}).Draw(rt, "signal")
			reqs := n(rt, "requests", 0, 12)
			desc += fmt.Sprintf("run: %s, %d requests, %v\n", kind, reqs, sig)
			vt.Note(desc)
			c.Label(kind)
			c.Label(sig.String())
			pr := launch(dir, false, nil, serverBinary(), p)
			defer pr.kill()
			if !pr.listening(rt, addr) {
				rt.Fatalf("no start: %v\n%s\n%s", pr.err, desc, tail(pr.out.String()))
			}
			now := saved.copy()
			view := func() {
				st, page, err := visit(addr, tls, "view.test", "/metrics", true)
				if err != nil || st != 200 {
					rt.Fatalf("metrics page: %d %v\n%s", st, err, desc)
				}
				got, bad := parsePage(page, now)
				if bad == "" {
					bad = got.between(now, now)
				}
				if bad != "" {
					rt.Fatalf("metrics page: %s\n%s", bad, desc)
				}
				now[ckey(200, "view.test", "/metrics")]++
			}
			if kind == "active" {
				active++
				view()
			}
			for i := 0; i < reqs; i++ {
				tg := rapid.SampledFrom(metricsPaths).Draw(rt, "target")
				host := pick(rt, "host", "a.test", "b.test", "a.test:8443")
				st, _, err := visit(addr, tls, host, tg, false)
				if err != nil {
					rt.Fatalf("request %q: %v\n%s", tg, err, desc)
				}
				if kind == "active" {
					now[ckey(st, strings.TrimSuffix(host, ":8443"), path(tg))]++
				}
			}
			if kind == "active" && chance(rt, "viewagain", 2) {
				view()
			}
			pr.signal(sig)
			if !pr.within(60 * time.Second) {
				rt.Fatalf("the server did not end within a minute after %v\n%s", sig, desc)
			}
			if kind != "active" {
				b, err := os.ReadFile(out)
				if !bytes.Equal(b, bytesBefore) || (err == nil) != (errBefore == nil) {
					rt.Fatalf("a run with inactive metrics changed the metrics file from %q to %q\n%s", bytesBefore, b, desc)
				}
				continue
			}
			low := now
			if sig == syscall.SIGKILL {
				low = saved
			}
			got, there, bad := readFile(out, now)
			if bad == "" && !there && sig != syscall.SIGKILL {
				bad = "there is no metrics file"
			}
			if bad == "" {
				bad = got.between(low, now)
			}
			if bad != "" {
				rt.Fatalf("after the run: %s\n%s", bad, desc)
			}
			saved = got
			vt.Progress()
		}
		c.Desc(desc)
		c.NonTrivial(active > 1)
	})
}
