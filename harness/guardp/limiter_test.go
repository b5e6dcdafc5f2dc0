package guardp

import (
	"fmt"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cespare/xxhash"
	"github.com/redmaner/MaguroHTTP/guard"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const idle = 900 * time.Second // after such a pause a client may be forgotten

// client is who sends a request.
type client struct {
	addr string // host:port
	ua   string
	noUA bool
}

func (c client) String() string {
	if c.noUA {
		return c.addr
	}
	if len(c.ua) > 100 {
		return fmt.Sprintf("%s %q...(%d bytes)...%q", c.addr, c.ua[:20], len(c.ua), c.ua[len(c.ua)-20:])
	}
	return fmt.Sprintf("%s %q", c.addr, c.ua)
}

// identity is what a client is, by the property.
func (c client) identity(onIP bool) string {
	h, _, err := net.SplitHostPort(c.addr)
	vt.Must(err)
	if onIP {
		return h
	}
	return fmt.Sprintf("%q/%q", h, c.ua)
}

func (c client) request() *http.Request {
	r := &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Host: "h", Header: http.Header{}, RemoteAddr: c.addr}
	if !c.noUA {
		r.Header.Set("User-Agent", c.ua)
	}
	return r
}

// bucket is the reference token bucket. The number of tokens is kept as an
// interval, which absorbs the rounding of the implementation.
type bucket struct {
	lo, hi float64
	at     time.Time // of the last request
	others int
}

type limits struct {
	perMin float64
	burst  int
	onIP   bool
}

type event struct {
	sleep time.Duration
	who   int // index of client, -1: crowd
	n     int // crowd: number of requests
	vary  int // disguise of the request
}

func (e event) String() string {
	s := ""
	if e.sleep > 0 {
		s = fmt.Sprintf("+%v ", e.sleep)
	}
	if e.who < 0 {
		return s + fmt.Sprintf("crowd(%d)", e.n)
	}
	if e.vary > 0 {
		return s + fmt.Sprintf("c%d/%d", e.who, e.vary)
	}
	return s + fmt.Sprintf("c%d", e.who)
}

// fire sends one request through the limiter: true if it was passed on.
func fire(h http.HandlerFunc, ran *int, r *http.Request) (bool, string) {
	before := *ran
	w := httptest.NewRecorder()
	h(w, r)
	n := *ran - before
	switch {
	case n == 1 && w.Code == 200 && w.Body.String() == "ok":
		return true, ""
	case n == 0 && w.Code == 429:
		return false, ""
	}
	return false, fmt.Sprintf("status %d, handler ran %d times, body %q", w.Code, n, w.Body.String())
}

// crowdClients are clients whose key probably shares the cache shard of the
// first client (a heuristic for the generator only).
var crowdCache = map[string][]client{}

func crowd(of client, onIP bool) []client {
	k := fmt.Sprint(of, onIP)
	if c, ok := crowdCache[k]; ok {
		return c
	}
	h, _, _ := net.SplitHostPort(of.addr)
	var out []client
	if onIP {
		want := xxhash.Sum64String(h) & 255
		for i := 0; len(out) < 300; i++ {
			ip := fmt.Sprintf("10.%d.%d.%d", i>>16&255, i>>8&255, i&255)
			if xxhash.Sum64String(ip)&255 == want && ip != h {
				out = append(out, client{addr: ip + ":99", noUA: true})
			}
		}
	} else {
		for i := 0; i < 300; i++ {
			out = append(out, client{addr: h + ":99", ua: fmt.Sprintf("crowd%d", i)})
		}
	}
	crowdCache[k] = out
	return out
}

// play runs a history under a controlled clock and returns, per event of a
// listed client, whether the request was passed on; bad describes the first
// answer that the reference does not allow.
func play(lim limits, clients []client, evs []event, c *vt.Case) (answers []bool, bad string) {
	ran := 0
	l := guard.NewLimiter(lim.perMin, lim.burst, lim.onIP)
	h := l.LimitHTTP(func(w http.ResponseWriter, r *http.Request) { ran++; w.Write([]byte("ok")) })
	rate := lim.perMin / 60
	model := map[string]*bucket{}
	others := crowd(clients[0], lim.onIP)
	nextCrowd := 0
	for i, e := range evs {
		time.Sleep(e.sleep)
		if e.who < 0 {
			for j := 0; j < e.n; j++ {
				cl := others[nextCrowd%len(others)]
				nextCrowd++
				if _, b := fire(h, &ran, cl.request()); b != "" {
					return nil, fmt.Sprintf("event %d %v: %s", i, e, b)
				}
			}
			for _, b := range model {
				b.others += e.n
			}
			continue
		}
		cl := clients[e.who]
		id := cl.identity(lim.onIP)
		passed, b := fire(h, &ran, disguise(cl.request(), e.vary, true))
		if b != "" {
			return nil, fmt.Sprintf("event %d %v: %s", i, e, b)
		}
		answers = append(answers, passed)
		now := time.Now()
		m := model[id]
		for k, o := range model {
			if k != id {
				o.others++
			}
		}
		if m == nil {
			m = &bucket{lo: float64(lim.burst), hi: float64(lim.burst), at: now}
			model[id] = m
		} else {
			gap := now.Sub(m.at)
			slack := rate*4e-9 + 1e-9
			m.lo = math.Min(m.lo+rate*gap.Seconds()-slack, float64(lim.burst))
			m.hi = math.Min(m.hi+rate*gap.Seconds()+slack, float64(lim.burst))
			if m.others >= 1000 {
				vt.Harness("generated too many requests of others")
			}
			if gap >= idle {
				m.hi = float64(lim.burst)
				c.Label("after-idle")
			}
			if gap > 0 && !passed {
				c.Label("refused-after-pause")
			}
			if gap > 0 && passed && m.lo < float64(lim.burst)-0.5 {
				c.Label("passed-partly-refilled")
			}
			c.LabelIf(m.others > 20, "crowd-between")
			m.at = now
			m.others = 0
		}
		switch {
		case !passed && m.lo >= 1+1e-9:
			return answers, fmt.Sprintf("event %d %v refused although the client had at least %.6f tokens", i, e, m.lo)
		case passed && m.hi < 1-1e-9:
			return answers, fmt.Sprintf("event %d %v passed although the client had at most %.6f tokens", i, e, m.hi)
		case passed:
			m.lo = math.Max(m.lo-1, 0)
			m.hi = math.Max(m.hi-1, m.lo)
			c.Label("passed")
		default:
			m.hi = math.Min(m.hi, 1)
			m.lo = math.Min(m.lo, m.hi)
			c.Label("refused")
		}
	}
	return answers, ""
}

func inBubble(t *testing.T, f func() string) (bad string) {
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				bad = fmt.Sprintf("panic: %v", r)
			}
		}()
		bad = f()
	})
	return bad
}

var plainClients = []client{
	{addr: "192.0.2.1:1000", ua: "Mozilla/5.0"},
	{addr: "192.0.2.2:1000", ua: "Mozilla/5.0"},
	{addr: "[2001:db8::1]:443", ua: "curl/7.0"},
	{addr: "192.0.2.1:1001", ua: "Opera"},
	{addr: "192.0.2.3:7", noUA: true},
}

func genLimits() *rapid.Generator[limits] {
	return rapid.Custom(func(rt *rapid.T) limits {
		return limits{
			perMin: rapid.SampledFrom([]float64{0.05, 0.5, 1, 2, 7, 60, 100, 600, 6000, 90000, 33.3}).Draw(rt, "rate"),
			burst:  rapid.SampledFrom([]int{1, 1, 2, 3, 5, 10, 20, 50, 0}).Draw(rt, "burst"),
			onIP:   rapid.Bool().Draw(rt, "onIP"),
		}
	})
}

func genEvents(lim limits, nclients int, withCrowd bool) *rapid.Generator[[]event] {
	per := float64(time.Minute) / lim.perMin // time per token
	return rapid.Custom(func(rt *rapid.T) []event {
		pause := rapid.Custom(func(rt *rapid.T) time.Duration {
			switch rapid.IntRange(0, 9).Draw(rt, "pause") {
			case 0, 1, 2, 3:
				return 0
			case 4:
				return time.Duration(rapid.SampledFrom([]int64{1, 1e6, 1e9, 10e9, 59e9, 60e9, 61e9, 600e9}).Draw(rt, "d"))
			case 5, 6, 7: // around whole numbers of tokens
				k := rapid.IntRange(1, lim.burst+2).Draw(rt, "tokens")
				d := time.Duration(per*float64(k)) + time.Duration(rapid.SampledFrom([]int64{-1e6, -100, 0, 0, 100, 1e6}).Draw(rt, "off"))
				if d < 0 {
					d = 0
				}
				return d
			case 8:
				return time.Duration(per * rapid.Float64Range(0, 3).Draw(rt, "f"))
			default:
				return rapid.SampledFrom([]time.Duration{idle - time.Second, idle - 1, idle, idle + 1, idle + time.Second, 2 * idle, 24 * time.Hour, 301 * time.Second, 449 * time.Second, 61 * time.Minute}).Draw(rt, "long")
			}
		})
		n := rapid.IntRange(1, rapid.SampledFrom([]int{10, 40, 120}).Draw(rt, "len")).Draw(rt, "n")
		var evs []event
		crowdLeft := map[int]int{}
		for len(evs) < n {
			e := event{sleep: pause.Draw(rt, "sleep")}
			if withCrowd && rapid.IntRange(0, 11).Draw(rt, "crowd") == 0 {
				e.who = -1
				e.n = rapid.SampledFrom([]int{1, 8, 9, 10, 60, 300, 700, 800}).Draw(rt, "size")
			} else {
				e.who = rapid.IntRange(0, nclients-1).Draw(rt, "who")
				if rapid.IntRange(0, 3).Draw(rt, "disguised") == 0 {
					e.vary = rapid.IntRange(0, len(disguises)-1).Draw(rt, "disguise")
				}
			}
			if e.who < 0 {
				over := false
				for w := 0; w < nclients; w++ {
					if crowdLeft[w]+e.n > 850 {
						over = true
					}
				}
				if over {
					e.n = 1
				}
				for w := 0; w < nclients; w++ {
					crowdLeft[w] += e.n
				}
			} else {
				// clients that are one by identity share a counter anyway
				crowdLeft[e.who] = 0
			}
			// a run of requests of one client at once
			k := 1
			if e.who >= 0 {
				k = rapid.SampledFrom([]int{1, 1, 1, 2, max(lim.burst, 1), lim.burst + 1}).Draw(rt, "run")
			}
			for ; k > 0; k-- {
				evs = append(evs, e)
				e.sleep = 0
			}
		}
		return evs
	})
}

func write(lim limits, clients []client, evs []event) string {
	var b strings.Builder
	fmt.Fprintf(&b, "rate %v/min burst %d onIP %v clients %v:", lim.perMin, lim.burst, lim.onIP, clients)
	for i := 0; i < len(evs); i++ {
		n := 1
		for i+1 < len(evs) && evs[i+1].sleep == 0 && evs[i+1].who == evs[i].who && evs[i].who >= 0 && evs[i].vary == 0 && evs[i+1].vary == 0 {
			n++
			i++
			if n == 2 && evs[i-1].sleep != 0 {
				fmt.Fprintf(&b, " +%v", evs[i-1].sleep)
			}
		}
		if n > 1 {
			fmt.Fprintf(&b, " c%dx%d", evs[i].who, n)
		} else {
			fmt.Fprintf(&b, " %v", evs[i])
		}
	}
	return b.String()
}

func TestG01(t *testing.T) {
	vt.Check(t, 2500, 40000, func(rt *rapid.T, c *vt.Case) {
		lim := genLimits().Draw(rt, "limits")
		nc := rapid.IntRange(1, len(plainClients)).Draw(rt, "clients")
		if nc == 1 && vt.Rare(rt, "bigburst", 8) {
			lim.burst = vt.Length(rt, "burst2", 1100)
			c.Label("large burst")
		}
		clients := plainClients[:nc]
		evs := genEvents(lim, nc, true).Draw(rt, "events")
		text := write(lim, clients, evs)
		c.Desc(text)
		vt.Note(text)
		if bad := inBubble(t, func() string { _, bad := play(lim, clients, evs, c); return bad }); bad != "" {
			rt.Fatalf("%s\n%s", bad, text)
		}
		c.NonTrivial(len(evs) > lim.burst+1)
	})
}

// Clients that are easily taken for one another.
func genConfusable() *rapid.Generator[[]client] {
	return rapid.Custom(func(rt *rapid.T) []client {
		switch rapid.IntRange(0, 5).Draw(rt, "kind") {
		case 5: // agents chosen to collide in a weak hash of address and agent
			sep := rapid.SampledFrom([]string{"\n", "\n", "\n", "", "|", " "}).Draw(rt, "sep")
			p1 := rapid.SampledFrom([]string{"192.0.2.7", "2001:db8::7"}).Draw(rt, "ip1")
			p2 := rapid.SampledFrom([]string{"192.0.2.7", "198.51.100.9"}).Draw(rt, "ip2")
			salt := rapid.IntRange(0, 1000).Draw(rt, "salt")
			a, b := vt.XXPair(p1+sep+"Mozilla/", p2+sep+"A", true, salt)
			z := vt.XXZero(p1+sep, true, salt)
			return []client{
				{addr: net.JoinHostPort(p1, "1"), ua: a[len(p1+sep):]},
				{addr: net.JoinHostPort(p2, "1"), ua: b[len(p2+sep):]},
				{addr: net.JoinHostPort(p1, "2"), ua: z[len(p1+sep):]},
			}
		case 4: // long agents that differ in one place or in length
			ip := rapid.SampledFrom([]string{"192.0.2.7", "2001:db8::7"}).Draw(rt, "ip")
			n := rapid.OneOf(rapid.IntRange(100, 600), rapid.SampledFrom([]int{63, 64, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 5000, 20000})).Draw(rt, "len")
			at := rapid.OneOf(rapid.SampledFrom([]int{0, 1, n / 2, n - 2, n - 1}), rapid.IntRange(0, n-1)).Draw(rt, "at")
			base := strings.Repeat("Mozilla/5.0 ", n/12+1)[:n]
			changed := base[:at] + "Z" + base[at+1:]
			return []client{
				{addr: net.JoinHostPort(ip, "1"), ua: base},
				{addr: net.JoinHostPort(ip, "2"), ua: changed},
				{addr: net.JoinHostPort(ip, "3"), ua: base + "x"},
				{addr: net.JoinHostPort("192.0.2.8", "3"), ua: base},
			}
		case 0: // concatenations coincide
			base := rapid.SampledFrom([]string{"10.0.0.1", "192.168.1.1", "::1", "2001:db8::a"}).Draw(rt, "ip")
			tail := rapid.SampledFrom([]string{"1", "2", "23"}).Draw(rt, "tail")
			if strings.Contains(base, ":") {
				tail = rapid.SampledFrom([]string{"1", "b", "2c", ":5"}).Draw(rt, "tail6")
			}
			sep := rapid.SampledFrom([]string{"", " ", "|", "-", ":", "\t", ",", "_", "/", ";", "#", "\x1f"}).Draw(rt, "sep")
			rest := rapid.SampledFrom([]string{"", "x", "Mozilla"}).Draw(rt, "rest")
			a := client{addr: net.JoinHostPort(base, "1"), ua: tail + sep + rest}
			b := client{addr: net.JoinHostPort(strings.TrimSuffix(base+tail, ":5")+map[bool]string{true: ":5"}[tail == ":5"], "1"), ua: rest}
			d := client{addr: net.JoinHostPort(base, "1"), ua: sep + tail + rest}
			return []client{a, b, d}
		case 1: // same address, other port, same or other agent
			ip := rapid.SampledFrom([]string{"192.0.2.7", "2001:db8::7", "fe80::1%eth0"}).Draw(rt, "ip")
			return []client{
				{addr: net.JoinHostPort(ip, "1"), ua: "A"},
				{addr: net.JoinHostPort(ip, "65535"), ua: "A"},
				{addr: net.JoinHostPort(ip, "2"), ua: "a"},
				{addr: net.JoinHostPort(ip, "2"), ua: "A "},
				{addr: net.JoinHostPort(ip, "3"), noUA: true},
			}
		case 2: // similar addresses
			return []client{
				{addr: "192.0.2.1:1", ua: "M"}, {addr: "192.0.2.11:1", ua: "M"}, {addr: "192.0.2.2:1", ua: "M"},
				{addr: "[2001:db8::1]:1", ua: "M"}, {addr: "[2001:db8::2]:1", ua: "M"}, {addr: "[2001:db8:0:1::1]:1", ua: "M"},
				{addr: "[fe80::1%eth0]:1", ua: "M"}, {addr: "[fe80::1%eth1]:1", ua: "M"}, {addr: "[fe80::1]:1", ua: "M"},
			}
		default:
			g := rapid.Custom(func(rt *rapid.T) client {
				ip := rapid.SampledFrom([]string{"1.1.1.1", "1.1.1.11", "1.1.1.111", "11.1.1.1", "::1", "::11", "1::1", "1::", "fe80::1%1", "fe80::1%11", "fe80::1"}).Draw(rt, "ip")
				return client{addr: net.JoinHostPort(ip, fmt.Sprint(rapid.IntRange(1, 9).Draw(rt, "port"))),
					ua: rapid.StringOfN(rapid.RuneFrom([]rune("1:.|, \tA[]")), 0, 4, -1).Draw(rt, "ua")}
			})
			return rapid.SliceOfN(g, 2, 6).Draw(rt, "free")
		}
	})
}

// crowded asks once for each of very many clients: all of them pass.
func crowded(onIP bool, total int, salt uint64) string {
	h := guard.NewLimiter(1, 1, onIP).LimitHTTP(func(w http.ResponseWriter, r *http.Request) {})
	r := httptest.NewRequest("GET", "/", nil)
	for i := 0; i < total; i++ {
		x := (uint64(i) + salt<<32) * 0x9e3779b97f4a7c15
		if onIP {
			r.RemoteAddr = fmt.Sprintf("[2001:db8::%x:%x:%x:%x]:1", x>>48, x>>32&0xffff, x>>16&0xffff, x&0xffff)
		} else {
			r.RemoteAddr = "192.0.2.1:1"
			r.Header.Set("User-Agent", fmt.Sprintf("agent %x", x))
		}
		rec := httptest.NewRecorder()
		h(rec, r)
		if rec.Code != 200 {
			return fmt.Sprintf("the first request of client %d (%s %q) was answered %d", i, r.RemoteAddr, r.Header.Get("User-Agent"), rec.Code)
		}
	}
	return ""
}

func TestG02(t *testing.T) {
	for _, onIP := range []bool{true, false} {
		vt.Example(t, fmt.Sprintf("crowd, on IP: %v", onIP), func(t *testing.T) {
			for salt := uint64(0); salt < 1; salt++ {
				if bad := crowded(onIP, 260000, salt); bad != "" {
					t.Fatalf("%s", bad)
				}
				vt.Progress()
			}
		})
	}
	vt.Check(t, 2500, 40000, func(rt *rapid.T, c *vt.Case) {
		lim := genLimits().Draw(rt, "limits")
		clients := genConfusable().Draw(rt, "clients")
		evs := genEvents(lim, len(clients), rapid.IntRange(0, 4).Draw(rt, "withcrowd") == 0).Draw(rt, "events")
		text := write(lim, clients, evs)
		c.Desc(text)
		vt.Note(text)
		var full []bool
		// The whole history, also against the reference bucket per identity.
		if bad := inBubble(t, func() (bad string) { full, bad = play(lim, clients, evs, c); return }); bad != "" {
			rt.Fatalf("%s\n%s", bad, text)
		}
		ids := map[string]bool{}
		for _, e := range evs {
			if e.who >= 0 {
				ids[clients[e.who].identity(lim.onIP)] = true
			}
		}
		var sorted []string
		for id := range ids {
			sorted = append(sorted, id)
		}
		sort.Strings(sorted)
		// Without everyone else, each client gets the same answers.
		for _, id := range sorted {
			var own []event
			var want []bool
			var wait time.Duration
			k := 0
			for _, e := range evs {
				wait += e.sleep
				if e.who < 0 {
					continue
				}
				if clients[e.who].identity(lim.onIP) == id {
					own = append(own, event{sleep: wait, who: e.who})
					want = append(want, full[k])
					wait = 0
				}
				k++
			}
			var got []bool
			if bad := inBubble(t, func() (bad string) { got, bad = play(lim, clients, own, &vt.Case{}); return }); bad != "" {
				rt.Fatalf("alone: %s\n%s", bad, write(lim, clients, own))
			}
			for i := range want {
				if got[i] != want[i] {
					rt.Fatalf("request %d of client %s: passed=%v among others, %v alone\n%s", i, id, want[i], got[i], text)
				}
			}
		}
		c.Labelf("identities-%d", min(len(ids), 5))
		c.NonTrivial(len(ids) > 1 && len(evs) > lim.burst)
	})
}

// waves are rounds of simultaneous requests.
type waves struct {
	burst, nc, per, rounds, pre int
	onIP                        bool
	perMin                      float64
	pauses                      []float64 // tokens that come in before a round (frozen clock only)
}

// run plays the waves. Either no token is added during a case, for the rate is
// so low, or the clock stands still while requests run.
func (g waves) run(c *vt.Case) string {
	l := guard.NewLimiter(g.perMin, g.burst, g.onIP)
	var ran [8]int64
	h := l.LimitHTTP(func(w http.ResponseWriter, r *http.Request) {
		var i int
		fmt.Sscanf(r.URL.Path, "/%d", &i)
		atomic.AddInt64(&ran[i], 1)
	})
	req := func(i, port int) *http.Request {
		r := client{addr: fmt.Sprintf("10.9.8.%d:%d", i, 1000+port), ua: "A"}.request()
		r.URL.Path = fmt.Sprintf("/%d", i)
		return r
	}
	left := make([]float64, g.nc)
	for i := range left {
		for k := 0; k < g.pre; k++ {
			h(httptest.NewRecorder(), req(i, 0))
		}
		if int(ran[i]) != g.pre {
			return fmt.Sprintf("%d of %d sequential requests passed", ran[i], g.pre)
		}
		left[i] = float64(g.burst - g.pre)
	}
	for round := 0; round < g.rounds; round++ {
		if g.pauses != nil && round > 0 {
			time.Sleep(time.Duration(g.pauses[round] / g.perMin * 60e9))
			for i := range left {
				left[i] = math.Min(left[i]+g.pauses[round], float64(g.burst))
			}
			c.Label("refilled-between-rounds")
		}
		before := ran
		start := make(chan struct{})
		var wg sync.WaitGroup
		var bad atomic.Value
		var refused [8]int64
		for i := 0; i < g.nc; i++ {
			for k := 0; k < g.per; k++ {
				wg.Add(1)
				go func(i, k int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							bad.Store(fmt.Sprintf("panic: %v", r))
						}
					}()
					w := httptest.NewRecorder()
					r := req(i, k)
					<-start
					h(w, r)
					switch w.Code {
					case 200:
					case 429:
						atomic.AddInt64(&refused[i], 1)
					default:
						bad.Store(fmt.Sprintf("status %d", w.Code))
					}
				}(i, k)
			}
		}
		close(start)
		if g.pauses != nil {
			wg.Wait() // no timers: the clock has to stand still
		} else {
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			for waited := false; !waited; {
				select {
				case <-done:
					waited = true
				case <-time.After(50 * time.Millisecond):
					if b := bad.Load(); b != nil {
						return b.(string)
					}
				}
			}
		}
		if b := bad.Load(); b != nil {
			return b.(string)
		}
		for i := 0; i < g.nc; i++ {
			want := min(int(left[i]+1e-4), g.per)
			if got := int(ran[i] - before[i]); got != want {
				return fmt.Sprintf("round %d: %d requests of client %d passed, the bucket held %.2f tokens and %d arrived", round, got, i, left[i], g.per)
			}
			if int(refused[i]) != g.per-want {
				return fmt.Sprintf("round %d: %d requests of client %d answered 429, want %d", round, refused[i], i, g.per-want)
			}
			left[i] -= float64(want)
		}
	}
	return ""
}

func TestG03(t *testing.T) {
	vt.Check(t, 3000, 30000, func(rt *rapid.T, c *vt.Case) {
		g := waves{
			burst:  rapid.SampledFrom([]int{1, 1, 2, 3, 5, 10, 30}).Draw(rt, "burst"),
			nc:     rapid.IntRange(1, 4).Draw(rt, "clients"),
			onIP:   rapid.Bool().Draw(rt, "onIP"),
			per:    rapid.IntRange(1, 24).Draw(rt, "requests"),
			rounds: rapid.IntRange(1, 3).Draw(rt, "rounds"),
			perMin: 1e-6,
		}
		if vt.Rare(rt, "bigwave", 40) {
			// A bucket that takes more than 292 years to fill is out of the
			// range of time.Duration.
			g.perMin = 1e-5
			g.burst = vt.Length(rt, "burst2", 300)
			g.nc = 1 + g.nc%2
			g.per = vt.Length(rt, "requests2", 400)
			c.Label("large wave")
		}
		g.pre = rapid.IntRange(0, g.burst).Draw(rt, "spent")
		if rapid.Bool().Draw(rt, "fresh") {
			g.pre = 0
		}
		frozen := rapid.Bool().Draw(rt, "frozen")
		text := fmt.Sprintf("burst %d, %d clients, onIP %v, %d tokens spent before, then %d rounds of %d requests of each client at once", g.burst, g.nc, g.onIP, g.pre, g.rounds, g.per)
		if frozen {
			g.perMin = rapid.SampledFrom([]float64{3.75, 15, 60, 120, 480, 3840, 30720}).Draw(rt, "rate")
			// At these rates the time a token takes is a whole number of
			// nanoseconds, so that the limiter does not round.
			// Fractions that never come near a whole number in three rounds.
			g.pauses = []float64{0}
			most := int(g.perMin/60*850 - 0.3) // a client idle for 900 s may start afresh
			for len(g.pauses) < g.rounds {
				g.pauses = append(g.pauses, float64(rapid.IntRange(0, min(g.burst, most)).Draw(rt, "refill"))+0.3)
			}
			text += fmt.Sprintf(" on a clock that stands still, at %v/min, tokens between rounds: %v", g.perMin, g.pauses[1:])
		}
		c.Desc(text)
		vt.Note(text)
		var bad string
		if frozen {
			bad = inBubble(t, func() string { return g.run(c) })
			c.Label("clock-stands-still")
		} else {
			bad = g.run(c)
		}
		if bad != "" {
			rt.Fatalf("%s\n%s", bad, text)
		}
		c.LabelIf(g.pre == 0, "first-requests-concurrent")
		c.LabelIf(g.per > g.burst-g.pre, "exceeds-burst")
		c.NonTrivial(g.per > 1 && g.per > g.burst-g.pre)
	})
}
