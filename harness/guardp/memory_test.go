package guardp

import (
	"fmt"
	"net/http"
	"net/url"
	"runtime"
	"testing"

	"github.com/redmaner/MaguroHTTP/guard"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// C03: limits of ever new clients do not need ever more memory.

type nowhere struct{ h http.Header }

func (w nowhere) Header() http.Header         { return w.h }
func (w nowhere) Write(b []byte) (int, error) { return len(b), nil }
func (w nowhere) WriteHeader(int)             {}

func inUse() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func TestC03Limiter(t *testing.T) {
	vt.Check(t, 1, 20, func(rt *rapid.T, c *vt.Case) {
		onIP := rapid.Bool().Draw(rt, "on ip")
		burst := rapid.IntRange(1, 5).Draw(rt, "burst")
		each := rapid.IntRange(1, 3).Draw(rt, "requests of a client")
		v6 := rapid.Bool().Draw(rt, "IPv6")
		agent := !onIP && rapid.Bool().Draw(rt, "by agent")
		fixed := rapid.Bool().Draw(rt, "reused connection")
		text := fmt.Sprintf("on ip %v, burst %d, %d requests of each client, IPv6 %v, told apart by agent %v", onIP, burst, each, v6, agent)
		vt.Note(text)
		l := guard.NewLimiter(0.0001, burst, onIP)
		w := nowhere{http.Header{}}
		l.ErrorHandler = func(http.ResponseWriter, *http.Request, int) {}
		h := l.LimitHTTP(func(http.ResponseWriter, *http.Request) {})
		next := 0
		r := &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Host: "h.test", Header: http.Header{}}
		clients := func(n int) {
			for ; n > 0; n-- {
				next++
				if !fixed {
					r = &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Host: "h.test", Header: http.Header{}}
				}
				who := next
				if agent {
					r.Header.Set("User-Agent", fmt.Sprintf("agent %d", next))
					who = 1
				}
				r.RemoteAddr = fmt.Sprintf("10.%d.%d.%d:%d", who>>16&255, who>>8&255, who&255, 1024+next%60000)
				if v6 {
					r.RemoteAddr = fmt.Sprintf("[2001:db8::%x:%x]:%d", who>>16, who&0xffff, 1024+next%60000)
				}
				for i := 0; i < each; i++ {
					h(w, r)
				}
			}
		}
		clients(320000)
		before := inUse()
		vt.Progress()
		clients(320000)
		after := inUse()
		// every bucket kept would need more than 40 bytes
		if after-before > 320000*20 {
			rt.Fatalf("after 320000 clients %d bytes are in use, after 320000 others %d\n%s", before, after, text)
		}
		runtime.KeepAlive(h)
		c.NonTrivial(true)
		c.Desc(text)
	})
}
