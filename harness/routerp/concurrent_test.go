package routerp

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/redmaner/MaguroHTTP/router"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// One registration of R04.
type reg struct {
	mw       bool
	r        route
	inv, ret int64
}

type obs struct {
	q        request
	inv, ret int64
	status   int
	trace    []int // middleware ids (negative) and handler ids
	canon    string
	host     string
}

type traceKey struct{}

func TestR04(t *testing.T) {
	vt.Check(t, 2500, 30000, func(rt *rapid.T, c *vt.Case) {
		// Few hosts and paths, so that registrations and requests interact.
		hosts := []string{"localhost", router.DefaultHost}
		paths := []string{"/", "/a", "/a/b", "/c"}
		regMethods := [][]string{{"GET"}, {"POST", "GET"}}
		nregs := 2
		plans := make([][]reg, nregs)
		for g := 0; g < nregs; g++ {
			for i := rapid.IntRange(1, 7).Draw(rt, "regs"); i > 0; i-- {
				id := g*100 + i
				x := reg{mw: rapid.IntRange(0, 2).Draw(rt, "mw") == 0}
				x.r = route{
					host:     rapid.SampledFrom(hosts).Draw(rt, "host"),
					path:     rapid.SampledFrom(paths).Draw(rt, "path"),
					fallback: rapid.Bool().Draw(rt, "fallback"),
					method:   regMethods[g][0],
					content:  "*", id: id,
				}
				plans[g] = append(plans[g], x)
			}
		}
		nreq := rapid.IntRange(1, 4).Draw(rt, "requesters")
		reqs := make([][]obs, nreq)
		for g := 0; g < nreq; g++ {
			for i := rapid.IntRange(1, 10).Draw(rt, "reqs"); i > 0; i-- {
				o := obs{host: rapid.SampledFrom([]string{"localhost", "other"}).Draw(rt, "rhost")}
				o.canon = rapid.SampledFrom([]string{"/", "/a", "/a/b", "/a/b/x", "/c", "/c/y", "/z"}).Draw(rt, "rpath")
				o.q = request{host: o.host, path: o.canon, method: rapid.SampledFrom([]string{"GET", "POST"}).Draw(rt, "rmethod")}
				reqs[g] = append(reqs[g], o)
			}
		}
		yields := rapid.SliceOfN(rapid.IntRange(0, 3), 8, 8).Draw(rt, "yields")
		vt.Note(fmt.Sprintf("registrars %+v requesters %+v", plans, reqs))

		ro := router.NewRouter()
		var clock int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		start := make(chan struct{})
		var wg sync.WaitGroup
		var mu sync.Mutex
		var failure string
		spawn := func(f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						failure = fmt.Sprintf("panic: %v", r)
						mu.Unlock()
					}
				}()
				<-start
				f()
			}()
		}
		for g := range plans {
			g := g
			spawn(func() {
				for i := range plans[g] {
					for y := 0; y < yields[(g+i)%8]; y++ {
						runtime.Gosched()
					}
					x := &plans[g][i]
					id := x.r.id
					x.inv = tick()
					if x.mw {
						ro.UseMiddleware(x.r.host, x.r.path, router.MiddlewareHandlerFunc(func(h http.HandlerFunc) http.HandlerFunc {
							return func(w http.ResponseWriter, q *http.Request) {
								tr := q.Context().Value(traceKey{}).(*[]int)
								*tr = append(*tr, -id)
								h(w, q)
							}
						}))
					} else {
						ro.AddRoute(x.r.host, x.r.path, x.r.fallback, x.r.method, "*", http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
							tr := q.Context().Value(traceKey{}).(*[]int)
							*tr = append(*tr, id)
						}))
					}
					x.ret = tick()
				}
			})
		}
		for g := range reqs {
			g := g
			spawn(func() {
				for i := range reqs[g] {
					for y := 0; y < yields[(g*3+i)%8]; y++ {
						runtime.Gosched()
					}
					o := &reqs[g][i]
					r := o.q.build()
					r = r.WithContext(withTrace(r, &o.trace))
					w := httptest.NewRecorder()
					o.inv = tick()
					ro.ServeHTTP(w, r)
					o.ret = tick()
					o.status = w.Code
				}
			})
		}
		close(start)
		wg.Wait()
		if failure != "" {
			rt.Fatalf("registrars %+v requesters %+v: %s", plans, reqs, failure)
		}
		overl := 0
		for _, rs := range reqs {
			for _, o := range rs {
				lo := make([]int, nregs)
				hi := make([]int, nregs)
				for g := range plans {
					for i, x := range plans[g] {
						if x.ret < o.inv {
							lo[g] = i + 1
						}
						if x.inv < o.ret {
							hi[g] = i + 1
						}
					}
					if hi[g] > lo[g] {
						overl++
					}
				}
				ok := false
				for a := lo[0]; a <= hi[0] && !ok; a++ {
					for b := lo[1]; b <= hi[1] && !ok; b++ {
						ok = explains(append(append([]reg{}, plans[0][:a]...), plans[1][:b]...), o)
					}
				}
				if !ok {
					rt.Fatalf("request %s %s%s [%d,%d] answered %d, trace %v: no set of registrations between %v and %v explains it\nregistrars: %+v", o.q.method, o.q.host, o.canon, o.inv, o.ret, o.status, o.trace, lo, hi, plans)
				}
			}
		}
		c.LabelIf(overl > 0, "overlapping")
		c.LabelIf(overl >= 4, "overlapping-4+")
		c.NonTrivial(overl > 0)
		c.Desc(fmt.Sprintf("registrars %+v requesters %+v", plans, reqs))
	})
}

func explains(rs []reg, o obs) bool {
	tb := newTable()
	for _, x := range rs {
		if x.mw {
			tb.addPath(x.r.host, x.r.path)
		} else {
			tb.add(x.r)
		}
	}
	v := tb.decide(o.host, o.canon, o.q.method, "")
	if v.status != o.status {
		return false
	}
	if v.status != 200 {
		return len(o.trace) == 0
	}
	var mws []int
	for _, x := range rs {
		if x.mw && x.r.host == v.host && normReg(x.r.path) == v.path {
			mws = append(mws, -x.r.id)
		}
	}
	if len(o.trace) != len(mws)+1 || o.trace[len(o.trace)-1] != v.id {
		return false
	}
	got := o.trace[:len(mws)]
	// the same middleware; order fixed only within one registrar
	for g := 0; g < 2; g++ {
		if fmt.Sprint(pick(got, g)) != fmt.Sprint(pick(mws, g)) {
			return false
		}
	}
	a, b := append([]int{}, got...), append([]int{}, mws...)
	sort.Ints(a)
	sort.Ints(b)
	return strings.Join(strings.Fields(fmt.Sprint(a)), ",") == strings.Join(strings.Fields(fmt.Sprint(b)), ",")
}

func pick(ids []int, g int) []int {
	out := []int{}
	for _, id := range ids {
		if (-id)/100 == g {
			out = append(out, id)
		}
	}
	return out
}
