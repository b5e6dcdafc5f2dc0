package cachep

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/redmaner/MaguroHTTP/cache"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type cop struct {
	kind  string // set get find
	key   string
	val   int // set: the value; lookups: the value seen, 0 if none
	alien bool
	inv   int64
	ret   int64
	yield int
}

// Per key, the cache is a register that starts empty.
var registerModel = porcupine.Model{
	Init: func() interface{} { return 0 },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		o := input.(cop)
		if o.kind == "set" {
			return true, o.val
		}
		return o.val == state.(int), state
	},
}

func TestC02(t *testing.T) {
	vt.Check(t, 3000, 40000, func(rt *rapid.T, c *vt.Case) {
		ng := rapid.IntRange(2, 8).Draw(rt, "goroutines")
		nk := rapid.IntRange(1, 4).Draw(rt, "keys")
		keys := append([]string{}, shardKeys[:nk]...)
		if rapid.Bool().Draw(rt, "othershards") {
			keys = append(keys, otherKeys[:2]...)
		}
		// A warm cache may already be full, so that slots are reused.
		warm := rapid.SampledFrom([]int{0, 0, 0, 5, 1015, 1020, 1024}).Draw(rt, "warm")
		plans := make([][]cop, ng)
		v := 0
		for g := range plans {
			for i := rapid.IntRange(1, 9).Draw(rt, "n"); i > 0; i-- {
				o := cop{key: rapid.SampledFrom(keys).Draw(rt, "key"), kind: rapid.SampledFrom([]string{"set", "set", "get", "get", "get", "find"}).Draw(rt, "kind"), yield: rapid.IntRange(0, 2).Draw(rt, "yield")}
				if o.kind == "set" {
					v++
					o.val = v
				}
				plans[g] = append(plans[g], o)
			}
		}
		written := fmt.Sprintf("warm %d plans %v", warm, plans)
		c.Desc(written)
		vt.Note(written)
		ca := cache.NewCache()
		for i := 0; i < warm; i++ {
			ca.Set(shardKeys[100+i], -1)
		}
		var clock int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		start := make(chan struct{})
		var wg sync.WaitGroup
		var failure atomic.Value
		for g := range plans {
			wg.Add(1)
			go func(plan []cop) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						failure.Store(fmt.Sprintf("panic: %v", r))
					}
				}()
				<-start
				for i := range plan {
					o := &plan[i]
					for y := 0; y < o.yield; y++ {
						runtime.Gosched()
					}
					var ok bool
					var x interface{}
					o.inv = tick()
					switch o.kind {
					case "set":
						ca.Set(o.key, o.val)
					case "get":
						ok, x = ca.Get(o.key, 1<<62)
					case "find":
						ok, x, _ = ca.Find(o.key)
					}
					o.ret = tick()
					if o.kind != "set" && ok {
						n, isInt := x.(int)
						o.val = n
						o.alien = !isInt || n <= 0
					}
				}
			}(plans[g])
		}
		close(start)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		// A panic while a lock is held leaves the others blocked.
		for waited := false; !waited; {
			select {
			case <-done:
				waited = true
			case <-time.After(50 * time.Millisecond):
				if f := failure.Load(); f != nil {
					rt.Fatalf("%v\n%s", f, written)
				}
			}
		}
		if f := failure.Load(); f != nil {
			rt.Fatalf("%v\n%s", f, written)
		}
		overlap := false
		for _, k := range keys {
			var h []porcupine.Operation
			var text strings.Builder
			for g, p := range plans {
				for _, o := range p {
					if o.key != k {
						continue
					}
					if o.alien {
						rt.Fatalf("%s(%q) returned a value that was never stored for this key\nplans %v", o.kind, k, plans)
					}
					for _, q := range h {
						if q.Call < o.ret && o.inv < q.Return {
							overlap = true
						}
					}
					h = append(h, porcupine.Operation{ClientId: g, Input: o, Output: o.val, Call: o.inv, Return: o.ret})
					fmt.Fprintf(&text, "[%d,%d] g%d %s %d\n", o.inv, o.ret, g, o.kind, o.val)
				}
			}
			if !porcupine.CheckOperations(registerModel, h) {
				rt.Fatalf("history of key %q is not linearizable:\n%s", k, text.String())
			}
		}
		c.LabelIf(overlap, "overlapping")
		c.LabelIf(warm == 0, "first-access")
		c.LabelIf(warm > 1000, "full-ring")
		c.NonTrivial(overlap)
	})
}
