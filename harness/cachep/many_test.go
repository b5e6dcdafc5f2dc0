package cachep

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/redmaner/MaguroHTTP/cache"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// shapes are ways to make many different keys.
var shapes = map[string]func(seed, i uint64) string{
	"number": func(seed, i uint64) string { return fmt.Sprint(seed<<40 + i) },
	"random": func(seed, i uint64) string { return string(mix8(seed<<40 + i)) },
	"address": func(seed, i uint64) string {
		return fmt.Sprintf("%d.%d.%d.%d", 1+seed, byte(i>>16), byte(i>>8), byte(i))
	},
	"client": func(seed, i uint64) string {
		return fmt.Sprintf("192.0.%d.%d\nMozilla/5.0 (X11; Linux x86_64) v%d.%d", seed, byte(i), i>>8, seed)
	},
	"network": func(seed, i uint64) string {
		return fmt.Sprintf("2001:db8:%x:%x::%x", seed, i>>12, i&4095)
	},
	"long": func(seed, i uint64) string { return strings.Repeat("long key ", 12) + fmt.Sprintf("%x-%x", i, seed) },
	"end":  func(seed, i uint64) string { return fmt.Sprintf("%08x", i) + strings.Repeat("=", int(seed)) },
}

func mix8(x uint64) []byte {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	x ^= x >> 31
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(x >> (8 * i))
	}
	return b
}

// TestC01Many fills a whole cache and looks up as many other keys as time
// permits: whichever way keys are told apart, a key never stored is not found
// and a stored one has its own value.
func TestC01Many(t *testing.T) {
	vt.Check(t, 4, 24, func(rt *rapid.T, c *vt.Case) {
		var names []string
		for name := range shapes {
			names = append(names, name)
		}
		for i := range names { // in order
			for j := range names[:i] {
				if names[j] > names[i] {
					names[i], names[j] = names[j], names[i]
				}
			}
		}
		stored := rapid.SampledFrom(names).Draw(rt, "stored keys")
		asked := rapid.SampledFrom(names).Draw(rt, "asked keys")
		seed := rapid.Uint64Range(1, 100).Draw(rt, "seed")
		find := rapid.Bool().Draw(rt, "find")
		lookups := uint64(1 << 21)
		if vt.Thorough() {
			lookups = 1 << 24
		}
		const fill = 300000
		text := fmt.Sprintf("%d stored keys like %q, %d others asked for like %q, by find: %v", fill, shapes[stored](seed, 1), lookups, shapes[asked](seed+1, 1), find)
		vt.Note(text)
		c.Desc(text)
		c.NonTrivial(true)
		ca := cache.NewCache()
		for i := uint64(0); i < fill; i++ {
			ca.Set(shapes[stored](seed, i), i)
		}
		var wg sync.WaitGroup
		var bad atomic.Value
		for g := 0; g < runtime.GOMAXPROCS(0); g++ {
			wg.Add(1)
			go func(g uint64) {
				defer wg.Done()
				step := uint64(runtime.GOMAXPROCS(0))
				for i := g; i < lookups; i += step {
					key := shapes[asked](seed+1, i)
					ok, v := false, interface{}(nil)
					if find {
						ok, v, _ = ca.Find(key)
					} else {
						ok, v = ca.Get(key, 1<<62)
					}
					if ok {
						bad.Store(fmt.Sprintf("found %v for %q, which was never stored", v, key))
						return
					}
					if i%1000 == g { // a stored one, if it still is there
						j := fill - 1 - i%100000
						if ok, v := ca.Get(shapes[stored](seed, j), 1<<62); ok && v != j {
							bad.Store(fmt.Sprintf("found %v for %q, stored was %d", v, shapes[stored](seed, j), j))
							return
						}
						vt.Progress()
					}
				}
			}(uint64(g))
		}
		wg.Wait()
		if b := bad.Load(); b != nil {
			rt.Fatalf("%s\n%s", b, text)
		}
	})
}
