package cachep

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"weak"

	"github.com/redmaner/MaguroHTTP/cache"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// C03: the cache does not hold on to more values than it has room for.

const (
	room     = 256 * 1024 // values in all
	roomSame = 1024       // values of one key
)

type held struct{ pad [32]byte }

// phase stores values under keys of some pattern.
type phase struct {
	Kind    string
	Keys, N int
	Workers int
	Long    bool
	Reads   bool
	Again   bool // the values of a key follow each other
}

func (p phase) String() string {
	return fmt.Sprintf("%s: %d values under %d keys by %d goroutines (long keys: %v, read: %v, one key after the other: %v)", p.Kind, p.N, p.Keys, p.Workers, p.Long, p.Reads, p.Again)
}

func genPhase(rt *rapid.T, big bool) phase {
	p := phase{Workers: rapid.SampledFrom([]int{1, 1, 4}).Draw(rt, "workers"), Long: rapid.IntRange(0, 7).Draw(rt, "long") == 0, Reads: rapid.Bool().Draw(rt, "reads")}
	switch rapid.IntRange(0, 2).Draw(rt, "phase") {
	case 0:
		p.Kind, p.Keys, p.N = "one key", 1, rapid.IntRange(1100, 30000).Draw(rt, "n")
	case 1:
		p.Kind, p.Keys, p.N = "few keys", rapid.IntRange(2, 40).Draw(rt, "keys"), rapid.IntRange(1100, 60000).Draw(rt, "n")
	default:
		p.Kind = "many keys"
		p.N = rapid.IntRange(1100, 100000).Draw(rt, "n")
		if big {
			p.N = rapid.IntRange(300000, 700000).Draw(rt, "nbig")
		}
		p.Keys = p.N / rapid.IntRange(1, 3).Draw(rt, "each")
		p.Again = rapid.Bool().Draw(rt, "again")
	}
	return p
}

func TestC03(t *testing.T) {
	vt.Check(t, 14, 200, func(rt *rapid.T, c *vt.Case) {
		big := rapid.IntRange(0, 3).Draw(rt, "big") == 0
		var phases []phase
		var text []string
		total := 0
		for i := rapid.IntRange(1, 4).Draw(rt, "phases"); i > 0; i-- {
			p := genPhase(rt, big)
			phases = append(phases, p)
			text = append(text, p.String())
			total += p.N
		}
		vt.Note(strings.Join(text, "; "))
		sc := cache.NewCache()
		var mu sync.Mutex
		var all []weak.Pointer[held]
		onlyKey := len(phases) == 1 && phases[0].Keys == 1
		for i, p := range phases {
			var wg sync.WaitGroup
			for g := 0; g < p.Workers; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					mine := make([]weak.Pointer[held], 0, p.N/p.Workers+1)
					for j := g; j < p.N; j += p.Workers {
						key := fmt.Sprintf("%d/%d", i, j%p.Keys)
						if p.Again {
							key = fmt.Sprintf("%d/%d", i, j*p.Keys/p.N)
						}
						if p.Long {
							key += strings.Repeat("x", 200)
						}
						v := new(held)
						mine = append(mine, weak.Make(v))
						sc.Set(key, v)
						if p.Reads && j%7 == 0 {
							sc.Get(key, 1<<40)
							sc.Find(key)
						}
					}
					mu.Lock()
					all = append(all, mine...)
					mu.Unlock()
				}(g)
			}
			wg.Wait()
			runtime.GC()
			runtime.GC()
			alive := 0
			for _, w := range all {
				if w.Value() != nil {
					alive++
				}
			}
			limit := room
			if onlyKey {
				limit = roomSame
			}
			if alive > limit+p.Workers {
				rt.Fatalf("%d of %d values stored so far are still held after phase %d, there is room for %d\n%s", alive, len(all), i, limit, strings.Join(text, "\n"))
			}
			vt.Progress()
		}
		runtime.KeepAlive(sc)
		// and none is left when the cache is given up
		sc = nil
		runtime.GC()
		runtime.GC()
		for _, w := range all {
			if w.Value() != nil {
				rt.Fatalf("values are held although the cache is not used any more\n%s", strings.Join(text, "\n"))
			}
		}
		c.LabelIf(total > room, "more values than room")
		c.LabelIf(onlyKey, "one key")
		c.NonTrivial(total > roomSame)
		c.Desc(strings.Join(text, "; "))
	})
}
