package cachep

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cespare/xxhash"
	"github.com/redmaner/MaguroHTTP/cache"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// Keys that share one shard with the present hash. Only the generator uses
// this (to make rings fill and wrap); no verdict depends on it.
var shardKeys, otherKeys = func() ([]string, []string) {
	var same, other []string
	for i := 0; len(same) < 3000; i++ {
		k := fmt.Sprintf("k%d", i)
		if xxhash.Sum64([]byte(k))&255 == 77 {
			same = append(same, k)
		} else if len(other) < 50 {
			other = append(other, k)
		}
	}
	return same, append(other, "", "192.0.2.1", "192.0.2.1Mozilla/5.0 (X11)", "\x00", "é")
}()

// confusable are keys that a weak hash function confuses.
var confusable = func() (out [][2]string) {
	for i := 0; i < 12; i++ {
		a, b := vt.XXPair("", strings.Repeat("k", 7*i), i%2 == 0, i)
		out = append(out, [2]string{a, b})
		out = append(out, [2]string{vt.XXZero("", true, i), vt.XXZero("z", false, i)})
	}
	return append(out, vt.Pairs32("a", "b")...)
}()

// keepFor is the number of touches of other keys after which a key may be
// forgotten.
const keepFor = 1000

type op struct {
	kind string // set get find sleep fill
	key  string
	rel  int   // get: how the maximum age relates to the true age
	n    int64 // sleep in ns, fill count, get delta
}

func short(key string) string {
	if len(key) < 300 {
		return key
	}
	return fmt.Sprintf("%s...(%d bytes)...%s", key[:8], len(key), key[len(key)-8:])
}

func (o op) String() string {
	switch o.kind {
	case "sleep":
		return fmt.Sprintf("sleep(%v)", time.Duration(o.n))
	case "fill":
		return fmt.Sprintf("fill(%d)", o.n)
	case "get":
		return fmt.Sprintf("get(%q,rel=%d,%d)", short(o.key), o.rel, o.n)
	}
	return fmt.Sprintf("%s(%q)", o.kind, short(o.key))
}

type entry struct {
	val     interface{}
	touched time.Time
	seq     int64 // touches of other keys are counted from here
}

// run executes a history on a fresh cache under a controlled clock and
// returns a description of the first wrong answer, if any.
func run(ops []op, c *vt.Case) (bad string) {
	ca := cache.NewCache()
	model := map[string]*entry{}
	own := map[string]int64{}
	var total int64
	next := 0
	fillers := 0
	touch := func(k string) {
		total++
		own[k]++
		e := model[k]
		e.touched = time.Now()
		e.seq = total - own[k]
	}
	// touches of other keys since the last touch of k
	others := func(k string) int64 { return total - own[k] - model[k].seq }
	set := func(k string) {
		next++
		var v interface{} = next
		if next%17 == 0 {
			v = fmt.Sprint("s", next)
		}
		if next%7 == 0 {
			v = nil
		}
		ca.Set(k, v)
		if model[k] == nil {
			model[k] = &entry{}
		}
		model[k].val = v
		touch(k)
	}
	for i, o := range ops {
		time.Sleep(time.Microsecond) // clocks advance between operations
		fail := func(f string, a ...interface{}) string {
			return fmt.Sprintf("operation %d %v: ", i, o) + fmt.Sprintf(f, a...)
		}
		switch o.kind {
		case "sleep":
			time.Sleep(time.Duration(o.n))
		case "fill":
			for j := int64(0); j < o.n; j++ {
				set(shardKeys[100+fillers%2800])
				fillers++
			}
		case "set":
			set(o.key)
		case "get":
			e := model[o.key]
			age := uint64(1e9)
			if e != nil {
				age = uint64(time.Since(e.touched))
			}
			var max uint64
			switch o.rel {
			case 0: // expired by a little up to a lot
				d := uint64(o.n) + 1
				if d > age {
					d = age
				}
				max = age - d
			case 4: // of exactly that age
				max = age
				if e != nil {
					c.Label("get-exact-age")
				}
			case 1: // fresh by a little up to a lot
				max = age + uint64(o.n) + 1
			case 2:
				max = 900000000000
				if max == age {
					max++
				}
			default:
				max = 1 << 62
			}
			ok, v := ca.Get(o.key, max)
			switch {
			case e == nil:
				if ok {
					return fail("found %v for a key never stored", v)
				}
				if v != nil {
					return fail("not found but value %v", v)
				}
				c.Label("get-never-stored")
			case age > max:
				if ok {
					return fail("found %v although last stored or found %v ago (maximum age %v)", v, time.Duration(age), time.Duration(max))
				}
				if v != nil {
					return fail("not found but value %v", v)
				}
				c.Label("get-expired")
			default:
				if !ok {
					if n := others(o.key); n < keepFor {
						return fail("not found although stored or found %v ago (maximum age %v) and only %d other touches since", time.Duration(age), time.Duration(max), n)
					}
					c.Label("get-forgotten")
					if v != nil {
						return fail("not found but value %v", v)
					}
					break
				}
				if v != e.val {
					return fail("found %v, newest value is %v", v, e.val)
				}
				c.Label("get-hit")
				c.LabelIf(others(o.key) > 8, "get-hit-behind-8")
				c.LabelIf(total > 1030, "get-hit-after-wrap")
				touch(o.key)
			}
		case "find":
			e := model[o.key]
			ok, v, age := ca.Find(o.key)
			switch {
			case e == nil:
				if ok {
					return fail("found %v for a key never stored", v)
				}
			case !ok:
				if n := others(o.key); n < keepFor {
					return fail("not found although only %d other touches since it was stored or found", n)
				}
				if v != nil || age != 0 {
					return fail("not found but value %v age %d", v, age)
				}
				c.Label("find-forgotten")
			default:
				if v != e.val {
					return fail("found %v, newest value is %v", v, e.val)
				}
				if want := uint64(time.Since(e.touched)); age != want {
					return fail("reports age %d ns, last stored or found %d ns ago", age, want)
				}
				c.Label("find-hit")
				touch(o.key)
			}
		}
	}
	c.LabelIf(total > 1030, "ring-wrapped")
	return ""
}

func genOps() *rapid.Generator[[]op] {
	return rapid.Custom(func(rt *rapid.T) []op {
		nk := rapid.IntRange(1, 14).Draw(rt, "keys")
		keys := append([]string{}, shardKeys[:nk]...)
		if rapid.IntRange(0, 2).Draw(rt, "mixed") == 0 {
			keys = append(keys, rapid.SliceOfN(rapid.SampledFrom(otherKeys), 1, 4).Draw(rt, "others")...)
		}
		if rapid.IntRange(0, 3).Draw(rt, "confusable") == 0 {
			for _, p := range rapid.SliceOfN(rapid.SampledFrom(confusable), 1, 3).Draw(rt, "pairs") {
				keys = append(keys, p[0], p[1])
			}
		}
		if vt.Rare(rt, "long keys", 100) { // that agree but for the end or the beginning
			l := strings.Repeat("k", rapid.SampledFrom([]int{64, 255, 256, 1024, 4096, 8192, 65536, 70000, 1 << 20}).Draw(rt, "length"))
			keys = append(keys, l, l+"a", l+"b", "a"+l, "b"+l, "a"+l+"a")
		}
		kg := rapid.SampledFrom(keys)
		fill := rapid.IntRange(0, 3).Draw(rt, "profile") == 0
		one := rapid.Custom(func(rt *rapid.T) op {
			k := rapid.IntRange(0, 99).Draw(rt, "op")
			switch {
			case k < 35:
				return op{kind: "set", key: kg.Draw(rt, "key")}
			case k < 70:
				return op{kind: "get", key: kg.Draw(rt, "key"), rel: rapid.SampledFrom([]int{0, 1, 1, 2, 3, 3, 4}).Draw(rt, "rel"),
					n: rapid.SampledFrom([]int64{0, 0, 1, 1000, 1e6, 1e9, 60e9}).Draw(rt, "delta")}
			case k < 80:
				return op{kind: "find", key: kg.Draw(rt, "key")}
			case k < 93 || !fill:
				return op{kind: "sleep", n: rapid.SampledFrom([]int64{1, 1e3, 1e6, 1e9, 5e9, 60e9, 899e9, 901e9, 4000e9, 100000e9, 1e15}).Draw(rt, "d")}
			default:
				return op{kind: "fill", n: int64(rapid.SampledFrom([]int{1, 6, 7, 8, 9, 50, 300, 900, 990, 1000, 1015, 1016, 1017, 1018, 1020, 1022, 1023, 1024, 1025, 1030, 2047, 2100}).Draw(rt, "n"))}
			}
		})
		return rapid.SliceOfN(one, 1, rapid.SampledFrom([]int{6, 20, 60, 120}).Draw(rt, "len")).Draw(rt, "ops")
	})
}

func TestC01(t *testing.T) {
	check := func(ops []op, c *vt.Case) (bad string) {
		synctest.Test(t, func(*testing.T) {
			defer func() {
				if r := recover(); r != nil {
					bad = fmt.Sprintf("panic: %v", r)
				}
			}()
			bad = run(ops, c)
		})
		return bad
	}
	g := func(k string, max uint64) op { return op{kind: "get", key: k, rel: 3} }
	s := func(k string) op { return op{kind: "set", key: k} }
	k := shardKeys
	examples := map[string][]op{
		"expired-behind-eight":     append(append([]op{s(k[0]), {kind: "sleep", n: 10e9}}, sets(k[1:12])...), op{kind: "get", key: k[0], rel: 0}),
		"full-ring-oldest-value":   {s(k[0]), {kind: "fill", n: 500}, s(k[0]), {kind: "fill", n: 523}, g(k[0], 0)},
		"full-ring-oldest-expired": {s(k[0]), {kind: "sleep", n: 950e9}, {kind: "fill", n: 1023}, s(k[1]), {kind: "get", key: k[1], rel: 2}},
		"find-age-own-slot":        {s(k[0]), {kind: "fill", n: 1023}, {kind: "sleep", n: 1e9}, {kind: "find", key: k[0]}},
		"update-behind-expired":    append(append([]op{s(k[0])}, sets(k[1:7])...), op{kind: "sleep", n: 100e9}, s(k[0]), op{kind: "sleep", n: 50e9}, op{kind: "get", key: k[0], rel: 1, n: 30e9}),
	}
	for name, ops := range examples {
		vt.Example(t, name, func(t *testing.T) {
			var bad string
			synctest.Test(t, func(*testing.T) { bad = run(ops, &vt.Case{}) })
			if bad != "" {
				t.Fatalf("%v\n%s", ops, bad)
			}
		})
	}
	vt.Check(t, 12000, 150000, func(rt *rapid.T, c *vt.Case) {
		ops := genOps().Draw(rt, "ops")
		var d strings.Builder
		hits := 0
		for _, o := range ops {
			d.WriteString(o.String())
			d.WriteByte(' ')
			if o.kind == "get" || o.kind == "find" {
				hits++
			}
		}
		c.Desc(d.String())
		c.NonTrivial(hits > 0 && len(ops) > 3)
		vt.Note(d.String())
		if bad := check(ops, c); bad != "" {
			rt.Fatalf("%s\nhistory: %s", bad, d.String())
		}
	})
}

func sets(keys []string) []op {
	var o []op
	for _, k := range keys {
		o = append(o, op{kind: "set", key: k})
	}
	return o
}
