package vt

import (
	"testing"

	"github.com/cespare/xxhash"
)

func TestCollide(t *testing.T) {
	for i := 0; i < 50; i++ {
		for _, pre := range []string{"", "192.0.2.7\nMozilla", "2001:db8::7\nMozilla/5.0 (X11; Linux x86_64) something long enough"} {
			a, b := XXPair(pre, "10.1.2.3\nA", i%2 == 0, i)
			if a == b || xxhash.Sum64String(a) != xxhash.Sum64String(b) {
				t.Fatal(a, b)
			}
			if z := XXZero(pre, true, i); xxhash.Sum64String(z) != 0 {
				t.Fatal(z)
			}
		}
	}
	t.Log(Pairs32("a", "b"))
}
