package vt

import (
	"strings"

	"pgregory.net/rapid"
)

// Values of unusual size. Most generated cases are small, so that many of
// them can be tried and failures are easy to read; a rare one is far larger in
// one dimension, because buffers, limits and shortcuts have sizes of their own.

// lengths lie around the sizes that code likes to assume.
var lengths = []int{17, 33, 50, 63, 64, 65, 72, 73, 100, 127, 128, 129, 180, 200, 250, 254, 255, 256, 257, 300, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4000, 4095, 4096, 4097, 5000}

// counts likewise for numbers of things.
var counts = []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 25, 30, 31, 32, 33, 34, 40, 50, 63, 64, 65, 70, 90, 100, 101, 127, 128, 129, 150, 199, 200, 201, 240, 255, 256, 257, 260, 300}

// Rare is true about once in n draws and never what a failure is shrunk to.
func Rare(rt *rapid.T, label string, n int) bool {
	return rapid.Uint64().Draw(rt, label)%uint64(n) == uint64(n-1)
}

func below(xs []int, max int) []int {
	i := len(xs)
	for i > 1 && xs[i-1] > max {
		i--
	}
	return xs[:i]
}

// Length is a large length, at most max.
func Length(rt *rapid.T, label string, max int) int {
	return rapid.SampledFrom(below(lengths, max)).Draw(rt, label)
}

// Many is a large number of things, at most max.
func Many(rt *rapid.T, label string, max int) int {
	return rapid.SampledFrom(below(counts, max)).Draw(rt, label)
}

// Long is a long string of the letters; where it begins and ends is drawn so
// that two of them may agree in a long prefix or suffix.
func Long(rt *rapid.T, label, letters string, max int) string {
	n := Length(rt, label, max)
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[i%len(letters)]
	}
	switch rapid.IntRange(0, 3).Draw(rt, label+"-differs") {
	case 0:
		b[n-1] = letters[rapid.IntRange(0, len(letters)-1).Draw(rt, label+"-last")]
	case 1:
		b[0] = letters[rapid.IntRange(0, len(letters)-1).Draw(rt, label+"-first")]
	case 2:
		b[n/2] = letters[rapid.IntRange(0, len(letters)-1).Draw(rt, label+"-mid")]
	}
	return string(b)
}

// BigPath is a slash-rooted canonical path that is deep or long. Its segments
// are at most maxSeg and it is at most max bytes long.
func BigPath(rt *rapid.T, label string, maxSeg, max int) string {
	var p string
	const letters = "abcdefghijklmnopqrstuvwxyz0123456789-_"
	switch rapid.IntRange(0, 3).Draw(rt, label) {
	case 0, 1: // deep
		seg := rapid.SampledFrom([]string{"a", "b", "ab", "foo"}).Draw(rt, label+"-seg")
		p = strings.Repeat("/"+seg, Many(rt, label+"-depth", max/(len(seg)+1)))
	case 2: // one long segment
		p = "/" + Long(rt, label+"-long", letters, min(maxSeg, max-1))
	default:
		for i := rapid.IntRange(2, 20).Draw(rt, label+"-longs"); i > 0; i-- {
			s := Long(rt, label+"-long", letters, min(maxSeg, 300))
			if len(p)+len(s)+1 > max {
				break
			}
			p += "/" + s
		}
		if p == "" {
			p = "/a"
		}
	}
	return p
}
