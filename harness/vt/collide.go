package vt

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"math/bits"
)

// Keys that common non-cryptographic hash functions confuse. They are inputs
// only: nothing is decided by which hash function the code uses.

const (
	xp1 uint64 = 11400714785074694791
	xp2 uint64 = 14029467366897019727
	xp3 uint64 = 1609587929392839161
	xp4 uint64 = 9650029242287828579
	xp5 uint64 = 2870177450012600261
)

func inv(a uint64) uint64 { // inverse modulo 2^64
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func xround(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*xp2, 31) * xp1 }

// xstate is the state of XXH64 before the last eight bytes of a message of
// len(p)+8 bytes, where len(p) is a multiple of eight.
func xstate(p string) uint64 {
	b := []byte(p)
	n := len(p) + 8
	var h uint64
	if n >= 32 {
		p1, p2 := xp1, xp2
		v := [4]uint64{p1 + p2, p2, 0, -p1}
		if n%32 == 0 {
			panic("last eight bytes belong to a block")
		}
		for len(b) >= 32 {
			for i := range v {
				v[i] = xround(v[i], binary.LittleEndian.Uint64(b[8*i:]))
			}
			b = b[32:]
		}
		h = bits.RotateLeft64(v[0], 1) + bits.RotateLeft64(v[1], 7) + bits.RotateLeft64(v[2], 12) + bits.RotateLeft64(v[3], 18)
		for i := range v {
			h = (h^xround(0, v[i]))*xp1 + xp4
		}
	} else {
		h = xp5
	}
	h += uint64(n)
	for len(b) >= 8 {
		h = bits.RotateLeft64(h^xround(0, binary.LittleEndian.Uint64(b)), 27)*xp1 + xp4
		b = b[8:]
	}
	return h
}

// unround returns the eight bytes with xround(0, bytes) == k.
func unround(k uint64) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], bits.RotateLeft64(k*inv(xp1), -31)*inv(xp2))
	return string(b[:])
}

func okLen(n int) bool { return n%8 == 0 && (n < 32 || n%32 != 0) }

// XXPair returns two different keys pre1+... and pre2+... that have the same
// XXH64 hash. Their last bytes are fit for a header field when header is set.
func XXPair(pre1, pre2 string, header bool, salt int) (string, string) {
	for i := salt * 1000; ; i++ {
		a, b := pad(pre1, i), pad(pre2, i+7)
		last := fmt.Sprintf("%08d", i)[:8]
		tail := unround(xstate(a) ^ xround(0, binary.LittleEndian.Uint64([]byte(last))) ^ xstate(b))
		if a+last != b+tail && (!header || fit(tail)) {
			return a + last, b + tail
		}
	}
}

// XXZero returns a key that starts with pre and has the XXH64 hash zero.
func XXZero(pre string, header bool, salt int) string {
	for i := salt * 1000; ; i++ {
		a := pad(pre, i)
		p4 := xp4
		tail := unround(xstate(a) ^ bits.RotateLeft64(-p4*inv(xp1), -27))
		if !header || fit(tail) {
			return a + tail
		}
	}
}

func pad(pre string, i int) string {
	s := pre + fmt.Sprintf("%x", i)
	for len(s)%8 != 0 || !okLen(len(s)+8) {
		s += "."
	}
	return s
}

func fit(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] <= ' ' || s[i] == 0x7f {
			return false
		}
	}
	return true
}

// Pairs32 are pairs of short keys with the same 32-bit hash (FNV-1, FNV-1a,
// CRC-32), each starting with pre1 and pre2.
func Pairs32(pre1, pre2 string) (out [][2]string) {
	for _, h := range []func(string) uint32{
		func(s string) uint32 { f := fnv.New32(); f.Write([]byte(s)); return f.Sum32() },
		func(s string) uint32 { f := fnv.New32a(); f.Write([]byte(s)); return f.Sum32() },
		func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) },
	} {
		seen := map[uint32]string{}
		for i := 0; ; i++ {
			a := pre1 + fmt.Sprintf("%016x", uint64(i)*xp1)
			b := pre2 + fmt.Sprintf("%016x", uint64(i)*xp2+xp5)
			seen[h(a)] = a
			if a, ok := seen[h(b)]; ok {
				out = append(out, [2]string{a, b})
				break
			}
		}
	}
	return
}
