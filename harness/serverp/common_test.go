package serverp

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

type fataler interface {
	Fatalf(string, ...interface{})
	Helper()
}

func pick(rt *rapid.T, label string, xs ...string) string {
	return rapid.SampledFrom(xs).Draw(rt, label)
}

func chance(rt *rapid.T, label string, n int) bool {
	return rapid.IntRange(1, n).Draw(rt, label) == 1
}

func n(rt *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(rt, label)
}

var plainNames = []string{"index.html", "a.txt", "b.html", "c", "d.tar.gz", "e.css", "f.js", "g.json", "h.svg", "i.zip", "j.jpeg", "k.xhtml", "l.pdf", "m.htm", "n.unknown", "page.xml", "img.png", "v.mpeg", "s.aac", "m.avi", "p.bmp", "t.csv", "q.gif", "r.jpg"}

var oddNames = []string{".hidden", "x y.txt", "q?.txt", "h#1.png", "per%cent.js", "%2e%2e", "plus+.css", "c++", "a+b", "a b", "+", "amp&.xml", "quo\"te.json", "sq'.txt", "<b>.html", "ünï.txt", "semi;.pdf", "colon:.zip", "back\\slash.txt", "..dots", "...", "a..b", "tab\t.txt", "nl\nx.txt", "UP.TXT", "trail.", "dot.", "http:", "~", "\xff\xfe.txt", "index.htm", "a.txt.bak", "javascript:alert(1).html", "-rf", "$(id).txt", "*", "{}.json", "日本.html"}

var dirNames = []string{"docs", "sub", "x", "x.d", "d.html", "o p", "ü", "%41", "a&b", "..x"}

// segment encodes one path segment in one of its spellings.
func encode(rt *rapid.T, s string, plain bool) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		safe := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-_.~$&+,=:@!*'();/", c) >= 0
		if safe && (plain || !chance(rt, "enc", 6)) {
			b.WriteByte(c)
		} else if chance(rt, "lower", 2) {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

// spell writes the canonical path p (slash-rooted) as a request target.
func spell(rt *rapid.T, p string, plain bool) string {
	if plain {
		return encode(rt, p, true)
	}
	var b strings.Builder
	for i, s := range strings.Split(p, "/") {
		if i > 0 {
			b.WriteString("/")
			switch n(rt, "noise", 0, 11) {
			case 0:
				if b.Len() > 1 {
					b.WriteString("/")
				}
			case 1:
				b.WriteString("./")
			case 2:
				b.WriteString("zz/../")
			case 3:
				b.WriteString("%2e/")
			case 4:
				if i == 1 {
					b.WriteString("../")
				}
			}
		}
		b.WriteString(encode(rt, s, false))
	}
	if chance(rt, "query", 8) {
		b.WriteString(pick(rt, "q", "?", "?a=b", "?/../x", "?a=%zz;b", "?x=1?y#"))
	}
	return b.String()
}

// fs is a model of a directory tree: file path -> content, and directories.
type fs struct {
	files map[string]string // "/a/b" -> content
	dirs  map[string]bool   // "/a"; the root is ""
}

func newFS() *fs { return &fs{map[string]string{}, map[string]bool{"": true}} }

func (f *fs) add(p, content string) bool {
	if f.dirs[p] {
		return false
	}
	parts := strings.Split(p, "/")
	q := ""
	for _, s := range parts[1 : len(parts)-1] {
		q += "/" + s
		if _, ok := f.files[q]; ok {
			return false
		}
	}
	q = ""
	for _, s := range parts[1 : len(parts)-1] {
		q += "/" + s
		f.dirs[q] = true
	}
	f.files[p] = content
	return true
}

func (f *fs) mkdir(p string) bool {
	if _, ok := f.files[p]; ok {
		return false
	}
	parts := strings.Split(p, "/")
	q := ""
	for _, s := range parts[1:] {
		q += "/" + s
		if _, ok := f.files[q]; ok {
			return false
		}
	}
	q = ""
	for _, s := range parts[1:] {
		q += "/" + s
		f.dirs[q] = true
	}
	return true
}

func (f *fs) tree() map[string]string {
	m := map[string]string{}
	for p, c := range f.files {
		m[p[1:]] = c
	}
	for d := range f.dirs {
		if d != "" {
			m[d[1:]+"/"] = ""
		}
	}
	return m
}

func (f *fs) String() string {
	var s []string
	for p, c := range f.files {
		s = append(s, fmt.Sprintf("%q(%d)", p, len(c)))
	}
	for d := range f.dirs {
		s = append(s, fmt.Sprintf("%q/", d))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func (f *fs) paths() []string {
	var ps []string
	for p := range f.files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func (f *fs) dirList() []string {
	var ps []string
	for p := range f.dirs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

var serial int

// content makes file content that is different every time.
func content(rt *rapid.T) string {
	serial++
	size := 0
	switch n(rt, "sizeclass", 0, 9) {
	case 0:
	case 1, 2, 3, 4, 5:
		size = n(rt, "small", 1, 80)
	case 6, 7:
		size = n(rt, "medium", 400, 4000)
	case 8:
		size = n(rt, "large", 30000, 70000)
	default:
		size = n(rt, "huge", 100000, 300000)
		if vt.Rare(rt, "giant", 12) {
			size = rapid.SampledFrom([]int{1 << 20, 1<<20 + 1, 1<<22 - 1, 1 << 22, 5e6, 8<<20 + 1, 1e7, 17e6}).Draw(rt, "giantsize")
		}
	}
	if size == 0 {
		return ""
	}
	head := pick(rt, "magic", "", "<html>", "%PDF-1.4", "\x89PNG\r\n\x1a\n", "<?xml version='1.0'?>", "GIF89a", "\x00\x01\x02", "\xef\xbb\xbf", "plain text ", "PK\x03\x04")
	b := make([]byte, 0, size)
	b = append(b, head...)
	b = append(b, fmt.Sprintf("#%d#", serial)...)
	x := uint32(serial*2654435761 + 1)
	for len(b) < size {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b = append(b, byte(x))
	}
	return string(b[:size])
}

func genName(rt *rapid.T) string {
	if vt.Rare(rt, "longname", 60) {
		return vt.Long(rt, "namestem", "abcdefghijklmnopqrstuvwxyz", 255)[5:] + rapid.SampledFrom([]string{".txt", ".html", ".d", ".gz"}).Draw(rt, "nameend")
	}
	if chance(rt, "odd", 3) {
		return rapid.SampledFrom(oddNames).Draw(rt, "oddname")
	}
	return rapid.SampledFrom(plainNames).Draw(rt, "name")
}

func genPath(rt *rapid.T) string {
	p := ""
	for d := n(rt, "depth", 0, 2); d > 0; d-- {
		p += "/" + rapid.SampledFrom(dirNames).Draw(rt, "dir")
	}
	if vt.Rare(rt, "bigdir", 60) {
		p += vt.BigPath(rt, "big", 255, 2500)
	}
	return p + "/" + genName(rt)
}

func genFS(rt *rapid.T, index string, max int) *fs {
	f := newFS()
	for i := n(rt, "files", 1, max); i > 0; i-- {
		f.add(genPath(rt), content(rt))
	}
	// Files that stand beside others, as tools leave or prepare them.
	for i := n(rt, "beside", 0, 2); i > 0 && len(f.files) > 0 && chance(rt, "siblings", 3); i-- {
		p := rapid.SampledFrom(f.paths()).Draw(rt, "of")
		if at := strings.LastIndexByte(p, '.'); at > strings.LastIndexByte(p, '/')+1 && len(p) < 240 && chance(rt, "variant", 3) {
			f.add(p[:at]+rapid.SampledFrom(variants).Draw(rt, "variantof")+p[at:], content(rt))
			continue
		}
		if len(p)-strings.LastIndexByte(p, '/') < 240 {
			f.add(p+rapid.SampledFrom(besideExts).Draw(rt, "ext"), content(rt))
		}
	}
	if vt.Rare(rt, "manyfiles", 40) {
		d := rapid.SampledFrom(f.dirList()).Draw(rt, "manyin")
		for i := vt.Length(rt, "files2", 2100); i > 0; i-- {
			f.add(fmt.Sprintf("%s/many%d.txt", d, i), fmt.Sprint("content ", i))
		}
	}
	for i := n(rt, "dirs", 0, 2); i > 0; i-- {
		f.mkdir("/" + rapid.SampledFrom(dirNames).Draw(rt, "emptydir"))
	}
	if index != "" {
		for _, d := range f.dirList() {
			if d == "" && !chance(rt, "noroot", 5) || chance(rt, "index", 2) {
				f.add(d+"/"+index, content(rt))
			}
		}
	}
	return f
}

// variants are marks of files that are meant to stand in for others.
var variants = []string{".de", ".en", ".fr", ".min", "-mobile", ".mobile", "_de", "-de", "@2x", ".gz", "-dark", ".bot", ".v2", ".old"}

var besideExts = []string{".gz", ".gz", ".br", ".zst", ".bak", "~", ".html", ".tmp", ".orig", ".de", ".min.js", ".map", ".webp", ".meta", ".sha256", ".headers"}

func diff(got []byte, want string) string {
	if bytes.Equal(got, []byte(want)) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("body has %d bytes, want %d, first difference at %d: got %q, want %q", len(got), len(want), i, cut(string(got[i:])), cut(want[i:]))
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func contentLength(r *k.Resp, q k.Req) string {
	cl := r.Header.Values("Content-Length")
	if q.Method == "HEAD" || r.Status == 304 {
		return ""
	}
	if len(cl) > 0 && (len(cl) != 1 || cl[0] != fmt.Sprint(len(r.Body))) {
		return fmt.Sprintf("Content-Length %q but %d bytes of body", cl, len(r.Body))
	}
	return ""
}
