package serverp

import (
	"errors"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/redmaner/MaguroHTTP/debug"
	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// L01: the log contains exactly what the configured level asks for.

var reStamp = regexp.MustCompile(`^MaguroHTTP-\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// redirect gives the process another standard output or error while f runs.
func redirect(name string, f func()) string {
	if name != "stdout" && name != "stderr" {
		f()
		b, err := os.ReadFile(name)
		vt.Must(err)
		return string(b)
	}
	file, err := os.CreateTemp("", "std")
	vt.Must(err)
	defer os.Remove(file.Name())
	target := &os.Stdout
	if name == "stderr" {
		target = &os.Stderr
	}
	old := *target
	*target = file
	defer func() { *target = old; file.Close() }()
	f()
	b, err := os.ReadFile(file.Name())
	vt.Must(err)
	return string(b)
}

// TestL01Logger checks the logger alone.
func TestL01Logger(t *testing.T) {
	levels := map[int]string{debug.LogNone: "", debug.LogNet: "NET: ", debug.LogError: "ERROR: ", debug.LogDebug: "DEBUG: ", debug.LogVerbose: "VERBOSE: "}
	vt.Check(t, 1500, 30000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		level := n(rt, "level", 0, 3)
		out := pick(rt, "out", "file", "file", "stdout", "stderr")
		if out == "file" {
			out = w.Path("log file")
		}
		type msg struct {
			level int
			text  string
		}
		var msgs []msg
		for i := n(rt, "messages", 0, 20); i > 0; i-- {
			m := msg{n(rt, "mlevel", 0, 4), pick(rt, "text", "plain", "ünï", "100% %s %d", "", " spaced ", "NET: x", "a:b=c", strings.Repeat("long ", 300), "tab\tquote\"") + fmt.Sprint(i)}
			if chance(rt, "nil", 8) {
				m.text = "<nil>"
			}
			msgs = append(msgs, m)
		}
		shown := fmt.Sprint(msgs)
		if vt.Rare(rt, "much", 25) { // a log of megabytes
			size := rapid.SampledFrom([]int{100, 900, 4090, 70000, 1 << 20}).Draw(rt, "muchsize")
			total := n(rt, "muchtotal", 1<<20, 12<<20)
			if vt.Thorough() {
				total *= 4
			}
			much := total/size + 1
			if much > 20000 {
				much = 20000
			}
			mlevel := n(rt, "muchlevel", 0, level)
			for i := 0; i < much; i++ {
				msgs = append(msgs, msg{mlevel, strings.Repeat("much ", size/5) + fmt.Sprint(i)})
			}
			shown += fmt.Sprintf(" and %d of %d bytes", much, size)
			c.Label("log of megabytes")
		}
		workers := rapid.SampledFrom([]int{1, 1, 4}).Draw(rt, "workers")
		text := fmt.Sprintf("level %d, %d goroutines, messages %q", level, workers, shown)
		vt.Note(text)
		// other loggers, with the same output or another one
		type logger struct {
			level  int
			prefix string
			same   bool
			later  bool
		}
		var others []logger
		for i := n(rt, "others", 0, 3); i > 0; i-- {
			others = append(others, logger{n(rt, "olevel", 0, 3), pick(rt, "oprefix", "MaguroHTTP-", "Other-"), chance(rt, "same", 2), chance(rt, "later", 3)})
		}
		text += fmt.Sprintf(", other loggers %+v", others)
		vt.Note(text)
		var closing []string
		make1 := func(i int, o logger) {
			oout := out
			if !o.same {
				oout = w.Path(fmt.Sprintf("other%d", i))
				closing = append(closing, oout)
			}
			if _, err := debug.NewLogger(o.level, o.prefix, oout); err != nil {
				rt.Fatalf("NewLogger(%d): %v", o.level, err)
			}
		}
		got := redirect(out, func() {
			for i, o := range others {
				if !o.later {
					make1(i, o)
				}
			}
			lg, err := debug.NewLogger(level, "MaguroHTTP-", out)
			if err != nil {
				rt.Fatalf("NewLogger(%d): %v", level, err)
			}
			for i, o := range others {
				if o.later {
					make1(i, o)
				}
			}
			var wg sync.WaitGroup
			for g := 0; g < workers; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := g; i < len(msgs); i += workers {
						var err error
						if msgs[i].text != "<nil>" {
							err = errors.New(msgs[i].text)
						}
						lg.Log(msgs[i].level, err)
					}
				}(g)
			}
			wg.Wait()
		})
		for _, name := range closing {
			if b, _ := os.ReadFile(name); len(b) != 0 {
				rt.Fatalf("the log of another logger has %q\n%s", b, text)
			}
		}
		var want, have []string
		for _, m := range msgs {
			if m.level <= level && m.text != "<nil>" {
				want = append(want, levels[m.level]+m.text)
			}
		}
		lines := strings.SplitAfter(got, "\n")
		for _, line := range lines[:len(lines)-1] {
			if !reStamp.MatchString(line) {
				rt.Fatalf("entry %q has no time stamp\n%s", line, text)
			}
			have = append(have, strings.TrimSuffix(line[len(reStamp.FindString(line)):], "\n"))
		}
		if workers > 1 {
			sort.Strings(want)
			sort.Strings(have)
		}
		if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", have) || lines[len(lines)-1] != "" {
			rt.Fatalf("logged %q, want %q\n%s", have, want, text)
		}
		c.Labelf("level %d", level)
		c.LabelIf(!strings.HasPrefix(out, "std"), "to a file")
		c.NonTrivial(len(want) > 0 && len(want) < len(msgs))
		c.Desc(text)
	})
}

type access struct {
	status             int
	method, host, path string
	full               string // host as sent, with port
}

func (a access) String() string {
	return fmt.Sprintf("%d %s %q %q", a.status, a.method, a.host, a.path)
}

// fits tells whether the access line belongs to the request.
func (a access) fits(line string) bool {
	if !strings.HasPrefix(line, fmt.Sprintf("%d ", a.status)) {
		return false
	}
	rest := line[strings.IndexByte(line, ' '):]
	i := strings.Index(rest, a.method+" ")
	if i < 0 {
		return false
	}
	rest = rest[i+len(a.method)+1:]
	switch {
	case strings.HasPrefix(rest, a.full):
		rest = rest[len(a.full):]
	case strings.HasPrefix(rest, a.host):
		rest = rest[len(a.host):]
	default:
		return false
	}
	return strings.HasPrefix(rest, a.path) || strings.HasPrefix(unescape(rest), a.path) || strings.HasPrefix(rest, strings.Trim(fmt.Sprintf("%q", a.path), "\""))
}

var reNet = regexp.MustCompile(`(?m)^MaguroHTTP-\d{4}/\d\d/\d\d \d\d:\d\d:\d\d NET: (.*)$`)

var forging = []string{"/x\nMaguroHTTP-2020/01/01 00:00:00 NET: 200 request=GET h.test/forged", "/\n", "/a\r\nb", "/\nMaguroHTTP-2020/01/01 00:00:00 ERROR: forged", "/a%0ab", "/%s%d%n", "/ü", "/\x00", "/\x1b[31mred", "/a b", "/\xff", "/x IP=1.2.3.4", "/a\tb", "/a%b", "/\u2028"}

func TestL01(t *testing.T) {
	vt.Example(t, "forged entry", func(t *testing.T) {
		w := k.NewWorld()
		defer w.Close()
		c := &k.Conf{LogLevel: 1, LogOut: w.Path("log"), Main: *(&k.Host{Dir: w.Path("www"), Index: "index.html", Methods: map[string]string{"/": "GET"}}).Unlimited()}
		s := w.Start(c)
		s.Do(k.Req{Host: "h.test", Target: "/x%0AMaguroHTTP-2020/01/01%2000:00:00%20NET:%20200%20request=GET%20h.test/forged"})
		b, err := os.ReadFile(c.LogOut)
		vt.Must(err)
		if got := reNet.FindAllString(string(b), -1); len(got) != 1 {
			t.Fatalf("one request left the access lines %q", got)
		}
	})
	vt.Check(t, 600, 9000, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		ew := genServer(rt, w)
		if chance(rt, "nolimit", 2) {
			ew.unlimited()
		}
		ew.conf.Metrics = ew.conf.Metrics && chance(rt, "metrics", 3)
		level := n(rt, "level", 0, 3)
		ew.conf.LogLevel = level
		out := pick(rt, "out", "file", "file", "file", "stdout", "stderr")
		if out == "file" {
			out = w.Path("access log")
		}
		ew.conf.LogOut = out
		text := ew.String()
		var log []string
		var want []access
		workers := rapid.SampledFrom([]int{1, 1, 6}).Draw(rt, "workers")
		var qs []k.Req
		for i := n(rt, "requests", 1, 25); i > 0; i-- {
			q := ew.genReq(rt)
			if chance(rt, "forging", 3) {
				q.Target = encode(rt, rapid.SampledFrom(forging).Draw(rt, "forge"), chance(rt, "plain", 2))
				if chance(rt, "q", 4) {
					q.Target += "?" + pick(rt, "query", "a=b", "%0a", "%0aMaguroHTTP-", "x=1&y")
				}
			}
			if vt.Rare(rt, "long", 6) {
				q.Target = vt.BigPath(rt, "longpath", 4000, 7000)
			} else if len(qs) > 0 && chance(rt, "near", 6) {
				q = near(rt, qs[len(qs)-1])
			}
			switch n(rt, "ups", 0, 5) {
			case 0:
				q.Header = append(q.Header, [2]string{"X-Up", pick(rt, "up", "fail", "moved")})
			case 1:
				q.Header = append(q.Header, [2]string{"User-Agent", pick(rt, "oddagent", "%s%d", "x NET: y", "IP=1", "")})
			}
			if _, err := q.Parse(); err != nil {
				continue
			}
			qs = append(qs, q)
			log = append(log, q.String())
		}
		vt.Note(text + "\n" + strings.Join(log, "\n"))
		var mu sync.Mutex
		bad := ""
		got := redirect(out, func() {
			s := w.Start(ew.conf)
			s.Up.Respond = fickle
			var wg sync.WaitGroup
			for g := 0; g < workers; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := g; i < len(qs); i += workers {
						r := s.Do(qs[i])
						mu.Lock()
						if f := r.Fatal(); f != "" {
							bad = fmt.Sprintf("%s: %s", qs[i], f)
						}
						m := qs[i].Method
						if m == "" {
							m = "GET"
						}
						want = append(want, access{status: r.Status, method: m, host: r.HostNam, full: qs[i].Host, path: r.Path})
						mu.Unlock()
					}
				}(g)
			}
			wg.Wait()
		})
		var lines []string
		for _, m := range reNet.FindAllStringSubmatch(got, -1) {
			lines = append(lines, m[1])
		}
		if level < 1 {
			want = nil
		}
		if bad == "" && len(lines) != len(want) {
			bad = fmt.Sprintf("%d requests were answered, the log has %d access lines:\n%s", len(want), len(lines), strings.Join(lines, "\n"))
		}
		if bad == "" && level == 1 {
			// nothing but access lines and the server's own plain messages
			all := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
			if got == "" {
				all = nil
			}
			for _, line := range all {
				if !reStamp.MatchString(line) {
					bad = fmt.Sprintf("the log has the line %q, which is no entry", line)
				}
				for _, other := range []string{"ERROR:", "DEBUG:", "VERBOSE:"} {
					if strings.HasPrefix(line[len(reStamp.FindString(line)):], other) {
						bad = fmt.Sprintf("the log has the entry %q at level 1", line)
					}
				}
			}
		}
		if bad == "" {
			if workers == 1 {
				for i := range lines {
					if !want[i].fits(lines[i]) {
						bad = fmt.Sprintf("access line %q does not belong to %s", lines[i], want[i])
						break
					}
				}
			} else if x := unmatched(want, lines); x != "" {
				bad = x
			}
		}
		if bad != "" {
			rt.Fatalf("%s\nconfig %s\nhistory\n%s", bad, text, strings.Join(log, "\n"))
		}
		c.Labelf("level %d", level)
		c.LabelIf(workers > 1, "concurrent")
		c.NonTrivial(level >= 1 && len(want) > 1)
		c.Desc(text + " " + strings.Join(log, " | "))
	})
}

// unmatched matches lines and requests one to one.
func unmatched(want []access, lines []string) string {
	owner := make([]int, len(lines))
	for i := range owner {
		owner[i] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for j, line := range lines {
			if seen[j] || !want[i].fits(line) {
				continue
			}
			seen[j] = true
			if owner[j] < 0 || try(owner[j], seen) {
				owner[j] = i
				return true
			}
		}
		return false
	}
	for i := range want {
		if !try(i, make([]bool, len(lines))) {
			return fmt.Sprintf("no access line for %s among\n%s", want[i], strings.Join(lines, "\n"))
		}
	}
	return ""
}
