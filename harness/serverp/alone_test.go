package serverp

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// What a server answers in a process of its own, where nothing other servers
// did in this process can matter.

type aloneHistory struct {
	Dir  string
	Conf k.Conf
	Reqs []k.Req
}

type aloneAnswer struct {
	Resp  k.Resp
	Fatal string
	Saw   []k.UpReq
}

func TestMain(m *testing.M) {
	if p := os.Getenv("VT_ALONE"); p != "" {
		aloneChild(p)
		return
	}
	if p := os.Getenv("VT_METHODS"); p != "" {
		methodsChild(p)
		return
	}
	vt.Main(m)
}

func aloneChild(p string) {
	b, err := os.ReadFile(p)
	vt.Must(err)
	var h aloneHistory
	vt.Must(gob.NewDecoder(bytes.NewReader(b)).Decode(&h))
	w := &k.World{Dir: h.Dir}
	s := w.Start(&h.Conf)
	s.Up.Respond = echo
	var as []aloneAnswer
	for _, q := range h.Reqs {
		before := s.Up.Count()
		r := s.Do(q)
		a := aloneAnswer{Resp: *r, Fatal: r.Fatal(), Saw: s.Up.Reqs[before:]}
		a.Resp.Panic = nil
		as = append(as, a)
	}
	var out bytes.Buffer
	vt.Must(gob.NewEncoder(&out).Encode(as))
	vt.Must(os.WriteFile(p+".answers", out.Bytes(), 0o600))
}

// aloneElsewhere asks a server of its own process the requests, one by one.
func aloneElsewhere(dir string, conf k.Conf, qs []k.Req) ([]aloneAnswer, string) {
	k.Tree(dir, nil)
	if conf.FileDir == "" {
		conf.FileDir = k.SharedFileDir()
	}
	var in bytes.Buffer
	vt.Must(gob.NewEncoder(&in).Encode(aloneHistory{dir, conf, qs}))
	p := filepath.Join(dir, "history")
	vt.Must(os.WriteFile(p, in.Bytes(), 0o600))
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VT_ALONE="+p)
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	err := cmd.Run()
	b, rerr := os.ReadFile(p + ".answers")
	if err != nil || rerr != nil {
		l := log.String()
		if len(l) > 3000 {
			l = l[len(l)-3000:]
		}
		return nil, fmt.Sprintf("the server ended the process: %v\n%s", err, l)
	}
	var as []aloneAnswer
	vt.Must(gob.NewDecoder(bytes.NewReader(b)).Decode(&as))
	return as, ""
}

// sameAlone compares an answer, and what the upstream saw, with those of a
// server in another process.
func sameAlone(r *k.Resp, saw []k.UpReq, a *aloneAnswer) string {
	if x := r.Fatal(); x != "" || a.Fatal != "" {
		if x == "" || a.Fatal == "" {
			return fmt.Sprintf("one ended with %q, the other with %q", x, a.Fatal)
		}
		return ""
	}
	if bad := sameAnswer(r, &a.Resp); bad != "" {
		return bad
	}
	if len(saw) != len(a.Saw) {
		return fmt.Sprintf("%d upstream requests, alone %d", len(saw), len(a.Saw))
	}
	for i := range saw {
		if x, y := upString(saw[i]), upString(a.Saw[i]); x != y {
			return fmt.Sprintf("forwarded\n%s\nalone\n%s", x, y)
		}
	}
	return ""
}
