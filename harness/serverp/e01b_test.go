package serverp

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/redmaner/MaguroHTTP/tuna"
	"pgregory.net/rapid"
	k "verif/harness/srvkit"
	"verif/harness/vt"
)

// E01: which methods routes may be registered with depends on nothing but the
// server they are registered with. A refused registration ends the program, so
// the programs are processes of their own.

type methodStep struct {
	Server int // a new one when it does not exist yet
	WebDAV bool
	Method string
	Path   string
}

type methodProgram struct {
	Dir   string
	Steps []methodStep
}

func methodsChild(p string) {
	b, err := os.ReadFile(p)
	vt.Must(err)
	var prog methodProgram
	vt.Must(gob.NewDecoder(bytes.NewReader(b)).Decode(&prog))
	done, err := os.Create(p + ".done")
	vt.Must(err)
	servers := map[int]*tuna.Server{}
	for _, st := range prog.Steps {
		s := servers[st.Server]
		if s == nil {
			s = tuna.NewInstance(tuna.CoreConfig{Address: "127.0.0.1", Port: "8080", FileDir: prog.Dir + "/", LogOut: fmt.Sprintf("%s/log%d", prog.Dir, st.Server), LogLevel: 1, WebDAV: st.WebDAV})
			servers[st.Server] = s
		}
		if st.Method != "" {
			s.Router.AddRoute("DEFAULT", st.Path, true, st.Method, "*", http.NotFoundHandler())
		}
		done.WriteString(".")
	}
	done.WriteString("!")
}

var (
	httpMethods   = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "CONNECT", "OPTIONS", "HEAD"}
	webdavMethods = []string{"PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"}
	noMethods     = []string{"TRACE", "get", "SEARCH", "PROPFIN", "PROPFINDS", "FOO", "*", "GET;POST", " GET", "Move"}
)

func TestE01Methods(t *testing.T) {
	vt.Check(t, 12, 250, func(rt *rapid.T, c *vt.Case) {
		w := k.NewWorld()
		defer w.Close()
		dir := w.Path("program")
		k.Tree(dir, nil)
		prog := methodProgram{Dir: dir}
		dav := map[int]bool{}
		refused := -1
		servers := n(rt, "servers", 1, 4)
		for i := n(rt, "steps", 3, 40); i > 0; i-- {
			st := methodStep{Server: n(rt, "server", 1, servers), Path: pick(rt, "path", "/", "/a", "/b/c", "/a/")}
			if _, ok := dav[st.Server]; !ok {
				dav[st.Server] = chance(rt, "webdav", 2)
			}
			st.WebDAV = dav[st.Server]
			switch kind := n(rt, "kind", 0, 20); {
			case kind == 0:
				st.Method = rapid.SampledFrom(noMethods).Draw(rt, "no method")
			case kind <= 2 || kind <= 10 && st.WebDAV:
				st.Method = rapid.SampledFrom(webdavMethods).Draw(rt, "webdav method")
			case kind <= 19:
				st.Method = rapid.SampledFrom(httpMethods).Draw(rt, "http method")
			}
			prog.Steps = append(prog.Steps, st)
			if st.Method != "" && !in(httpMethods, st.Method) && !(st.WebDAV && in(webdavMethods, st.Method)) {
				refused = len(prog.Steps) - 1
				break
			}
		}
		var enc bytes.Buffer
		vt.Must(gob.NewEncoder(&enc).Encode(prog))
		p := dir + "/steps"
		vt.Must(os.WriteFile(p, enc.Bytes(), 0o600))
		cmd := exec.Command("/proc/self/exe")
		cmd.Env = append(os.Environ(), "VT_METHODS="+p)
		out, err := cmd.CombinedOutput()
		done, rerr := os.ReadFile(p + ".done")
		if rerr != nil {
			vt.Harness("the child did not start: %v\n%s", err, out)
		}
		want := strings.Repeat(".", len(prog.Steps)) + "!"
		if refused >= 0 {
			want = strings.Repeat(".", refused)
		}
		if string(done) != want || (err != nil) != (refused >= 0) {
			rt.Fatalf("a program registers routes with %+v; the first that its server does not allow is number %d, but it got to %d steps and ended with %v\n%s", prog.Steps, refused, len(strings.TrimSuffix(string(done), "!")), err, out)
		}
		c.LabelIf(refused >= 0, "refused")
		c.Labelf("%d servers", len(dav))
		c.NonTrivial(len(dav) > 1)
		c.Desc(fmt.Sprintf("%+v", prog.Steps))
	})
}

func in(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
