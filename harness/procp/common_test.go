// Package procp checks configurations, and servers that run as processes of
// their own.
package procp

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

func TestMain(m *testing.M) {
	if f := children[os.Getenv("VT_CHILD")]; f != nil {
		f()
		return
	}
	vt.Main(m)
}

// children are the things this binary does when it runs itself again.
// quiet drops what it is told.
var quiet = log.New(io.Discard, "", 0)

var children = map[string]func(){}

func pick(rt *rapid.T, label string, xs ...string) string {
	return rapid.SampledFrom(xs).Draw(rt, label)
}

func chance(rt *rapid.T, label string, n int) bool {
	return rapid.IntRange(1, n).Draw(rt, label) == 1
}

func n(rt *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(rt, label)
}

// scratch makes a directory everybody may enter.
func scratch() string {
	d, err := os.MkdirTemp("", "proc")
	vt.Must(err)
	vt.Must(os.Chmod(d, 0o755))
	return d
}

const nobody = 65534

// scratchFor makes a directory that an unprivileged process may write.
func open(d string) {
	vt.Must(os.MkdirAll(d, 0o777))
	vt.Must(os.Chmod(d, 0o777))
}

var addrs uint32

// nextAddr is a loopback address nobody else uses at the moment.
func nextAddr() string {
	c := atomic.AddUint32(&addrs, 1)
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+c%250, p>>8&255, p&255)
}

// limited keeps the first bytes that were written.
type limited struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *limited) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// proc is a process under test.
type proc struct {
	cmd  *exec.Cmd
	out  limited
	done chan struct{}
	err  error
}

func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// within waits for the end of the process.
func (p *proc) within(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-p.done:
		return true
	case <-t.C:
		return p.ended()
	}
}

func (p *proc) code() int { return p.cmd.ProcessState.ExitCode() }

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

func (p *proc) signal(s syscall.Signal) { p.cmd.Process.Signal(s) }

// launch starts a process, unprivileged unless root is set.
func launch(dir string, root bool, env []string, name string, args ...string) *proc {
	p := &proc{done: make(chan struct{})}
	p.cmd = exec.Command(name, args...)
	p.cmd.Dir = dir
	p.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir}, env...)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	if !root && os.Getuid() == 0 {
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	vt.Must(p.cmd.Start())
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p
}

func child(dir, what string, env ...string) *proc {
	return launch(dir, false, append(env, "VT_CHILD="+what), "/proc/self/exe")
}

var program struct {
	sync.Once
	path string
}

// serverBinary is the server built from the repository.
func serverBinary() string {
	program.Do(func() {
		src := os.Getenv("VT_SERVER")
		if src == "" {
			vt.Harness("VT_SERVER is not set")
		}
		d := scratch()
		program.path = filepath.Join(d, "magurohttp")
		if os.Link(src, program.path) != nil {
			in, err := os.Open(src)
			vt.Must(err)
			out, err := os.OpenFile(program.path, os.O_CREATE|os.O_WRONLY, 0o755)
			vt.Must(err)
			_, err = io.Copy(out, in)
			vt.Must(err)
			vt.Must(out.Close())
			in.Close()
		}
		vt.Must(os.Chmod(program.path, 0o755))
	})
	return program.path
}

type fataler interface {
	Fatalf(string, ...interface{})
}

// listening waits until the server accepts connections. It gives false if the
// process ended instead.
func (p *proc) listening(rt fataler, addr string) bool {
	for i := 0; i < 6000; i++ {
		c, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err == nil {
			c.Close()
			return true
		}
		if p.ended() {
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
	p.kill()
	rt.Fatalf("the server neither listened on %s nor ended within a minute\n%s", addr, p.out.String())
	return false
}

func tail(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 3000 {
		s = "... " + s[len(s)-3000:]
	}
	return s
}

// childCmd is a command that runs a test of this binary.
func childCmd(dir string, stdout io.Writer, stderr io.Writer, env, run string) *exec.Cmd {
	cmd := exec.Command("/proc/self/exe", run, "-test.timeout=0", "-test.v=false")
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, env}
	cmd.Stdout, cmd.Stderr = stdout, stderr
	if os.Getuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	return cmd
}
