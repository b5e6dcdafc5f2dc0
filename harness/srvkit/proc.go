package srvkit

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/vt"
)

const nobody = 65534

var addrs uint32

// NextAddr is a loopback address nobody else uses at the moment.
func NextAddr() string {
	c := atomic.AddUint32(&addrs, 1)
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+c%250, p>>8&255, p&255)
}

var program struct {
	sync.Once
	path string
}

// Program is the server built from the repository.
func Program() string {
	program.Do(func() {
		src := os.Getenv("VT_SERVER")
		if src == "" {
			vt.Harness("VT_SERVER is not set")
		}
		d, err := os.MkdirTemp("", "prog")
		vt.Must(err)
		vt.Must(os.Chmod(d, 0o755))
		program.path = filepath.Join(d, "magurohttp")
		in, err := os.Open(src)
		vt.Must(err)
		out, err := os.OpenFile(program.path, os.O_CREATE|os.O_WRONLY, 0o755)
		vt.Must(err)
		_, err = io.Copy(out, in)
		vt.Must(err)
		vt.Must(out.Close())
		in.Close()
		vt.Must(os.Chmod(program.path, 0o755))
	})
	return program.path
}

// Proc is the server program running as an unprivileged process.
type Proc struct {
	Cmd  *exec.Cmd
	Addr string
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
}

func (p *Proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out.Len() < 1<<20 {
		p.out.Write(b)
	}
	return len(b), nil
}

// Output is what it wrote to its standard outputs.
func (p *Proc) Output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// Open lets the unprivileged server into the directory of the case and gives
// it one directory to write to.
func (w *World) Open() {
	vt.Must(os.Chmod(w.Dir, 0o755))
	vt.Must(os.MkdirAll(w.Path("w"), 0o777))
	vt.Must(os.Chmod(w.Path("w"), 0o777))
}

// Ended tells whether the process is gone.
func (p *Proc) Ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// Within waits for the end of the process.
func (p *Proc) Within(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return p.Ended()
	}
}

// Signal sends a signal.
func (p *Proc) Signal(s syscall.Signal) { p.Cmd.Process.Signal(s) }

// Kill ends the process.
func (p *Proc) Kill() {
	p.Cmd.Process.Kill()
	<-p.done
}

// Run starts the program with the configuration file and waits until it
// accepts connections at addr; an error tells that it ended instead.
func (w *World) Run(conf, addr string, env ...string) (*Proc, error) {
	p := &Proc{done: make(chan struct{}), Addr: addr}
	p.Cmd = exec.Command(Program(), conf)
	p.Cmd.Dir = w.Path("w")
	p.Cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + w.Path("w"), "TMPDIR=" + w.Path("w")}, env...)
	p.Cmd.Stdout, p.Cmd.Stderr = p, p
	if os.Getuid() == 0 {
		p.Cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	vt.Must(p.Cmd.Start())
	go func() {
		p.Cmd.Wait()
		close(p.done)
	}()
	for i := 0; i < 6000; i++ {
		c, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err == nil {
			c.Close()
			return p, nil
		}
		if p.Ended() {
			return p, fmt.Errorf("the server ended: %s", p.Output())
		}
		time.Sleep(10 * time.Millisecond)
	}
	p.Kill()
	return p, fmt.Errorf("the server neither listened on %s nor ended within a minute\n%s", addr, p.Output())
}
