package procp

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

// H01: a start that breaks off leaves no incomplete template.

func init() {
	// limited starts the server with a limit for the size of files.
	children["limited"] = func() {
		lim, err := strconv.ParseUint(os.Getenv("LIMIT"), 10, 64)
		vt.Must(err)
		vt.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: lim}))
		vt.Must(syscall.Exec(os.Getenv("SERVER"), []string{"magurohttp", os.Getenv("CONFIG")}, nil))
	}
}

// complete tells what is wrong with a template the server made.
func complete(b []byte, action string) string {
	s := strings.ToLower(strings.TrimSpace(string(b)))
	if !strings.HasPrefix(s, "<!doctype html>") || !strings.HasSuffix(s, "</html>") || strings.Count(string(b), action) != 1 {
		if len(b) > 100 {
			b = b[len(b)-100:]
		}
		return fmt.Sprintf("%d bytes ending in %q", len(s), b)
	}
	return ""
}

func TestH01Crash(t *testing.T) {
	vt.Check(t, 80, 1500, func(rt *rapid.T, c *vt.Case) {
		dir := scratch()
		defer os.RemoveAll(dir)
		open(dir + "/w")
		vt.Must(os.Mkdir(dir+"/www", 0o755))
		vt.Must(os.WriteFile(dir+"/www/f.txt", []byte("f"), 0o644))
		addr := nextAddr()
		o := obj{}
		for k, v := range map[string]interface{}{
			"Core.Address": addr, "Core.Port": "8443", "Core.LogOut": "stderr", "Core.LogLevel": 2, "Core.FileDir": dir + "/w/fd",
			"Serve.ServeDir": dir + "/www", "Serve.ServeIndex": "index.html", "Serve.Download.Enabled": true, "Serve.Download.Exts": []string{".txt"},
		} {
			put(o, k, v)
		}
		conf := dir + "/c.json"
		write(rt, conf, o, false)
		tpls := map[string]string{"error.html": "{{.HTTPError}}", "download.html": "{{.DownloadTable}}"}
		tdir := dir + "/w/fd/templates/"
		own := map[string]string{}
		desc := ""
		if chance(rt, "own", 3) {
			name := pick(rt, "which", "error.html", "download.html")
			own[name] = "<p>mine</p>" + tpls[name]
			open(dir + "/w/fd")
			open(dir + "/w/fd/templates")
			vt.Must(os.WriteFile(tdir+name, []byte(own[name]), 0o666))
			vt.Must(os.Chmod(tdir+name, 0o666))
			desc = "own " + name + "; "
		}
		look := func(when string) string {
			for name, action := range tpls {
				b, err := os.ReadFile(tdir + name)
				bad := ""
				switch {
				case err != nil && own[name] == "":
				case own[name] != "":
					if string(b) != own[name] {
						bad = fmt.Sprintf("was changed to %d bytes (%v)", len(b), err)
					}
				default:
					bad = complete(b, action)
				}
				if bad != "" {
					return fmt.Sprintf("%s, %s is incomplete: %s", when, name, bad)
				}
			}
			return ""
		}
		bad := ""
		for i := n(rt, "broken starts", 1, 3); i > 0 && bad == ""; i-- {
			switch pick(rt, "how", "limit", "kill", "watch") {
			case "limit":
				lim := rapid.OneOf(rapid.IntRange(0, 6000), rapid.SampledFrom([]int{0, 1, 4096, 20, 5200})).Draw(rt, "limit")
				desc += fmt.Sprintf("start with files limited to %d bytes; ", lim)
				c.Label("limit")
				pr := child(dir, "limited", fmt.Sprintf("LIMIT=%d", lim), "SERVER="+serverBinary(), "CONFIG="+conf)
				for j := 0; j < 1000 && !pr.ended(); j++ {
					conn, err := net.Dial("tcp", addr+":8443")
					if err == nil {
						conn.Close()
						break
					}
					time.Sleep(5 * time.Millisecond)
				}
				pr.kill()
			default:
				wait := time.Duration(n(rt, "kill after", 0, 12000)) * time.Microsecond
				desc += fmt.Sprintf("killed after %v, watched; ", wait)
				c.Label("kill")
				pr := launch(dir, false, nil, serverBinary(), conf)
				for end := time.Now().Add(wait); time.Now().Before(end) && bad == ""; {
					bad = look("while starting")
				}
				pr.kill()
			}
			if bad == "" {
				bad = look("after a start that broke off")
			}
		}
		c.Desc(desc)
		vt.Note(desc)
		if bad != "" {
			rt.Fatalf("%s\n%s", bad, desc)
		}
		pr := launch(dir, false, nil, serverBinary(), conf)
		defer pr.kill()
		if !pr.listening(rt, addr+":8443") {
			rt.Fatalf("no start after %s\n%s", desc, tail(pr.out.String()))
		}
		for name := range tpls {
			if _, err := os.Stat(tdir + name); err != nil {
				rt.Fatalf("after a start, %v\n%s", err, desc)
			}
		}
		if bad := look("after a whole start"); bad != "" {
			rt.Fatalf("%s\n%s", bad, desc)
		}
		for path, want := range map[string]string{"/none": "Error 404", "/": "f.txt"} {
			resp, err := http.Get("http://" + addr + ":8443" + path)
			if err != nil {
				rt.Fatalf("GET %s: %v\n%s", path, err, desc)
			}
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			name := map[string]string{"/none": "error.html", "/": "download.html"}[path]
			page := strings.TrimSpace(strings.ToLower(string(b)))
			whole := strings.HasPrefix(page, "<!doctype html>") && strings.HasSuffix(page, "</html>")
			if own[name] != "" {
				whole = strings.HasPrefix(page, "<p>mine</p>")
			}
			if err != nil || !strings.Contains(string(b), want) || !whole {
				rt.Fatalf("GET %s: %v, %q\n%s", path, err, b, desc)
			}
		}
		http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		c.NonTrivial(true)
	})
}
