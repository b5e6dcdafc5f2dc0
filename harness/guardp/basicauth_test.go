package guardp

import (
	"crypto/tls"
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/redmaner/MaguroHTTP/guard"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type authCase struct {
	users   map[string]string
	mode    string // simple, literal, func
	custom  bool   // custom unauthorized handler
	realm   string
	headers []string // one Authorization value per request, "-" for none
}

func (a authCase) String() string {
	var us []string
	for k, v := range a.users {
		us = append(us, fmt.Sprintf("%q:%q", k, v))
	}
	sort.Strings(us)
	return fmt.Sprintf("mode=%s custom=%v realm=%q users=%v authorization=%q", a.mode, a.custom, a.realm, us, a.headers)
}

// decide is the reference: passes, refused, or open to either when the
// header is not in the exact form but still carries valid credentials.
func (a authCase) decide(h string) (pass, open bool) {
	h, _, _ = strings.Cut(h, alsoAt)
	h, closed := strings.CutPrefix(h, closedDoor)
	if a.mode == "func" && closed {
		return false, false
	}
	if h == "-" {
		return false, false
	}
	valid := func(dec []byte) bool {
		s := string(dec)
		i := strings.IndexByte(s, ':')
		if i < 0 {
			return false
		}
		u, p := s[:i], s[i+1:]
		if a.mode == "func" {
			return acceptFunc(u, p)
		}
		want, ok := a.users[u]
		return ok && want == p
	}
	if strings.HasPrefix(h, "Basic ") {
		if d, err := base64.StdEncoding.Strict().DecodeString(h[6:]); err == nil {
			return valid(d), false
		}
	}
	// Lenient readings: scheme in other case, more blanks, other alphabets.
	f := strings.Fields(h)
	if len(f) == 2 && strings.EqualFold(f[0], "Basic") {
		for _, enc := range []*base64.Encoding{base64.StdEncoding, base64.RawStdEncoding, base64.URLEncoding, base64.RawURLEncoding} {
			if d, err := enc.DecodeString(f[1]); err == nil && valid(d) {
				return false, true
			}
		}
	}
	return false, false
}

func acceptFunc(u, p string) bool { return len(u) > 0 && p == u+u }

// closedDoor before an Authorization value stands for a request that the
// authentication function refuses whatever the credentials are.
const closedDoor = "closed door!"

func (a authCase) build(ran *int, mu *sync.Mutex) http.HandlerFunc {
	var ba *guard.BasicAuth
	switch a.mode {
	case "simple":
		ba = guard.SimpleBasicAuth(a.users)
		ba.Realm = a.realm
	case "literal":
		us := map[string]guard.AuthUser{}
		for k, v := range a.users {
			us[k] = guard.AuthUser{User: k, Password: v}
		}
		ba = &guard.BasicAuth{Realm: a.realm, Users: us}
	default:
		ba = &guard.BasicAuth{Realm: a.realm, AuthFunc: func(u, p string, r *http.Request) bool {
			return r.Header.Get("X-Door") != "closed" && acceptFunc(u, p)
		}}
	}
	if a.custom {
		ba.UnauthorizedHandler = func(w http.ResponseWriter, r *http.Request, code int) { http.Error(w, "custom", code) }
	}
	return ba.Authenticate(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		*ran++
		mu.Unlock()
		w.Write([]byte("secret"))
	})
}

func (a authCase) request(h string) *http.Request {
	r := &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Host: "h", Header: http.Header{}, RemoteAddr: "192.0.2.1:1"}
	h, closed := strings.CutPrefix(h, closedDoor)
	if closed {
		r.Header.Set("X-Door", "closed")
	}
	h, place, elsewhere := strings.Cut(h, alsoAt)
	if h != "-" {
		r.Header.Set("Authorization", h)
	}
	if elsewhere {
		place, cred, _ := strings.Cut(place, "@")
		u, p, _ := strings.Cut(cred, ":")
		enc := "Basic " + base64.StdEncoding.EncodeToString([]byte(cred))
		switch place {
		case "url":
			r.URL.User = url.UserPassword(u, p)
			r.URL.Scheme, r.URL.Host = "http", "h"
		case "query":
			r.URL.RawQuery = url.Values{"user": {u}, "username": {u}, "password": {p}, "Authorization": {enc}, "authorization": {enc}, "access_token": {enc}}.Encode()
		case "cookie":
			r.AddCookie(&http.Cookie{Name: "Authorization", Value: enc})
			r.AddCookie(&http.Cookie{Name: "session", Value: u})
		case "form":
			r.Method = "POST"
			r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			r.Body = io.NopCloser(strings.NewReader(url.Values{"user": {u}, "password": {p}, "authorization": {enc}}.Encode()))
		case "trailer":
			r.Trailer = http.Header{"Authorization": {enc}}
		case "TLS":
			r.TLS = &tls.ConnectionState{ServerName: u}
		case "loopback":
			r.RemoteAddr = "127.0.0.1:1"
		case "method":
			r.Method = map[int]string{0: "HEAD", 1: "OPTIONS", 2: "TRACE", 3: "CONNECT"}[len(cred)%4]
		default: // a header
			r.Header.Set(place, enc)
			r.Header.Set("X-Forwarded-User", u)
			r.Header.Set("Remote-User", u)
		}
	}
	return r
}

// alsoAt, after an Authorization value, comes before a place and credentials
// the request carries there, which count for nothing.
const alsoAt = " also at "

// check judges one answer.
func (a authCase) check(h string, w *httptest.ResponseRecorder) string {
	pass, open := a.decide(h)
	body := w.Body.String()
	passed := strings.Contains(body, "secret")
	if passed {
		if !pass && !open {
			return fmt.Sprintf("Authorization %q passed", h)
		}
		if w.Code != 200 {
			return fmt.Sprintf("passed with status %d", w.Code)
		}
		return ""
	}
	if pass {
		return fmt.Sprintf("Authorization %q refused (status %d) although the credentials are right", h, w.Code)
	}
	if w.Code != 401 {
		return fmt.Sprintf("Authorization %q refused with status %d, want 401", h, w.Code)
	}
	ch := w.Result().Header["Www-Authenticate"]
	if len(ch) != 1 || !namesRealm(ch[0], a.realm) {
		return fmt.Sprintf("Authorization %q refused with challenge %q, realm is %q", h, ch, a.realm)
	}
	return ""
}

// namesRealm tells whether a challenge is a Basic one with that realm.
func namesRealm(ch, realm string) bool {
	if len(ch) < 6 || !strings.EqualFold(ch[:6], "Basic ") {
		return false
	}
	at := strings.Index(strings.ToLower(ch), "realm=")
	if at < 0 || at > 6 && !strings.ContainsRune(" ,", rune(ch[at-1])) {
		return false
	}
	v := ch[at+6:]
	if !strings.HasPrefix(v, `"`) {
		v, _, _ = strings.Cut(v, ",")
		return strings.TrimSpace(v) == realm && realm != "" && !strings.ContainsAny(realm, " \"\\,;=()<>@:/[]?{}")
	}
	got := ""
	for i := 1; i < len(v); i++ {
		switch {
		case v[i] == '"':
			rest := strings.TrimSpace(v[i+1:])
			return got == realm && (rest == "" || rest[0] == ',')
		case v[i] == '\\' && i+1 < len(v):
			i++
		}
		got += v[i : i+1]
	}
	return false
}

func runAuth(a authCase, c *vt.Case) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	var mu sync.Mutex
	ran := 0
	h := a.build(&ran, &mu)
	want := 0
	for _, v := range a.headers {
		w := httptest.NewRecorder()
		before := ran
		h(w, a.request(v))
		if bad := a.check(v, w); bad != "" {
			return bad
		}
		if strings.Contains(w.Body.String(), "secret") {
			want++
			c.Label("accepted")
		} else {
			c.Label("refused")
			if ran != before {
				return fmt.Sprintf("handler ran for a refused request %q", v)
			}
		}
	}
	if ran != want {
		return fmt.Sprintf("handler ran %d times for %d passed requests", ran, want)
	}
	return ""
}

// mutate changes a word in one place.
func mutate(rt *rapid.T, s string) string {
	at := rapid.OneOf(rapid.SampledFrom([]int{0, len(s), len(s) / 2}), rapid.IntRange(0, len(s))).Draw(rt, "at")
	ins := rapid.SampledFrom([]string{"x", "\x00", "\xff", "\xc3", "\u200b", "\ufeff", " ", "\t", "\n", "\r\n", "\u0301", "é", "=", "%41", "\\", "'", "*"}).Draw(rt, "insert")
	switch rapid.IntRange(0, 3).Draw(rt, "mutation") {
	case 0: // one byte less
		if at < len(s) {
			return s[:at] + s[at+1:]
		}
	case 1: // another byte
		if at < len(s) {
			return s[:at] + ins + s[at+1:]
		}
	case 2: // cut
		return s[:at]
	}
	return s[:at] + ins + s[at:]
}

func genAuth() *rapid.Generator[authCase] {
	return rapid.Custom(func(rt *rapid.T) authCase {
		a := authCase{
			mode:   rapid.SampledFrom([]string{"simple", "simple", "literal", "func"}).Draw(rt, "mode"),
			custom: rapid.Bool().Draw(rt, "custom"),
			realm:  rapid.SampledFrom([]string{"Restricted", "Metrics page", "x", "a \"b\"", `c:\d\`, "x, charset=\"y\"", "x; y=z", "100%s", "a'b", ""}).Draw(rt, "realm"),
			users:  map[string]string{},
		}
		word := rapid.OneOf(
			rapid.SampledFrom([]string{"admin", "root", "bob", "Bob", "a", "", "é", "p:w", "secret", "this is an example password", "a\x00b", "admin "}),
			rapid.StringN(0, 12, 40),
			rapid.Custom(func(rt *rapid.T) string { // long, around the limits of common schemes
				return strings.Repeat("long-Password1", 100)[:rapid.SampledFrom([]int{15, 16, 31, 32, 56, 63, 64, 65, 71, 72, 73, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 1024, 1400}).Draw(rt, "len")]
			}))
		name := rapid.Custom(func(rt *rapid.T) string { return strings.ReplaceAll(word.Draw(rt, "w"), ":", "") })
		for n := rapid.IntRange(0, 4).Draw(rt, "users"); n > 0; n-- {
			u, p := name.Draw(rt, "user"), word.Draw(rt, "password")
			a.users[u] = p
		}
		if vt.Rare(rt, "manyusers", 20) {
			for i := vt.Many(rt, "users2", 300); i > 0; i-- {
				a.users[fmt.Sprintf("user%d", i)] = fmt.Sprintf("pw%d", i)
			}
		}
		var us []string
		for u := range a.users {
			us = append(us, u)
		}
		sort.Strings(us)
		hdr := rapid.Custom(func(rt *rapid.T) string {
			u, p := name.Draw(rt, "u"), word.Draw(rt, "p")
			if len(us) > 0 && rapid.IntRange(0, 3).Draw(rt, "known") > 0 {
				u = rapid.SampledFrom(us).Draw(rt, "ku")
				p = a.users[u]
				switch rapid.IntRange(0, 14).Draw(rt, "vary") {
				case 0:
					p += " "
				case 1:
					p = strings.ToUpper(p)
				case 2:
					if len(p) > 0 {
						p = p[:len(p)-1]
					}
				case 3:
					u = strings.ToUpper(u)
				case 4:
					p = a.users[rapid.SampledFrom(us).Draw(rt, "other")]
				case 5:
					p = ""
				case 6:
					p = u
				case 7:
					p = mutate(rt, p)
				case 8:
					u = strings.ReplaceAll(mutate(rt, u), ":", "")
				}
			}
			if a.mode == "func" && rapid.Bool().Draw(rt, "double") {
				p = u + u
			}
			enc := base64.StdEncoding.EncodeToString([]byte(u + ":" + p))
			switch rapid.IntRange(0, 15).Draw(rt, "form") {
			case 0:
				return "-"
			case 1:
				return ""
			case 2:
				return "Basic"
			case 3:
				return "Basic "
			case 4:
				return "Basic " + base64.StdEncoding.EncodeToString([]byte(u))
			case 5:
				return "Basic " + enc[:len(enc)-1]
			case 6:
				return rapid.SampledFrom([]string{"basic ", "BASIC ", "Basic  ", " Basic ", "Bearer ", "Basic:", "Basic\t"}).Draw(rt, "scheme") + enc
			case 7:
				return "Basic " + base64.URLEncoding.EncodeToString([]byte(u+":"+p))
			case 8:
				return "Basic " + base64.StdEncoding.EncodeToString([]byte(rapid.SampledFrom([]string{":", "::", "", u + "::" + p, ":" + p, u + ":"}).Draw(rt, "edge")))
			case 9:
				return "Basic " + rapid.StringN(0, 20, -1).Draw(rt, "junk")
			}
			return "Basic " + enc
		})
		a.headers = rapid.SliceOfN(hdr, 1, 8).Draw(rt, "headers")
		if vt.Rare(rt, "doors", 3) { // the same credentials again, or not
			for i := range a.headers {
				if i > 0 && rapid.Bool().Draw(rt, "again") {
					a.headers[i] = strings.TrimPrefix(a.headers[i-1], closedDoor)
				}
				if rapid.Bool().Draw(rt, "closed") {
					a.headers[i] = closedDoor + a.headers[i]
				}
			}
		}
		if vt.Rare(rt, "elsewhere", 3) { // credentials at other places
			for i := range a.headers {
				if rapid.Bool().Draw(rt, "also") {
					cred := "admin:admin"
					if len(us) > 0 && rapid.IntRange(0, 5).Draw(rt, "right") > 0 {
						u := rapid.SampledFrom(us).Draw(rt, "there")
						cred = u + ":" + a.users[u]
					}
					if a.mode == "func" && rapid.Bool().Draw(rt, "double there") {
						cred = "root:rootroot"
					}
					if rapid.Bool().Draw(rt, "nothing else") {
						a.headers[i] = "-"
					}
					a.headers[i] += alsoAt + rapid.SampledFrom([]string{"url", "url", "query", "cookie", "form", "trailer", "TLS", "loopback", "method", "Proxy-Authorization", "X-Authorization", "X-Forwarded-Authorization", "Www-Authenticate", "Authentication"}).Draw(rt, "place") + "@" + cred
				}
			}
		}
		return a
	})
}

func TestG05(t *testing.T) {
	for name, a := range map[string]authCase{
		"empty-credentials": {mode: "simple", realm: "x", users: map[string]string{"admin": "pw"}, headers: []string{"Basic Og=="}},
		"default-handler":   {mode: "simple", realm: "x", users: map[string]string{"admin": "pw"}, headers: []string{"-"}},
	} {
		vt.Example(t, name, func(t *testing.T) {
			if bad := runAuth(a, &vt.Case{}); bad != "" {
				t.Fatalf("%v\n%s", a, bad)
			}
		})
	}
	vt.Check(t, 20000, 250000, func(rt *rapid.T, c *vt.Case) {
		a := genAuth().Draw(rt, "case")
		text := a.String()
		c.Desc(text)
		vt.Note(text)
		if bad := runAuth(a, c); bad != "" {
			rt.Fatalf("%s\n%s", bad, text)
		}
		c.Label("mode-" + a.mode)
		c.NonTrivial(len(a.users) > 0 || a.mode == "func")
	})
}

// TestG05Concurrent is run with the race detector.
func TestG05Concurrent(t *testing.T) {
	vt.Check(t, 300, 3000, func(rt *rapid.T, c *vt.Case) {
		a := genAuth().Draw(rt, "case")
		n := rapid.IntRange(2, 8).Draw(rt, "goroutines")
		text := fmt.Sprintf("%d goroutines each: %v", n, a)
		c.Desc(text)
		vt.Note(text)
		var mu sync.Mutex
		ran, want := 0, 0
		h := a.build(&ran, &mu)
		var bad string
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						bad = fmt.Sprintf("panic: %v", r)
						mu.Unlock()
					}
				}()
				<-start
				for _, v := range a.headers {
					w := httptest.NewRecorder()
					h(w, a.request(v))
					b := a.check(v, w)
					mu.Lock()
					if b != "" {
						bad = b
					}
					if strings.Contains(w.Body.String(), "secret") {
						want++
					}
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		if bad != "" {
			rt.Fatalf("%s\n%s", bad, text)
		}
		if ran != want {
			rt.Fatalf("handler ran %d times for %d passed requests\n%s", ran, want, text)
		}
		c.NonTrivial(len(a.users) > 0 || a.mode == "func")
	})
}
