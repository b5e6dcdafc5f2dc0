package srvkit

import (
	"encoding/base64"
	"net/http"
	"strings"
)

// Model predicts the decisions of a server with limits that do not refill.
type Model struct {
	C    *Conf
	used map[string]int
}

// NewModel makes a model of a freshly started server.
func NewModel(c *Conf) *Model { return &Model{C: c, used: map[string]int{}} }

// Decide predicts routing, authentication, firewall and limit. Status 200
// means that the handler of the returned kind decides.
func (m *Model) Decide(q Req, r *http.Request, path string) Decision {
	host := HostName(r.Host)
	d := m.C.Route(host, path, r.Method, r.Header.Get("Content-Type"))
	if d.Status != 200 {
		return d
	}
	if d.Kind == "metrics" {
		if !m.C.Authorized(r.Header.Get("Authorization")) {
			d.Status = 401
		}
		return d
	}
	if d.Host.FW.Blocks(path, q.IP()) {
		d.Status = 403
		return d
	}
	key := d.Owner + "\x00" + q.IP()
	if !d.Host.FilterOnIP {
		key += "\x00" + r.Header.Get("User-Agent")
	}
	if m.used[key] >= d.Host.Burst {
		d.Status = 429
		return d
	}
	m.used[key]++
	return d
}

// Authorized tells whether the Authorization header has credentials of a
// configured metrics user.
func (c *Conf) Authorized(h string) bool {
	if len(h) < 6 || !strings.EqualFold(h[:6], "basic ") {
		return false
	}
	b, err := base64.StdEncoding.DecodeString(h[6:])
	if err != nil {
		return false
	}
	i := strings.IndexByte(string(b), ':')
	if i < 0 {
		return false
	}
	p, ok := c.MetricsUsers[string(b[:i])]
	return ok && p == string(b[i+1:])
}

// BasicAuth makes an Authorization header.
func BasicAuth(user, pass string) [2]string {
	return [2]string{"Authorization", "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))}
}

// NoRefill makes the limit of a host a count that does not refill while a
// case runs.
func (h *Host) NoRefill(burst int) *Host {
	h.Rate, h.Burst = 0.000001, burst
	return h
}
