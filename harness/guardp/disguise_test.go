package guardp

import (
	"net/http"
	"net/url"
)

// disguises are things in a request that must not change who the client is.
var disguises = []struct {
	method, path, host string
	header             [][2]string
}{
	{},
	{method: "HEAD"},
	{method: "POST", header: [][2]string{{"Content-Type", "text/html"}}},
	{method: "OPTIONS", header: [][2]string{{"Origin", "http://h"}, {"Access-Control-Request-Method", "PUT"}}},
	{method: "PROPFIND"},
	{path: "/favicon.ico"},
	{path: "/a/b/"},
	{host: "127.0.0.1"},
	{host: "other.test:8080"},
	{header: [][2]string{{"X-Forwarded-For", "198.51.100.77"}}},
	{header: [][2]string{{"X-Forwarded-For", "127.0.0.1, 192.0.2.1"}}},
	{header: [][2]string{{"X-Real-Ip", "192.0.2.2"}}},
	{header: [][2]string{{"Forwarded", "for=192.0.2.2"}}},
	{header: [][2]string{{"True-Client-Ip", "192.0.2.1"}, {"Client-Ip", "192.0.2.1"}}},
	{header: [][2]string{{"Cookie", "session=1"}, {"Authorization", "Basic YTpi"}}},
	{header: [][2]string{{"Referer", "http://h/"}, {"Accept-Language", "de"}, {"Accept", "text/html"}}},
	{header: [][2]string{{"Range", "bytes=0-"}, {"If-None-Match", "*"}}},
	{header: [][2]string{{"Purpose", "prefetch"}, {"X-Requested-With", "XMLHttpRequest"}}},
}

// disguise changes a request without changing its client. The path is only
// changed if the caller does not depend on it.
func disguise(r *http.Request, v int, path bool) *http.Request {
	d := disguises[v]
	if d.method != "" {
		r.Method = d.method
	}
	if d.path != "" && path {
		r.URL = &url.URL{Path: d.path}
	}
	if d.host != "" {
		r.Host = d.host
	}
	for _, h := range d.header {
		r.Header.Set(h[0], h[1])
	}
	return r
}
