package procp

import (
	"encoding/json"
	"fmt"
	"html"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// counts is what metrics have to hold: status, host and path -> number. Paths
// are kept percent-escaped.
type counts map[string]int

func ckey(status int, host, path string) string { return esc(strconv.Itoa(status), host+path) }

func esc(status, p string) string { return status + " " + (&url.URL{Path: p}).EscapedPath() }

func (c counts) copy() counts {
	r := counts{}
	for k, v := range c {
		r[k] = v
	}
	return r
}

func (c counts) total() int {
	s := 0
	for _, v := range c {
		s += v
	}
	return s
}

// between tells where c is not between lo and hi.
func (c counts) between(lo, hi counts) string {
	var bad []string
	for k, v := range lo {
		if c[k] < v {
			bad = append(bad, fmt.Sprintf("%q counted %d times, must be at least %d", k, c[k], v))
		}
	}
	for k, v := range c {
		if hi[k] < v {
			bad = append(bad, fmt.Sprintf("%q counted %d times, but only %d were answered", k, v, hi[k]))
		}
	}
	sort.Strings(bad)
	if len(bad) > 5 {
		bad = append(bad[:5], fmt.Sprintf("and %d more", len(bad)-5))
	}
	return strings.Join(bad, "; ")
}

// norm brings a path that is shown or saved to the escaped form. Whether a
// path is saved as it is or escaped is left open.
func norm(status, p string, known counts) string {
	if k := esc(status, p); known == nil || known[k] > 0 {
		return k
	}
	if u, err := url.PathUnescape(p); err == nil {
		return esc(status, u)
	}
	return esc(status, p)
}

// parseFile reads a metrics file; keys tells which paths there can be.
func parseFile(b []byte, keys counts) (counts, string) {
	var md struct {
		TotalRequests *int
		Paths         map[string]map[string]int
	}
	if err := json.Unmarshal(b, &md); err != nil {
		return nil, fmt.Sprintf("the metrics file with %d bytes is not complete: %v: %q", len(b), err, tail(string(b)))
	}
	c := counts{}
	for st, m := range md.Paths {
		for p, v := range m {
			c[norm(st, p, keys)] += v
		}
	}
	t := 0
	if md.TotalRequests != nil {
		t = *md.TotalRequests
	}
	if t != c.total() {
		return nil, fmt.Sprintf("the metrics file counts %d requests in total but %d by path", t, c.total())
	}
	return c, ""
}

func readFile(p string, keys counts) (counts, bool, string) {
	b, err := os.ReadFile(p)
	if err != nil {
		return counts{}, false, ""
	}
	c, bad := parseFile(b, keys)
	return c, true, bad
}

var (
	reTotal   = regexp.MustCompile(`<b>Total requests:</b> (\d+)<br>`)
	reSection = regexp.MustCompile(`(?s)<br><b>(\d+)</b><ul>(.*?)</ul>`)
	reItem    = regexp.MustCompile(`(?s)<li>Amount: (\d+) - Path: (.*?)</li>`)
)

// parsePage reads the metrics page.
func parsePage(body string, keys counts) (counts, string) {
	m := reTotal.FindStringSubmatch(body)
	if m == nil {
		return nil, "no total on the metrics page: " + tail(body)
	}
	total, _ := strconv.Atoi(m[1])
	got := counts{}
	for _, sec := range reSection.FindAllStringSubmatch(body, -1) {
		for _, it := range reItem.FindAllStringSubmatch(sec[2], -1) {
			num, _ := strconv.Atoi(it[1])
			got[norm(sec[1], html.UnescapeString(it[2]), keys)] += num
		}
	}
	if got.total() != total {
		return nil, fmt.Sprintf("the metrics page counts %d requests in total but %d by path", total, got.total())
	}
	return got, ""
}
