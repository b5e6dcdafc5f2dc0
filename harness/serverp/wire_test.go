package serverp

import (
	"bufio"
	"io"
	"log"
	"net"
	"net/http"

	k "verif/harness/srvkit"
)

var quiet = log.New(io.Discard, "", 0)

// readAnswer reads one response from the connection; a response that is cut
// off before its announced end counts as broken off.
func readAnswer(conn net.Conn, pr *http.Request) *k.Resp {
	res := &k.Resp{Path: k.Canon(pr.URL.Path), HostNam: k.HostName(pr.Host), Header: http.Header{}}
	resp, err := http.ReadResponse(bufio.NewReader(conn), pr)
	if err != nil {
		res.Aborted = true
		return res
	}
	res.Status, res.Header = resp.StatusCode, resp.Header
	b, err := io.ReadAll(resp.Body)
	res.Body, res.Aborted = b, err != nil
	resp.Body.Close()
	return res
}
