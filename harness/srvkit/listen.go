package srvkit

import (
	"net"
	"strings"
	"time"

	"verif/harness/vt"
)

// Listen listens on a free port of a loopback address. When the ports of
// 127.0.0.1 are used up by connections that ended a moment ago it takes
// another address, which has ports of its own.
func Listen() net.Listener {
	var err error
	for i := 0; i < 50; i++ {
		var l net.Listener
		for _, addr := range []string{"127.0.0.1", "127.0.7.1", "127.0.7.2", "127.0.7.3"} {
			if l, err = net.Listen("tcp", addr+":0"); err == nil {
				return l
			}
		}
		time.Sleep(200 * time.Millisecond)
	}
	vt.Must(err)
	return nil
}

// Dial connects; while the ports are used up it waits.
func Dial(addr string) net.Conn {
	for i := 0; ; i++ {
		conn, err := net.Dial("tcp", addr)
		if err == nil {
			return conn
		}
		if i == 300 || !(strings.Contains(err.Error(), "cannot assign") || strings.Contains(err.Error(), "in use")) {
			vt.Must(err)
		}
		time.Sleep(200 * time.Millisecond)
	}
}
