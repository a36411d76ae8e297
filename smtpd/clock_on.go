//go:build verifclock
// +build verifclock

package smtpd

// With the virtual clock (a patched copy of package time, see
// /verif/lib/build.sh) the harness moves the daemon's clock over a unix
// socket: each line "N" advances it by N seconds and is answered "ok".

import (
	"bufio"
	"net"
	"strconv"
	"strings"
	"time"
)

func startCtl(path string) {
	l, err := net.Listen("unix", path)
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				r := bufio.NewReader(c)
				for {
					s, err := r.ReadString('\n')
					if err != nil {
						return
					}
					n, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
					if err != nil {
						return
					}
					clockMu.Lock()
					time.VerifAdvance(n)
					clockMu.Unlock()
					c.Write([]byte("ok\n"))
				}
			}()
		}
	}()
}
