package smtpd

// Environment control for the verification harness: a scripted resolver, a
// scaled slow-output delay, a trace of what each connection was configured
// with. All of it is off unless the VERIF_* variables are set.

import (
	"context"
	"encoding/json"
	"net"
	"os"
	"strconv"
	"sync"
	"time"
)

type dnsConn struct{ *net.UDPConn }

type dnsTimeout struct{}

func (dnsTimeout) Error() string   { return "i/o timeout" }
func (dnsTimeout) Timeout() bool   { return true }
func (dnsTimeout) Temporary() bool { return true }

// Read turns a 'TIMEOUT' datagram from the harness's DNS server into an
// immediate timeout, so that unanswered queries cost no real time.
func (d dnsConn) Read(b []byte) (int, error) {
	n, err := d.UDPConn.Read(b)
	if err == nil && n == 7 && string(b[:n]) == "TIMEOUT" {
		return 0, &net.OpError{Op: "read", Net: "udp", Err: dnsTimeout{}}
	}
	return n, err
}

var delayDiv int64 = 1

var traceMu sync.Mutex
var traceFile *os.File

func init() {
	if a := os.Getenv("VERIF_DNS"); a != "" {
		net.DefaultResolver = &net.Resolver{
			PreferGo: true,
			Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
				ua, err := net.ResolveUDPAddr("udp", a)
				if err != nil {
					return nil, err
				}
				c, err := net.DialUDP("udp", nil, ua)
				if err != nil {
					return nil, err
				}
				return dnsConn{c}, nil
			},
		}
	}
	if s := os.Getenv("VERIF_DELAY_DIV"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil && n > 0 {
			delayDiv = n
		}
	}
	if fn := os.Getenv("VERIF_TRACE"); fn != "" {
		f, err := os.OpenFile(fn, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)
		if err == nil {
			traceFile = f
		}
	}
	if p := os.Getenv("VERIF_CTL"); p != "" {
		startCtl(p)
	}
}

func scaleDelay(d time.Duration) time.Duration { return d / time.Duration(delayDiv) }

func traceConn(conn net.Conn, cfg *Config) {
	if traceFile == nil {
		return
	}
	m := map[string]interface{}{
		"remote": conn.RemoteAddr().String(),
		"local":  conn.LocalAddr().String(),
		"name":   cfg.LocalName,
		"delay":  int64(cfg.Delay),
		"tls":    cfg.TLSConfig != nil,
	}
	if cfg.TLSConfig != nil {
		m["clientauth"] = int(cfg.TLSConfig.ClientAuth)
		m["ncerts"] = len(cfg.TLSConfig.Certificates)
	}
	b, _ := json.Marshal(m)
	traceMu.Lock()
	traceFile.Write(append(b, '\n'))
	traceMu.Unlock()
}
