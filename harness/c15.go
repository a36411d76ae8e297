package main

import (
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { register("C15", "clock", c15) }

// freePort is a port that no listener has, outside the range of the ports
// that connections are given, so that none of ours can get in the way.
func freePort(host string) string {
	for try := 0; try < 200; try++ {
		n := atomic.AddInt64(&ipseq, 1)
		p := fmt.Sprint(10000 + (int64(os.Getpid())*211+n)%22000)
		l, err := net.Listen("tcp", net.JoinHostPort(host, p))
		if err == nil {
			l.Close()
			return p
		}
	}
	return ""
}

func addr6() string {
	if !haveIPv6() {
		return ""
	}
	p := freePort("::1")
	if p == "" {
		return ""
	}
	return "[::1]:" + p
}

var cliOnce sync.Once
var cliCert *Cert

func clientCert() *Cert {
	cliOnce.Do(func() {
		cliCert = mkCert(CertSpec{CN: "cli.example", DNS: []string{"cli.example"}, EKU: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}})
	})
	return cliCert
}

// tlsFailures are ways to make TLS setup fail after STARTTLS was accepted.
var tlsFailures = []string{"garbage", "hangup", "half", "distrust", "toonew", "smtp"}

func (c *Client) failTLS(how string) error {
	switch how {
	case "garbage":
		c.Send("\x16\x03\x01garbage garbage garbage garbage garbage\r\n\r\n")
	case "smtp":
		c.Send("EHLO carrying.on\r\nMAIL FROM:<a@b.example>\r\n")
	case "half":
		c.Send("\x16\x03\x01\x01")
	case "distrust":
		// goes away when it sees our certificate
		t := tls.Client(c.nc, &tls.Config{ServerName: "other.example", RootCAs: x509.NewCertPool()})
		c.nc.SetDeadline(time.Now().Add(opTimeout))
		if err := t.Handshake(); err == nil {
			return fmt.Errorf("the client trusts the server?")
		}
	case "toonew":
		// offers nothing we have
		t := tls.Client(c.nc, &tls.Config{InsecureSkipVerify: true, MaxVersion: tls.VersionTLS12, CipherSuites: []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}})
		c.nc.SetDeadline(time.Now().Add(opTimeout))
		if err := t.Handshake(); err == nil {
			return fmt.Errorf("a cipher in common?")
		}
	}
	return c.Drop()
}

type tlsSess struct {
	c       *Client
	ip      string
	n       int // failures on record when it connected
	offered bool
	greeted bool
	over    bool
	broken  bool // connected while the rules were broken
	refused bool // its greeting was
}

func c15(r *Run) {
	r.Rule = "a case: one server with the virtual clock, certificates from the command line, from -conncfg or none, and 40 (quick) or 120 steps over up to 4 sessions at once from 5 IPs (one of them IPv6): plain sessions, successful TLS with and without a client certificate, failed TLS setups of six kinds (also several at once), clock jumps to just before, at and past 72 hours; every EHLO must list STARTTLS, STARTTLS must be accepted and a client certificate be asked for exactly as the reference history says; distinct by history"
	r.Each("history", r.N(1600, 9000), 8, func(w *W, i int, rng *rand.Rand) (fail *Fail) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(skipCase); ok {
					r.Count("abandoned_too_slow", 1)
					fail = nil
					return
				}
				panic(e)
			}
		}()
		ttl := 72 * time.Hour
		serverCert().save(w.dir, "srv")
		w.write("rules", "accept all\n")
		os.Remove(w.path("slog"))
		certl, keyl := "srv.crt", "srv.key"
		if rng.Intn(3) == 0 {
			certl, keyl = "srv.crt,srv.crt", "srv.key,srv.key"
		}
		mode := pick(rng, []string{"cmdline", "cmdline", "cmdline", "cmdline", "conncfg", "conncfg-none", "none"})
		args := []string{"-force-receive", "-smtplog", "slog", "-r", "rules"}
		switch mode {
		case "cmdline":
			args = append(args, "-c", certl, "-k", keyl)
		case "conncfg":
			w.write("cc", pick(rng, []string{"*", "127.0.0.0/8"})+pick(rng, []string{"", " hostname=cc.example"})+" cert="+certl+" key="+keyl+"\n::/0 hostname=six.example cert="+certl+" key="+keyl+"\n")
			args = append(args, "-conncfg", "cc")
		case "conncfg-none":
			w.write("cc", "* hostname=cc.example\n")
			args = append(args, "-conncfg", "cc", "-c", "srv.crt", "-k", "srv.key")
		}
		if rng.Intn(3) == 0 {
			args = append(args, "-helo", "helo.example")
		}
		if rng.Intn(4) == 0 {
			args = append(args, "-nostdrules")
		}
		certs := mode == "cmdline" || mode == "conncfg"
		yaks := false
		switch rng.Intn(6) {
		case 0, 1:
			args = append(args, "-dncount", "1000")
		case 2:
			// most clients will be stalled, which has nothing to do with TLS
			yaks = true
			args = append(args, "-dncount", "1", "-minphase", "accepted")
		}
		broken := false
		lst := []string{freshIP() + ":2525"}
		ips := []string{"127.7.0.1", "127.7.0.11", "127.7.1.1", "127.70.1.1"}
		if rng.Intn(3) == 0 {
			if a := addr6(); a != "" {
				lst = append(lst, a)
				ips = append(ips, "::1")
			}
		} else if rng.Intn(2) == 0 {
			lst = append(lst, freshIP()+":2525")
		}
		d := w.mustDaemon(DOpts{Kind: "sinksmtp-clock", Args: args, Listen: lst})
		w.ds["c15"] = d
		defer func() { d.Stop(); delete(w.ds, "c15") }()
		clk := &vclock{}
		rec := &recs{m: map[string]*ipRec{}, ttl: ttl}
		var open []*tlsSess
		var hist []string
		bad := func(s *tlsSess, format string, a ...interface{}) *Fail {
			det := map[string]interface{}{"args": d.Args, "history": hist}
			if s != nil {
				det["conversation"] = s.c.log
			}
			return failf(det, format, a...)
		}
		openOne := func(ip string) (*tlsSess, *Fail) {
			s := &tlsSess{ip: ip, broken: broken}
			dst := lst[rng.Intn(len(lst))]
			if ip == "::1" {
				dst = lst[len(lst)-1]
			} else if strings.HasPrefix(dst, "[") {
				dst = lst[0]
			}
			lo := clk.now()
			s.c = mustDial(ip, dst)
			rep := s.c.Read()
			hi := clk.now()
			if rep.Code != 220 {
				return s, bad(s, "no greeting: %s", rep)
			}
			r.Count("sessions", 1)
			s.n = rec.get(ip, lo, hi)
			s.offered = certs && s.n < 2
			hist = append(hist, fmt.Sprintf("%s open, %d on record", ip, s.n))
			r.Seen("failures_on_record", fmt.Sprint(s.n))
			return s, nil
		}
		greet := func(s *tlsSess) *Fail {
			rep := s.c.Cmd("EHLO c.example")
			s.greeted = true
			if rep.Code == 421 && (yaks || s.broken) {
				s.refused = true
				return nil
			}
			if rep.Code != 250 {
				return bad(s, "EHLO: %s", rep)
			}
			r.Count("offers_checked", 1)
			if rep.HasExt("STARTTLS") != s.offered {
				return bad(s, "%s has %d failures on record (certificates: %s): STARTTLS offered is %v", s.ip, s.n, mode, rep.HasExt("STARTTLS"))
			}
			return nil
		}
		step := func(s *tlsSess) *Fail {
			if !s.greeted && rng.Intn(4) > 0 {
				if f := greet(s); f != nil {
					return f
				}
			}
			x := rng.Intn(10)
			if x < 2 {
				if !s.greeted || s.refused {
					return nil
				}
				// plain mail
				for _, cmd := range []string{"RSET", "MAIL FROM:<a@b.example>", "RCPT TO:<c@d.example>", "DATA"} {
					if rep := s.c.Cmd(cmd); rep.Class() != 2 && rep.Class() != 3 {
						return bad(s, "%s: %s", cmd, rep)
					}
				}
				if rep := s.c.Body("Subject: x\n\ny\n"); rep.Class() != 2 {
					return bad(s, "message: %s", rep)
				}
				hist = append(hist, s.ip+" plain mail")
				return nil
			}
			if !s.offered {
				rep := s.c.Cmd("STARTTLS")
				if rep.Class() == 2 || rep.Err != nil {
					return bad(s, "STARTTLS is not offered to %s (%d failures on record, certificates: %s) but got %s", s.ip, s.n, mode, rep)
				}
				hist = append(hist, s.ip+" STARTTLS refused")
				return nil
			}
			s.over = true
			if x < 5 {
				asked := false
				cfg := &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS12}
				if rng.Intn(2) == 0 {
					cfg.MaxVersion = tls.VersionTLS12
				}
				give := rng.Intn(2) == 0
				cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
					asked = true
					if give {
						return &clientCert().TLS, nil
					}
					return &tls.Certificate{}, nil
				}
				if _, err := s.c.StartTLS(cfg); err != nil {
					return bad(s, "STARTTLS with %d failures on record: %v", s.n, err)
				}
				rep := s.c.Cmd("EHLO t.example")
				if rep.Code != 250 && !(rep.Code == 421 && (yaks || s.broken)) || rep.HasExt("STARTTLS") {
					return bad(s, "EHLO over TLS: %s", rep)
				}
				r.Count("tls_sessions", 1)
				if asked != (s.n == 0) {
					return bad(s, "%s has %d TLS failures on record: client certificate asked for is %v", s.ip, s.n, asked)
				}
				hist = append(hist, fmt.Sprintf("%s TLS ok, certificate asked for: %v", s.ip, asked))
				if err := s.c.Quit(); err != nil {
					return bad(s, "QUIT: %v", err)
				}
				return nil
			}
			how := pick(rng, tlsFailures)
			lo := clk.now()
			if rep := s.c.Cmd("STARTTLS"); rep.Code != 220 {
				return bad(s, "STARTTLS: %s", rep)
			}
			if err := s.c.failTLS(how); err != nil {
				return bad(s, "failing TLS (%s): %v", how, err)
			}
			n := rec.add(s.ip, lo, clk.now())
			r.Seen("tls_failures", how)
			hist = append(hist, fmt.Sprintf("%s TLS failure %d (%s)", s.ip, n, how))
			return nil
		}
		crowd := certs && rng.Intn(4) == 0
		for n := r.N(40, 120); n > 0; n-- {
			switch x := rng.Intn(100); {
			case crowd && rng.Intn(15) == 0:
				// many other clients that fail
				crowd = rng.Intn(3) == 0
				m := 10 + rng.Intn(40)
				for k := 0; k < m; k++ {
					s, f := openOne(fmt.Sprintf("127.71.0.%d", 1+rng.Intn(100)))
					if f == nil {
						f = greet(s)
					}
					if f != nil {
						return f
					}
					if !s.offered {
						s.c.Quit()
						continue
					}
					lo := clk.now()
					if rep := s.c.Cmd("STARTTLS"); rep.Code != 220 {
						return bad(s, "STARTTLS: %s", rep)
					}
					if err := s.c.failTLS("garbage"); err != nil {
						return bad(s, "failing TLS: %v", err)
					}
					rec.add(s.ip, lo, clk.now())
				}
				hist = append(hist, fmt.Sprintf("%d failures of other clients", m))
				r.Count("crowds", 1)
			case x < 40 && len(open) < 4 || len(open) == 0:
				s, f := openOne(pick(rng, ips))
				if f != nil {
					return f
				}
				if rng.Intn(2) == 0 {
					if f := greet(s); f != nil {
						return f
					}
				}
				open = append(open, s)
			case x < 80:
				k := rng.Intn(len(open))
				s := open[k]
				if f := step(s); f != nil {
					return f
				}
				if s.over {
					open = append(open[:k], open[k+1:]...)
				}
			case x < 86:
				k := rng.Intn(len(open))
				s := open[k]
				open = append(open[:k], open[k+1:]...)
				var err error
				if rng.Intn(2) == 0 {
					err = s.c.Quit()
				} else {
					err = s.c.Drop()
				}
				if err != nil {
					return bad(s, "closing: %v", err)
				}
			case x < 88 && certs:
				// several failures of one client at once
				ip := pick(rng, ips)
				var b []*tlsSess
				for k := 1 + rng.Intn(3); k > 0; k-- {
					s, f := openOne(ip)
					if f == nil {
						f = greet(s)
					}
					if f != nil {
						return f
					}
					b = append(b, s)
				}
				lo := clk.now()
				var wg sync.WaitGroup
				errs := make([]error, len(b))
				for k, s := range b {
					if !s.offered {
						continue
					}
					wg.Add(1)
					go func(k int, c *Client) {
						defer wg.Done()
						if rep := c.Cmd("STARTTLS"); rep.Code != 220 {
							errs[k] = fmt.Errorf("STARTTLS: %s", rep)
							return
						}
						errs[k] = c.failTLS("garbage")
					}(k, s.c)
				}
				wg.Wait()
				hi := clk.now()
				for k, s := range b {
					if errs[k] != nil {
						return bad(s, "%v", errs[k])
					}
					if s.offered {
						rec.add(ip, lo, hi)
					} else {
						s.c.Quit()
					}
				}
				hist = append(hist, fmt.Sprintf("%s %d TLS failures at once", ip, len(b)))
			case x < 90:
				// rules go bad or good, which has nothing to do with TLS
				broken = !broken
				if broken {
					w.write("rules", "what\n")
				} else {
					w.write("rules", "accept all\n")
				}
				hist = append(hist, fmt.Sprintf("rules broken: %v", broken))
			default:
				a := []time.Duration{ttl / 3, ttl / 2, ttl - 30*time.Second, ttl - 30*time.Second, ttl, ttl, ttl + time.Second, 2 * ttl, 8 * time.Hour}[rng.Intn(9)]
				if len(open) > 0 && rng.Intn(2) == 0 {
					break
				}
				d.Advance(int64(a / time.Second))
				clk.off += a
				hist = append(hist, fmt.Sprintf("clock +%v", a))
				r.Seen("clock_jumps", a.String())
			}
		}
		for _, s := range open {
			s.c.Quit()
		}
		r.Seen("certificates", mode)
		r.Eval(fmt.Sprint(mode, hist))
		if i < 3 {
			r.Sample(map[string]interface{}{"args": d.Args, "history": hist})
		}
		return nil
	})
}
