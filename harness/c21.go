package main

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"time"
)

func init() { register("C21", "plain race oldtls", c21) }

// suiteNames is what 'openssl ciphers -V' (3.0.13; 1.0.1 for RC4 and 3DES)
// says about the suites Go has.
var suiteNames = map[uint16]string{
	0x1301: "TLSv1.3:TLS_AES_128_GCM_SHA256:128",
	0x1302: "TLSv1.3:TLS_AES_256_GCM_SHA384:256",
	0x1303: "TLSv1.3:TLS_CHACHA20_POLY1305_SHA256:256",
	0xC009: "TLSv1:ECDHE-ECDSA-AES128-SHA:128",
	0xC00A: "TLSv1:ECDHE-ECDSA-AES256-SHA:256",
	0xC013: "TLSv1:ECDHE-RSA-AES128-SHA:128",
	0xC014: "TLSv1:ECDHE-RSA-AES256-SHA:256",
	0xC02B: "TLSv1.2:ECDHE-ECDSA-AES128-GCM-SHA256:128",
	0xC02C: "TLSv1.2:ECDHE-ECDSA-AES256-GCM-SHA384:256",
	0xC02F: "TLSv1.2:ECDHE-RSA-AES128-GCM-SHA256:128",
	0xC030: "TLSv1.2:ECDHE-RSA-AES256-GCM-SHA384:256",
	0xCCA8: "TLSv1.2:ECDHE-RSA-CHACHA20-POLY1305:256",
	0xCCA9: "TLSv1.2:ECDHE-ECDSA-CHACHA20-POLY1305:256",
	0x0005: "SSLv3:RC4-SHA:128",
	0x000A: "SSLv3:DES-CBC3-SHA:168",
	0x002F: "SSLv3:AES128-SHA:128",
	0x0035: "SSLv3:AES256-SHA:256",
	0x003C: "TLSv1.2:AES128-SHA256:128",
	0x009C: "TLSv1.2:AES128-GCM-SHA256:128",
	0x009D: "TLSv1.2:AES256-GCM-SHA384:256",
	0xC007: "SSLv3:ECDHE-ECDSA-RC4-SHA:128",
	0xC011: "SSLv3:ECDHE-RSA-RC4-SHA:128",
	0xC012: "SSLv3:ECDHE-RSA-DES-CBC3-SHA:168",
	0xC023: "TLSv1.2:ECDHE-ECDSA-AES128-SHA256:128",
	0xC027: "TLSv1.2:ECDHE-RSA-AES128-SHA256:128",
}

var protoNames = map[uint16]string{0x0301: "TLSv1.0", 0x0302: "TLSv1.1", 0x0303: "TLSv1.2", 0x0304: "TLSv1.3"}

// tlsID is a client certificate with what it sends along.
type tlsID struct {
	what string
	name string
	ok   bool // verifies
	cert tls.Certificate
	file string
}

// pki is a set of certification authorities and client certificates.
type pki struct {
	roots []byte
	ids   []*tlsID
	rsa   *Cert
	ec    *Cert
}

var pkiOnce sync.Once
var thePKI *pki

func c21pki() *pki {
	pkiOnce.Do(func() {
		p := &pki{}
		cli := []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		srv := []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		root := mkCert(CertSpec{CN: "Trusted Root", CA: true})
		root2 := mkCert(CertSpec{CN: "Second Root", CA: true, RSA: true})
		bogus := mkCert(CertSpec{CN: "Unknown Root", CA: true})
		fake := mkCert(CertSpec{CN: "Trusted Root", CA: true})
		inter := mkCert(CertSpec{CN: "Intermediate", CA: true, Signer: root})
		inter2 := mkCert(CertSpec{CN: "Lower Intermediate", CA: true, Signer: inter})
		binter := mkCert(CertSpec{CN: "Intermediate", CA: true, Signer: bogus})
		oldinter := mkCert(CertSpec{CN: "Old Intermediate", CA: true, Signer: root, NotAfter: time.Now().Add(-time.Hour)})
		srvinter := mkCert(CertSpec{CN: "Server Intermediate", CA: true, Signer: root, EKU: srv})
		short := mkCert(CertSpec{CN: "Short Intermediate", CA: true, Signer: root, NoSubCA: true})
		below := mkCert(CertSpec{CN: "Below Short", CA: true, Signer: short})
		notca := mkCert(CertSpec{CN: "No CA", Signer: root})
		p.roots = append(append([]byte{}, root.PEM...), root2.PEM...)
		n := 0
		add := func(what string, ok bool, s CertSpec, along ...*Cert) *tlsID {
			n++
			if s.CN == "" && s.DNS == nil {
				s.CN = fmt.Sprintf("client%d.example", n)
			}
			if s.CN == "-" {
				s.CN = ""
			}
			c := mkCert(s)
			id := &tlsID{what: what, ok: ok, cert: c.TLS, name: s.CN}
			if s.CN == "" {
				id.name = "<no CN or DNS Names>"
				if len(s.DNS) > 0 {
					id.name = s.DNS[0]
				}
			}
			for _, a := range along {
				id.cert.Certificate = append(id.cert.Certificate, a.X.Raw)
			}
			id.file = fmt.Sprintf("cli%d", n)
			p.ids = append(p.ids, id)
			return id
		}
		add("trusted", true, CertSpec{Signer: root, EKU: cli})
		add("trusted, any use", true, CertSpec{Signer: root})
		add("trusted, second root", true, CertSpec{Signer: root2, EKU: cli, RSA: true})
		add("trusted, both uses", true, CertSpec{Signer: root, EKU: append(append([]x509.ExtKeyUsage{}, srv...), cli...)})
		add("trusted, root sent along", true, CertSpec{Signer: root, EKU: cli}, root)
		add("trusted through intermediate", true, CertSpec{Signer: inter, EKU: cli}, inter)
		add("trusted through two", true, CertSpec{Signer: inter2, EKU: cli}, inter2, inter)
		add("trusted through two, other order", true, CertSpec{Signer: inter2}, bogus, inter, inter2)
		add("trusted, CN and other DNS names", true, CertSpec{Signer: root, CN: "cn.example", DNS: []string{"dns.example", "dns2.example"}, EKU: cli})
		add("trusted, short CN and many DNS names", true, CertSpec{Signer: root, CN: "mail", DNS: []string{"mail.example", "mail2.example", "mail3.example", "mail4.example", "mail5.example"}, EKU: cli})
		add("self-signed, one DNS name too", false, CertSpec{CN: "box", DNS: []string{"box.example"}})
		add("trusted, DNS names only", true, CertSpec{Signer: root, CN: "-", DNS: []string{"first.example", "second.example"}, EKU: cli})
		add("trusted, nameless", true, CertSpec{Signer: root, CN: "-", EKU: cli})
		add("trusted, odd name", true, CertSpec{Signer: root, CN: "some 100%s %d client (x), Ünïcode", EKU: cli})
		add("trusted, long name", true, CertSpec{Signer: root, CN: strings.Repeat("long.", 12) + "ex"})
		add("self-signed", false, CertSpec{EKU: cli})
		add("self-signed, long name", false, CertSpec{CN: "self." + strings.Repeat("long.", 11) + "ex"})
		add("self-signed CA", false, CertSpec{CA: true})
		add("self-signed, trusted root sent along", false, CertSpec{EKU: cli}, root)
		add("self-signed, nameless", false, CertSpec{CN: "-", EKU: cli})
		add("self-signed, DNS names only", false, CertSpec{CN: "-", DNS: []string{"self.example", "other.example"}})
		add("unknown CA", false, CertSpec{Signer: bogus, EKU: cli})
		add("unknown CA sent along", false, CertSpec{Signer: bogus, EKU: cli}, bogus)
		add("unknown CA through intermediate", false, CertSpec{Signer: binter, EKU: cli}, binter, bogus)
		add("unknown intermediate of a known name", false, CertSpec{Signer: binter, EKU: cli}, binter, inter, root)
		add("forged root", false, CertSpec{Signer: fake, EKU: cli}, fake)
		add("intermediate not sent", false, CertSpec{Signer: inter, EKU: cli})
		add("wrong intermediate sent", false, CertSpec{Signer: inter2, EKU: cli}, inter)
		add("expired", false, CertSpec{Signer: root, EKU: cli, NotAfter: time.Now().Add(-time.Hour)})
		add("not yet valid", false, CertSpec{Signer: root, EKU: cli, NotYet: true})
		add("server only", false, CertSpec{Signer: root, EKU: srv})
		add("email only", false, CertSpec{Signer: root, EKU: []x509.ExtKeyUsage{x509.ExtKeyUsageEmailProtection}})
		add("expired intermediate", false, CertSpec{Signer: oldinter, EKU: cli}, oldinter)
		add("intermediate for servers", false, CertSpec{Signer: srvinter, EKU: cli}, srvinter)
		add("path too long", false, CertSpec{Signer: below, EKU: cli}, below, short)
		add("issued by no CA", false, CertSpec{Signer: notca, EKU: cli}, notca)
		x := add("broken signature", false, CertSpec{Signer: root, EKU: cli})
		der := append([]byte{}, x.cert.Certificate[0]...)
		der[len(der)-1] ^= 1
		x.cert.Certificate = [][]byte{der}
		x.cert.Leaf = nil
		add("name with line breaks", false, CertSpec{CN: "evil.example\nfrom <forged@example>\n1/1 ! forged", EKU: cli})
		add("trusted name with control characters", true, CertSpec{CN: "ctl\r\n\x00\x1b[2J.example", Signer: root, EKU: cli})
		add("long name with control characters", true, CertSpec{CN: strings.Repeat("long.", 30) + "ctl\r\n\x7f\x1b[2J.example", Signer: root, EKU: cli})
		add("long untrusted name", false, CertSpec{CN: strings.Repeat("long.", 60) + "x\n" + strings.Repeat("y", 40) + "\x00.example"})
		add("line break first", false, CertSpec{CN: "\nfrom <forged@example>\n1/1 ! forged", EKU: cli})
		add("trusted, line break first", true, CertSpec{CN: "\r\n\nfirst.example", Signer: root, EKU: cli})
		add("DNS name with line breaks", false, CertSpec{CN: "-", DNS: []string{"dns.example\nfrom <forged@example>\n1/1 ! forged", "x.example"}, EKU: cli})
		add("trusted DNS name, line break first", true, CertSpec{CN: "-", DNS: []string{"\nto <forged@example>", "x.example"}, Signer: root, EKU: cli})
		add("name ends in control characters", false, CertSpec{CN: "tail.example\n\x7f\n", EKU: cli})
		p.rsa = mkCert(CertSpec{CN: "srv.example", DNS: []string{"srv.example"}, RSA: true})
		p.ec = mkCert(CertSpec{CN: "srv.example", DNS: []string{"srv.example"}})
		thePKI = p
	})
	return thePKI
}

var ctlChar = regexp.MustCompile(`[\x00-\x1f\x7f]+`)

// onOneLine is a pattern for a name whose control characters, if any, may be
// written in any way that stays on the line.
func onOneLine(s string) string {
	ps := ctlChar.Split(s, -1)
	for i := range ps {
		ps[i] = regexp.QuoteMeta(ps[i])
	}
	return strings.Join(ps, `[^\n]*`)
}

// tlsLines are the tls line of a saved file and the fields of a log line.
func tlsLines(suite, ver uint16, sni string, id *tlsID) (*regexp.Regexp, string) {
	s := fmt.Sprintf("tls on cipher 0x%04x name %s proto %s", suite, suiteNames[suite], protoNames[ver])
	s = regexp.QuoteMeta(s)
	if sni != "" {
		s += " server-name '" + onOneLine(sni) + "'"
	}
	if id != nil {
		s += " client-name '" + onOneLine(id.name) + "'"
		if id.ok {
			s += " client-name-verified"
		}
	}
	return regexp.MustCompile("^" + s + "$"), fmt.Sprintf(" tls:cipher 0x%04x tls:proto 0x%04x", suite, ver)
}

const c21rules = `@connect set-with ip 127.61.0.0/16 with tls-opt no-client
@connect set-with ip 127.62.0.0/16 with tls-opt off
@helo reject helo bad.example
@helo stall helo slow.example
@from reject from needtls@ tls off
@from stall from plainonly@ tls on
reject from needtls2@ not tls on
@from reject from never@ not (tls off or tls on)
@to reject to needtls@ not tls on
@to stall to plainonly@ not tls off
@data reject to d-needtls@ tls off
@data stall to d-plainonly@ tls on
@message reject to m-needtls@ tls off
@message reject to m-plainonly@ tls on
accept all
`

type c21run struct {
	w    *W
	r    *Run
	d    *Daemon
	slog string
	mlog string
	ids  []string
}

var snis = []string{"", "srv.example", "srv.example", "a.b-c.example", "UPPER.Example", "xn--nxasmq6b.example", "under_score.example", "%s.example", "other.example", strings.Repeat("long", 50) + ".example", "with space", "sni\nfrom <forged@example>", "ctl\x01\x7f.example", "\nfrom <forged@example>", "tail.example\n"}

func (q *c21run) conv(rng *rand.Rand, ip string) *Fail {
	r := q.r
	p := c21pki()
	c := mustDial(ip, q.d.Addr)
	defer c.Close()
	fail := func(format string, a ...interface{}) *Fail {
		f := failf(map[string]interface{}{"args": q.d.Args, "conversation": c.log}, format, a...)
		return f
	}
	if rep := c.Read(); rep.Code != 220 {
		return fail("no greeting: %s", rep)
	}
	on := false
	helo := ""
	var tlsLine *regexp.Regexp
	tlsLog := ""
	var used *tlsID
	trace := ""
	in := false
	offer := !strings.HasPrefix(ip, "127.62.")
	greet := func(allowBad bool) *Fail {
		n := pick(rng, []string{"one.example", "two.example", "three.example"})
		if allowBad {
			n = pick(rng, []string{"bad.example", "slow.example"})
		}
		verb := pick(rng, []string{"EHLO", "EHLO", "HELO"})
		rep := c.Cmd(verb + " " + n)
		want := map[bool]string{true: "accept", false: map[string]string{"bad.example": "reject", "slow.example": "stall"}[n]}[!allowBad]
		if got := replyClass(phHelo, rep); got != want {
			return fail("%s %s: should %s: %s", verb, n, want, rep)
		}
		if !allowBad {
			helo, in = n, true
			if has := strings.Contains(rep.Text(), "STARTTLS"); has != (offer && !on && verb == "EHLO") {
				return fail("STARTTLS offered: %v", has)
			}
		}
		trace += "g" + want[:1]
		return nil
	}
	// txn runs one transaction; what the rules say depends on TLS.
	txn := func() *Fail {
		if !in {
			return nil
		}
		if rep := c.Cmd("RSET"); rep.Class() != 2 {
			return fail("RSET: %s", rep)
		}
		from := pick(rng, []string{"a", "b", "c", "needtls", "needtls2", "plainonly", "never"})
		want := "accept"
		switch {
		case strings.HasPrefix(from, "needtls") && !on:
			want = "reject"
		case from == "plainonly" && on:
			want = "stall"
		}
		x := &Txn{Src: c.Src, Dst: q.d.Addr, Rip: ip, Helo: helo, TLSLine: tlsLine, TLSLog: tlsLog, T0: time.Now(), SkipDNSCheck: true}
		x.From = from + "@x.example"
		rep := c.Cmdf("MAIL FROM:<%s>", x.From)
		if got := replyClass(phFrom, rep); got != want {
			return fail("MAIL FROM %s, TLS %v: should %s: %s", from, on, want, rep)
		}
		r.Count("tls_verdicts", 1)
		trace += "f" + want[:1]
		if want != "accept" {
			return nil
		}
		dv, mv := "accept", "accept"
		for k := 1 + rng.Intn(4); k > 0; k-- {
			to := pick(rng, []string{"a", "b", "needtls", "plainonly", "d-needtls", "d-plainonly", "m-needtls", "m-plainonly", "a", "b"})
			want := "accept"
			switch {
			case to == "needtls" && !on:
				want = "reject"
			case to == "plainonly" && on:
				want = "stall"
			case to == "d-needtls" && !on:
				dv = "reject"
			case to == "d-plainonly" && on && dv == "accept":
				dv = "stall"
			case to == "m-needtls" && !on, to == "m-plainonly" && on:
				mv = "reject"
			}
			rep := c.Cmdf("RCPT TO:<%s@y.example>", to)
			if got := replyClass(phTo, rep); got != want {
				return fail("RCPT TO %s, TLS %v: should %s: %s", to, on, want, rep)
			}
			r.Count("tls_verdicts", 1)
			trace += "t" + want[:1]
			if want == "accept" {
				x.Rcpts = append(x.Rcpts, to+"@y.example")
			}
		}
		if len(x.Rcpts) == 0 {
			return nil
		}
		rep = c.Cmd("DATA")
		if got := replyClass(phData, rep); got != dv {
			return fail("DATA to %v, TLS %v: should %s: %s", x.Rcpts, on, dv, rep)
		}
		trace += "d" + dv[:1]
		if dv != "accept" {
			return nil
		}
		x.Data = fmt.Sprintf("Subject: %x\n\n%x\n", rng.Int63(), rng.Int63())
		rep = c.Body(x.Data)
		x.T1 = time.Now()
		if got := replyClass(phMessage, rep); got != mv {
			return fail("message to %v, TLS %v: should %s: %s", x.Rcpts, on, mv, rep)
		}
		trace += "m" + mv[:1]
		// all messages are saved and logged
		var file string
		for _, n := range listDir(q.w.path("save")) {
			if t := readFile(q.w.path("save/" + n)); strings.Contains(t, x.Data) {
				file = t
			}
		}
		if file == "" {
			return fail("the message is not saved")
		}
		_, complaint := x.checkFile(file)
		if complaint != "" {
			return failf(map[string]interface{}{"args": q.d.Args, "conversation": c.log, "file": file}, "saved file: %s", complaint)
		}
		found := false
		for _, l := range lines(readFile(q.mlog)) {
			if strings.Contains(l, sha1hex(x.Data)) {
				found = true
				if complaint := x.checkLog(l); complaint != "" {
					return failf(map[string]interface{}{"args": q.d.Args, "conversation": c.log, "line": l}, "message log: %s", complaint)
				}
			}
		}
		if !found {
			return fail("the message is not in the log")
		}
		if on {
			r.Count("messages_over_tls", 1)
		} else {
			r.Count("messages_without_tls", 1)
		}
		return nil
	}
	for k := rng.Intn(3); k > 0; k-- {
		if f := greet(rng.Intn(3) == 0); f != nil {
			return f
		}
	}
	if !in {
		if f := greet(false); f != nil {
			return f
		}
	}
	for k := rng.Intn(3); k > 0; k-- {
		if f := txn(); f != nil {
			return f
		}
	}
	if rng.Intn(6) > 0 && offer {
		// sometimes in the middle of a transaction
		open := 0
		if rng.Intn(3) == 0 {
			c.Cmd("RSET")
			if rep := c.Cmd("MAIL FROM:<early@x.example>"); rep.Class() != 2 {
				return fail("MAIL FROM: %s", rep)
			}
			open = 1
			if rng.Intn(2) == 0 {
				if rep := c.Cmd("RCPT TO:<early@y.example>"); rep.Class() != 2 {
					return fail("RCPT TO: %s", rep)
				}
				open = 2
			}
		}
		cfg := &tls.Config{InsecureSkipVerify: true}
		sni := pick(rng, snis)
		if rng.Intn(5) == 0 {
			sni = pick(rng, []string{"one.example", "two.example", "three.example"})
		}
		cfg.ServerName = sni
		if rng.Intn(3) > 0 {
			cfg.MaxVersion = tls.VersionTLS12
			all := append(tls.CipherSuites(), tls.InsecureCipherSuites()...)
			var l []uint16
			for k := 1 + rng.Intn(2); k > 0; k-- {
				s := all[rng.Intn(len(all))]
				for s.SupportedVersions[0] == tls.VersionTLS13 {
					s = all[rng.Intn(len(all))]
				}
				l = append(l, s.ID)
			}
			cfg.CipherSuites = l
			cfg.MinVersion = tls.VersionTLS10
			if rng.Intn(4) == 0 {
				cfg.MaxVersion = tls.VersionTLS10 + uint16(rng.Intn(2))
			}
		}
		var id *tlsID
		if rng.Intn(4) > 0 {
			id = p.ids[rng.Intn(len(p.ids))]
		}
		asked := false
		cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
			asked = true
			if id == nil {
				return &tls.Certificate{}, nil
			}
			return &id.cert, nil
		}
		if _, err := c.StartTLS(cfg); err != nil {
			if cfg.CipherSuites == nil {
				return fail("TLS with everything on offer fails: %v", err)
			}
			r.Count("tls_not_negotiable", 1)
			c.Close()
			return nil
		}
		noclient := strings.HasPrefix(ip, "127.61.")
		if asked == noclient {
			return fail("client certificate asked for: %v", asked)
		}
		if noclient {
			id = nil
		}
		used = id
		on, in = true, false
		c.note("# server name %q, client certificate: %v", sni, id)
		tlsLine, tlsLog = tlsLines(c.TLS.CipherSuite, c.TLS.Version, sni, id)
		r.Seen("suites", fmt.Sprintf("%s %s", protoNames[c.TLS.Version], suiteNames[c.TLS.CipherSuite]))
		if id != nil {
			r.Seen("certificates", id.what)
		}
		r.Seen("server_names", fmt.Sprintf("%q", sni))
		trace += fmt.Sprintf("T%x%x%v", c.TLS.CipherSuite, c.TLS.Version, id)
		// it has to greet again before anything else
		if rng.Intn(2) == 0 {
			if rep := c.Cmd("MAIL FROM:<a@x.example>"); rep.Class() == 2 {
				return fail("MAIL FROM accepted after STARTTLS without a greeting")
			}
		}
		if rng.Intn(2) == 0 {
			if rep := c.Cmd("RCPT TO:<a@x.example>"); rep.Class() == 2 {
				return fail("RCPT TO accepted after STARTTLS without a greeting")
			}
		}
		if rng.Intn(2) == 0 {
			if f := greet(true); f != nil {
				return f
			}
			if rep := c.Cmd("MAIL FROM:<a@x.example>"); rep.Class() == 2 {
				return fail("MAIL FROM accepted after a refused greeting")
			}
		}
		if f := greet(false); f != nil {
			return f
		}
		if open > 0 {
			if rep := c.Cmd(map[int]string{1: "RCPT TO:<late@y.example>", 2: "DATA"}[open]); rep.Class() == 2 || rep.Class() == 3 {
				return fail("the transaction from before STARTTLS goes on: %s", rep)
			}
		}
		for k := 1 + rng.Intn(3); k > 0; k-- {
			if f := txn(); f != nil {
				return f
			}
			if rng.Intn(4) == 0 {
				c.Cmd("RSET")
				if f := greet(false); f != nil {
					return f
				}
			}
		}
	}
	if err := c.Quit(); err != nil {
		return fail("QUIT: %v", err)
	}
	_, ls, ok := finishedLog(q.slog, c.Src)
	if !ok {
		return fail("the session is not in the SMTP log")
	}
	var remarks []string
	for _, l := range ls {
		if strings.HasPrefix(l, "! TLS client certificate ") {
			remarks = append(remarks, l)
		}
	}
	wantN := 0
	pat := ""
	if used != nil {
		wantN = 1
		pat = "^! TLS client certificate for '" + onOneLine(used.name) + "' "
		if used.ok {
			pat += `verifies\.$`
		} else {
			pat += "doesn't verify: "
		}
	}
	if len(remarks) != wantN || wantN == 1 && !regexp.MustCompile(pat).MatchString(remarks[0]) {
		return failf(map[string]interface{}{"conversation": c.log, "log": ls}, "SMTP log: should say %q, says %q", pat, remarks)
	}
	all := readFile(q.slog)
	for _, l := range parseLog(all[:strings.LastIndex(all, "\n")+1]) {
		if l.ID == "" || strings.Contains(l.Text, "! forged") && !strings.HasPrefix(l.Text, "! TLS") {
			return failf(map[string]interface{}{"conversation": c.log, "line": l.Text}, "SMTP log: a line made by a client: %q", l.Text)
		}
	}
	if wantN == 1 {
		r.Count("certificate_remarks", 1)
	}
	r.Eval(trace)
	if rng.Intn(200) == 0 {
		r.Sample(map[string]interface{}{"conversation": c.log, "tls_line": fmt.Sprint(tlsLine), "smtp_log_remarks": remarks})
	}
	return nil
}

func (w *W) c21daemon(kind string) *c21run {
	p := c21pki()
	os.RemoveAll(w.path("save"))
	mkdir(w.path("save"))
	mkdir(w.path("nocerts"))
	p.rsa.save(w.dir, "rsa")
	p.ec.save(w.dir, "ec")
	w.write("roots.pem", string(p.roots))
	w.write("rules", c21rules)
	w.dns.Reset()
	d := w.daemon(kind, func() DOpts {
		return DOpts{Kind: kind, Args: []string{"-d", "save", "-l", "mlog." + kind, "-smtplog", "slog." + kind, "-c", "rsa.crt,ec.crt", "-k", "rsa.key,ec.key", "-r", "rules"},
			Env: []string{"SSL_CERT_FILE=" + w.path("roots.pem"), "SSL_CERT_DIR=" + w.path("nocerts")}}
	})
	q := &c21run{w: w, r: w.r, d: d, slog: w.path("slog." + kind), mlog: w.path("mlog." + kind)}
	os.Truncate(q.slog, 0)
	os.Truncate(q.mlog, 0)
	return q
}

var c21ips int64
var seqMu sync.Mutex

func c21(r *Run) {
	r.Rule = "a case: up to four sessions at once (every eighth case with the race detector, others built with Go 1.24 for TLS 1.0 and 1.1 and RSA key exchange), each with transactions before and after STARTTLS, STARTTLS in the middle of a transaction, greetings refused on either side, one random protocol version, cipher suite and server name, and one of 42 client certificates (trusted directly and through chains, untrusted, forged, expired, for other uses, nameless, with control characters); rules refuse by 'tls on' and 'tls off' in every phase. The tls line of every saved file, the TLS fields of its log line, the remark in the SMTP log and every verdict must match the client's own view of its connection. Distinct by verdict history, suite and certificate. Part of the sessions are made with OpenSSL's client"
	next := func(rng *rand.Rand) string {
		seqMu.Lock()
		defer seqMu.Unlock()
		c21ips++
		a := 60
		switch rng.Intn(10) {
		case 0:
			a = 61
		case 1:
			a = 62
		}
		return fmt.Sprintf("127.%d.%d.%d", a, 1+(c21ips/250)%250, 1+c21ips%250)
	}
	r.Each("tls", r.N(14000, 80000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		kind := "sinksmtp"
		switch i % 8 {
		case 7:
			kind = "sinksmtp-race"
		case 1, 3, 5:
			kind = "sinksmtp-oldtls"
		}
		q := w.c21daemon(kind)
		n := 1 + rng.Intn(4)
		fails := make([]*Fail, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			crng := rand.New(rand.NewSource(rng.Int63()))
			ip := next(rng)
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						f, ok := e.(*Fail)
						if !ok {
							panic(e)
						}
						fails[k] = f
					}
				}()
				fails[k] = q.conv(crng, ip)
			}(k)
		}
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		r.Count("sessions", n)
		return nil
	})
	if _, err := exec.LookPath("openssl"); err != nil {
		return
	}
	r.Each("openssl", r.N(120, 1200), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		q := w.c21daemon(pick(rng, []string{"sinksmtp", "sinksmtp-oldtls"}))
		p := c21pki()
		var suites []uint16
		for k := range suiteNames {
			suites = append(suites, k)
		}
		for a := range suites {
			for b := a + 1; b < len(suites); b++ {
				if suites[b] < suites[a] {
					suites[a], suites[b] = suites[b], suites[a]
				}
			}
		}
		s := suites[i%len(suites)]
		if i%3 == 0 {
			s = 0x1301 + uint16(i/3%3)
		}
		f := strings.Split(suiteNames[s], ":")
		args := []string{"s_client", "-quiet", "-starttls", "smtp", "-name", "ossl.example", "-connect", q.d.Addr, "-bind", strings.Replace(strings.Replace(next(rng), "127.61.", "127.60.", 1), "127.62.", "127.60.", 1) + ":0"}
		ver := uint16(tls.VersionTLS12)
		if s>>8 == 0x13 {
			ver = tls.VersionTLS13
			args = append(args, "-tls1_3", "-ciphersuites", f[1])
		} else {
			switch {
			case f[0] != "TLSv1.2" && rng.Intn(2) == 0:
				ver = tls.VersionTLS10 + uint16(rng.Intn(2))
				args = append(args, map[uint16]string{tls.VersionTLS10: "-tls1", tls.VersionTLS11: "-tls1_1"}[ver])
			default:
				args = append(args, "-tls1_2")
			}
			args = append(args, "-cipher", f[1]+":@SECLEVEL=0")
		}
		sni := pick(rng, []string{"", "srv.example", "x.example", "UPPER.example"})
		if sni == "" {
			args = append(args, "-noservername")
		} else {
			args = append(args, "-servername", sni)
		}
		var id *tlsID
		if rng.Intn(2) == 0 {
			for id == nil || id.what == "broken signature" || len(id.cert.Certificate) > 1 {
				id = p.ids[rng.Intn(len(p.ids))]
			}
			c := &Cert{PEM: pemCert(id.cert.Certificate[0]), KPEM: pemKey(id.cert.PrivateKey)}
			c.save(w.dir, "cli")
			args = append(args, "-cert", w.path("cli.crt"), "-key", w.path("cli.key"))
		}
		data := fmt.Sprintf("Subject: %x\n\n%x\n", rng.Int63(), rng.Int63())
		cmd := exec.Command("timeout", append([]string{"60", "openssl"}, args...)...)
		cmd.Stdin = strings.NewReader("EHLO again.example\r\nMAIL FROM:<needtls@x.example>\r\nRCPT TO:<needtls@y.example>\r\nDATA\r\n" + strings.ReplaceAll(data, "\n", "\r\n") + ".\r\nQUIT\r\n")
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.Run()
		// the handshake may be refused by either side
		if !strings.Contains(out.String(), "221 ") {
			r.Count("tls_not_negotiable", 1)
			return nil
		}
		det := map[string]interface{}{"openssl": args, "output": out.String()}
		var file string
		for _, n := range listDir(w.path("save")) {
			if t := readFile(w.path("save/" + n)); strings.Contains(t, data) {
				file = t
			}
		}
		if file == "" {
			return failf(det, "the message is not saved")
		}
		det["file"] = file
		re, tl := tlsLines(s, ver, sni, id)
		line := ""
		for _, l := range lines(file) {
			if strings.HasPrefix(l, "tls ") && line == "" {
				line = l
			}
		}
		if !re.MatchString(line) {
			return failf(det, "the tls line should match %s, it is %q", re, line)
		}
		ok := false
		for _, l := range lines(readFile(q.mlog)) {
			if strings.Contains(l, sha1hex(data)) && strings.HasSuffix(l, "helo 'again.example'"+tl) {
				ok = true
			}
		}
		if !ok {
			return failf(det, "the message log should have %q", tl)
		}
		r.Seen("openssl_suites", fmt.Sprintf("%s %s", protoNames[ver], suiteNames[s]))
		r.Count("openssl_messages", 1)
		r.Eval(fmt.Sprint(s, ver, sni, id != nil && id.ok))
		return nil
	})
}
