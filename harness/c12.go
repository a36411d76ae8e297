package main

import (
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

func init() { register("C12", "plain clock", c12) }

var goTotal = regexp.MustCompile(`goroutine profile: total (\d+)`)

// goroutines asks the daemon how many it has.
func (d *Daemon) goroutines() (int, string) {
	s, err := d.httpGet("/debug/pprof/goroutine?debug=1")
	if err != nil {
		return -1, err.Error()
	}
	m := goTotal.FindStringSubmatch(s)
	if m == nil {
		return -1, s
	}
	n, _ := strconv.Atoi(m[1])
	return n, s
}

// hostileDNS fills the zone with odd answers.
func hostileDNS(rng *rand.Rand, z *DNS, rip string) {
	z.Reset()
	names := []string{".", "a.", "x.example.", "-.example.", "x_y.example.", "UPPER.Example.", "xn--a.example.",
		strings.Repeat("a", 63) + "." + strings.Repeat("b", 63) + "." + strings.Repeat("c", 63) + ".example.",
		"sp ace.example.", "nul\x00.example.", "quo\"te.example.", "per%s%n.example.", "\xff\xfe.example.", "127.0.0.1.", "localhost.", "*.example.", "x(y).example."}
	for k := rng.Intn(5); k > 0; k-- {
		n := pick(rng, names)
		z.AddPTR(rip, n)
		switch rng.Intn(5) {
		case 0:
			z.AddIP(n, rip)
		case 1:
			z.AddIP(n, "10.9.9.9")
		case 2:
			z.Mode(n, pick(rng, []string{"servfail", "timeout", "refused"}))
		case 3:
			for j := 0; j < 20; j++ {
				z.AddIP(n, fmt.Sprintf("10.0.0.%d", j))
			}
		}
	}
	for k := rng.Intn(5); k > 0; k-- {
		dom := pick(rng, []string{"x.example", "y.example", "example", "z.x.example"})
		switch rng.Intn(4) {
		case 0:
			z.AddMX(dom, rng.Intn(65536), pick(rng, names))
		case 1:
			z.AddIP(dom, pick(rng, []string{"0.0.0.0", "127.0.0.1", "255.255.255.255", "::", "::ffff:1.2.3.4", "8.8.8.8"}))
		case 2:
			z.Mode(dom, pick(rng, []string{"servfail", "timeout", "refused"}))
		case 3:
			for j := 0; j < 15; j++ {
				z.AddMX(dom, j, fmt.Sprintf("mx%d.%s", j, dom))
			}
		}
	}
	if rng.Intn(4) == 0 {
		z.Mode(PTRName(rip), pick(rng, []string{"servfail", "timeout", "refused"}))
	}
	if rng.Intn(2) == 0 {
		// names in the blocklists
		for _, n := range []string{"h.example", "x.example", "y.example", "1.2.3.4", "x", "a b c"} {
			for _, zn := range []string{"bl.example", "sbl.spamhaus.org"} {
				if rng.Intn(2) == 0 {
					z.AddIP(n+"."+zn, "127.0.0.2")
				}
			}
		}
	}
	if !strings.Contains(rip, ":") && rng.Intn(2) == 0 {
		rev := strings.TrimSuffix(PTRName(rip), "in-addr.arpa.")
		for _, zn := range []string{"bl.example", "sbl.spamhaus.org"} {
			z.AddIP(rev+zn, "127.0.0.2")
			for _, t := range []string{"http://x/SBL1", "/", "", "no slash", "a/b/"} {
				if rng.Intn(2) == 0 {
					z.Add(rev+zn, tTXT, t)
				}
			}
		}
	}
}

// hostileRules are files that load.
func (w *W) hostileRules(rng *rand.Rand) string {
	g := w.langGen(rng)
	long := strings.Repeat("l", 70) + "." + strings.Repeat("m.", 100) + "example"
	g.Addrs = append(g.Addrs, "@.", "@@", "a@@b", "@x@", "<>", ".", "\x00", "\xff@\xff", strings.Repeat("x", 3000), "%s%d", "", "", "./fodd", "file:fodd")
	g.Hosts = append(g.Hosts, ".", "..", "", "", "\x00", ".x", "x.", long, "%s", "./fodd", "file:fodd")
	g.IPs = append(g.IPs, "0.0.0.0/0", "::/0", "::ffff:127.0.0.1", "./fodd")
	g.Zones = append(g.Zones, "sbl.spamhaus.org", "sbl.spamhaus.org.", ".", "..", "x..y", long, "%s.%d", "\x00.x", "\"\\.")
	g.Files = append(g.Files, "/dev/null", "./save", "file:fodd", "/proc/self/mem")
	g.MaxDepth = 1 + rng.Intn(5)
	rules := g.rules(1 + rng.Intn(8))
	for _, ru := range rules {
		for k := range ru.Clauses {
			for j := range ru.Clauses[k].With {
				if ru.Clauses[k].With[j].Key == "savedir" && rng.Intn(3) == 0 {
					ru.Clauses[k].With[j].Val = pick(rng, []string{"", "nonexistent", "/dev/null", "fodd", "save/./../save", "%s"})
				}
				if ru.Clauses[k].With[j].Key == "message" && rng.Intn(3) == 0 {
					ru.Clauses[k].With[j].Val = pick(rng, []string{"", "\n", "\n\n\n", "%s%n%!", strings.Repeat("long ", 2000), "\r\n250 ok", "\x00"})
				}
				if ru.Clauses[k].With[j].Key == "note" && rng.Intn(3) == 0 {
					ru.Clauses[k].With[j].Val = pick(rng, []string{"", "%s%n%!", strings.Repeat("long ", 4000), "\r", "\x00"})
				}
			}
		}
	}
	// dots and slashes inside quoted zones may be refused; that is no matter
	for {
		s := (&Layout{rng: rng, Wild: true}).file(rules)
		if p := recognise(s, nil); p.OK || len(rules) == 0 {
			return s
		}
		rules = rules[1:]
	}
}

var oddAddrs = []string{"", "a@x.example", "b@y.example", "@", "@@", "a@", "@b", "@a@b", "@a:b@c", "\"", "\"\"@x", "\"a@b\"@c.example", "<", ">", "a@[", "a@[]", "a@[1.2.3.4]", ".", "a@.", "a@..", "a@b.", "%s%n@%d",
	"\xff\xfe@\xff", "a\x00b@c", "a@" + strings.Repeat("d.", 120) + "example", strings.Repeat("l", 400) + "@x.example", "a@x.example.", "a @ b", "a@z.x.example", "postmaster", strings.Repeat("@", 40), strings.Repeat(".", 60) + "@" + strings.Repeat(".", 60), strings.Repeat("\"", 30) + "@x", strings.Repeat("@a", 50), "a@" + strings.Repeat("b@", 30), "a@" + strings.Repeat("x", 300) + ".example", "a@1.2.3.4", "a@[IPv6:::1]", "@[1.2.3.4]:a@b"}

var oddHelos = []string{"", ".", "..", "h.example", "[", "]", "[]", "[1.2.3.4]", "1.2.3.4", "::1", "[::1]", "[IPv6:::1]", ":", "127.0.0.1", "x", "%s%n", "\xff", "a b c", strings.Repeat("h", 400), "h.example.", "\x00", "[127.2.1.1", strings.Repeat(".", 100), strings.Repeat("[", 50), strings.Repeat("]", 50), strings.Repeat(":", 80), strings.Repeat("x.", 150), "[" + strings.Repeat("1.", 60) + "]", "1.2.3.4.5", "999.1.1.1", "0x7f.1", "fe80::1%lo"}

func oddMessage(rng *rand.Rand) string {
	switch rng.Intn(8) {
	case 0:
		return "\n"
	case 1:
		return "no header at all\n"
	case 2:
		return ": \n: \n\nx\n"
	case 3:
		return "A: b\n" + strings.Repeat("C: "+strings.Repeat("d", 900)+"\n", 50) + "\nbody\n"
	case 4:
		return "A: b\n continued\n\n" + strings.Repeat("line of text\n", 3000)
	case 5:
		return "\x00\x01\xff\n\n\x00\n"
	case 6:
		return strings.Repeat("x", 20000) + "\n"
	}
	return "Subject: x\n\n.\n..\n...\n"
}

// hostileScript is a list of chunks to send.
func hostileScript(rng *rand.Rand) []string {
	var out []string
	n := 1 + rng.Intn(14)
	good := []string{"EHLO", "MAIL", "RCPT", "DATA", "BODY"}
	gi := 0
	for i := 0; i < n; i++ {
		what := good[gi%len(good)]
		if rng.Intn(3) == 0 {
			what = pick(rng, []string{"EHLO", "MAIL", "RCPT", "DATA", "RSET", "NOOP", "JUNK", "RAW", "LONG", "CR", "VRFY", "EMPTY", "QUIT?"})
		} else {
			gi++
		}
		switch what {
		case "EHLO":
			out = append(out, pick(rng, []string{"EHLO", "HELO", "ehlo", "EhLo"})+" "+pick(rng, oddHelos)+"\r\n")
		case "MAIL":
			out = append(out, "MAIL FROM:<"+pick(rng, oddAddrs)+">"+pick(rng, []string{"", "", " SIZE=1", " BODY=8BITMIME", " X"})+"\r\n")
		case "RCPT":
			out = append(out, "RCPT TO:<"+pick(rng, oddAddrs)+">\r\n")
			if rng.Intn(10) == 0 {
				out = append(out, strings.Repeat("RCPT TO:<many@x.example>\r\n", 40))
			}
		case "DATA":
			out = append(out, "DATA\r\n")
		case "BODY":
			out = append(out, dotStuff(oddMessage(rng))+".\r\n")
		case "JUNK":
			out = append(out, pick(rng, []string{"FOO", "MAIL", "RCPT TO", "MAIL FROM:", "MAIL FROM:<", "DATA x", "STARTTLS x", "HELP", "\t", "EHLO\t", "AUTH x", "BDAT 10"})+"\r\n")
		case "RAW":
			b := make([]byte, rng.Intn(300))
			rng.Read(b)
			out = append(out, string(b)+"\r\n")
		case "LONG":
			out = append(out, strings.Repeat("A", 1+rng.Intn(9000))+"\r\n")
		case "CR":
			out = append(out, pick(rng, []string{"\r", "\n", "\r\r\n", "\n\r", "\x00\r\n", "."}))
		case "EMPTY":
			out = append(out, "\r\n")
		case "QUIT?":
			if rng.Intn(4) == 0 {
				out = append(out, "QUIT\r\n")
			}
		default:
			out = append(out, what+"\r\n")
		}
	}
	return out
}

func hostileTLS(rng *rand.Rand, c *Client, certs []*Cert) {
	c.Read()
	if rep := c.Cmd("EHLO h.example"); rep.Class() != 2 {
		return
	}
	switch rng.Intn(4) {
	case 0: // garbage
		c.Cmd("STARTTLS")
		b := make([]byte, 1+rng.Intn(400))
		rng.Read(b)
		if rng.Intn(2) == 0 {
			b[0], b[1%len(b)] = 22, 3
		}
		c.nc.Write(b)
	case 1: // no more
		c.Cmd("STARTTLS")
	default:
		cfg := &tls.Config{InsecureSkipVerify: true, ServerName: pick(rng, []string{"", "x.example", strings.Repeat("s", 60) + ".example"})}
		if rng.Intn(2) == 0 {
			cfg.Certificates = []tls.Certificate{certs[rng.Intn(len(certs))].TLS}
		}
		if rng.Intn(4) == 0 {
			cfg.MaxVersion = tls.VersionTLS12
		}
		if _, err := c.StartTLS(cfg); err != nil {
			return
		}
		for _, s := range hostileScript(rng) {
			if _, err := io.WriteString(c.nc, s); err != nil {
				return
			}
		}
	}
}

var oddCertsOnce sync.Once
var oddCerts []*Cert

func getOddCerts() []*Cert {
	oddCertsOnce.Do(func() {
		for _, s := range []CertSpec{{}, {CN: "c%s.example"}, {DNS: []string{"d.example"}}, {CN: "x'y\"\n", DNS: []string{"d.example"}}} {
			oddCerts = append(oddCerts, mkCert(s))
		}
	})
	return oddCerts
}

func c12(r *Run) {
	r.Rule = "a case: a random rules file that loads (odd strings everywhere, empty arguments, odd pattern files and zones, bad savedirs), odd or failing DNS answers, and 6 clients at once sending well-formed, malformed, overlong and random input in odd orders, over IPv4, IPv6 and TLS, ending by QUIT, half-close, close or reset at any byte; afterwards a normal session must be served and goroutines and descriptors be back to where they were; aged: sessions that last longer than what is remembered about their clients, ending in every way, with normal sessions in between; descriptors: more clients than the process may have descriptors for, after which it must serve again; held: clients stopped in every phase, or whose DNS lookups never get an answer, while others are served; memory: sessions with many large messages, after which the heap must be small again; distinct by client script"
	r.Assumptions = []string{"what the SMTP library itself does with malformed commands is the stand-in's"}
	six := haveIPv6()
	certs := getOddCerts()
	r.Each("hostile", r.N(3500, 25000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.write("r1", "")
		mkdir(w.path("save"))
		fodd := pick(rng, []string{"@\n@@\n.\n..\n<\n", "\xff\xfe\n\x00\n", "a@b\r\n.c\r\n0.0.0.0/33\n::/200\n/\n", strings.Repeat("y", 70000) + "\n" + "z", "#\n#x", "\"\n"})
		w.write("fodd", fodd)
		w.write("f", "a@x.example\n.x.example\n127.0.0.0/8\n")
		k := rng.Intn(4)
		key := fmt.Sprint(k)
		fresh := w.ds[key] == nil
		d := w.daemon(key, func() DOpts {
			a := [][]string{
				{"-d", "save", "-r", "r1"},
				{"-d", "save", "-r", "r1", "-smtplog", "slog", "-l", "mlog", "-save-hash", "msg", "-nostdrules", "-statsperip"},
				{"-force-receive", "-r", "r1", "-smtplog", "slog", "-dncount", "3", "-dnlog", "dnlog", "-minphase", "accepted", "-nostdrules"},
				{"-M", "-d", "save", "-r", "r1", "-nostdrules", "-fromreject", "fodd", "-toaccept", "nofile", "-heloreject", "fodd", "-conncfg", "cc"},
			}[k]
			serverCert().save(w.dir, "srv")
			o := DOpts{Args: append(a, "-c", "srv.crt", "-k", "srv.key"), Pprof: true, Listen: []string{freshIP() + ":2525"}}
			w.write("cc", "")
			if k == 2 {
				o.Kind = "sinksmtp-clock"
			}
			if k%2 == 1 {
				// what is not closed stays open until a collection: have none
				o.Env = append(o.Env, "GOGC=off")
			}
			if six {
				o.Listen = append(o.Listen, fmt.Sprintf("[::1]:%d", 20000+(os.Getpid()*31+int(w.id)*8+k)%30000))
			}
			return o
		})
		goodSession := func() *Fail {
			w.write("r1", "")
			w.write("fodd", "")
			w.write("cc", "* cert=srv.crt key=srv.key\n")
			w.dns.Reset()
			c := mustDial(anySrc(), d.Addr)
			defer c.Close()
			w.r.Count("good_sessions", 1)
			if rep := c.Read(); rep.Code != 220 {
				return failf(c.log, "a normal session is not served: %s", rep)
			}
			for _, s := range []string{"EHLO fine.example", "MAIL FROM:<a@x.example>", "RCPT TO:<b@x.example>", "DATA"} {
				if rep := c.Cmd(s); rep.Class() != 2 && rep.Code != 354 {
					return failf(c.log, "a normal session is not served: %s: %s", s, rep)
				}
			}
			rep := c.Body("Subject: x\n\nfine\n")
			if k == 3 && rep.Class() != 5 || k != 3 && rep.Class() != 2 {
				return failf(c.log, "a normal session is not served: message: %s", rep)
			}
			if err := c.Quit(); err != nil {
				return failf(c.log, "a normal session is not served: %v", err)
			}
			return nil
		}
		if fresh {
			if f := goodSession(); f != nil {
				return f
			}
			g0, fd0 := 0, 0
			waitFor(3*time.Second, func() bool {
				g, _ := d.goroutines()
				fd := len(d.FDs())
				same := g == g0 && fd == fd0
				g0, fd0 = g, fd
				return same
			})
			d.base = [2]int{g0, fd0}
		}
		w.write("fodd", fodd)
		if k == 2 && rng.Intn(2) == 0 {
			// what is remembered about clients gets old
			d.Advance([]int64{1, 3600, 8*3600 - 1, 8 * 3600, 9 * 3600, 72 * 3600, 100 * 3600}[rng.Intn(7)])
			r.Count("clock_jumps", 1)
		}
		rules := w.hostileRules(rng)
		if rng.Intn(6) == 0 {
			// a broken file, or one that reads a broken or missing one
			bad := pick(rng, []string{"reject\n", "accept all all and\n", "accept from \"open\n", "include ./nofile\n", "include ./save\n", "@from accept to a@b\n", "\x00\n", "accept from-has x,y,z with\n", "include ./rbad\n"})
			w.write("rbad", "accept all\nreject from\n"+strings.Repeat("accept all\n", 50))
			rules = bad + rules
			if rng.Intn(2) == 0 {
				rules = strings.Repeat("set-with all with note x\n", rng.Intn(40)) + rules
			}
			r.Count("cases_with_broken_rules", 1)
		}
		w.write("r1", rules)
		w.write("cc", pick(rng, []string{"* hostname=x.example cert=srv.crt key=srv.key\n", "* cert=nofile key=nofile\n", "1 2 3 4 5 6\n", "\x00=\xff a=b\n", "* hostname\n", "::/0 hostname=%s\n127.0.0.0/8\n", "= =\n", "*", strings.Repeat("x", 70000)}))
		rip := fmt.Sprintf("127.4.%d.%d", 1+rng.Intn(200), 1+rng.Intn(200))
		if k == 2 {
			rip = fmt.Sprintf("127.4.0.%d", 1+rng.Intn(5))
		}
		hostileDNS(rng, w.dns, rip)
		scripts := make([][]string, 6)
		seeds := make([]int64, 6)
		for j := range scripts {
			scripts[j] = hostileScript(rng)
			seeds[j] = rng.Int63()
		}
		var wg sync.WaitGroup
		for j := range scripts {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				rg := rand.New(rand.NewSource(seeds[j]))
				src, addr := rip, d.Addrs[0]
				if six && j == 5 {
					src, addr = "::1", d.Addrs[1]
				}
				c, err := dial(src, addr)
				if err != nil {
					return
				}
				defer c.Close()
				r.Count("hostile_sessions", 1)
				if j == 4 {
					hostileTLS(rg, c, certs)
				} else {
					slow := rg.Intn(2) == 0
					for _, s := range scripts[j] {
						if slow {
							// keep in step, but do not insist
							c.nc.SetReadDeadline(time.Now().Add(8 * time.Millisecond))
							c.br.ReadString('\n')
						}
						if rg.Intn(12) == 0 && len(s) > 1 {
							s = s[:rg.Intn(len(s))]
							io.WriteString(c.nc, s)
							break
						}
						if _, err := io.WriteString(c.nc, s); err != nil {
							break
						}
						r.Count("hostile_chunks", 1)
					}
				}
				switch e := rg.Intn(4); e {
				case 0:
					io.WriteString(c.nc, "QUIT\r\n")
					c.Drop()
				case 1, 2:
					c.Drop()
				case 3:
					if rg.Intn(2) == 0 {
						c.raw.SetLinger(0)
					}
				}
			}(j)
		}
		wg.Wait()
		det := func(f *Fail) *Fail {
			f.Detail = map[string]interface{}{"rules": rules, "fodd": tailS(fodd, 300), "args": d.Args, "scripts": scripts, "stderr": tailS(d.Stderr(), 1500), "more": f.Detail}
			return f
		}
		if t := w.trouble(); t != nil {
			return det(t)
		}
		if f := goodSession(); f != nil {
			return det(f)
		}
		var gr, fd int
		var prof string
		if !waitFor(30*time.Second, func() bool {
			gr, prof = d.goroutines()
			fd = len(d.FDs())
			return gr >= 0 && gr <= d.base[0]+2 && fd <= d.base[1]+2
		}) {
			return det(failf(map[string]interface{}{"goroutines": tailS(prof, 6000), "descriptors": d.FDs()}, "after the sessions %d goroutines (%d before) and %d descriptors (%d before) remain", gr, d.base[0], fd, d.base[1]))
		}
		r.Count("leak_checks", 1)
		for j := range scripts {
			r.Eval(strings.Join(scripts[j], ""))
		}
		if i < 2 {
			r.Sample(map[string]interface{}{"rules": rules, "script": scripts[0]})
		}
		return nil
	})
	r.Each("aged", r.N(150, 1500), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		// sessions that last longer than what is remembered about clients
		serverCert().save(w.dir, "srv")
		mkdir(w.path("save"))
		os.Remove(w.path("slog"))
		os.Remove(w.path("dnlog"))
		w.dns.Reset()
		w.write("r1", "@from accept from y@y.example with make-yakker\n@from reject from z@y.example with make-yakker\n")
		d := w.mustDaemon(DOpts{Kind: "sinksmtp-clock", Pprof: true, Listen: []string{freshIP() + ":2525"}, Args: []string{"-d", "save", "-r", "r1", "-smtplog", "slog", "-dnlog", "dnlog", "-dncount", fmt.Sprint(1 + rng.Intn(3)), "-dndur", "1h", "-minphase", pick(rng, []string{"helo", "from", "to", "data", "accepted"}), "-c", "srv.crt", "-k", "srv.key"}})
		w.ds["c12a"] = d
		defer func() { d.Stop(); delete(w.ds, "c12a") }()
		var hist []string
		say := func(format string, a ...interface{}) { hist = append(hist, fmt.Sprintf(format, a...)) }
		bad := func(c *Client, format string, a ...interface{}) *Fail {
			if t := w.trouble(); t != nil {
				return t
			}
			return failf(map[string]interface{}{"args": d.Args, "history": hist, "conversation": c.log, "stderr": tailS(d.Stderr(), 1500)}, format, a...)
		}
		n := 0
		good := func() *Fail {
			n++
			c := mustDial(fmt.Sprintf("127.5.1.%d", n), d.Addr)
			defer c.Close()
			rep := c.Read()
			for _, s := range []string{"EHLO fine.example", "MAIL FROM:<a@x.example>", "RCPT TO:<b@x.example>", "DATA"} {
				if rep.Err == nil {
					rep = c.Cmd(s)
				}
			}
			if rep.Err == nil {
				rep = c.Body("Subject: x\n\nfine\n")
			}
			if rep.Class() != 2 {
				return bad(c, "a normal session is not served: %s", rep)
			}
			if err := c.Quit(); err != nil {
				return bad(c, "a normal session is not served: %v", err)
			}
			r.Count("good_sessions", 1)
			return nil
		}
		if f := good(); f != nil {
			return f
		}
		type op struct {
			c  *Client
			to []string
		}
		var open []*op
		trace := ""
		for k := 0; k < 25; k++ {
			switch x := rng.Intn(10); {
			case x < 4 && len(open) < 6:
				c := mustDial(fmt.Sprintf("127.5.0.%d", 1+rng.Intn(2)), d.Addr)
				if rep := c.Read(); rep.Code != 220 {
					return bad(c, "no greeting: %s", rep)
				}
				ss := [][]string{{}, {"EHLO c.example"}, {"EHLO c.example", "STARTTLS", ""}, {"EHLO c.example", "STARTTLS"}, {"EHLO c.example", "MAIL FROM:<y@y.example>"}, {"EHLO c.example", "MAIL FROM:<z@y.example>"}, {"EHLO c.example", "MAIL FROM:<a@y.example>", "RCPT TO:<a@y.example>", "DATA", "x\r\n.\r\n"}}
				s := ss[rng.Intn(len(ss))]
				open = append(open, &op{c, append([]string{}, s...)})
				say("open from %s: %q", c.Src, s)
				trace += fmt.Sprint("o", s)
			case x < 7 && len(open) > 0:
				j := rng.Intn(len(open))
				o := open[j]
				for m := 1 + rng.Intn(5); m > 0 && len(o.to) > 0; m-- {
					s := o.to[0]
					o.to = o.to[1:]
					say("%s: %q", o.c.Src, s)
					if s == "" {
						o.c.Send("no TLS at all, no TLS at all\r\n")
					} else if rep := o.c.Cmd(s); rep.Err != nil {
						return bad(o.c, "%s: %s", s, rep)
					} else if rep.Class() != 2 && rep.Class() != 3 {
						o.to = nil
					}
					trace += "s"
				}
				if len(o.to) == 0 || rng.Intn(3) == 0 {
					open = append(open[:j], open[j+1:]...)
					say("%s ends", o.c.Src)
					if rng.Intn(2) == 0 {
						o.c.Send("QUIT\r\n")
					}
					o.c.Drop()
					o.c.Close()
					trace += "c"
				}
			case x < 9:
				sec := []int64{1, 1800, 3599, 3600, 3601, 8000, 73 * 3600, 200 * 3600}[rng.Intn(8)]
				d.Advance(sec)
				r.Count("clock_jumps", 1)
				say("clock +%d", sec)
				trace += fmt.Sprint("+", sec)
			default:
				if f := good(); f != nil {
					return f
				}
			}
		}
		for _, o := range open {
			o.c.Close()
		}
		if f := good(); f != nil {
			return f
		}
		c := mustDial("127.5.0.1", d.Addr)
		defer c.Close()
		if rep := c.Read(); rep.Code != 220 {
			return bad(c, "a client that was here before gets no greeting: %s", rep)
		}
		c.Quit()
		var gr int
		var prof string
		if !waitFor(30*time.Second, func() bool {
			gr, prof = d.goroutines()
			return gr >= 0 && gr <= 12 && !strings.Contains(prof, "main.process")
		}) {
			return failf(map[string]interface{}{"args": d.Args, "history": hist, "goroutines": tailS(prof, 6000)}, "after the sessions %d goroutines remain", gr)
		}
		r.Count("aged_cases", 1)
		r.Eval(trace)
		return nil
	})
	r.Each("descriptors", r.N(40, 200), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		// run out of descriptors, then have them again
		w.prepRules()
		d := w.daemon("nofile", func() DOpts {
			return DOpts{Args: []string{"-d", "save", "-nostdrules", "-r", "r1", "-smtplog", "slog", "-l", "mlog"}}
		})
		served := func() (*Client, string) {
			c, err := dial(anySrc(), d.Addr)
			if err != nil {
				return nil, err.Error()
			}
			if rep := c.Read(); rep.Code != 220 {
				return c, "no greeting: " + rep.String()
			}
			for _, s := range []string{"EHLO fine.example", "MAIL FROM:<a@x.example>", "RCPT TO:<b@x.example>", "DATA"} {
				if rep := c.Cmd(s); rep.Class() != 2 && rep.Code != 354 {
					return c, s + ": " + rep.String()
				}
			}
			if rep := c.Body("Subject: x\n\nfine\n"); rep.Class() != 2 {
				return c, "message: " + rep.String()
			}
			if err := c.Quit(); err != nil {
				return c, err.Error()
			}
			return c, ""
		}
		if c, s := served(); s != "" {
			return failf(c.log, "a normal session is not served: %s", s)
		}
		lim := len(d.FDs()) + 3 + rng.Intn(8)
		var old [2]uint64
		prlimit := func(cur uint64) {
			v := [2]uint64{cur, old[1]}
			if cur == 0 {
				v = old
			}
			var o [2]uint64
			if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(d.pid), 7, 0, uintptr(unsafe.Pointer(&o)), 0, 0); e != 0 {
				infra("prlimit: %v", e)
			}
			if old[1] == 0 {
				old = o
				v[1] = o[1]
			}
			if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(d.pid), 7, uintptr(unsafe.Pointer(&v)), 0, 0, 0); e != 0 {
				infra("prlimit: %v", e)
			}
		}
		prlimit(uint64(lim))
		var cs []*Client
		for k := 10 + rng.Intn(20); k > 0; k-- {
			c, err := dial(anySrc(), d.Addr)
			if err != nil {
				continue
			}
			cs = append(cs, c)
			if rng.Intn(2) == 0 {
				io.WriteString(c.nc, strings.Join(hostileScript(rng), ""))
			}
			r.Count("starved_sessions", 1)
		}
		time.Sleep(time.Duration(rng.Intn(150)) * time.Millisecond)
		peak := len(d.FDs())
		if peak >= lim-1 {
			r.Count("exhaustions_seen", 1)
		}
		for _, c := range cs {
			if rng.Intn(2) == 0 {
				c.raw.SetLinger(0)
			}
			c.Close()
		}
		// with enough descriptors again, it has to recover
		prlimit(0)
		why := ""
		var log []string
		if !waitFor(30*time.Second, func() bool {
			var c *Client
			c, why = served()
			if c != nil {
				log = c.log
				c.Close()
			}
			return why == ""
		}) {
			return failf(map[string]interface{}{"conversation": log, "stderr": tailS(d.Stderr(), 1500)}, "after it ran out of descriptors (limit %d) and had them again, no normal session is served: %s", lim, why)
		}
		if t := w.trouble(); t != nil {
			return t
		}
		r.Eval(fmt.Sprint("descriptors", lim, len(cs), i))
		return nil
	})
	r.Each("held", r.N(40, 600), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		// clients and lookups that are kept waiting hold up nobody else
		w.prepRules()
		d := w.daemon("held", func() DOpts {
			serverCert().save(w.dir, "srv")
			return DOpts{Args: []string{"-d", "save", "-r", "r1", "-smtplog", "slog", "-l", "mlog", "-dncount", "3", "-minphase", "data", "-c", "srv.crt", "-k", "srv.key"}, Pprof: true}
		})
		w.write("r1", "reject from @.held.example from-has unknown\nreject from @bl.example dnsbl bl.example\nstall ehlo slow.example\nreject to @.held.example to-has unknown,baddom\nreject ehlo big.example with message \""+strings.Repeat(strings.Repeat("long ", 20)+"\n", 1000)+"\"\n")
		w.dns.Reset()
		n := 24
		if i%4 == 3 {
			n = r.N(300, 500)
		}
		var mu sync.Mutex
		var cs []*Client
		defer func() {
			w.dns.Release()
			for _, c := range cs {
				c.raw.SetLinger(0)
				c.Close()
			}
		}()
		kinds := []string{"rdns", "rule", "rule-to", "idle", "greeted", "tls", "data", "unread", "stalled"}
		only := ""
		if rng.Intn(2) == 0 {
			only = pick(rng, kinds)
		}
		var wg sync.WaitGroup
		sem := make(chan bool, 16)
		stuck := map[string]int{}
		unread := 0
		for j := 0; j < n; j++ {
			kind := only
			if kind == "" {
				kind = pick(rng, kinds)
			}
			if kind == "unread" {
				if unread++; unread > 3 {
					kind = "greeted"
				}
			}
			src := fmt.Sprintf("127.%d.%d.%d", 20+i%90, 1+j/200, 1+j%200)
			if kind == "rdns" {
				w.dns.AddPTR(src, fmt.Sprintf("c%d.example", j))
				w.dns.Mode(PTRName(src), "hold")
			}
			// the names asked about differ
			dom := fmt.Sprintf("d%d.held.example", j)
			w.dns.Mode(dom, "hold")
			w.dns.Mode(strings.TrimSuffix(PTRName(src), "in-addr.arpa.")+"bl.example", "hold")
			wg.Add(1)
			j := j
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				c, err := dial(src, d.Addr)
				if err != nil {
					return
				}
				mu.Lock()
				cs = append(cs, c)
				stuck[kind]++
				mu.Unlock()
				say := func(s string) { io.WriteString(c.nc, s) }
				get := func(s string) bool { rep := c.Cmd(s); return rep.Class() == 2 || rep.Code == 354 }
				switch kind {
				case "rdns", "idle":
					say("EHLO x.example\r\n"[:rng2(j, 15)])
				case "rule":
					if c.Read(); get("EHLO x.example") {
						if j%2 == 0 {
							say("MAIL FROM:<a@" + dom + ">\r\n")
						} else {
							say("MAIL FROM:<a@bl.example>\r\n")
						}
					}
				case "rule-to":
					if c.Read(); get("EHLO x.example") && get("MAIL FROM:<a@x.example>") {
						say("RCPT TO:<a@" + dom + ">\r\n")
					}
				case "greeted":
					c.Read()
					get("EHLO x.example")
				case "tls":
					if c.Read(); get("EHLO x.example") {
						get("STARTTLS")
						say("\x16\x03\x01\x02")
					}
				case "data":
					if c.Read(); get("EHLO x.example") && get("MAIL FROM:<a@x.example>") && get("RCPT TO:<a@x.example>") && get("DATA") {
						say("Subject: x\r\n\r\nso far")
					}
				case "unread":
					c.Read()
					c.nc.SetWriteDeadline(time.Now().Add(500 * time.Millisecond))
					say(strings.Repeat("EHLO big.example\r\n", 100))
				case "stalled":
					c.Read()
					say("EHLO slow.example\r\n")
				}
			}()
		}
		wg.Wait()
		r.Count("held_sessions", len(cs))
		r.Seen("clients_held_at_once", fmt.Sprint(len(cs)))
		for k := range stuck {
			r.Seen("held_in", k)
		}
		r.Count("lookups_held", w.dns.Held())
		served := func(d *Daemon, src string) (f *Fail) {
			defer recoverFail(&f)
			c := mustDial(src, d.Addr)
			defer c.Close()
			if rep := c.Read(); rep.Code != 220 {
				return failf(c.log, "a normal session is not served: %s", rep)
			}
			for _, s := range []string{"EHLO fine.example", "MAIL FROM:<a@x.example>", "RCPT TO:<b@x.example>", "DATA"} {
				if rep := c.Cmd(s); rep.Class() != 2 && rep.Code != 354 {
					return failf(c.log, "a normal session is not served: %s: %s", s, rep)
				}
			}
			if rep := c.Body("Subject: x\n\nfine\n"); rep.Class() != 2 {
				return failf(c.log, "a normal session is not served: message: %s", rep)
			}
			if err := c.Quit(); err != nil {
				return failf(c.log, "a normal session is not served: %v", err)
			}
			return nil
		}
		f := served(d, anySrc())
		if f != nil {
			// is it this server, or the machine?
			ctl, err := r.startDaemon(DOpts{Dir: w.dir, DNS: w.dns, Args: []string{"-force-receive"}})
			if err != nil {
				return nil
			}
			t0 := time.Now()
			slow := served(ctl, anySrc()) != nil || time.Since(t0) > 5*time.Second
			ctl.Stop()
			if slow {
				r.Count("held_unclear", 1)
				return nil
			}
			f.What = fmt.Sprintf("while %d clients are kept waiting (%v), ", len(cs), stuck) + f.What
			_, prof := d.goroutines()
			f.Detail = map[string]interface{}{"conversation": f.Detail, "goroutines": tailS(prof, 6000), "stderr": tailS(d.Stderr(), 1500)}
			return f
		}
		r.Count("sessions_served_meanwhile", 1)
		if t := w.trouble(); t != nil {
			return t
		}
		r.Eval(fmt.Sprint("held", only, n, i))
		return nil
	})
	r.Each("memory", r.N(3, 12), 2, func(w *W, i int, rng *rand.Rand) *Fail {
		// what was sent is not kept
		w.prepRules()
		k := i % 3
		d := w.daemon(fmt.Sprint("mem", k), func() DOpts {
			return DOpts{Args: [][]string{
				{"-force-receive", "-r", "r1"},
				{"-d", "save", "-r", "r1", "-smtplog", "slog", "-l", "mlog"},
				{"-M", "-r", "r1", "-dncount", "2", "-smtplog", "slog", "-minphase", "accepted"},
			}[k], Pprof: true}
		})
		big := strings.Repeat(strings.Repeat("x", 70)+"\n", 1<<20/71)
		send := func(n int) *Fail {
			for ; n > 0; n-- {
				c := mustDial(anySrc(), d.Addr)
				c.Read()
				for _, s := range []string{"EHLO fine.example", "MAIL FROM:<a@x.example>", "RCPT TO:<b@x.example>", "DATA"} {
					if rep := c.Cmd(s); rep.Class() != 2 && rep.Code != 354 {
						c.Close()
						return failf(c.log, "a normal session is not served: %s: %s", s, rep)
					}
				}
				if n%4 == 3 {
					// never finished
					io.WriteString(c.nc, strings.Replace(big, "\n", "\r\n", -1))
					c.Close()
					continue
				} else {
					c.Body("Subject: x\n\n" + big)
					r.Count("megabytes_sent", 1)
				}
				c.Quit()
				c.Close()
			}
			return nil
		}
		heap := func() (int64, string) {
			d.httpGet("/debug/pprof/heap?gc=1")
			s, err := d.httpGet("/debug/pprof/heap?gc=1&debug=1")
			if err != nil {
				return -1, err.Error()
			}
			m := heapAlloc.FindStringSubmatch(s)
			if m == nil {
				return -1, s
			}
			n, _ := strconv.ParseInt(m[1], 10, 64)
			return n, s
		}
		if f := send(6); f != nil {
			return f
		}
		h0, s := heap()
		if h0 < 0 {
			return failf(nil, "no heap statistics: %s", tailS(s, 300))
		}
		if f := send(64); f != nil {
			return f
		}
		var h1 int64
		if !waitFor(30*time.Second, func() bool {
			h1, s = heap()
			return h1 >= 0 && h1 < h0+20<<20
		}) {
			return failf(tailS(s, 5000), "after 64 messages of a megabyte each, all over, the server holds %d KB (%d KB before)", h1>>10, h0>>10)
		}
		r.Count("memory_checks", 1)
		if t := w.trouble(); t != nil {
			return t
		}
		r.Eval(fmt.Sprint("memory", k, i))
		return nil
	})
}

var heapAlloc = regexp.MustCompile(`# HeapAlloc = (\d+)`)

func rng2(j, n int) int { return (j * 7) % n }

// recoverFail makes a Fail of one that was thrown.
func recoverFail(f **Fail) {
	if x := recover(); x != nil {
		g, ok := x.(*Fail)
		if !ok {
			panic(x)
		}
		*f = g
	}
}
