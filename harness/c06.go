package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func init() { register("C06", "plain", c06) }

// pipe sends commands in batches and returns all replies.
func (c *Client) pipe(cmds []string) ([]Reply, error) {
	var res []Reply
	for len(cmds) > 0 {
		n, size := 0, 0
		for n < len(cmds) && size+len(cmds[n])+2 < 1400 {
			size += len(cmds[n]) + 2
			n++
		}
		if n == 0 {
			n = 1
		}
		if err := c.Send(strings.Join(cmds[:n], "\r\n") + "\r\n"); err != nil {
			return res, err
		}
		for i := 0; i < n; i++ {
			c.wire = append(c.wire, "r "+cmds[i])
			r := c.Read()
			if r.Err != nil {
				return res, fmt.Errorf("after %q: %v", cmds[i], r.Err)
			}
			res = append(res, r)
		}
		cmds = cmds[n:]
	}
	return res, nil
}

var aAttrs = []string{"noat", "unqualified", "route", "quoted", "garbage", "bad"}
var hAttrs = []string{"helo", "ehlo", "none", "bogus", "nodots", "bareip", "properip", "ip", "remip", "myip", "otherip"}
var dAttrs = []string{"nodns", "exists", "noforward", "inconsistent", "good"}

func c06rules() string {
	var b strings.Builder
	for _, a := range aAttrs {
		fmt.Fprintf(&b, "reject helo f-%s.sel from-has %s\n", a, a)
		fmt.Fprintf(&b, "reject helo t-%s.sel to-has %s\n", a, a)
	}
	for i, a := range aAttrs {
		b2 := aAttrs[(i+1)%len(aAttrs)]
		fmt.Fprintf(&b, "reject helo g-%s.sel from-has %s,%s\n", a, a, b2)
	}
	for _, a := range hAttrs {
		fmt.Fprintf(&b, "@from reject from h-%s@sel.example helo-has %s\n", a, a)
	}
	for _, a := range dAttrs {
		fmt.Fprintf(&b, "@from reject from d-%s@sel.example dns %s\n", a, a)
	}
	return b.String()
}

// expectAttr is the documented answer, or -1 where it is left open.
func expectAttr(a, attr string) int {
	o := addrSyntax(a)
	yes := o[attr]
	if attr == "bad" {
		yes = o["noat"] || o["unqualified"] || o["garbage"]
		if !yes && (o["quoted"] || o["route"]) {
			return -1
		}
	}
	if yes {
		return 1
	}
	return 0
}

// tryAddrs gives the addresses to from-has and to-has of each attribute.
func (w *W) tryAddrs(d *Daemon, rng *rand.Rand, src string, addrs []string) *Fail {
	r := w.r
	c := mustDial(src, d.Addr)
	defer c.Close()
	r.Count("sessions", 1)
	c.Read()
	bad := func(op, attr, a string, rep Reply) *Fail {
		return failf(map[string]interface{}{"attributes_expected": addrSyntax(a)}, "%s %s on address %q: reply %s", op, attr, a, rep)
	}
	run := func(cmds []string) ([]Reply, *Fail) {
		reps, err := c.pipe(cmds)
		if err != nil {
			return nil, failf(map[string]interface{}{"commands": cmds}, "session broke: %v", err)
		}
		return reps, nil
	}
	for k, attr := range aAttrs {
		var cmds []string
		var idx []int
		cmds = append(cmds, "EHLO f-"+attr+".sel")
		for i, a := range addrs {
			idx = append(idx, i, len(cmds))
			if a == "" {
				cmds = append(cmds, "MAIL FROM:<>", "RCPT TO:<x@y.example>", "RSET")
				continue
			}
			cmds = append(cmds, "MAIL FROM:<"+a+">", "RSET")
		}
		cmds = append(cmds, "EHLO g-"+attr+".sel")
		other := aAttrs[(k+1)%len(aAttrs)]
		var idx2 []int
		for i, a := range addrs {
			if a == "" || rng.Intn(4) > 0 {
				continue
			}
			idx2 = append(idx2, i, len(cmds))
			cmds = append(cmds, "MAIL FROM:<"+a+">", "RSET")
		}
		reps, f := run(cmds)
		if f != nil {
			return f
		}
		if reps[0].Code != 250 {
			return failf(nil, "EHLO f-%s.sel: %s", attr, reps[0])
		}
		for j := 0; j < len(idx); j += 2 {
			a := addrs[idx[j]]
			rep := reps[idx[j+1]]
			if a == "" {
				if rep.Class() != 2 || reps[idx[j+1]+1].Class() != 2 {
					return bad("from-has", attr, a, reps[idx[j+1]+1])
				}
				r.Eval("from-has " + attr + " <>")
				continue
			}
			want := expectAttr(a, attr)
			if want >= 0 && (want == 1) != (rep.Class() == 5) || rep.Class() != 5 && rep.Class() != 2 {
				return bad("from-has", attr, a, rep)
			}
			if want == 1 {
				r.Seen("attributes", "from-has "+attr)
			}
			r.Eval("from-has " + attr + " " + a)
		}
		for j := 0; j < len(idx2); j += 2 {
			a := addrs[idx2[j]]
			rep := reps[idx2[j+1]]
			w1, w2 := expectAttr(a, attr), expectAttr(a, other)
			want := -1
			if w1 == 1 || w2 == 1 {
				want = 1
			} else if w1 == 0 && w2 == 0 {
				want = 0
			}
			if want >= 0 && (want == 1) != (rep.Class() == 5) {
				return bad("from-has", attr+","+other, a, rep)
			}
			r.Eval("from-has " + attr + "," + other + " " + a)
		}
	}
	for _, attr := range aAttrs {
		cmds := []string{"RSET", "EHLO t-" + attr + ".sel", "MAIL FROM:<s@x.example>"}
		var ads []string
		for _, a := range addrs {
			if a != "" {
				ads = append(ads, a)
				cmds = append(cmds, "RCPT TO:<"+a+">")
			}
		}
		reps, f := run(cmds)
		if f != nil {
			return f
		}
		if reps[2].Code != 250 {
			return failf(nil, "MAIL FROM: %s", reps[2])
		}
		for j, a := range ads {
			rep := reps[3+j]
			want := expectAttr(a, attr)
			if want >= 0 && (want == 1) != (rep.Class() == 5) || rep.Class() != 5 && rep.Class() != 2 {
				return bad("to-has", attr, a, rep)
			}
			r.Eval("to-has " + attr + " " + a)
		}
	}
	if err := c.Quit(); err != nil {
		return failf(nil, "QUIT: %v", err)
	}
	return nil
}

const c06alpha = "a.@\"<>]:"

func nthString(n int) string {
	// all strings over the alphabet, shortest first
	k := len(c06alpha)
	l, cnt := 0, 1
	for n >= cnt {
		n -= cnt
		cnt *= k
		l++
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = c06alpha[n%k]
		n /= k
	}
	return string(b)
}

func c06(r *Run) {
	r.Rule = "addresses: every string up to a length over the characters that matter (a . @ \" < > ] :), plus longer random and mutated ones, each offered to from-has and to-has of every attribute; HELO names and reverse DNS zones: random ones near the documented forms, against every helo-has and dns attribute; distinct by (operator, attribute, value)"
	r.Assumptions = []string{"'bad' on addresses that are only quoted or only route is left open (manual and code differ)", "client and server IP differ"}
	maxlen := r.N(5, 6)
	total, p := 0, 1
	for i := 0; i <= maxlen; i++ {
		total += p
		p *= len(c06alpha)
	}
	const chunk = 120
	mk := func(w *W) *Daemon {
		w.write("r1", c06rules())
		return w.daemon("d", func() DOpts {
			return DOpts{Args: []string{"-nostdrules", "-force-receive", "-r", "r1"}}
		})
	}
	nchunk := (total + chunk - 1) / chunk
	nrand := r.N(3000, 15000)
	r.Each("addr", nchunk+nrand, 8, func(w *W, i int, rng *rand.Rand) *Fail {
		d := mk(w)
		var addrs []string
		if i < nchunk {
			for k := i * chunk; k < (i+1)*chunk && k < total; k++ {
				addrs = append(addrs, nthString(k))
			}
			r.Count("exhaustive_addresses", len(addrs))
		} else {
			for k := 0; k < chunk; k++ {
				a := wildAddr(rng)
				if rng.Intn(60) == 0 {
					// as long as a command can be
					long := strings.Repeat(pick(rng, []string{"x", "long.", "a-b-"}), 30+rng.Intn(100)) + "x"
					if strings.HasPrefix(a, "\"") || strings.HasPrefix(a, "@") || rng.Intn(2) == 0 {
						a += "." + long
					} else {
						a = long + a
					}
				}
				addrs = append(addrs, a)
			}
		}
		return w.tryAddrs(d, rng, "127.3.0.1", addrs)
	})
	v6 := haveIPv6()
	v6only := v6 && addr6() != "" && len(hostsNames("::1")) == 0
	r.Each("helo", r.N(6000, 30000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.write("r1", c06rules())
		key := "d"
		if v6 && i%4 == 0 {
			key = "6"
		}
		if v6only && i%8 == 1 {
			key = "only6"
		}
		d := w.daemon(key, func() DOpts {
			o := DOpts{Args: []string{"-nostdrules", "-force-receive", "-r", "r1"}}
			serverCert().save(w.dir, "srv")
			o.Args = append(o.Args, "-c", "srv.crt", "-k", "srv.key")
			if key == "only6" {
				o.Listen = []string{addr6()}
			}
			if key == "6" {
				o.Listen = []string{fmt.Sprintf("[::]:%d", 20000+rand.Intn(12000))}
			}
			return o
		})
		e := &Env{Zone: w.dns, Lip: d.IP}
		addr := d.Addr
		e.Rip = fmt.Sprintf("127.3.%d.%d", rng.Intn(256), 1+rng.Intn(254))
		if key == "6" {
			// v4 clients of a v6 socket, whose local IP is what they connected to
			e.Lip = freshIP()
			_, port, _ := strings.Cut(d.Addr, "]:")
			addr = e.Lip + ":" + port
		}
		if key == "only6" {
			// client and server at the same IP: whether it is the server's
			// too is left open
			e.Rip, e.Lip = "::1", "::1"
		}
		w.dns.Reset()
		zone := randRDNS(rng, w.dns, e.Rip, 0)
		e.setRDNS()
		c := mustDial(e.Rip, addr)
		defer c.Close()
		r.Count("sessions", 1)
		c.Read()
		if rng.Intn(3) == 0 {
			c.Cmd("EHLO first.example")
			if _, err := c.StartTLS(&tls.Config{InsecureSkipVerify: true}); err != nil {
				return failf(c.log, "STARTTLS: %v", err)
			}
			r.Count("tls_sessions", 1)
		}
		// dns attributes
		if rep := c.Cmd("EHLO client.example"); rep.Code != 250 {
			return failf(c.log, "EHLO: %s", rep)
		}
		have := e.dnsAttrs()
		var hs []string
		for k := range have {
			hs = append(hs, k)
		}
		sort.Strings(hs)
		r.Seen("dns_attribute_sets", strings.Join(hs, ","))
		for _, a := range dAttrs {
			rep := c.Cmdf("MAIL FROM:<d-%s@sel.example>", a)
			if (rep.Class() == 5) != have[a] || rep.Class() != 5 && rep.Class() != 2 {
				return failf(map[string]interface{}{"zone": zone, "expected": hs, "conversation": c.log}, "dns %s with %s: reply %s", a, zone, rep)
			}
			c.Cmd("RSET")
			r.Eval("dns " + a + " " + zone)
		}
		for k := 0; k < 40; k++ {
			n := wildHelo(rng, e)
			cmd := pick(rng, []string{"EHLO", "HELO"})
			st := &St{HeloCmd: cmd, Helo: n}
			hv := e.heloAttrs(st)
			if hv["bareip"] || hv["properip"] {
				hv["ip"] = true
			}
			cmds := []string{"RSET", strings.TrimRight(cmd+" "+n, " ")}
			for _, a := range hAttrs {
				cmds = append(cmds, "MAIL FROM:<h-"+a+"@sel.example>", "RSET")
			}
			reps, err := c.pipe(cmds)
			if err != nil {
				return failf(c.log, "session broke: %v", err)
			}
			if reps[1].Code != 250 {
				return failf(c.log, "%s: %s", cmds[1], reps[1])
			}
			for j, a := range hAttrs {
				rep := reps[2+2*j]
				if key == "only6" && a == "myip" && hv["remip"] {
					continue
				}
				if (rep.Class() == 5) != hv[a] || rep.Class() != 5 && rep.Class() != 2 {
					return failf(map[string]interface{}{"expected": hv, "client": e.Rip, "server": e.Lip}, "helo-has %s on %q (client %s, server %s): reply %s", a, cmds[1], e.Rip, e.Lip, rep)
				}
				if hv[a] {
					r.Seen("attributes", "helo-has "+a)
				}
				r.Eval("helo-has " + a + " " + cmds[1])
			}
		}
		if err := c.Quit(); err != nil {
			return failf(c.log, "QUIT: %v", err)
		}
		if i < 2 {
			r.Sample(map[string]interface{}{"zone": zone, "conversation": c.log[:40]})
		}
		return nil
	})
}

// randRDNS makes up the reverse DNS of an address and describes it.
func randRDNS(rng *rand.Rand, dns *DNS, ip string, faults int) string {
	desc := ""
	if faults > 0 && rng.Intn(12) == 0 {
		dns.Mode(PTRName(ip), pick(rng, []string{"servfail", "timeout", "refused"}))
		desc = "ptr-fails "
	}
	seen := map[string]bool{}
	k := rng.Intn(5)
	many := rng.Intn(12) == 0
	if many {
		k = 6 + rng.Intn(7)
	}
	for ; k > 0; k-- {
		n := pick(rng, []string{"a.p.example.", "b.p.example.", "Mail.C.example.", "z.example.", "a.z.example.", "m9.q.example."})
		if many && k > 2 {
			n = fmt.Sprintf("p%d.r.example.", k)
		}
		if seen[n] {
			continue
		}
		seen[n] = true
		dns.AddPTR(ip, n)
		desc += n
		m := rng.Intn(5)
		if faults > 0 {
			m = rng.Intn(7)
		}
		switch m {
		case 0: // no such name
			desc += "(none) "
		case 1: // exists without addresses
			dns.Add(n, tTXT, "x")
			desc += "(noaddr) "
		case 2:
			for j := 1 + rng.Intn(4); j > 0; j-- {
				dns.AddIP(n, pick(rng, []string{fmt.Sprintf("127.99.0.%d", j), fmt.Sprintf("2001:db8::%d", j), "::ffff:127.99.1.1", "::2"}))
			}
			desc += "(elsewhere) "
		case 3:
			dns.AddIP(n, ip)
			desc += "(ok) "
		case 4:
			dns.AddIP(n, pick(rng, []string{"127.99.0.1", "2001:db8::1"}))
			dns.AddIP(n, pick(rng, []string{"127.99.0.2", "2001:db8::2"}))
			dns.AddIP(n, ip)
			desc += "(ok-third) "
		case 5:
			dns.AddIP(n, ip)
			dns.Mode(n, "servfail")
			desc += "(servfail) "
		case 6:
			dns.AddIP(n, ip)
			dns.Mode(n, "timeout")
			desc += "(timeout) "
		}
	}
	if desc == "" {
		return "no PTR"
	}
	return desc
}

func wildAddr(rng *rand.Rand) string {
	base := []string{"fred@example.org", "a@b.example", "\"fred@bob\"@example.org", "@relay.example:user@b.example", "@a.example,@b.example:u@c.example",
		"fred@localname", "user", "user@[10.1.2.3]", "u@x.example.", "<u@x.example>", "u..v@x.example", "u@x..example", "u@@x.example",
		"\"u\"@x.example", "u@x.example\"", "@x.example", "u@", "a@b@c.example", "u@x.example@", "a.b", "u%v@x.example", "a!b!c@x.example", "'u'@x.example"}
	a := pick(rng, base)
	for k := rng.Intn(4); k > 0; k-- {
		b := []byte(a)
		pos := rng.Intn(len(b) + 1)
		const odd = "a.@\"<>]:[,;%!\\()-_+=*#$'&{}|~^`/?xyz09AZ"
		ch := odd[rng.Intn(len(odd))]
		switch rng.Intn(3) {
		case 0:
			b = append(b[:pos], append([]byte{ch}, b[pos:]...)...)
		case 1:
			if pos < len(b) {
				b = append(b[:pos], b[pos+1:]...)
			}
		default:
			if pos < len(b) {
				b[pos] = ch
			}
		}
		a = string(b)
	}
	return a
}

func wildHelo(rng *rand.Rand, e *Env) string {
	ips := []string{e.Rip, e.Lip, "10.1.2.3", "192.0.2.77", "2001:db8::5", "::1", "fe80::1", e.Rip + "0", "127.3.0.300", "1.2.3", "01.2.3.4"}
	ip := pick(rng, ips)
	switch rng.Intn(12) {
	case 0:
		return ""
	case 1:
		return "."
	case 2:
		return pick(rng, []string{"fred", "localhost", "x", "[]", "[", "]", "[fred]", "a-b", "..", "a.", ".a", ":", "a:b", "[.]", "[a.b]", "_"})
	case 3, 4, 5:
		return ip
	case 6, 7, 8:
		return "[" + ip + "]"
	case 9:
		return pick(rng, []string{"[" + ip, ip + "]", "[[" + ip + "]]", "[IPv6:" + ip + "]", "(" + ip + ")", "[" + ip + "].", ip + "."})
	}
	return pick(rng, []string{"mail.example.org", "host.domain", "WIN.local", "a.b.c.d", "1.2.3.4.5", "xn--a.example"})
}
