package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
)

func init() { register("C07", "plain", c07) }

var c07srcs = []string{"host", "helo", "ehlo", "from", "any", "host,from", "helo,host", "from,ehlo"}
var c07zones = []string{"bl.example", "bl2.example", "dbl.example", "dbl2.example"}
var c07hosts = []string{"a.p.example", ".p.example", "mail.c.example", "z.example", ".z.example", "m9.q.example"}

func c07rules() string {
	var b strings.Builder
	for _, a := range []string{"resolves", "unknown", "baddom"} {
		fmt.Fprintf(&b, "@from reject from q-%s@ from-has %s\n", a, a)
		fmt.Fprintf(&b, "@to reject to q-%s@ to-has %s\n", a, a)
	}
	for i, s := range c07srcs {
		for j, z := range c07zones[2:] {
			fmt.Fprintf(&b, "@from reject from l-%d-%d@ dbl %s %s%s\n", i, j, s, z, []string{"", "."}[(i+j)%2])
		}
	}
	for j, z := range c07zones[:2] {
		fmt.Fprintf(&b, "@from reject from n-%d@ dnsbl %s\n", j, z)
	}
	for i, h := range c07hosts {
		fmt.Fprintf(&b, "@from reject from h-%d@ host %s\n", i, h)
	}
	for _, a := range dAttrs {
		fmt.Fprintf(&b, "@from reject from d-%s@ dns %s\n", a, a)
	}
	return b.String()
}

var goodIPs = []string{"8.8.8.8", "1.1.1.1", "172.15.255.255", "172.32.0.0", "11.0.0.0", "192.167.255.255", "192.169.0.0", "9.255.255.255", "128.0.0.1", "223.255.255.254", "2001:4860::1", "2600::", "fbff::1", "fe00::1"}
var badIPs = []string{"10.0.0.0", "10.255.255.255", "172.16.0.0", "172.31.255.255", "192.168.0.0", "192.168.255.255", "127.0.0.1", "127.255.0.1", "0.0.0.0", "169.254.1.1", "224.0.0.1", "239.255.255.255", "255.255.255.255", "fc00::1", "fdff::1", "fe80::1", "fec0::1", "ff02::1", "::1", "::"}
var failModes = []string{"servfail", "timeout", "refused"}

// randHostRR gives a name addresses, or none, or a failure.
func randHostRR(rng *rand.Rand, dns *DNS, n string) string {
	switch rng.Intn(8) {
	case 0:
		return "(none)"
	case 1:
		dns.Add(n, tTXT, "x")
		return "(noaddr)"
	case 2:
		m := pick(rng, failModes)
		dns.Mode(n, m)
		return "(" + m + ")"
	}
	var l []string
	k := 1 + rng.Intn(3)
	odds := 5
	if rng.Intn(15) == 0 {
		k += 3 + rng.Intn(10)
		odds = 5 + rng.Intn(20)
		if rng.Intn(2) == 0 {
			// only the last may do
			l = append(l, "bad ones")
			for j := 0; j < k; j++ {
				dns.AddIP(n, pick(rng, badIPs))
			}
			k = 1
		}
	}
	for ; k > 0; k-- {
		ip := pick(rng, goodIPs)
		if rng.Intn(odds) == 0 {
			ip = pick(rng, badIPs)
		}
		l = append(l, ip)
		dns.AddIP(n, ip)
	}
	return "(" + strings.Join(l, " ") + ")"
}

func randDomRR(rng *rand.Rand, dns *DNS, dom string) string {
	desc := dom + ":"
	switch rng.Intn(10) {
	case 0:
		m := pick(rng, failModes)
		dns.AddMX(dom, 10, "mx0."+dom+".")
		dns.AddIP("mx0."+dom, "8.8.8.8")
		dns.Mode(dom, m)
		return desc + m
	case 4:
		// only the MX lookup fails; the addresses do not count then
		m := pick(rng, failModes)
		ip := pick(rng, goodIPs)
		dns.AddIP(dom, ip)
		dns.ModeType(dom, tMX, m)
		return desc + " MX " + m + " A " + ip
	case 1, 2, 3:
		return desc + randHostRR(rng, dns, dom)
	}
	n := 1 + rng.Intn(4)
	if rng.Intn(12) == 0 {
		n = 5 + rng.Intn(20)
	}
	only := -1
	if rng.Intn(6) == 0 {
		// just one may do
		only = rng.Intn(n)
	}
	for k := 0; k < n; k++ {
		h := fmt.Sprintf("mx%d.%s.", k, dom)
		switch rng.Intn(14) {
		case 0:
			h = "."
		case 1:
			h = pick(rng, []string{"localhost.", "LocalHost."})
		}
		dns.AddMX(dom, []int{0, 0, 5, 10, 10, 50, 100, 1000, 32767, 65535}[rng.Intn(10)], h)
		desc += " MX " + h
		if len(h) > 12 && only >= 0 && k != only {
			if rng.Intn(2) == 0 {
				dns.AddIP(h, pick(rng, badIPs))
				desc += "(bad)"
			}
		} else if len(h) > 12 {
			desc += randHostRR(rng, dns, h)
		}
	}
	if rng.Intn(3) == 0 {
		// addresses of the domain itself do not matter then
		ip := pick(rng, append(append([]string{}, goodIPs...), badIPs...))
		dns.AddIP(dom, ip)
		desc += " A " + ip
	}
	return desc
}

func c07(r *Run) {
	r.Rule = "a random DNS world (6 domains with MX/address/failure mixtures, PTR names of the client with forward records of every kind, blocklist entries) and one session that asks every domain-class, dns, host, dnsbl and dbl question about it; the answers are compared with a resolution of the same world by the reference model; distinct by (question, relevant zone content)"
	r.Assumptions = []string{"a failure of address lookups affects A and AAAA alike", "100.64.0.0/10 and other special blocks the manual does not mention are not used"}
	v6 := haveIPv6() && !strings.Contains(readFile("/etc/hosts"), "::1")
	if _, err := os.Stat("/etc/hosts"); err != nil {
		v6 = false
	}
	r.Each("world", r.N(16000, 80000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.write("r1", c07rules())
		key := "4"
		if v6 && rng.Intn(10) == 0 {
			key = "6"
		}
		d := w.daemon(key, func() DOpts {
			o := DOpts{Args: []string{"-helo", "srv.example", "-nostdrules", "-force-receive", "-r", "r1"}}
			if key == "6" {
				o.Listen = []string{fmt.Sprintf("[::1]:%d", 20000+rand.Intn(12000))}
			}
			return o
		})
		e := &Env{Zone: w.dns, Lip: d.IP}
		e.Rip = fmt.Sprintf("127.4.%d.%d", rng.Intn(3), 1+rng.Intn(6))
		if key == "6" {
			e.Rip = "::1"
		}
		w.dns.Reset()
		world := "PTR " + randRDNS(rng, w.dns, e.Rip, 1)
		e.setRDNS()
		var doms []string
		dd := map[string]string{}
		for k := 0; k < 6; k++ {
			dom := fmt.Sprintf("d%d.example", k)
			if k == 5 {
				dom = "s.d0.example"
			}
			doms = append(doms, dom)
			dd[dom] = randDomRR(rng, w.dns, dom)
			world += "; " + dd[dom]
		}
		helos := []string{"h1.example", "d1.example", "a.p.example", "h2.d0.example", "nodots"}
		// blocklists
		cands := append(append([]string{}, doms...), helos...)
		for _, l := range [][]string{e.Verified, e.Nofwd, e.Inconsis} {
			for _, n := range l {
				cands = append(cands, strings.TrimSuffix(n, "."))
			}
		}
		list := func(n string) {
			switch rng.Intn(5) {
			case 0:
				w.dns.Add(n, tTXT, "only text")
			case 1:
				w.dns.Mode(n, pick(rng, failModes))
			case 2:
				w.dns.AddIP(n, "::ffff:127.0.0.3")
			case 3:
				w.dns.AddIP(n, "127.0.0.10")
				w.dns.AddIP(n, "127.0.0.11")
			default:
				w.dns.AddIP(n, pick(rng, []string{"127.0.0.2", "127.0.0.2", "127.0.0.1", "10.0.0.1", "192.0.2.66", "8.8.8.8", "2001:db8::2", "0.0.0.0", "::1"}))
			}
			world += "; listed " + n
		}
		for k := rng.Intn(4); k > 0; k-- {
			list(pick(rng, cands) + "." + pick(rng, c07zones[2:]))
		}
		if key == "4" {
			rev := strings.TrimSuffix(PTRName(e.Rip), "in-addr.arpa.")
			for _, z := range c07zones[:2] {
				if rng.Intn(3) == 0 {
					list(rev + z)
				}
			}
			// the unreversed address, and neighbours
			w.dns.AddIP(e.Rip+"."+c07zones[0], "127.0.0.2")
			w.dns.AddIP("9."+rev+c07zones[1], "127.0.0.2")
		}
		c := mustDial(e.Rip, d.Addr)
		defer c.Close()
		r.Count("sessions", 1)
		c.Read()
		s := &St{HeloCmd: "EHLO", Helo: pick(rng, helos)}
		if rep := c.Cmd("EHLO " + s.Helo); rep.Code != 250 {
			return failf(c.log, "EHLO: %s", rep)
		}
		ask := func(cmd, a string, n *Node, keyd string) *Fail {
			st := *s
			if cmd == "MAIL FROM" {
				st.From = a
			} else {
				st.To = a
			}
			want, _ := e.eval(n, &st)
			rep := c.Cmdf("%s:<%s>", cmd, a)
			if (rep.Class() == 5) != want || rep.Class() != 5 && rep.Class() != 2 {
				return failf(map[string]interface{}{"world": world, "conversation": c.log, "verified": e.Verified, "noforward": e.Nofwd, "inconsistent": e.Inconsis, "queries": w.dns.Log()},
					"%s %s on %s %q from %s with %s: expected match %v, reply %s", n.Op, n.Arg+strings.Join(n.Opts, ","), cmd, a, e.Rip, keyd, want, rep)
			}
			if want {
				r.Seen("matched", n.Op+" "+strings.Join(n.Opts, ","))
			} else {
				r.Seen("unmatched", n.Op+" "+strings.Join(n.Opts, ","))
			}
			r.Eval(n.Op + n.Arg + strings.Join(n.Opts, ",") + keyd)
			if cmd == "MAIL FROM" {
				c.Cmd("RSET")
			}
			return nil
		}
		var f *Fail
		for _, dom := range doms {
			r.Seen("domain_classes", e.domClass(dom))
			for _, a := range []string{"resolves", "unknown", "baddom"} {
				if f = ask("MAIL FROM", "q-"+a+"@"+randCase(rng, dom), &Node{Op: "from-has", Opts: []string{a}}, dd[dom]); f != nil {
					return f
				}
			}
		}
		for _, a := range dAttrs {
			if f = ask("MAIL FROM", "d-"+a+"@d0.example", &Node{Op: "dns", Opts: []string{a}}, world[:strings.Index(world, ";")]); f != nil {
				return f
			}
		}
		for k, h := range c07hosts {
			if f = ask("MAIL FROM", fmt.Sprintf("h-%d@d0.example", k), &Node{Op: "host", Arg: h}, world[:strings.Index(world, ";")]); f != nil {
				return f
			}
		}
		for k, z := range c07zones[:2] {
			if f = ask("MAIL FROM", fmt.Sprintf("n-%d@d0.example", k), &Node{Op: "dnsbl", Arg: z}, world); f != nil {
				return f
			}
		}
		for k, src := range c07srcs {
			for j, z := range c07zones[2:] {
				dom := pick(rng, doms)
				if f = ask("MAIL FROM", fmt.Sprintf("l-%d-%d@%s", k, j, dom), &Node{Op: "dbl", Opts: strings.Split(src, ","), Arg: z}, s.Helo+dom+world); f != nil {
					return f
				}
			}
		}
		// recipients
		c.Cmd("MAIL FROM:<ok@d0.example>")
		for _, dom := range doms[:3] {
			a := pick(rng, []string{"resolves", "unknown", "baddom"})
			if f = ask("RCPT TO", "q-"+a+"@"+dom, &Node{Op: "to-has", Opts: []string{a}}, dd[dom]); f != nil {
				return f
			}
		}
		if err := c.Quit(); err != nil {
			return failf(c.log, "QUIT: %v", err)
		}
		if i < 2 {
			r.Sample(map[string]interface{}{"world": world, "conversation": c.log[:60]})
		}
		return nil
	})
}
