package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { register("C05", "plain", c05) }

var c05labels = []string{"b", "c", "bb", "cb", "b-c", "com", "org", "x9", "az", "jkq-vwxyz"}

func randCase(rng *rand.Rand, s string) string {
	if rng.Intn(4) > 0 {
		return s
	}
	b := []byte(s)
	for i := range b {
		if rng.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func randDomain(rng *rand.Rand) string {
	n := 1 + rng.Intn(4)
	if rng.Intn(10) == 0 {
		n += 1 + rng.Intn(8)
	}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, pick(rng, c05labels))
	}
	if n < 4 && rng.Intn(20) == 0 {
		// long labels, but no longer than DNS can do
		for k := 1 + rng.Intn(2); k > 0; k-- {
			l[rng.Intn(n)] = pick(rng, []string{"b", "long-label", "cb"}) + strings.Repeat("d", 10+rng.Intn(11))
		}
	}
	return strings.Join(l, ".")
}

// near returns a domain related to d.
func nearDomain(rng *rand.Rand, d string) string {
	switch rng.Intn(9) {
	case 0:
		for k := pick2(rng, 0, 0, 0, 0, 3, 7); k > 0; k-- {
			d = pick(rng, c05labels) + "." + d
		}
		return pick(rng, c05labels) + "." + d
	case 1:
		return pick(rng, c05labels) + "." + pick(rng, c05labels) + "." + d
	case 2:
		return pick(rng, []string{"x", "b", "c"}) + d
	case 3:
		if _, r, ok := strings.Cut(d, "."); ok {
			return r
		}
	case 4:
		return d + "." + pick(rng, c05labels)
	case 5:
		return strings.Replace(d, ".", "", 1)
	case 6:
		return randDomain(rng)
	}
	return d
}

func randLocal(rng *rand.Rand) string {
	if rng.Intn(40) == 0 {
		return strings.Repeat(pick(rng, []string{"a", "long.", "z+"}), 30+rng.Intn(90)) + "b"
	}
	return pick(rng, []string{"a", "b", "ab", "a.b", "aa", "a+b", "bounce", "a#b", "a%b", "zz", "dfghijklmpqstuvy", "\"a #b\"", "\"x y\""})
}

// addrPat makes an address pattern, addrNear addresses to try on it.
func addrPat(rng *rand.Rand) string {
	d := randDomain(rng)
	switch rng.Intn(9) {
	case 0:
		return "<>"
	case 1:
		return "@"
	case 2:
		return randLocal(rng) + "@"
	case 3, 4:
		return "@" + d
	case 5, 6:
		return "@." + d
	}
	return randLocal(rng) + "@" + d
}

func addrNear(rng *rand.Rand, pat string) string {
	local, dom, _ := strings.Cut(pat, "@")
	dom = strings.TrimPrefix(dom, ".")
	if pat == "<>" {
		local, dom = "a", randDomain(rng)
	}
	if local == "" || rng.Intn(4) == 0 {
		local = randLocal(rng)
	}
	if dom == "" {
		dom = randDomain(rng)
	} else {
		dom = nearDomain(rng, dom)
	}
	switch rng.Intn(16) {
	case 0:
		return ""
	case 1:
		return local
	case 2:
		return "@" + dom
	case 3:
		return local + "@"
	case 4:
		return local + "@" + randDomain(rng) + "@" + dom
	case 5:
		return local + "@" + dom + "."
	case 6:
		return local + "@." + dom
	case 7:
		return "@" + randDomain(rng) + ":" + local + "@" + dom
	case 8:
		return local + "." + dom
	}
	return local + "@" + dom
}

func openAddr(a, p string) bool {
	return a != "" && strings.EqualFold(a, p) && (a[0] == '@' || a[len(a)-1] == '@')
}

// patFile writes patterns with the trimmings a pattern file may have.
func (w *W) patFile(rng *rand.Rand, name string, pats []string) {
	var b strings.Builder
	long := 0
	if rng.Intn(12) == 0 {
		long = 1 + rng.Intn(3)
	}
	for i, p := range pats {
		switch long {
		case 1: // a long line
			b.WriteString("# " + strings.Repeat("long ", 1500+rng.Intn(15000)) + "\n")
		case 2: // many lines
			k := rng.Intn(3000)
			if rng.Intn(20) == 0 {
				k += 60000
			}
			for ; k > 0; k-- {
				if p[0] >= '0' && p[0] <= '9' || p[0] == ':' {
					fmt.Fprintf(&b, "203.0.%d.%d\n", k/256, k%256)
				} else {
					fmt.Fprintf(&b, "n%d.filler.invalid\n", k)
				}
			}
		}
		switch rng.Intn(6) {
		case 0:
			b.WriteString("# " + pick(rng, c05labels) + "\n")
		case 1:
			b.WriteString("\n")
		case 2:
			b.WriteString("  \t\n   # indented\n")
		}
		switch rng.Intn(5) {
		case 0:
			b.WriteString("  ")
		case 1:
			b.WriteString("\t")
		}
		b.WriteString(p)
		if rng.Intn(6) == 0 {
			b.WriteString("  ")
		}
		if i < len(pats)-1 || rng.Intn(2) == 0 {
			b.WriteString("\n")
		}
	}
	w.write(name, b.String())
}

func c05(r *Run) {
	r.Rule = "a rule 'reject OP PATTERN' (one pattern or a file of up to 5, OP of from,to,helo,ehlo,host,source,ip) and about ten names or addresses built to be near the pattern; the reply to each is compared with the documented matching; distinct by (operator, pattern, tried value)"
	r.Assumptions = []string{"addresses starting or ending with '@' that equal the pattern literally, and names with trailing dots in HELO, are left open"}
	v6 := haveIPv6()
	r.Each("pat", r.N(45000, 250000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.prepRules()
		key := "v4"
		op := pick(rng, []string{"from", "from", "from", "to", "to", "helo", "ehlo", "host", "host", "source", "source", "ip", "ip"})
		if op == "ip" && v6 && rng.Intn(4) == 0 {
			key = "v6"
		}
		d := w.daemon(key, func() DOpts {
			o := DOpts{Args: []string{"-nostdrules", "-force-receive", "-r", "r1"}}
			if key == "v6" {
				o.Listen = []string{fmt.Sprintf("[::1]:%d", 20000+rand.Intn(12000))}
			}
			return o
		})
		w.dns.Reset()
		e := &Env{Zone: w.dns, Lip: d.IP, Files: map[string][]string{}}
		e.Rip = fmt.Sprintf("127.%d.%d.%d", 2+rng.Intn(2), rng.Intn(256), 1+rng.Intn(254))
		if key == "v6" {
			e.Rip = "::1"
		}
		np := 1
		isfile := rng.Intn(2) == 0
		if isfile {
			np = 1 + rng.Intn(5)
		}
		var pats []string
		for k := 0; k < np; k++ {
			switch op {
			case "from", "to":
				pats = append(pats, addrPat(rng))
			case "ip":
				pats = append(pats, ipPat(rng, e.Rip))
			default:
				p := randDomain(rng)
				if rng.Intn(2) == 0 {
					p = "." + p
				}
				pats = append(pats, p)
			}
		}
		lpats := append([]string{}, pats...)
		for k := range pats {
			pats[k] = randCase(rng, pats[k])
		}
		arg := pats[0]
		rules := []*MRule{}
		if isfile {
			name := pick(rng, []string{"pf", "pf", "sub/pf", "pf.list"})
			mkdir(w.path("sub"))
			w.patFile(rng, name, pats)
			arg = pick(rng, w.fileArgs(name))
			e.Files[arg] = pats
			if rng.Intn(4) == 0 {
				// other files, consulted before it, with like names
				for _, n := range []string{"pf", "sub/pf", "pf.list", "PF"} {
					if n == name {
						continue
					}
					o := pick(rng, w.fileArgs(n))
					op2 := op
					if op == "host" || op == "ip" || rng.Intn(2) == 0 {
						op2 = "helo"
					}
					if rng.Intn(4) == 0 {
						w.write(n, "#\n")
					} else {
						w.write(n, "nothing.invalid\n")
						e.Files[o] = []string{"nothing.invalid"}
					}
					rules = append(rules, &MRule{Action: "stall", Clauses: []Clause{{Expr: &Node{Op: op2, Arg: o}}}})
				}
			}
		}
		if op == "host" || op == "source" && rng.Intn(2) == 0 {
			seen := map[string]bool{}
			for k := pick2(rng, 0, 1, 1, 2, 2, 3, 7); k > 0; k-- {
				n := nearDomain(rng, strings.TrimPrefix(pick(rng, lpats), "."))
				if seen[n] {
					continue
				}
				seen[n] = true
				w.dns.AddPTR(e.Rip, n+".")
				switch rng.Intn(4) {
				case 0:
					if k > 4 {
						w.dns.AddIP(n, e.Rip)
					}
				case 1:
					w.dns.AddIP(n, "127.77.7.7")
				default:
					w.dns.AddIP(n, "127.77.7.8")
					w.dns.AddIP(n, e.Rip)
				}
			}
		}
		e.setRDNS()
		ru := &MRule{Action: "reject", Clauses: []Clause{{Expr: &Node{Op: op, Arg: arg}}}}
		if op == "host" || op == "ip" {
			// otherwise it would drop the connection
			ru.Phase = phHelo
		}
		if rng.Intn(3) == 0 {
			ru.Clauses[0].Expr = &Node{Op: "not", Kids: []*Node{ru.Clauses[0].Expr}}
		}
		rules = append(rules, ru)
		text := (&Layout{rng: rng}).file(rules)
		w.write("r1", text)
		x, f := w.open(e, rules, d.Addr)
		tried := ""
		try := func(v string, ff *Fail) {
			tried = v
			if f == nil {
				f = ff
			}
			r.Eval(op + " " + strings.Join(pats, ",") + " " + v)
		}
		if f == nil {
			switch op {
			case "from":
				f = x.helo("EHLO", "client.example")
				for k := 0; k < 10 && f == nil; k++ {
					a := randCase(rng, addrNear(rng, pick(rng, lpats)))
					if anyOpen(a, pats) {
						continue
					}
					if a == "" {
						// MAIL FROM:<> shows at the recipient
						try(a, x.mail(a))
						if f == nil {
							try(a, x.rcpt("r@b.com"))
						}
					} else {
						try(a, x.mail(a))
					}
					if f == nil {
						f = x.rset()
					}
				}
			case "to":
				f = x.helo("EHLO", "client.example")
				if f == nil {
					f = x.mail("s@b.com")
				}
				for k := 0; k < 10 && f == nil; k++ {
					a := randCase(rng, addrNear(rng, pick(rng, lpats)))
					if a == "" || anyOpen(a, pats) {
						continue
					}
					try(a, x.rcpt(a))
				}
			case "helo", "ehlo":
				for k := 0; k < 10 && f == nil; k++ {
					n := nearDomain(rng, strings.TrimPrefix(pick(rng, lpats), "."))
					if rng.Intn(12) == 0 {
						n = ""
					}
					try(n, x.helo(pick(rng, []string{"EHLO", "HELO"}), randCase(rng, n)))
				}
			case "host", "ip":
				try(e.Rip+" "+strings.Join(e.Verified, ","), x.helo("EHLO", "client.example"))
			case "source":
				for k := 0; k < 6 && f == nil; k++ {
					h := nearDomain(rng, strings.TrimPrefix(pick(rng, lpats), "."))
					a := randLocal(rng) + "@" + nearDomain(rng, strings.TrimPrefix(pick(rng, lpats), "."))
					switch rng.Intn(6) {
					case 0:
						a = ""
					case 1:
						a = randLocal(rng)
					case 2, 3:
						h = "client.example"
					}
					f = x.helo("EHLO", randCase(rng, h))
					if f == nil {
						f = x.mail(randCase(rng, a))
						if f == nil && a == "" {
							f = x.rcpt("r@b.com")
						}
						try(h+" "+a, f)
					}
					if f == nil {
						f = x.rset()
					}
				}
			}
		}
		r.Seen("operators", op+fmt.Sprint(isfile))
		if f == nil {
			f = x.quit()
		}
		if f != nil {
			x.c.Close()
			f.Detail = map[string]interface{}{"rule": text, "files": e.Files, "tried": tried, "conversation": x.c.log, "verified": e.Verified}
			f.What = fmt.Sprintf("rule %q patterns %q: %s", strings.TrimSpace(text), pats, f.What)
		} else if i < 4 {
			r.Sample(map[string]interface{}{"rule": text, "patterns": pats, "conversation": x.c.log})
		}
		return f
	})
}

func anyOpen(a string, pats []string) bool {
	for _, p := range pats {
		if openAddr(a, p) {
			return true
		}
	}
	return false
}

func ipPat(rng *rand.Rand, rip string) string {
	if rip == "::1" {
		return pick(rng, []string{"::1", "::1/128", "0:0:0:0:0:0:0:1", "::/0", "::2/127", "::2", "::/64", "fe80::/10", "127.0.0.0/8", "::8/125", "::/125"})
	}
	var a, b, c, d int
	fmt.Sscanf(rip, "%d.%d.%d.%d", &a, &b, &c, &d)
	switch rng.Intn(10) {
	case 0:
		return rip
	case 1:
		return fmt.Sprintf("%d.%d.%d.%d", a, b, c, d^(1<<rng.Intn(8)))
	case 2:
		return fmt.Sprintf("%d.%d.%d.%d", a, b, c^(1<<rng.Intn(8)), d)
	case 3:
		return "::1"
	case 4:
		return "0.0.0.0/0"
	}
	// a block that just contains, or just does not contain, the address
	n := 8 + rng.Intn(25)
	v := uint32(a)<<24 | uint32(b)<<16 | uint32(c)<<8 | uint32(d)
	if rng.Intn(2) == 0 {
		v ^= 1 << (32 - uint(n))
	}
	if rng.Intn(2) == 0 {
		v &^= 1<<(32-uint(n)) - 1
	}
	return fmt.Sprintf("%d.%d.%d.%d/%d", v>>24, v>>16&255, v>>8&255, v&255, n)
}
