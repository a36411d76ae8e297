package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { register("C04", "plain", c04) }

// filesFor writes the pattern files of rule cases and returns what they stand for.
func (w *W) filesFor(rng *rand.Rand, addrs, hosts, ips []string) map[string][]string {
	res := map[string][]string{}
	put := func(name string, pats []string) {
		s := "# patterns\n\n"
		var l []string
		for i := 0; i < 1+rng.Intn(3); i++ {
			p := pick(rng, pats)
			l = append(l, p)
			s += p + "\n"
			if rng.Intn(3) == 0 {
				s += "  # more\n"
			}
		}
		w.write(name, s)
		for _, a := range []string{"./" + name, "file:" + name, w.path(name)} {
			res[a] = l
		}
	}
	put("fa", addrs)
	put("fh", hosts)
	put("fi", ips)
	w.write("fe", "# nothing here\n\n   \n")
	return res
}

func (w *W) fileArgs(name string) []string {
	return []string{"./" + name, "file:" + name, w.path(name)}
}

// basicGen draws rules for the decision checks.
func (w *W) basicGen(rng *rand.Rand) (*Gen, *Env, *Talk) {
	w.dns.Reset()
	e := &Env{Zone: w.dns}
	e.Rip = fmt.Sprintf("127.2.%d.%d", 1+rng.Intn(3), 1+rng.Intn(4))
	// reverse DNS of some sort
	switch rng.Intn(4) {
	case 0:
	case 1:
		w.dns.AddPTR(e.Rip, "mail.c.example.")
		w.dns.AddIP("mail.c.example", e.Rip)
	case 2:
		w.dns.AddPTR(e.Rip, "mail.c.example.")
		w.dns.AddIP("mail.c.example", e.Rip)
		w.dns.AddPTR(e.Rip, "other.d.example.")
		w.dns.AddIP("other.d.example", "127.9.9.9")
	case 3:
		w.dns.AddPTR(e.Rip, "gone.c.example.")
	}
	if rng.Intn(2) == 0 {
		w.dns.AddIP(strings.TrimSuffix(PTRName(e.Rip), "in-addr.arpa.")+"bl.example", "127.0.0.2")
	}
	w.dns.AddIP("c.example.dbl.example", "127.0.0.2")
	w.dns.AddIP("h1.example.dbl.example", "127.0.0.2")
	w.dns.AddMX("x.example", 10, "mx.x.example.")
	w.dns.AddIP("mx.x.example", "8.8.4.4")
	w.dns.Mode("t.example", "servfail")
	e.setRDNS()
	addrs := []string{"a@x.example", "b@x.example", "a@", "@x.example", "@.example", "@.y.example", "@", "<>", "c@s.y.example", "@t.example", "a@s.y.example", "c@x.example"}
	hosts := []string{"h1.example", ".h1.example", "h2.example", ".example", "c.example", ".c.example", "x.example"}
	ips := []string{"127.2.0.0/16", "127.2.1.0/24", "127.2.2.1", "127.2.1.1", "127.2.2.0/30"}
	e.Files = w.filesFor(rng, addrs, hosts, ips)
	g := &Gen{rng: rng, Addrs: addrs, Hosts: hosts, IPs: ips, MaxDepth: 2,
		Zones:  []string{"bl.example.", "nobl.example."},
		AAttrs: []string{"quoted", "resolves", "baddom", "unknown"},
		HAttrs: []string{"helo", "ehlo", "nodots", "bareip"},
		DAttrs: []string{"good", "exists", "nodns", "noforward", "inconsistent"},
		Ops: []string{"all", "from", "from", "from", "to", "to", "to", "helo", "helo", "ehlo", "host", "ip", "source",
			"from-has", "to-has", "helo-has", "dns", "dnsbl", "dbl", "tls"},
	}
	miss := []string{"./fe", "/nonexistent/f", "file:fnone"}
	g.Files = append(w.fileArgs("fa"), miss...)
	g.HFiles = append(w.fileArgs("fh"), miss...)
	g.IFiles = append(w.fileArgs("fi"), miss...)
	t := &Talk{
		Helos: []string{"h1.example", "H2.example", "s.h1.example", "x.example", "nodots", "10.1.2.3", "c.example"},
		Froms: []string{"a@x.example", "b@x.example", "A@Y.example", "c@s.y.example", "", "q@t.example", "\"q\"@x.example"},
		Tos:   []string{"a@x.example", "b@x.example", "c@s.y.example", "d@x.example", "a@s.y.example", "c@x.example", "e@t.example", "\"r\"@x.example", pick(rng, []string{"postmaster", "abuse@x.example", "Postmaster@X.example", "root", "webmaster", "f@x.example"})},
		Steps: 6 + rng.Intn(14),
	}
	return g, e, t
}

// writeRules spreads rules over r1, r2 and files that they include, to some
// depth. Rules that are there twice may come from a file included twice.
func (w *W) writeRules(rng *rand.Rand, rules []*MRule, wild bool) map[string]string {
	lay := &Layout{rng: rng, Wild: wild}
	files := map[string]string{}
	var incs []string
	seg := map[string][]*MRule{}
	nl := func(s string) string {
		if s != "" && !strings.HasSuffix(s, "\n") {
			s += "\n"
		}
		return s
	}
	inc := func(name string) string {
		if rng.Intn(2) == 0 {
			name = quote("./" + name)
		}
		return "include " + name + "\n"
	}
	deep := rng.Intn(8) == 0
	same := func(a, b []*MRule) bool {
		for k := range a {
			if a[k] != b[k] {
				return false
			}
		}
		return true
	}
	var text func(rs []*MRule, depth int) string
	text = func(rs []*MRule, depth int) string {
		// have these been written already?
		for _, n := range incs {
			for k := 0; k+len(seg[n]) <= len(rs) && len(seg[n]) > 0; k++ {
				if same(seg[n], rs[k:]) {
					w.r.Count("files_included_twice", 1)
					return nl(text(rs[:k], 9)) + inc(n) + text(rs[k+len(seg[n]):], 9)
				}
			}
		}
		k := len(rs)
		if depth > 6 || depth > 0 && !deep || depth == 0 && (k < 2 || !deep && rng.Intn(3) > 0) {
			return lay.file(rs)
		}
		i := rng.Intn(k + 1)
		j := i + rng.Intn(k-i+1)
		if deep && j < k {
			j = k
		}
		name := fmt.Sprintf("r%d", 3+len(incs))
		if len(incs) > 1 {
			name = fmt.Sprintf("inc%d.rules", len(incs))
		}
		incs = append(incs, name)
		files[name] = text(rs[i:j], depth+1)
		seg[name] = rs[i:j]
		if depth >= 3 {
			w.r.Count("includes_deeper_than_3", 1)
		}
		return nl(lay.file(rs[:i])) + inc(name) + text(rs[j:], 9)
	}
	n := len(rules)
	k := rng.Intn(n + 1)
	i, m := repeated(rules)
	switch {
	case m > 0 && rng.Intn(4) > 0:
		// one file with what is there twice
		files["r3"] = lay.file(rules[i : i+m])
		files["r1"] = nl(lay.file(rules[:i])) + inc("r3") + lay.file(rules[i+m:n-m])
		if rng.Intn(2) == 0 {
			files["r1"] = nl(files["r1"]) + inc("r3")
			files["r2"] = ""
		} else {
			files["r2"] = inc("r3")
		}
		w.r.Count("files_included_twice", 1)
	default:
		files["r1"] = text(rules[:k], 0)
		files["r2"] = text(rules[k:], 9)
	}
	if rng.Intn(50) == 0 {
		// a long file
		long := strings.Repeat("# "+strings.Repeat("-", 60)+"\n", 1100+rng.Intn(1500))
		f := pick(rng, []string{"r1", "r2"})
		files[f] = long + files[f]
		w.r.Count("rules_files_over_64K", 1)
	}
	for n := range files {
		if n != "r1" && n != "r2" {
			w.write(n, files[n])
		}
	}
	w.write("r2", files["r2"])
	w.write("r1", files["r1"])
	return files
}

// padRules puts rules that never match among others.
func (g *Gen) padRules(rules []*MRule, n int) []*MRule {
	at := 0
	if g.rng.Intn(2) == 0 {
		at = g.rng.Intn(len(rules) + 1)
	}
	res := append([]*MRule{}, rules[:at]...)
	for k := 0; k < n; k++ {
		x := &MRule{Action: pick(g.rng, []string{"accept", "reject", "stall"}), Clauses: []Clause{{}}}
		switch g.rng.Intn(3) {
		case 0:
			x.Clauses[0].Expr = &Node{Op: "ip", Arg: fmt.Sprintf("10.1.%d.%d", g.rng.Intn(200), g.rng.Intn(200))}
		case 1:
			x.Clauses[0].Expr = &Node{Op: "from", Arg: fmt.Sprintf("nobody%d@", g.rng.Intn(200))}
		case 2:
			x.Clauses[0].Expr = &Node{Op: "to", Arg: fmt.Sprintf("@never%d.example", g.rng.Intn(200))}
		}
		res = append(res, x)
	}
	return append(res, rules[at:]...)
}

// twice repeats some rules that stand together.
func (g *Gen) twice(rules []*MRule) []*MRule {
	if len(rules) == 0 {
		return rules
	}
	i := g.rng.Intn(len(rules))
	j := i + 1 + g.rng.Intn(len(rules)-i)
	return append(append([]*MRule{}, rules...), rules[i:j]...)
}

// repeated finds the rules that twice repeated at the end.
func repeated(rules []*MRule) (at, n int) {
	k := len(rules)
	for i := 0; i < k; i++ {
		for j := i + 1; j < k; j++ {
			if rules[i] == rules[j] {
				return i, k - j
			}
		}
	}
	return 0, 0
}

func (w *W) prepRules() {
	for _, n := range []string{"r1", "r2", "r3"} {
		w.write(n, "")
	}
	mkdir(w.path("save"))
}

func c04(r *Run) {
	r.Rule = "one random rule set (1-9 rules over small alphabets, all operators, and/or/not/;/phases/with, pattern files incl. empty and missing ones, two files and an include) and 1-3 random conversations judged reply by reply against the reference model; distinct by rule shapes and verdict sequence"
	r.Assumptions = []string{"the smtpd stand-in sequences commands like the original", "the name judged by rules after a refused second greeting is left open"}
	n := r.N(20000, 150000)
	r.Each("rules", n, 8, func(w *W, i int, rng *rand.Rand) *Fail {
		std := rng.Intn(3) > 0
		key := "std"
		args := []string{"-d", "save", "-r", "r1,r2"}
		if !std {
			key = "nostd"
			args = append(args, "-nostdrules")
		}
		certs := rng.Intn(4) == 0
		if certs {
			key += "tls"
			serverCert().save(w.dir, "srv")
			args = append(args, "-c", "srv.crt", "-k", "srv.key")
		}
		w.prepRules()
		d := w.daemon(key, func() DOpts { return DOpts{Args: args} })
		g, e, t := w.basicGen(rng)
		t.TLS = certs
		if certs {
			g.Ops = append(g.Ops, "tls", "tls")
		}
		if rng.Intn(10) == 0 {
			t.Many = true
			t.Steps = 60 + rng.Intn(80)
			for k := 0; k < 30; k++ {
				t.Tos = append(t.Tos, fmt.Sprintf("many%d@%s.example", k, pick(rng, []string{"x", "y", "z"})))
				if rng.Intn(6) == 0 {
					g.Addrs = append(g.Addrs, fmt.Sprintf("many%d@", k), fmt.Sprintf("many%d@", k))
				}
			}
		}
		e.Lip = d.IP
		if rng.Intn(8) == 0 {
			// rules that can all be decided at connect time
			g.Ops = []string{"all", "ip", "ip", "host", "host", "dns", "dnsbl", "tls"}
		}
		rules := g.rules(1 + rng.Intn(9))
		if t.Many {
			// refuse late because of one recipient of many
			if rng.Intn(2) == 0 {
				rules = []*MRule{{Phase: phTo, Action: "accept", Clauses: []Clause{{Expr: &Node{Op: "all"}}}}}
			}
			for k := 1 + rng.Intn(3); k > 0; k-- {
				ru := &MRule{Phase: phData + rng.Intn(2), Action: pick(rng, []string{"reject", "stall"}), Clauses: []Clause{{Expr: &Node{Op: "to", Arg: fmt.Sprintf("many%d@", rng.Intn(30))}}}}
				rules = append(rules, ru)
			}
		}
		// one in three: steer towards accept-early, refuse-late histories
		if rng.Intn(3) == 0 {
			rules = append([]*MRule{{Phase: phHelo + rng.Intn(2), Action: "accept", Clauses: []Clause{{Expr: &Node{Op: "all"}}}}}, rules...)
		}
		if rng.Intn(30) == 0 {
			rules = g.padRules(rules, 20+rng.Intn(150))
			r.Count("rule_sets_with_many_rules", 1)
		}
		if rng.Intn(12) == 0 {
			rules = g.twice(rules)
		}
		files := w.writeRules(rng, rules, rng.Intn(2) == 0)
		all := rules
		if std {
			all = append(stdRules(), rules...)
		}
		key2 := ""
		for _, ru := range rules {
			key2 += ru.Action + phaseWord[ru.Phase]
			for _, c := range ru.Clauses {
				key2 += "/" + c.Expr.shape()
			}
		}
		for k := 0; k < 1+rng.Intn(3); k++ {
			x, f := w.open(e, all, d.Addr)
			if f == nil {
				f = x.random(rng, t)
			}
			if f != nil {
				x.c.Close()
				f.Detail = map[string]interface{}{"rules": files, "std": std, "conversation": x.c.log, "files": e.Files, "rdns": []interface{}{e.Verified, e.Nofwd, e.Inconsis}}
				return f
			}
			r.Eval(key2 + strings.Join(x.Trace, " "))
			if i < 3 {
				r.Sample(map[string]interface{}{"rules": files["r1"] + "\n--\n" + files["r2"], "conversation": x.c.log})
			}
		}
		return nil
	})
}
