package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func init() { register("C11", "plain", c11) }

var lineNo = regexp.MustCompile(`line (\d+)`)

var caseSeq int64

var srcSeq int64

// anySrc is a source address for clients whose address does not matter.
func anySrc() string {
	n := atomic.AddInt64(&srcSeq, 1)
	return fmt.Sprintf("127.%d.%d.%d", 3+(n/40000)%10, 1+(n/200)%200, 1+n%200)
}

// probe asks the daemon what it thinks of r1 (loaded after a file that
// accepts every greeting).
func (w *W) probe(d *Daemon, inc bool, text string) (ok bool, errtext string, f *Fail) {
	name := "r1"
	if inc {
		name = fmt.Sprintf("case-%d.rules", atomic.AddInt64(&caseSeq, 1))
		w.write("r1", "include "+name+"\n")
	}
	w.write(name, text)
	before := len(d.Stderr())
	c := mustDial(anySrc(), d.Addr)
	defer c.Quit()
	if rep := c.Read(); rep.Code != 220 {
		return false, "", failf(c.log, "no greeting: %s", rep)
	}
	rep := c.Cmd("EHLO h.example")
	switch rep.Class() {
	case 2:
		return true, "", nil
	case 4:
		if inc {
			waitFor(10*time.Second, func() bool { return strings.Contains(d.Stderr()[before:], name) })
			errtext = d.Stderr()[before:]
		}
		return false, errtext, nil
	}
	return false, "", failf(c.log, "EHLO: %s", rep)
}

var vocab = strings.Fields("include @connect @helo @from @to @data @message accept reject stall set-with or not all from to helo ehlo host from-has to-has helo-has tls dns ip dnsbl source dbl with message note savedir tls-opt make-yakker none bogus nodots bareip properip myip remip otherip nodns inconsistent noforward unqualified route quoted noat garbage resolves baddom unknown bad on off good exists any no-client ( ) , ; x a@b @.c.example 10.0.0.1 10.0.0.0/8 ::1 10.0.0/8 /etc/none ./f file:f file: bl.example. nodots-zone \"q\\ s\" \"\" \"two\\nlines\" NL NL2 CONT #x noat,bad host,from")

func vword(rng *rand.Rand) string {
	v := pick(rng, vocab)
	switch v {
	case "NL":
		return "\n"
	case "NL2":
		return "\n\n# c\n"
	case "CONT":
		return " \\\n "
	case `"two\nlines"`:
		return "\"two\nlines\""
	}
	return v
}

// validGen prints a valid file with every part of the language in it.
func (w *W) langGen(rng *rand.Rand) *Gen {
	g := &Gen{rng: rng, Addrs: []string{"a@b.example", "@", "@.x", "<>", "or", "with", "from", "a b", "q\"r\\s", "", "x#y", "accept"},
		Hosts: []string{"h.example", ".example", "not", "helo", "h h", "(", ";", ","}, IPs: []string{"10.0.0.1", "10.0.0.0/8", "::1", "fe80::/10"},
		Zones: []string{"bl.example.", "bl.example"}, MaxDepth: 3,
		Files: []string{"./f", "file:f", "/nonexistent/f"}, HFiles: []string{"./f", "file:f"}, IFiles: []string{"./f", "file:f"},
		Ops: strings.Fields("all from to helo ehlo host ip source from-has to-has helo-has dns dnsbl dbl tls"),
	}
	for k := range gAAttrs {
		g.AAttrs = append(g.AAttrs, k)
	}
	for k := range gHAttrs {
		g.HAttrs = append(g.HAttrs, k)
	}
	for k := range gDAttrs {
		g.DAttrs = append(g.DAttrs, k)
	}
	sortStrings(g.AAttrs, g.HAttrs, g.DAttrs)
	g.Withs = func(g *Gen) []With {
		var ws []With
		if rng.Intn(2) == 0 {
			return nil
		}
		for _, x := range []With{{"message", pick(rng, []string{"m", "two\nlines", "q\"\\", "with", " "})}, {"note", pick(rng, []string{"n", "note", "; \" x"})},
			{"savedir", pick(rng, []string{"save", "./save"})}, {"tls-opt", pick(rng, []string{"off", "no-client"})}, {"make-yakker", ""}} {
			if rng.Intn(3) == 0 {
				ws = append(ws, x)
			}
		}
		rng.Shuffle(len(ws), func(a, b int) { ws[a], ws[b] = ws[b], ws[a] })
		return ws
	}
	return g
}

func c11(r *Run) {
	r.Rule = "texts: printed random rule sets in odd layouts, those after 1-3 token or character edits, and random token strings, each loaded by a connecting client: accepted or refused is compared with an independent recogniser of the documented grammar, and the reported line with the extent of the faulty rule; strings: random quoted strings compared with the text they produce; layout: one rule set printed in several layouts, all judged by one model; distinct by token-kind sequence and verdict"
	r.Assumptions = []string{"left open: punctuation as an argument, quoted file names for ip, repeated empty options, the doc's 'remoteip'", "for a rule over several lines any of its lines may be named"}
	mk := func(w *W) *Daemon {
		w.write("r0", "@connect accept all\n@helo accept all\n")
		w.write("r1", "")
		w.write("f", "a@b.example\n")
		w.write("inc1", "accept from i1@x.example\n")
		return w.daemon("d", func() DOpts { return DOpts{Args: []string{"-force-receive", "-r", "r0,r1", "-nostdrules"}} })
	}
	incs := map[string]string{"inc1": "accept all\n", "./inc1": "accept all\n", "/dev/null": ""} // what the names that exist stand for
	r.Each("texts", r.N(35000, 250000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		d := mk(w)
		g := w.langGen(rng)
		var text string
		kind := rng.Intn(13)
		switch {
		case kind < 3: // valid
			text = (&Layout{rng: rng, Wild: true}).file(g.rules(1 + rng.Intn(4)))
			if rng.Intn(4) == 0 {
				text = pick(rng, []string{"include inc1\n", "include \"./inc1\"\n", " include \\\n /dev/null\n", "\\\n\n#x\n", "\n\n"}) + text
			}
		case kind < 7: // edited
			text = (&Layout{rng: rng, Wild: rng.Intn(2) == 0}).file(g.rules(1 + rng.Intn(3)))
			for k := 1 + rng.Intn(2); k > 0; k-- {
				text = editText(rng, text)
			}
		case kind < 8 && rng.Intn(5) == 0: // includes
			text = "include " + pick(rng, []string{"inc1", "\"./inc1\"", "/dev/null", "\\\n inc1", "nofile-x"})
			for k := rng.Intn(3); k > 0; k-- {
				text += " " + vword(rng)
			}
			text = pick(rng, []string{"", "@from ", "accept all\n", "# c\n\n", "reject all; ", "accept "}) + text + pick(rng, []string{"", "\n", "\nreject all\n"})
		case kind >= 10: // one thing wrong, or all but wrong
			text = nearMiss(rng, g)
		case kind < 9: // one rule, few tokens
			n := 1 + rng.Intn(6)
			var ws []string
			if rng.Intn(2) == 0 {
				ws = append(ws, pick(rng, []string{"reject", "accept", "@from reject", "set-with", "@to stall", "include"}))
			}
			for k := 0; k < n; k++ {
				ws = append(ws, vword(rng))
			}
			text = strings.Join(ws, " ")
			if rng.Intn(3) == 0 {
				text += "\n"
			}
			if rng.Intn(3) == 0 {
				text = "# comment\n\naccept all\n" + text
			}
		default: // characters
			const cs = "all from\"\\\n\t ,;()#@/.x or not with \n"
			b := []byte("reject ")
			for k := rng.Intn(14); k > 0; k-- {
				b = append(b, cs[rng.Intn(len(cs))])
			}
			text = string(b)
		}
		if rng.Intn(15) == 0 {
			// far down in the file
			text = strings.Repeat(pick(rng, []string{"\n", "# c\n", "accept from \"a\nb\"\n", "reject from x@y.example \\\n  to z@y.example\n"}), 20+rng.Intn(400)) + text
			r.Count("texts_far_down", 1)
		}
		if strings.Contains(text, "include") {
			// only names that certainly exist or not
			for _, m := range regexp.MustCompile(`include\b[ \t\\\n]+"?([^ \t\n"();,]*)`).FindAllStringSubmatch(text, -1) {
				if _, ok := incs[m[1]]; !ok && len(m[1]) > 0 && m[1] != "nofile-x" {
					text = strings.Replace(text, "include", "reject", -1)
					break
				}
			}
		}
		p := recognise(text, incs)
		sig := ""
		for _, t := range glex(text) {
			if t.k == 'w' && gKeys[t.v] {
				sig += t.v + " "
			} else {
				sig += string(t.k)
			}
		}
		if p.Open {
			r.Count("left_open", 1)
			return nil
		}
		ok, et, f := w.probe(d, true, text)
		det := map[string]interface{}{"rules": text, "stderr": et}
		if f != nil {
			f.Detail = map[string]interface{}{"rules": text, "more": f.Detail}
			return f
		}
		if ok != p.OK {
			if p.OK {
				return failf(det, "a valid rules file is refused: %q: %s", text, strings.TrimSpace(et))
			}
			return failf(det, "an invalid rules file is accepted (error in the rule at lines %d-%d): %q", p.First, p.Last, text)
		}
		if ok {
			r.Count("accepted", 1)
		} else {
			r.Count("refused", 1)
			m := lineNo.FindAllStringSubmatch(et, -1)
			if len(m) == 0 {
				return failf(det, "no line number in the error message: %q", et)
			}
			n, _ := strconv.Atoi(m[len(m)-1][1])
			if p.First == p.Last {
				r.Count("exact_lines", 1)
			}
			if n < p.First || n > p.Last {
				return failf(det, "error reported for line %d, it is on line %d-%d: %q", n, p.First, p.Last, text)
			}
		}
		r.Eval(fmt.Sprint(ok, sig))
		if i < 3 {
			r.Sample(map[string]interface{}{"text": text, "accepted": ok, "error": et})
		}
		return nil
	})
	r.Each("strings", r.N(2500, 30000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		d := mk(w)
		// many strings at once, told apart by the sender
		var b strings.Builder
		var want []string
		for k := 0; k < 10; k++ {
			const cs = "ab\\\\\\\"\"\n #;(),%x\xe9with"
			var raw []byte
			for j := 1 + rng.Intn(12); j > 0; j-- {
				raw = append(raw, cs[rng.Intn(len(cs))])
			}
			// write it down: backslashes are escaped if they must be, or by chance
			s := strings.TrimRight("m"+string(raw), "\n ") + "z"
			q := `"`
			for j := 0; j < len(s); j++ {
				switch {
				case s[j] == '"':
					q += `\"`
				case s[j] == '\\' && (s[j+1] == '"' || s[j+1] == '\\' || rng.Intn(2) == 0):
					q += `\\`
				default:
					q += string(s[j : j+1])
				}
			}
			q += `"`
			want = append(want, s)
			fmt.Fprintf(&b, "@from reject from s%d@x.example with message %s\n", k, q)
		}
		w.write("r1", b.String())
		c := mustDial(anySrc(), d.Addr)
		defer c.Close()
		c.Read()
		if rep := c.Cmd("EHLO h.example"); rep.Class() != 2 {
			return failf(map[string]interface{}{"rules": b.String(), "stderr": tailS(d.Stderr(), 500)}, "a valid file of quoted strings is refused: %s", rep)
		}
		for k, s := range want {
			if k == 5 {
				c.Quit()
				c = mustDial(anySrc(), d.Addr)
				defer c.Close()
				c.Read()
				c.Cmd("EHLO h.example")
			}
			rep := c.Cmdf("MAIL FROM:<s%d@x.example>", k)
			if rep.Class() != 5 || rep.Text() != s {
				return failf(map[string]interface{}{"rules": b.String(), "reply": rep.String()}, "quoted string %q came out as %q", s, rep.Text())
			}
			r.Eval("string " + s)
		}
		return nil
	})
	r.Each("layout", r.N(1500, 20000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.prepRules()
		d := w.daemon("lay", func() DOpts { return DOpts{Args: []string{"-d", "save", "-r", "r1,r2", "-nostdrules"}} })
		g, e, t := w.basicGen(rng)
		e.Lip = d.IP
		g.MaxDepth = 3
		rules := g.rules(1 + rng.Intn(5))
		sig := ""
		for k := 0; k < 3; k++ {
			files := w.writeRules(rng, rules, k > 0)
			x, f := w.open(e, rules, d.Addr)
			if f == nil {
				f = x.random(rng, t)
			}
			if f != nil {
				x.c.Close()
				f.Detail = map[string]interface{}{"rules": files, "plain layout": (&Layout{rng: rng}).file(rules), "conversation": x.c.log}
				return f
			}
			sig += strings.Join(x.Trace, " ")
			r.Count("layouts", 1)
		}
		r.Eval("layout " + sig)
		return nil
	})
}

// nearMiss puts a doubtful construct, one for every clause of the grammar,
// between valid rules.
func nearMiss(rng *rand.Rand, g *Gen) string {
	l := &Layout{rng: rng, Wild: rng.Intn(2) == 0}
	e := func() string { return l.node(g.expr(rng.Intn(3)), 0) }
	act := pick(rng, []string{"accept", "reject", "stall"})
	if rng.Intn(3) == 0 {
		act = pick(rng, []string{"@message ", "@message ", "@to ", "@connect "}) + act
	}
	opt := func() string {
		return pick(rng, []string{"message m", "message \"a b\"", "note n", "savedir save", "tls-opt off", "tls-opt no-client", "make-yakker", "note \"two\nlines\"", "message \"two\nlines\"", "note \"\"", "tls-opt on", "tls-opt \"off\"", "message with"})
	}
	sp := func() string { return l.ws() }
	join := func(w ...string) string {
		s := w[0]
		for _, x := range w[1:] {
			s += sp() + x
		}
		return s
	}
	var s string
	switch rng.Intn(16) {
	case 0, 1: // options, often repeated
		s = join(act, e(), "with")
		for k := 1 + rng.Intn(4); k > 0; k-- {
			s += sp() + opt()
		}
		if rng.Intn(3) == 0 {
			s += sp() + "with" + sp() + opt()
		}
	case 2: // clauses and their ends
		s = join(act, e())
		for k := 1 + rng.Intn(3); k > 0; k-- {
			s += pick(rng, []string{";", " ;", " ; ", ";\n", "; \n\n", ";\n# c\n", ";\\\n", ";;"}) + e()
		}
		s += pick(rng, []string{"", ";", " ;\n", ";\n\n", "; \n# c\n", ";\\\n"})
	case 3: // include and more
		s = join("include", pick(rng, []string{"inc1", "\"./inc1\"", "/dev/null", "nofile-x"}), pick(rng, []string{"reject all", "x", ";", "inc1", "include inc1", "#c", "\\\n", "with note x", ""}))
	case 4: // keywords in the wrong case
		s = join(act, e(), "with", opt())
		w := pick(rng, strings.Fields(s))
		if !strings.ContainsAny(w, "\"\\") {
			s = strings.Replace(s, w, pick(rng, []string{strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:]}), 1)
		}
	case 5: // keywords in quotes
		s = join(act, e(), pick(rng, []string{"or", "not", "", ""}), e(), "with", opt())
		w := pick(rng, strings.Fields(s))
		if !strings.ContainsAny(w, "\"\\") {
			s = strings.Replace(s, w, "\""+w+"\"", 1)
		}
	case 6: // or, not and what they need
		s = join(act, pick(rng, []string{"", "or", "not", e(), e(), "not not"}), pick(rng, []string{"or", "not", "or not", "or or", "not or", ""}), pick(rng, []string{"", "or", "not", e(), e(), "with " + opt(), "; " + e(), "(" + e() + " or)", ")"}))
		if rng.Intn(2) == 0 {
			s = join(act, e(), pick(rng, []string{"or", "or", "not", "or not"}), pick(rng, []string{"", "with " + opt(), "; " + e(), ")", "\n" + e(), "all"}))
		}
	case 7: // parentheses
		s = join(act, strings.Repeat("(", rng.Intn(3)), pick(rng, []string{e(), e(), ""}), strings.Repeat(")", rng.Intn(3)), pick(rng, []string{"", "", e(), "()", "("}))
		if rng.Intn(4) == 0 {
			s = join(act, "(", e(), "with", opt(), ")")
		}
	case 8: // set-with
		s = join("set-with", e(), pick(rng, []string{"", "with " + opt()}), pick(rng, []string{"", "; " + e(), "; " + e() + " with " + opt()}))
	case 9: // phases
		s = join(pick(rng, []string{"@connect", "@helo", "@from", "@to", "@data", "@message", "@Message", "@rcpt"}), pick(rng, []string{"reject", "accept", "set-with", "@from reject", "", "all"}), e(), pick(rng, []string{"", "; " + e()}))
		if strings.Contains(s, "set-with") {
			s += " with note n"
		}
	case 10: // option lists
		op := pick(rng, []string{"from-has", "to-has", "helo-has", "dns"})
		all := append(append(append([]string{}, g.AAttrs...), g.HAttrs...), g.DAttrs...)
		mine := map[string][]string{"from-has": g.AAttrs, "to-has": g.AAttrs, "helo-has": g.HAttrs, "dns": g.DAttrs}[op]
		s = join(act, op, pick(rng, mine))
		for k := rng.Intn(3); k > 0; k-- {
			from := mine
			if rng.Intn(4) == 0 {
				from = all
			}
			s += pick(rng, []string{",", ",", ",", ", ", " ,", ",,", " "}) + pick(rng, from)
		}
		s += pick(rng, []string{"", "", "", ",", " all", " with note n", ",\n"})
	case 11: // addresses
		s = join(act, "ip", pick(rng, []string{"10.0.0.1", "10.0.0.256", "10.0.0.0/32", "10.0.0.0/33", "10.0.0", "10.1.2.3/8", "::1", "::1/129", "::g", "1::2::3", "fe80::/10", "localhost", "./f", "file:f", "/x", "all", "1.2.3.4/", "1.2.3.4.", ".1.2.3.4", "1.2.3.4 ", "1.2.3.4/24/", "1.2.3.4/-1", "1.2.3/24", "1.2.3.4,1.2.3.5", "::1::", "::ffff:1.2.3.4", "[::1]", "1.2.3.4:25", "0x1.2.3.4", "16909060", "1.2.3.4-1.2.3.9", "1.2.3.*", "/8", "010.0.0.1", "1.2.3.4.5", "\"10.0.0.1\"", "\"10.0.0.0/8\"", "\"\""}))
	case 12: // zones
		s = join(act, pick(rng, []string{"dnsbl", "dnsbl", "dbl any", "dbl host,from", "dbl", "dbl to", "dbl helo,", "dbl any,any"}), pick(rng, []string{"bl.example", "bl.example.", "nodots", ".", "./f", "file:f", "\"bl.example\"", "\"no dots\"", "from", "all", ""}))
	case 13: // tls
		s = join(act, "tls", pick(rng, []string{"on", "off", "On", "\"on\"", "yes", "", "on off", "on,off", "not on"}))
	case 14: // arguments
		s = join(act, pick(rng, []string{"from", "to", "helo", "ehlo", "host", "source"}), pick(rng, []string{"", "or", "not", "all", "with", "\"\"", "x y", "file:", "file:f", "\"unclosed", "\"a\"b\"", "a\"b", "x # c", "\\x", "\\", "@from"}), pick(rng, []string{"", "", "all"}))
	case 15: // actions
		s = join(pick(rng, []string{"accept reject", "all", "Accept", "", "with note x", "reject-all", "accept with note x", "reject with", "or all", "; all", "include", "@from", "#"}), e())
	}
	pre := ""
	for k := rng.Intn(3); k > 0; k-- {
		pre += pick(rng, []string{"accept all\n", "# c\n", "\n", "reject from \"x\ny\"\n", "stall from a@b \\\n  to c@d\n", "set-with all with note x\n"})
	}
	return pre + s + pick(rng, []string{"", "\n", "\n", "\naccept all\n", "\n\n# c\n", " \\\n"})
}

// editText makes one small change.
func editText(rng *rand.Rand, s string) string {
	if s == "" {
		return vword(rng)
	}
	if rng.Intn(3) == 0 {
		// characters
		i := rng.Intn(len(s))
		const cs = "\"\\\n\t ,;()#@/x"
		c := string(cs[rng.Intn(len(cs))])
		switch rng.Intn(3) {
		case 0:
			return s[:i] + s[i+1:]
		case 1:
			return s[:i] + c + s[i:]
		}
		return s[:i] + c + s[i+1:]
	}
	// tokens with what separates them
	ts := regexp.MustCompile(`"(\\.|[^"\\])*"|[ \t]+|\n|[(),;]|[^ \t\n(),;"]+|"`).FindAllString(s, -1)
	i := rng.Intn(len(ts))
	switch rng.Intn(5) {
	case 0: // delete
		ts = append(ts[:i:i], ts[i+1:]...)
	case 1: // duplicate
		ts = append(ts[:i+1:i+1], append([]string{" "}, ts[i:]...)...)
	case 2: // replace
		ts[i] = vword(rng)
	case 3: // insert
		ts = append(ts[:i:i], append([]string{" " + vword(rng) + " "}, ts[i:]...)...)
	case 4: // swap
		j := rng.Intn(len(ts))
		ts[i], ts[j] = ts[j], ts[i]
	}
	return strings.Join(ts, "")
}
