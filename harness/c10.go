package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"
)

func init() { register("C10", "plain", c10) }

// brokenPieces are texts that do not follow the grammar, wherever they stand
// on lines of their own.
var brokenPieces = []string{
	"reject\n", "bogus-%d all\n", "reject from\n", "set-with from x%d@y.example\n", "@from reject to x%d@y.example\n",
	"reject all with\n", "include\n", "include nofile-%d\n", "include ./nodir-%d/x\n", "reject from-has x%d\n", "reject from-has good\n",
	"reject dns bad\n", "reject ip 10.1.%d\n", "reject ip 10.0.0.0/99\n", "reject (all\n", "reject all)\n", "reject all or\n", "reject or all\n",
	"reject not\n", "reject dnsbl nodots%d\n", "reject dbl any nodots%d\n", "reject dbl to x%d.example\n", "reject tls maybe\n",
	"reject all with note a%d note b\n", "reject all with tls-opt maybe%d\n", "reject ()\n", "accept x%d\n", "@from\n", "@bogus reject all\n",
	"reject from-has noat, garbage\n", "all\n", "reject all with message\n", "reject all message \"x\"\n", "reject \"all\"\n",
	"@helo accept tls on\n", "@connect reject helo x%d.example\n", "@data accept all with bogus%d\n", "include r9 r9\n",
	"accept from file:\n", "reject all with make-yakker make-yakker\n", "set-with all with note \"two\nlines %d\"\n",
}

// brokenTails only break a file at its end.
var brokenTails = []string{"reject from \"x%d@y.example\n", "reject all;\n", "reject all ; ", "reject all with message \"x \\\"\n", "accept (all \\\n"}

// filler moves what follows to a place that no other n does.
func filler(n int) string {
	return strings.Repeat("#\n", 12*n)
}

func c10(r *Run) {
	r.Rule = "periods: a history of good and broken states of the rules files (45 sorts of parse error at any place, missing files, directories in place of files, missing and broken includes of includes) with several connections in each, judged by greeting, replies to several HELO/EHLO, the model of the repaired rules and the lines on standard error; keep: connections stay open while the rules and pattern files they use are replaced, emptied, removed and broken and other connections come and go under other rules, each judged by the model of the files it started with; edit: one of several files or included files at a time gets other rules of the same size, with new, old or unchanged times, and the next connection must be judged by them; distinct by (kinds of breakage, verdict sequences)"
	r.Assumptions = []string{"the very same error returning after a repair need not be reported again", "a pattern file counts as in use once the connection has consulted it"}
	flags := [][]string{nil, {"-nostdrules"}, {"-fromreject", "nofile"}, {"-fromreject", "nofile", "-toaccept", "nofile2"}, {"-fromreject", "nofile", "-toaccept", "nofile2", "-heloreject", "nofile3"}, {"-nostdrules", "-toaccept", "nofile2"}}
	rfiles := []string{"r1,r2", "r1,r2,rx", "rx,r1,r2,ry.rules", "ra,rb,rx,ry.rules,r1,r2"} // the others are empty
	base := func(k int) []*MRule {
		var b []*MRule
		if k != 1 && k != 5 {
			b = stdRules()
		}
		return b
	}
	mk := func(w *W, rng *rand.Rand) (*Daemon, int, *Gen, *Env, *Talk) {
		w.prepRules()
		w.write("r4", "")
		w.write("r9", "")
		w.write("rx", "")
		w.write("ry.rules", "")
		w.write("ra", "")
		w.write("rb", "")
		mkdir(w.path("rules.d"))
		k := rng.Intn(len(flags))
		d := w.daemon(fmt.Sprint(k), func() DOpts {
			return DOpts{Args: append([]string{"-d", "save", "-r", rfiles[k%len(rfiles)]}, flags[k]...)}
		})
		g, e, t := w.basicGen(rng)
		e.Lip = d.IP
		t.Steps = 4 + rng.Intn(8)
		return d, k, g, e, t
	}
	r.Each("periods", r.N(3000, 15000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		d, k, g, e, t := mk(w, rng)
		var hist []string
		det := func(f *Fail, x *Conv) *Fail {
			m := map[string]interface{}{"history": hist, "args": d.Args, "stderr": tailS(d.Stderr(), 1500), "more": f.Detail}
			for _, n := range []string{"r1", "r2", "r3", "r4"} {
				m[n] = readFile(w.path(n))
			}
			if x != nil {
				x.c.Close()
				m["conversation"] = x.c.log
			}
			f.Detail = m
			return f
		}
		restore := func() {
			for _, n := range []string{"r1", "r2", "r3", "r4", "ra", "rb", "rx", "ry.rules", "rules.d/more.inc"} {
				if st, err := os.Lstat(w.path(n)); err == nil && st.IsDir() {
					os.Remove(w.path(n))
				}
			}
			for _, n := range []string{"ra", "rb", "rx", "ry.rules"} {
				w.write(n, "")
			}
		}
		defer func() {
			restore()
		}()
		sig := ""
		for p := 2 + rng.Intn(4); p > 0; p-- {
			rules := g.rules(1 + rng.Intn(6))
			restore()
			w.write("r4", "")
			if rng.Intn(6) == 0 {
				rules = g.twice(rules)
			}
			w.writeRules(rng, rules, false)
			if rng.Intn(3) == 0 {
				hist = append(hist, "good")
				for c := 1 + rng.Intn(2); c > 0; c-- {
					x, f := w.open(e, append(base(k), rules...), d.Addr)
					if f == nil {
						f = x.random(rng, t)
					}
					if f != nil {
						return det(f, x)
					}
					sig += strings.Join(x.Trace, " ")
					r.Count("good_sessions", 1)
				}
				continue
			}
			// break something
			w.n++
			uniq := w.n
			victim := pick(rng, []string{"r1", "r2"})
			if l := strings.Split(rfiles[k%len(rfiles)], ","); rng.Intn(3) == 0 {
				victim = pick(rng, l)
			}
			inc := pick(rng, []string{"r3", "r3", "rules.d/more.inc"})
			judge := true
			kind := ""
			piece := func() string {
				q := pick(rng, brokenPieces)
				kind = "parse: " + q
				if strings.Contains(q, "%d") {
					q = fmt.Sprintf(q, 1000+uniq)
				}
				// something that makes the error's place unique
				return filler(uniq) + q
			}
			brk := func(file string) {
				s := readFile(w.path(file))
				if s != "" && !strings.HasSuffix(s, "\n") {
					s += "\n"
				}
				if rng.Intn(5) == 0 {
					q := pick(rng, brokenTails)
					kind = "tail: " + q
					if strings.Contains(q, "%d") {
						q = fmt.Sprintf(q, 1000+uniq)
					}
					s += filler(uniq) + q
				} else {
					// before, after or between rule lines
					rl := ""
					var ls []string
					for j, ru := range rules {
						if j%2 == 0 {
							ls = append(ls, (&Layout{rng: rng}).rule(ru)+"\n")
						}
					}
					ls = append(ls, "accept all\n")
					at := rng.Intn(len(ls) + 1)
					for j, l := range ls {
						if j == at {
							rl += piece()
						}
						rl += l
					}
					if at == len(ls) {
						rl += piece()
					}
					s = rl
				}
				w.write(file, s)
			}
			switch rng.Intn(8) {
			case 0:
				os.Remove(w.path(victim))
				kind = "missing"
				judge = false
			case 1:
				os.Remove(w.path(victim))
				mkdir(w.path(victim))
				kind = "directory"
				judge = false
			case 2:
				w.write(victim, "accept all\ninclude "+inc+"\n"+readFile(w.path(victim)))
				w.write(inc, "")
				brk(inc)
				kind = "include " + kind
			case 3:
				w.write(victim, "accept all\ninclude "+inc+"\n")
				w.write(inc, "reject from x@y.example\ninclude ./r4\naccept all\n")
				brk("r4")
				kind = "include of include " + kind
			case 4:
				os.Remove(w.path(inc))
				kind = "include missing"
				if rng.Intn(2) == 0 {
					mkdir(w.path(inc))
					kind = "include directory"
				}
				w.write(victim, filler(uniq)+"include "+inc+"\naccept all\n")
				judge = false
			default:
				brk(victim)
			}
			hist = append(hist, kind)
			r.Seen("breakage", kind)
			before := len(d.Stderr())
			n := 1 + rng.Intn(4)
			var held []*Client
			for c := 0; c < n; c++ {
				cl := mustDial(e.Rip, d.Addr)
				defer cl.Close()
				r.Count("sessions", 1)
				x := &Conv{r: r, c: cl}
				if rep := cl.Read(); rep.Code != 220 {
					return det(failf(nil, "broken rules (%s): no greeting: %s", kind, rep), x)
				}
				for j := 1 + rng.Intn(3); j > 0; j-- {
					if rep := cl.Cmdf("%s %s", pick(rng, []string{"EHLO", "HELO", "ehlo"}), pick(rng, t.Helos)); rep.Class() != 4 {
						return det(failf(nil, "broken rules (%s): HELO/EHLO answered %s", kind, rep), x)
					}
					r.Count("stalled_greetings", 1)
				}
				if rep := cl.Cmd("MAIL FROM:<" + pick(rng, t.Froms) + ">"); rep.Err != nil || rep.Class() == 2 {
					return det(failf(nil, "broken rules (%s): MAIL FROM answered %s", kind, rep), x)
				}
				held = append(held, cl)
			}
			// repaired meanwhile: these connections keep their verdict
			if rng.Intn(2) == 0 {
				restore()
				w.writeRules(rng, rules, false)
				x, f := w.open(e, append(base(k), rules...), d.Addr)
				if f == nil {
					f = x.random(rng, t)
				}
				if f != nil {
					return det(f, x)
				}
				r.Count("good_sessions", 1)
				for _, cl := range held {
					if rep := cl.Cmdf("EHLO %s", pick(rng, t.Helos)); rep.Class() != 4 {
						return det(failf(nil, "a connection made while the rules were broken (%s): EHLO answered %s after the repair", kind, rep), &Conv{c: cl})
					}
				}
			}
			for _, cl := range held {
				if err := cl.Quit(); err != nil {
					return det(failf(nil, "QUIT: %v", err), &Conv{c: cl})
				}
			}
			if judge {
				if !waitFor(10*time.Second, func() bool { return len(d.Stderr()) > before }) {
					return det(failf(nil, "broken rules (%s): nothing on standard error", kind), nil)
				}
				if n > 1 {
					seen := map[string]bool{}
					for _, l := range lines(d.Stderr()[before:]) {
						if l != "" && seen[l] {
							return det(failf(nil, "broken rules (%s), %d connections: reported more than once: %s", kind, n, l), nil)
						}
						seen[l] = true
					}
					r.Count("dedup_judged", 1)
				}
				r.Count("reports_seen", 1)
			}
			sig += kind + fmt.Sprint(n)
		}
		r.Eval(sig)
		if i < 2 {
			r.Sample(map[string]interface{}{"history": hist})
		}
		return nil
	})
	r.Each("edit", r.N(2000, 10000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		// one file at a time changes, however little shows of that
		w.prepRules()
		mkdir(w.path("rules.d"))
		d := w.daemon("edit", func() DOpts {
			return DOpts{Args: []string{"-d", "save", "-nostdrules", "-r", "r1,r2"}}
		})
		names := []string{"r1", "r2", "r3", "rules.d/r4"}
		who := []string{"a@x.example", "b@x.example", "c@x.example", "d@x.example"}
		// each file decides about its own sender
		verdict := map[string]int{}
		text := func(n string, v int) string {
			s := fmt.Sprintf("@from %s from %s\n", []string{"", "", "accept", "", "stall ", "reject"}[v], who[indexOf(names, n)])
			switch n {
			case "r1":
				return "include r3\n" + s
			case "r3":
				return s + "include rules.d/r4\n"
			}
			return s
		}
		put := func(n string) string {
			old := verdict[n]
			for verdict[n] == old {
				verdict[n] = []int{2, 4, 5}[rng.Intn(3)]
			}
			s := text(n, verdict[n])
			how := pick(rng, []string{"in place", "renamed", "same times", "older"})
			st, err := os.Stat(w.path(n))
			switch how {
			case "renamed":
				os.WriteFile(w.path("new"), []byte(s), 0644)
				if err == nil && rng.Intn(2) == 0 {
					os.Chtimes(w.path("new"), st.ModTime(), st.ModTime())
				}
				os.Rename(w.path("new"), w.path(n))
			default:
				os.WriteFile(w.path(n), []byte(s), 0644)
				if err == nil && how == "same times" {
					os.Chtimes(w.path(n), st.ModTime(), st.ModTime())
				}
				if how == "older" {
					t := time.Now().Add(-time.Duration(rng.Intn(1000)) * time.Hour)
					os.Chtimes(w.path(n), t, t)
				}
			}
			return n + " " + how
		}
		for k := len(names) - 1; k >= 0; k-- {
			put(names[k])
		}
		var hist []string
		for k := 2 + rng.Intn(6); k >= 0; k-- {
			c := mustDial(anySrc(), d.Addr)
			r.Count("sessions", 1)
			c.Read()
			f := func() *Fail {
				if rep := c.Cmd("EHLO h.example"); rep.Class() != 2 {
					return failf(nil, "EHLO: %s", rep)
				}
				for j, n := range names {
					rep := c.Cmdf("MAIL FROM:<%s>", who[j])
					if rep.Class() != verdict[n] {
						return failf(nil, "%s says %q when the client connects, MAIL FROM:<%s> is answered %s", n, strings.TrimSpace(text(n, verdict[n])), who[j], rep)
					}
					if rep.Class() == 2 {
						c.Cmd("RSET")
					}
				}
				if err := c.Quit(); err != nil {
					return failf(nil, "QUIT: %v", err)
				}
				return nil
			}()
			c.Close()
			if f != nil {
				f.Detail = map[string]interface{}{"edits": hist, "verdicts": verdict, "conversation": c.log, "stderr": tailS(d.Stderr(), 500)}
				return f
			}
			h := put(pick(rng, names))
			hist = append(hist, h)
			r.Seen("edits", h)
		}
		r.Eval(fmt.Sprint("edit", hist))
		return nil
	})
	r.Each("keep", r.N(3500, 20000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		d, k, g, e0, t := mk(w, rng)
		os.Remove(w.path("fnone"))
		var hist []string
		type open struct {
			x     *Conv
			files map[string]string
			rng   *rand.Rand
		}
		var xs []*open
		defer func() {
			for _, o := range xs {
				o.x.c.Close()
			}
		}()
		fail := func(f *Fail, o *open) *Fail {
			f.Detail = map[string]interface{}{"history": hist, "args": d.Args, "rules of this connection": o.files, "pattern files": o.x.m.E.Files, "conversation": o.x.c.log, "more": f.Detail}
			return f
		}
		patch := rng.Intn(2) == 0 // change pattern files, too
		addrs, hosts, ips := g.Addrs, g.Hosts, g.IPs
		consulted := func(files map[string][]string) []*MRule {
			var hd []*MRule
			sw := func(op, arg string) {
				hd = append(hd, &MRule{Action: "set-with", Clauses: []Clause{{Expr: &Node{Op: op, Arg: arg}, With: []With{{"note", "consulted"}}}}})
			}
			for _, f := range w.fileArgs("fa") {
				sw("from", f)
			}
			for _, f := range w.fileArgs("fh") {
				sw("helo", f)
			}
			for _, f := range w.fileArgs("fi") {
				sw("ip", f)
			}
			for _, f := range []string{"./fe", "file:fnone"} {
				sw("ip", f)
			}
			return hd
		}
		// phase reached by the connection that got least far, of those open
		steps := 6 + rng.Intn(14)
		ri := 1
		sig := ""
		fresh := func() *Fail {
			e := *e0
			if patch {
				e.Files = w.filesFor(rng, addrs, hosts, ips)
			}
			os.Remove(w.path("fnone"))
			rules := g.rules(1 + rng.Intn(6))
			if patch {
				rules = append(consulted(e.Files), rules...)
			}
			o := &open{rng: rng}
			o.files = w.writeRules(rng, rules, false)
			x, f := w.open(&e, append(base(k), rules...), d.Addr)
			o.x = x
			hist = append(hist, fmt.Sprintf("connection %d", ri))
			ri++
			xs = append(xs, o)
			if f != nil {
				return fail(f, o)
			}
			// a greeting and a sender, so that the files were consulted
			if !x.Gone {
				if f := x.helo("EHLO", pick(rng, t.Helos)); f != nil {
					return fail(f, o)
				}
				if x.m.State == "helo" {
					if f := x.mail(pick(rng, t.Froms)); f != nil {
						return fail(f, o)
					}
				}
			}
			return nil
		}
		if f := fresh(); f != nil {
			return f
		}
		for ; steps > 0; steps-- {
			allFrom := true
			for _, o := range xs {
				if !o.x.Gone && !strings.Contains(strings.Join(o.x.Trace, " "), "@from") {
					allFrom = false
				}
			}
			switch c := rng.Intn(8); {
			case c == 0 && len(xs) < 4 && (!patch || allFrom):
				if f := fresh(); f != nil {
					return f
				}
				continue
			case c == 1:
				// change the rules behind the connections' backs
				switch rng.Intn(4) {
				case 0:
					os.Remove(w.path("r1"))
					hist = append(hist, "r1 removed")
				case 1:
					w.write(pick(rng, []string{"r1", "r2"}), "reject all\nbroken\n")
					hist = append(hist, "broken")
				case 2:
					w.write("r1", "@helo accept all\nreject all\n")
					w.write("r2", "accept all\n")
					hist = append(hist, "other rules")
				case 3:
					w.write("r1", "")
					w.write("r2", "")
					hist = append(hist, "empty")
				}
				// someone else connects under these
				cl := mustDial(pick(rng, []string{e0.Rip, "127.2.3.9"}), d.Addr)
				cl.Read()
				cl.Cmd("EHLO other.example")
				if rng.Intn(2) == 0 {
					cl.Cmd("MAIL FROM:<o@x.example>")
				}
				if rng.Intn(2) == 0 {
					cl.Quit()
				} else {
					cl.Close()
				}
				r.Count("intrusions", 1)
				continue
			case c <= 3 && allFrom && patch:
				switch rng.Intn(3) {
				case 0:
					n := pick(rng, []string{"fa", "fh", "fi"})
					os.Remove(w.path(n))
					hist = append(hist, n+" removed")
				case 1:
					w.write("fe", "a@x.example\n@\n.example\n0.0.0.0/0\n")
					w.write("fnone", "a@x.example\n@\n.example\n0.0.0.0/0\n")
					hist = append(hist, "fe, fnone filled")
				case 2:
					w.filesFor(rng, addrs, hosts, ips)
					hist = append(hist, "pattern files rewritten")
				}
				r.Count("pattern_file_changes", 1)
				continue
			}
			o := xs[rng.Intn(len(xs))]
			if o.x.Gone {
				continue
			}
			before := len(o.x.Trace)
			if f := o.x.step(rng, t); f != nil {
				return fail(f, o)
			}
			if len(o.x.Trace) > before {
				r.Count("judged_after_changes", 1)
			}
		}
		for _, o := range xs {
			if o.x.m.State == "data" {
				if f := o.x.body(simpleBody(rng)); f != nil {
					return fail(f, o)
				}
			}
			if f := o.x.quit(); f != nil {
				return fail(f, o)
			}
			sig += strings.Join(o.x.Trace, " ") + "|"
		}
		r.Eval(sig + strings.Join(hist, ","))
		if i < 2 {
			r.Sample(map[string]interface{}{"history": hist, "traces": sig})
		}
		return nil
	})
}
