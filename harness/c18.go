package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
)

func init() { register("C18", "plain", c18) }

// optRules are the rules the command line options stand for.
func optRules(std, m bool, fromf, tof, helof string) []*MRule {
	var res []*MRule
	if std {
		res = stdRules()
	}
	if m {
		res = append(res, &MRule{Phase: phMessage, Action: "reject", Clauses: []Clause{{Expr: &Node{Op: "all"}}}})
	}
	if fromf != "" {
		res = append(res, &MRule{Action: "reject", Clauses: []Clause{{Expr: &Node{Op: "from", Arg: "file:" + fromf}}}})
	}
	if tof != "" {
		res = append(res, &MRule{Action: "reject", Clauses: []Clause{{Expr: &Node{Op: "not", Kids: []*Node{{Op: "to", Arg: "file:" + tof}}}}}})
	}
	if helof != "" {
		res = append(res, &MRule{Phase: phFrom, Action: "reject", Clauses: []Clause{{Expr: &Node{Op: "helo", Arg: "file:" + helof}}}})
	}
	return res
}

func c18(r *Run) {
	r.Rule = "a random combination of -nostdrules, -M, -fromreject, -toaccept and -heloreject, filter files that are present, empty, comments only, missing, without final newline, rewritten between connections, and up to three rules files biased to accept everything early; 1 to 3 conversations with good, bad and route addresses, nameless greetings and null senders; every reply is compared with the model that puts the options first, and with -M every received message must be in the save directory and the message log; distinct by options, file states and verdict sequence"
	r.Each("options", r.N(6000, 50000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.prepRules()
		mkdir(w.path("sub"))
		std := rng.Intn(2) == 0
		m := rng.Intn(3) == 0
		fromf := pick(rng, []string{"", "ff", "sub/ff", "./ff"})
		tof := pick(rng, []string{"", "ft", "sub/ft"})
		helof := pick(rng, []string{"", "fx", w.path("fx")})
		nr := rng.Intn(4)
		var args []string
		if !std {
			args = append(args, "-nostdrules")
		}
		if m {
			args = append(args, "-M")
		}
		if !(m && rng.Intn(4) == 0) {
			args = append(args, "-d", "save")
		}
		for _, o := range [][2]string{{"-fromreject", fromf}, {"-toaccept", tof}, {"-heloreject", helof}} {
			if o[1] != "" {
				args = append(args, o[0], o[1])
			}
		}
		names := []string{"r1", "r2", "r4"}[:nr]
		switch rng.Intn(4) {
		case 0:
			names = []string{"r4", "r2", "r1"}[:nr]
		case 1:
			names = []string{"r2", "r4", "./r1"}[:nr]
		}
		w.write("r4", "")
		if nr > 0 {
			args = append(args, "-r", strings.Join(names, ","))
		}
		saves := strings.Contains(strings.Join(args, " "), "-d save")
		args = append(args, "-l", "mlog")
		d := w.daemon(strings.Join(args, " "), func() DOpts { return DOpts{Args: args} })
		g, e, t := w.basicGen(rng)
		e.Lip = d.IP
		g.MaxDepth = 1
		g.Ops = []string{"all", "all", "from", "to", "helo", "ip", "from-has", "to-has", "helo-has", "host"}
		g.AAttrs = []string{"noat", "unqualified", "garbage", "route"}
		g.HAttrs = []string{"none", "nodots", "helo", "ehlo"}
		g.Withs = msgWith()
		// rules files
		var rules []*MRule
		var texts []string
		for k, n := range names {
			rs := g.rules(rng.Intn(4))
			if k == 0 && rng.Intn(2) == 0 {
				// accept everything as early as can be
				a := []*MRule{{Action: "accept", Clauses: []Clause{{Expr: &Node{Op: "all"}}}}}
				if rng.Intn(2) == 0 {
					a[0].Phase = phConnect + rng.Intn(6)
				}
				rs = append(a, rs...)
			}
			for _, x := range rs {
				// let most clients in
				if x.Action != "accept" && rng.Intn(3) > 0 {
					if q := x.requires(); q < phFrom && x.Phase < phFrom {
						x.Phase = phFrom
					}
				}
			}
			lay := &Layout{rng: rng, Wild: rng.Intn(3) == 0}
			s := lay.file(rs)
			w.write(n, s)
			texts = append(texts, s)
			rules = append(rules, rs...)
		}
		all := append(optRules(std, m, fromf, tof, helof), rules...)
		t.Froms = []string{"a@x.example", "b@x.example", "A@Y.example", "c@s.y.example", "", "noat", "a@unq", "@r.example:a@x.example", "a@x..example", "a@x.example.", "d@z.example", "\"a\"@x.example", "\"a b\"@unq", "@r.example:\"q\"@x.example", "\"@r.example:\"@x..example", "@r.example:a@unq"}
		t.Tos = []string{"a@x.example", "b@x.example", "C@s.y.example", "d@x.example", "noat", "b@unq", "@r.example:b@x.example", "@@b", "e@z.example", "f@y.example", "\"b\"@x.example", "\"b b\"@unq", "@r.example:\"q\"@x.example", "@r.example:b@unq"}
		t.Helos = []string{"h1.example", "s.h1.example", "H2.example", "nodots", "", "h3.example", "x.example", ".", "[10.1.2.3]"}
		states := ""
		for k := 0; k < 1+rng.Intn(3); k++ {
			put := func(f string, pats []string) {
				if f == "" {
					return
				}
				var l []string
				st := pick(rng, []string{"there", "there", "there", "there", "empty", "comments", "missing"})
				p := f
				if !strings.HasPrefix(f, "/") {
					p = w.path(f)
				}
				os.Remove(p)
				switch st {
				case "there":
					s := ""
					if rng.Intn(12) == 0 {
						// a long list
						n := pick2(rng, 50, 2000, 6000)
						for j := n/2 + rng.Intn(n); j > 0; j-- {
							s += fmt.Sprintf("nobody%d@n%d.invalid\n", j, j%9)
						}
						r.Count("long_filter_files", 1)
					}
					for j := 1 + rng.Intn(3); j > 0; j-- {
						x := pick(rng, pats)
						if rng.Intn(4) == 0 {
							s += pick(rng, []string{"# no@one\n", "\n", "  \n", "\t# x\n"})
						}
						l = append(l, x)
						if rng.Intn(4) == 0 {
							x = strings.ToUpper(x)
						}
						s += pick(rng, []string{"", "", " "}) + x + pick(rng, []string{"", "", " ", "\r"}) + "\n"
					}
					if rng.Intn(3) == 0 {
						s = strings.TrimSuffix(s, "\n")
					}
					os.WriteFile(p, []byte(s), 0666)
				case "empty":
					os.WriteFile(p, nil, 0666)
				case "comments":
					os.WriteFile(p, []byte("# nothing\n\n  \n#a@x.example\n"), 0666)
				}
				states += st + " "
				r.Seen("filter_files", st)
				e.Files["file:"+f] = l
			}
			put(fromf, []string{"a@x.example", "@y.example", "@.example", "d@", "<>", "@z.example", "@.y.example", "b@x.example"})
			put(tof, []string{"a@x.example", "@x.example", "@.y.example", "b@", "@", "e@z.example", "c@s.y.example"})
			put(helof, []string{"h1.example", ".h1.example", ".example", "h2.example", "nodots", "x.example"})
			save0, log0 := listDir(w.path("save")), len(lines(readFile(w.path("mlog"))))
			if len(save0) > 200 {
				clearDir(w.path("save"))
				save0 = nil
			}
			x, f := w.open(e, all, d.Addr)
			x.OnVerdict = func(ph int, arg string, v Verdict, rep Reply) *Fail {
				if ph >= phFrom {
					if s := msgCheck(v, rep); s != "" {
						return failf(nil, "%s <%s>: %s", phaseWord[ph], arg, s)
					}
				}
				if n := len(all) - len(rules); v.Rule >= 0 && v.Rule < n {
					r.Count("refused_by_options", 1)
					r.Seen("deciding_option", fmt.Sprintf("%s %s", all[v.Rule].Clauses[0].Expr.shape(), phaseWord[ph]))
				} else if v.Rule >= 0 {
					r.Count("decided_by_rules_files", 1)
				}
				return nil
			}
			x.OnMsg = func(body string, v Verdict, rep Reply) *Fail {
				log0++
				if n := len(lines(readFile(w.path("mlog")))); n != log0 {
					return failf(nil, "message (%s): the message log has %d lines, it should have %d", rep, n, log0)
				}
				if !saves {
					return nil
				}
				now := listDir(w.path("save"))
				if len(now) != len(save0)+1 {
					return failf(nil, "message (%s): the save directory had %d files and has %d", rep, len(save0), len(now))
				}
				save0 = now
				if id := replyID(rep); id != "" {
					b := readFile(w.path("save/" + id))
					if !strings.HasSuffix(b, "\nbody\n"+body) {
						return failf(nil, "message (%s): it is not in the save directory as %s", rep, id)
					}
				}
				r.Count("messages_saved_and_logged", 1)
				return nil
			}
			t.Body = func(rng *rand.Rand) string {
				return fmt.Sprintf("Subject: %d\n\n%d\n", rng.Int63(), rng.Int63())
			}
			if f == nil {
				f = x.random(rng, t)
			}
			if f != nil {
				x.c.Close()
				f.Detail = map[string]interface{}{"args": args, "rules": texts, "conversation": x.c.log, "files": e.Files}
				return f
			}
			r.Eval(strings.Join(args, " ") + states + strings.Join(x.Trace, " "))
			if i < 3 && k == 0 {
				r.Sample(map[string]interface{}{"args": args, "rules": texts, "files": e.Files, "conversation": x.c.log})
			}
		}
		return nil
	})
}
