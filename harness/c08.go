package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { register("C08", "plain", c08) }

// msgWith is a Gen.Withs that gives about half the clauses a unique message.
func msgWith() func(g *Gen) []With {
	n := 0
	return func(g *Gen) []With {
		if g.rng.Intn(2) == 0 {
			return nil
		}
		n++
		m := fmt.Sprintf("with-%d says 100%% %%s no \"thanks\" \\o/", n)
		if g.rng.Intn(3) == 0 {
			m += fmt.Sprintf("\nline two of with-%d\nand %d three", n, n)
		}
		return []With{{"message", m}}
	}
}

// msgCheck compares a reply's text with the message that applies.
func msgCheck(v Verdict, rep Reply) string {
	want := v.Props["message"]
	text := rep.Text()
	if want != "" {
		if text != want && !strings.HasPrefix(text, want+"\n") {
			return fmt.Sprintf("the reply should carry message %q, it is %q", want, text)
		}
	} else if strings.Contains(text, "with-") {
		return fmt.Sprintf("the reply should carry no rule's message, it is %q", text)
	}
	return ""
}

func c08(r *Run) {
	r.Rule = "a random rule set biased to refuse null senders (by from, source, attributes, blocklists, phases, accept-first orders) and a conversation of up to 40 steps mixing null and ordinary senders, RSET, new greetings and recipients the rules would treat otherwise; every reply and its message is compared with the model; distinct by verdict sequence and rule shapes"
	r.Each("null", r.N(24000, 150000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.prepRules()
		std := rng.Intn(2) == 0
		key := fmt.Sprint(std)
		d := w.daemon(key, func() DOpts {
			a := []string{"-d", "save", "-r", "r1,r2"}
			if !std {
				a = append(a, "-nostdrules")
			}
			return DOpts{Args: a}
		})
		g, e, t := w.basicGen(rng)
		e.Lip = d.IP
		g.Withs = msgWith()
		g.MaxDepth = 1 + rng.Intn(2)
		g.Addrs = append(g.Addrs, "<>", "<>", "<>", "<>", "<>", "<>")
		g.Ops = append(g.Ops, "from", "from", "from", "to", "to")
		var rules []*MRule
		if rng.Intn(3) > 0 {
			ex := []*Node{
				{Op: "from", Arg: "<>"},
				{Op: "not", Kids: []*Node{{Op: "from", Arg: "@"}}},
				{Op: "all"},
				{Op: "and", Kids: []*Node{{Op: "from", Arg: "<>"}, {Op: "helo", Arg: pick(rng, g.Hosts)}}},
				{Op: "and", Kids: []*Node{{Op: "from", Arg: "<>"}, {Op: "dnsbl", Arg: "bl.example."}}},
				{Op: "or", Kids: []*Node{{Op: "from", Arg: "<>"}, {Op: "from", Arg: "a@"}}},
			}[rng.Intn(6)]
			ru := &MRule{Action: pick(rng, []string{"reject", "stall"}), Clauses: []Clause{{Expr: ex, With: g.Withs(g)}}}
			if ex.Op == "all" || rng.Intn(2) == 0 {
				ru.Phase = phFrom
			}
			rules = append(rules, ru)
		}
		rest := g.rules(rng.Intn(6))
		if rng.Intn(2) == 0 {
			// do not let the rest refuse greetings
			for _, x := range rest {
				if x.Phase == phAny && x.requires() < phFrom {
					x.Phase = phFrom + rng.Intn(3)
				}
				if x.Phase == phConnect || x.Phase == phHelo {
					x.Phase = phTo
				}
			}
		}
		k := rng.Intn(len(rest) + 1)
		rules = append(append(append([]*MRule{}, rest[:k]...), rules...), rest[k:]...)
		if len(rules) == 0 {
			rules = g.rules(1)
		}
		files := w.writeRules(rng, rules, false)
		all := rules
		if std {
			all = append(stdRules(), rules...)
		}
		t.Froms = []string{"", "", "", "", "a@x.example", "b@x.example", "c@s.y.example"}
		t.Steps = 15 + rng.Intn(26)
		x, f := w.open(e, all, d.Addr)
		nulls, deferred := 0, 0
		x.OnVerdict = func(ph int, arg string, v Verdict, rep Reply) *Fail {
			if ph == phFrom && arg == "" {
				nulls++
				if x.m.def != nil {
					deferred++
				}
			}
			if ph == phTo && x.m.def != nil {
				r.Count("recipients_of_refused_null_senders", 1)
			}
			if ph >= phFrom {
				if s := msgCheck(v, rep); s != "" {
					return failf(nil, "%s <%s>: %s", phaseWord[ph], arg, s)
				}
			}
			return nil
		}
		if f == nil {
			f = x.random(rng, t)
		}
		if f != nil {
			x.c.Close()
			f.Detail = map[string]interface{}{"rules": files, "std": std, "conversation": x.c.log, "files": e.Files}
			return f
		}
		r.Count("null_senders", nulls)
		r.Count("null_senders_refused_by_rules", deferred)
		sh := ""
		for _, ru := range rules {
			sh += ru.Action + ru.Clauses[0].Expr.shape()
		}
		if nulls == 0 {
			r.Eval("")
		} else {
			r.Eval(sh + strings.Join(x.Trace, " "))
		}
		if i < 3 {
			r.Sample(map[string]interface{}{"rules": files, "conversation": x.c.log})
		}
		return nil
	})
}
