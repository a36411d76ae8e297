package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
)

func init() { register("C09", "plain", c09) }

func c09(r *Run) {
	r.Rule = "a random rule set whose clauses carry random with options (messages of one and several lines with quotes, backslashes and percent signs, notes, savedirs; alone and together) and one conversation with several messages, from null senders too: the text of every reply, the sequence of notes in the SMTP log and the directory each message lands in are compared with the model, with and without an SMTP log; tls-opt: random connect-time rules against certificates, checking STARTTLS and the certificate request; distinct by (option combination, verdict sequence)"
	r.Assumptions = []string{"messages on replies to HELO/EHLO and tls-opt applied after connect are left open"}
	r.Each("with", r.N(15000, 80000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.prepRules()
		logged := rng.Intn(4) > 0
		dflag := rng.Intn(3) > 0
		certs := rng.Intn(5) == 0
		key := fmt.Sprint(logged, dflag, certs)
		dirs := []string{"save", "s1", "s2", "s 3"}
		for _, x := range dirs {
			mkdir(w.path(x))
		}
		d := w.daemon(key, func() DOpts {
			a := []string{"-r", "r1,r2", "-nostdrules"}
			if dflag {
				a = append(a, "-d", "save")
			} else {
				a = append(a, "-force-receive")
			}
			if logged {
				a = append(a, "-smtplog", "slog"+key)
			}
			if certs {
				serverCert().save(w.dir, "srv")
				a = append(a, "-c", "srv.crt", "-k", "srv.key")
			}
			return DOpts{Args: a}
		})
		g, e, t := w.basicGen(rng)
		e.Lip = d.IP
		null := rng.Intn(3) == 0
		if null {
			g.Addrs = append(g.Addrs, "<>", "<>", "<>", "<>")
		}
		nm := 0
		g.Withs = func(g *Gen) []With {
			var res []With
			nm++
			if rng.Intn(2) == 0 {
				m := fmt.Sprintf("with-%d says 100%% %%s %%d%%! no \"thanks\" \\o/ \\\\", nm)
				for k := rng.Intn(3); k > 0; k-- {
					m += fmt.Sprintf("\nline %d of with-%d %%v", k, nm)
				}
				switch rng.Intn(40) {
				case 0:
					for k := 10 + rng.Intn(60); k > 0; k-- {
						m += fmt.Sprintf("\nanother line, %d", k)
					}
				case 1:
					m += strings.Repeat(" long", 20+rng.Intn(150))
				}
				res = append(res, With{"message", m})
			}
			if rng.Intn(2) == 0 {
				n := fmt.Sprintf("note %d: 50%% \"off\" %%s \\ ;", nm)
				if rng.Intn(30) == 0 {
					n += strings.Repeat(" and more", 10+rng.Intn(600))
				}
				res = append(res, With{"note", n})
			}
			if rng.Intn(3) == 0 {
				sd := pick(rng, dirs[1:])
				if rng.Intn(2) == 0 {
					sd = w.path(sd)
				}
				res = append(res, With{"savedir", sd})
			}
			rng.Shuffle(len(res), func(a, b int) { res[a], res[b] = res[b], res[a] })
			return res
		}
		rules := g.rules(1 + rng.Intn(7))
		for _, x := range rules {
			// let most conversations get somewhere
			if (x.Action == "reject" || x.Action == "stall") && rng.Intn(2) == 0 {
				x.Action = "set-with"
				for k := range x.Clauses {
					if len(x.Clauses[k].With) == 0 {
						x.Clauses[k].With = []With{{"note", fmt.Sprintf("note x%d", k)}}
					}
				}
			}
		}
		if rng.Intn(8) == 0 {
			rules = g.twice(rules)
		}
		files := w.writeRules(rng, rules, rng.Intn(3) == 0)
		t.Froms = []string{"a@x.example", "b@x.example", "A@Y.example", "c@s.y.example", "\"q\"@x.example"}
		if null {
			t.Froms = append(t.Froms, "", "", "")
		}
		t.Steps = 8 + rng.Intn(25)
		t.TLS = certs
		x, f := w.open(e, rules, d.Addr)
		var notes []string
		var connNotes []string
		curdir := ""
		if dflag {
			curdir = w.path("save")
		}
		apply := func(v Verdict) {
			if n := v.Props["note"]; n != "" {
				notes = append(notes, n)
			}
			if sd := v.Props["savedir"]; sd != "" {
				curdir = sd
				if !filepath.IsAbs(sd) {
					curdir = w.path(sd)
				}
			}
		}
		if f == nil && !x.Gone {
			apply(x.m.E.decide(rules, phConnect, &St{}))
		}
		connNotes = notes
		_ = connNotes
		msgdir := ""
		x.OnVerdict = func(ph int, arg string, v Verdict, rep Reply) *Fail {
			msgdir = curdir
			apply(v)
			if ph == phTo && x.m.def != nil {
				r.Count("recipients_of_refused_null_senders", 1)
			}
			if v.Props["message"] != "" {
				r.Count("messages_expected", 1)
			}
			if ph >= phFrom {
				if s := msgCheck(v, rep); s != "" {
					return failf(nil, "%s <%s>: %s", phaseWord[ph], arg, s)
				}
			}
			return nil
		}
		x.OnMsg = func(body string, v Verdict, rep Reply) *Fail {
			if v.class() == "stall" {
				return nil
			}
			id := replyID(rep)
			if id == "" {
				return failf(nil, "no message ID in reply %s", rep)
			}
			for _, dn := range dirs {
				p := w.path(dn)
				_, here := map[string]bool{}[""], false
				for _, fn := range listDir(p) {
					if fn == id {
						here = true
					}
				}
				if here != (p == msgdir) {
					return failf(nil, "message %s: in %s: %v, expected in %q", id, dn, here, msgdir)
				}
			}
			if msgdir != "" {
				r.Count("messages_located", 1)
			}
			return nil
		}
		if f == nil {
			f = x.random(rng, t)
		}
		if f == nil && logged && len(x.Trace) > 0 && x.Trace[0] != "@connect:drop" {
			_, ls, ok := finishedLog(w.path("slog"+key), x.c.Src)
			if !ok {
				f = failf(ls, "the session's log has no end")
			}
			var got []string
			for _, l := range ls {
				if strings.HasPrefix(l, "! rule note: ") {
					got = append(got, l[len("! rule note: "):])
				}
			}
			if f == nil && strings.Join(got, "\n") != strings.Join(notes, "\n") {
				f = failf(map[string]interface{}{"expected": notes, "logged": got}, "notes in the SMTP log: expected %q, got %q", notes, got)
			}
			r.Count("notes_matched", len(notes))
		}
		if f != nil {
			x.c.Close()
			f.Detail = map[string]interface{}{"rules": files, "args": d.Args, "conversation": x.c.log, "files": e.Files, "more": f.Detail}
			return f
		}
		r.Eval(key + strings.Join(x.Trace, " ") + strings.Join(notes, ","))
		if i < 2 {
			r.Sample(map[string]interface{}{"rules": files, "conversation": x.c.log, "notes": notes})
		}
		return nil
	})
	r.Each("tlsopt", r.N(2000, 12000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.prepRules()
		certs := rng.Intn(5) > 0
		ncert := 1 + rng.Intn(2)
		key := fmt.Sprint("tls", certs, ncert)
		d := w.daemon(key, func() DOpts {
			a := []string{"-r", "r1,r2", "-force-receive"}
			if certs {
				serverCert().save(w.dir, "srv")
				if ncert == 2 {
					mkCert(CertSpec{CN: "two.example", DNS: []string{"two.example"}, RSA: true}).save(w.dir, "two")
					a = append(a, "-c", "srv.crt,two.crt", "-k", "srv.key,two.key")
				} else {
					a = append(a, "-c", "srv.crt", "-k", "srv.key")
				}
			}
			return DOpts{Args: a}
		})
		g, e, _ := w.basicGen(rng)
		e.Lip = d.IP
		g.Ops = []string{"all", "ip", "ip", "host", "dns", "dnsbl", "dbl"}
		ph := []int{phConnect, phAny}[rng.Intn(2)]
		var rules []*MRule
		for k := 1 + rng.Intn(4); k > 0; k-- {
			ru := &MRule{Phase: ph, Action: pick(rng, []string{"set-with", "set-with", "accept"})}
			for j := 1 + rng.Intn(2); j > 0; j-- {
				ex := g.expr(1)
				for requires(ex) > phConnect {
					ex = g.expr(1)
				}
				c := Clause{Expr: ex}
				if rng.Intn(4) > 0 || ru.Action == "set-with" {
					c.With = []With{{"tls-opt", pick(rng, []string{"off", "no-client"})}}
				}
				if rng.Intn(4) == 0 {
					c.With = append(c.With, With{"note", "tls note"})
				}
				ru.Clauses = append(ru.Clauses, c)
			}
			rules = append(rules, ru)
		}
		files := w.writeRules(rng, rules, false)
		v := e.decide(rules, phConnect, &St{})
		opt := v.Props["tls-opt"]
		x, f := w.open(e, append(stdRules(), rules...), d.Addr)
		det := func() interface{} {
			return map[string]interface{}{"rules": files, "conversation": x.c.log, "tls-opt": opt}
		}
		if f != nil {
			f.Detail = det()
			return f
		}
		defer x.c.Close()
		rep := x.c.Cmd("EHLO h1.example")
		offered := rep.HasExt("STARTTLS")
		if want := certs && opt != "off"; offered != want {
			return failf(det(), "tls-opt %q, certificates %v: STARTTLS offered %v", opt, certs, offered)
		}
		r.Seen("tls_opt", fmt.Sprintf("%s certs=%v", opt, certs))
		if offered {
			asked := false
			_, err := x.c.StartTLS(&tls.Config{InsecureSkipVerify: true,
				GetClientCertificate: func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
					asked = true
					return &tls.Certificate{}, nil
				}})
			if err != nil {
				return failf(det(), "TLS handshake: %v", err)
			}
			if asked == (opt == "no-client") {
				return failf(det(), "tls-opt %q: client certificate asked for: %v", opt, asked)
			}
		} else if rep := x.c.Cmd("STARTTLS"); rep.Class() != 5 {
			return failf(det(), "STARTTLS although not offered: %s", rep)
		}
		if err := x.c.Quit(); err != nil {
			return failf(det(), "QUIT: %v", err)
		}
		r.Eval("tls " + opt + files["r1"] + files["r2"])
		return nil
	})
}
