package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"
)

func init() { register("C02", "plain", c02) }

// anyBody is a message of any shape, unlike any other of the case.
func anyBody(rng *rand.Rand) string {
	uniq := fmt.Sprintf("%x", rng.Int63())
	var b strings.Builder
	if rng.Intn(40) == 0 {
		return pick(rng, []string{"\n", "x\n", "\n\n", "A: b\n\n"})
	}
	switch rng.Intn(10) {
	case 0: // no header
		b.WriteString("just text " + uniq + "\n")
	case 1:
		b.WriteString("\n" + uniq + "\n")
	case 2:
		b.WriteString(" leading continuation\nSubject: " + uniq + "\n\nx\n")
	case 3: // header only
		b.WriteString("Subject: " + uniq + "\n")
	default:
		b.WriteString("Subject: " + uniq + "\n")
		for k := rng.Intn(4); k > 0; k-- {
			b.WriteString(pick(rng, []string{"From: a@b\n", "X-Long: a\n  b\n\tc\n", "Message-ID: <x@y>\n", "Empty: \n", "body: x\n", "Date: now\n"}))
		}
		b.WriteString("\n")
	}
	for k := rng.Intn(12); k > 0; k-- {
		switch rng.Intn(15) {
		case 14:
			b.WriteString(pick(rng, []string{"carriage return\r\n", "\r\n", "a\rb\r\r\n", "\r.\r\n", ".\r\n"}))
		case 13: // many of one odd character
			b.WriteString(strings.Repeat(pick(rng, []string{"%", "%%", "%d ", "%s\n", "\\", "'", "<", "\n", ".\n", "\t", "body\n", "\x00"}), 1+rng.Intn(300)) + "\n")
		case 0:
			b.WriteString(".\n")
		case 1:
			b.WriteString("..dots\n...\n")
		case 2:
			b.WriteString("body\n")
		case 3:
			b.WriteString("\n")
		case 4:
			b.WriteString("id 1/1 1.2.3.4:5 2001-01-01 00:00:00\nfrom <x>\nto <y>\nbody\n")
		case 10:
			b.WriteString("na\u00efve \u20ac 100 \u4e2d\u6587 \U0001f600\n")
		case 5:
			b.WriteString("\x00\x01\x7f\xff\xfe %s %d 100%%\n")
		case 6:
			b.WriteString(strings.Repeat("long ", 1+rng.Intn(3000)) + "\n")
		case 7:
			b.WriteString("QUIT\nRSET\n")
		case 8:
			b.WriteString("trailing blanks  \t \n")
		case 9:
			if rng.Intn(400) == 0 {
				b.WriteString(strings.Repeat(strings.Repeat("M", 990)+"\n", rng.Intn(2500)))
			}
			if rng.Intn(6) == 0 {
				b.WriteString(strings.Repeat(strings.Repeat("m", 70)+"\n", rng.Intn(4000)))
			}
		default:
			b.WriteString("some text\n")
		}
	}
	return b.String()
}

// refuseRules are rules that refuse some commands of a Talk without hiding
// later ones.
func refuseRules(rng *rand.Rand) []*MRule {
	l := []struct {
		ph     int
		act    string
		op, ar string
	}{
		{phHelo, "reject", "helo", ".bad.example"},
		{phHelo, "stall", "helo", "slow.example"},
		{phFrom, "reject", "from", "@bad.example"},
		{phFrom, "stall", "from", "stall@x.example"},
		{phAny, "reject", "to", "bad@x.example"},
		{phTo, "stall", "to", "slow@x.example"},
		{phFrom, "reject", "from", "<>"},
		{phData, "stall", "to", "nodata@x.example"},
		{phData, "reject", "from", "nodata@x.example"},
		{phMessage, "reject", "to", "nomsg@x.example"},
		{phMessage, "stall", "from", "slowmsg@x.example"},
		{phAny, "accept", "to", "b@x.example"},
	}
	var res []*MRule
	for _, x := range l {
		if rng.Intn(3) > 0 {
			res = append(res, &MRule{Phase: x.ph, Action: x.act, Clauses: []Clause{{Expr: &Node{Op: x.op, Arg: x.ar}}}})
		}
	}
	rng.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

func refuseTalk(rng *rand.Rand) *Talk {
	return &Talk{
		Helos:  []string{"h1.example", "H2.Example", "x.bad.example", "slow.example", "it's", "a b c", "[1.2.3.4]", "h'1' with helo 'x", "%s.example", "h.example.", strings.Repeat("long", 20+rng.Intn(200)) + ".example"},
		Froms:  []string{"a@x.example", "b@x.example", "q@bad.example", "stall@x.example", "", "nodata@x.example", "slowmsg@x.example", "Mixed.Case@X.Example", "\"q to <z\"@x.example", "a%s@x.example", "x@y.z@w.example", strings.Repeat("long", 200) + "@x.example"},
		Tos:    []string{"a@x.example", "b@x.example", "bad@x.example", "slow@x.example", "nodata@x.example", "nomsg@x.example", "c@y.example", "Mixed@Case.Example", "\"sp ace\"@x.example", "%d@x.example", strings.Repeat("longer", 140) + "@x.example"},
		Body:   anyBody,
		Sloppy: true,
	}
}

func c02(r *Run) {
	r.Rule = "a case: rules that refuse some greetings, senders, recipients, DATA and messages, and 1-3 conversations advancing in random turns, each with several transactions, resets, refused commands and messages of all shapes (dots, NULs, header-only, lines that look like the saved file's own); each saved file and message log line is compared field by field and byte by byte with what that client sent, other files must stay as they were, and the log must have exactly one line per message; distinct by transaction history"
	v6 := haveIPv6() && len(hostsNames("::1")) == 0
	r.Each("txn", r.N(10000, 50000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		w.prepRules()
		mkdir(w.path("save"))
		k := rng.Intn(4)
		if v6 && rng.Intn(8) == 0 {
			k = 4
		}
		if rng.Intn(6) == 0 {
			k = 5
		}
		d := w.daemon(fmt.Sprint(k), func() DOpts {
			a := [][]string{
				{"-d", "save", "-l", "mlog0"},
				{"-d", "save", "-l", "mlog1", "-smtplog", "slog", "-save-hash", "full"},
				{"-d", "save", "-l", "mlog2", "-save-hash", "msg", "-nostdrules"},
				{"-l", "mlog3", "-force-receive", "-smtplog", "slog"},
				{"-d", "save", "-l", "mlog4"},
				{"-d", "save", "-l", "mlog5", "-c", "srv.crt", "-k", "srv.key"},
			}[k]
			if k == 5 {
				serverCert().save(w.dir, "srv")
			}
			if k == 4 {
				return DOpts{Args: append(a, "-r", "r1"), Listen: []string{fmt.Sprintf("[::1]:%d", 20000+rand.Intn(12000)), freshIP() + ":2525"}}
			}
			return DOpts{Args: append(a, "-r", "r1"), Listen: []string{freshIP() + ":2525", freshIP() + ":2526"}}
		})
		mlog := w.path(fmt.Sprintf("mlog%d", k))
		os.Truncate(mlog, 0)
		os.Truncate(w.path("slog"), 0)
		for _, n := range listDir(w.path("save")) {
			os.Remove(w.path("save/" + n))
		}
		rules := refuseRules(rng)
		text := (&Layout{rng: rng}).file(rules)
		w.write("r1", text)
		all := rules
		if k != 2 {
			all = append(stdRules(), rules...)
		}
		w.dns.Reset()
		t := refuseTalk(rng)
		t.TLS = k == 5
		type peer struct {
			x    *Conv
			id   string
			txns []*Txn
			left int
		}
		var ps []*peer
		files := map[string]string{} // name -> content
		var order []*Txn
		var f *Fail
		for n := 1 + rng.Intn(3); n > 0 && f == nil; n-- {
			e := &Env{Zone: w.dns, Rip: fmt.Sprintf("127.6.%d.%d", 1+rng.Intn(5), 1+len(ps)), Lip: d.IP}
			randRDNS(rng, w.dns, e.Rip, 0)
			e.setRDNS()
			dst := pick(rng, d.Addrs)
			if strings.HasPrefix(dst, "[") {
				e.Rip, e.Lip = "::1", "::1"
				w.dns.Reset()
				randRDNS(rng, w.dns, e.Rip, 0)
				e.setRDNS()
			}
			p := &peer{left: 8 + rng.Intn(25)}
			p.x, f = w.open(e, all, dst)
			if f != nil {
				break
			}
			ps = append(ps, p)
			x := p.x
			x.OnMsg = func(body string, v Verdict, rep Reply) *Fail {
				tx := &Txn{ID: p.id, Src: x.c.Src, Dst: dst, Rip: e.Rip, Helo: x.m.Helo, From: x.m.From, Rcpts: append([]string{}, x.m.S.Rcpts...), Data: body,
					Verified: e.Verified, Nofwd: e.Nofwd, Inconsis: e.Inconsis, T0: x.MsgAt, T1: time.Now()}
				if x.c.TLS != nil {
					tx.TLSLine = anyTLS
					tx.TLSLog = fmt.Sprintf(" tls:cipher 0x%04x tls:proto 0x%04x", x.c.TLS.CipherSuite, x.c.TLS.Version)
					r.Count("messages_over_tls", 1)
				}
				p.txns = append(p.txns, tx)
				order = append(order, tx)
				r.Count("messages", 1)
				r.Seen("recipients", fmt.Sprint(len(tx.Rcpts)))
				if k == 3 {
					return nil
				}
				var fresh []string
				for _, n := range listDir(w.path("save")) {
					c := readFile(w.path("save/" + n))
					old, was := files[n]
					if was && old != c {
						return failf(nil, "saved file %s changed", n)
					}
					if !was {
						fresh = append(fresh, n)
						files[n] = c
					}
				}
				if len(fresh) == 0 && len(body) < 8 && k != 0 && k != 4 && k != 5 {
					// the names leave out what differs from an earlier message
					for _, o := range order[:len(order)-1] {
						if o.Data == body {
							return nil
						}
					}
				}
				if len(fresh) != 1 {
					return failf(nil, "after a message there are %d new files: %q", len(fresh), fresh)
				}
				id, c := tx.checkFile(files[fresh[0]])
				if c != "" {
					return failf(map[string]string{"file": tailS(files[fresh[0]], 3000)}, "saved file: %s", c)
				}
				if !strings.HasPrefix(id, fmt.Sprintf("%d/", d.pid)) {
					return failf(nil, "saved file: the ID %s is not the server's", id)
				}
				for _, q := range ps {
					if q != p && q.id == id {
						return failf(nil, "saved file: the ID %s is another connection's", id)
					}
				}
				p.id, tx.ID = id, id
				if rid := replyID(rep); rid != "" && rid != fresh[0] {
					return failf(nil, "the reply names %s, the file is %s", rid, fresh[0])
				}
				return nil
			}
		}
		slept := false
		for f == nil {
			var open []*peer
			for _, p := range ps {
				if !p.x.Gone {
					open = append(open, p)
				}
			}
			if len(open) == 0 {
				break
			}
			p := open[rng.Intn(len(open))]
			p.left--
			if i%150 == 0 && len(p.txns) == 1 && p.x.m.State == "data" && !slept {
				// long enough for a second message's time to differ
				slept = true
				time.Sleep(2200 * time.Millisecond)
			}
			if p.left < 0 && p.x.m.State != "data" {
				if rng.Intn(2) == 0 {
					f = p.x.quit()
				} else {
					p.x.c.Drop()
					p.x.Gone = true
				}
				continue
			}
			if st := p.x.m.State; (st == "mail" || st == "rcpt") && rng.Intn(20) == 0 {
				// many recipients
				long := rng.Intn(6) == 0
				for n := rng.Intn(pick2(rng, 12, 12, 40, 150)); n > 0 && f == nil; n-- {
					to := pick(rng, t.Tos)
					if long {
						to = fmt.Sprintf("%s%d@x.example", strings.Repeat("long-", 100+rng.Intn(60)), n)
					}
					if rng.Intn(3) == 0 {
						to = fmt.Sprintf("u%d@x.example", n)
					}
					f = p.x.rcpt(to)
				}
				if f != nil {
					break
				}
			}
			f = p.x.step(rng, t)
		}
		if f == nil {
			ls := lines(readFile(mlog))
			if len(ls) != len(order) {
				f = failf(ls, "the message log has %d lines for %d messages", len(ls), len(order))
			}
			for j := range order {
				if f != nil {
					break
				}
				if c := order[j].checkLog(ls[j]); c != "" {
					f = failf(ls[j], "message log: %s", c)
				}
				r.Count("log_lines", 1)
			}
			if f == nil && k == 1 {
				for _, p := range ps {
					if p.id == "" {
						continue
					}
					id, _ := sessionLog(w.path("slog"), p.x.c.Src)
					if id != p.id {
						f = failf(nil, "the file's ID %s is %q in the SMTP log", p.id, id)
					}
				}
			}
		}
		var logs [][]string
		for _, p := range ps {
			p.x.c.Close()
			logs = append(logs, p.x.c.log)
		}
		if f != nil {
			f.Detail = map[string]interface{}{"rules": text, "args": d.Args, "conversations": logs, "more": f.Detail}
			return f
		}
		for _, p := range ps {
			if len(p.txns) == 0 {
				r.Eval("")
			} else {
				r.Eval(strings.Join(p.x.Trace, " "))
			}
		}
		if i < 2 {
			r.Sample(map[string]interface{}{"rules": text, "conversations": logs})
		}
		return nil
	})
	r.Each("unsaved", r.N(600, 4000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		// messages that cannot be saved are logged all the same
		w.prepRules()
		dir := w.path("usave")
		d := w.daemon("unsaved", func() DOpts {
			mkdir(dir)
			return DOpts{Args: []string{"-d", "usave", "-l", "ulog", "-nostdrules", "-r", "r1"}}
		})
		w.write("r1", pick(rng, []string{"", "@message reject all\n", "@message stall to b@x.example\n", "@message accept all with message \"ok then\"\n"}))
		os.Truncate(w.path("ulog"), 0)
		os.RemoveAll(dir)
		clear := func() {
			os.RemoveAll(dir)
			os.Remove(dir)
		}
		var order []*Txn
		var logs [][]string
		f := func() *Fail {
			for n := 1 + rng.Intn(4); n > 0; n-- {
				clear()
				switch rng.Intn(3) {
				case 0:
					mkdir(dir)
				case 1:
					os.WriteFile(dir, []byte("x"), 0644)
				}
				x := newTxn(rng, d, 500)
				x.Data = anyBody(rng)
				c, rep := attempt(d.Addr, x)
				if c == nil {
					return failf(nil, "cannot connect: %v", rep.Err)
				}
				logs = append(logs, c.log)
				if rep.Err != nil {
					c.Close()
					return failf(nil, "%v", rep.Err)
				}
				order = append(order, x)
				r.Seen("unsaved_outcomes", fmt.Sprintf("%dxx", rep.Class()))
				c.Quit()
				c.Close()
			}
			ls := lines(readFile(w.path("ulog")))
			if len(ls) != len(order) {
				return failf(ls, "the message log has %d lines for %d messages some of which could not be saved", len(ls), len(order))
			}
			for j := range order {
				if c := order[j].checkLog(ls[j]); c != "" {
					return failf(ls[j], "message log: %s", c)
				}
			}
			return nil
		}()
		clear()
		mkdir(dir)
		if f != nil {
			f.Detail = map[string]interface{}{"rules": readFile(w.path("r1")), "conversations": logs, "more": f.Detail}
			return f
		}
		r.Count("unsaved_cases", 1)
		r.Eval(fmt.Sprint("unsaved", len(order), order[0].Data))
		return nil
	})
}
