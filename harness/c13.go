package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() { register("C13", "plain race yield", c13) }

// cand is one set of rules that may be in force for a session.
type cand struct {
	ver int
	m   *Session
	dir string
}

// mconv is a conversation under rules that may be any of several.
type mconv struct {
	r      *Run
	c      *Client
	e      *Env
	cs     []*cand
	trace  []string
	txns   []*Txn
	base   string
	t0     time.Time
	gone   bool
	vers   []int
	shared []string // messages that others send too; files are by message
}

func (x *mconv) narrow(what string, rep Reply, ph int, keep func(c *cand) (Verdict, string)) *Fail {
	var left []*cand
	var why []string
	for _, c := range x.cs {
		v, s := keep(c)
		if s == "" {
			if got := replyClass(ph, rep); got != v.class() {
				s = fmt.Sprintf("expected %s (rule %d)", v.class(), v.Rule)
			} else if ph >= phFrom {
				s = msgCheck(v, rep)
			}
		}
		if s != "" {
			why = append(why, fmt.Sprintf("rules %d: %s", c.ver, s))
			continue
		}
		if sd := v.Props["savedir"]; sd != "" && ph != phMessage {
			c.dir = sd
		}
		left = append(left, c)
	}
	x.trace = append(x.trace, fmt.Sprintf("%s:%d", phaseWord[ph], rep.Class()))
	x.r.Count("replies", 1)
	if len(left) == 0 {
		return failf(map[string]interface{}{"conversation": x.c.log, "why": why, "versions": x.vers}, "%s got %s, which it would not get alone: %s", what, rep, strings.Join(why, "; "))
	}
	x.cs = left
	return nil
}

func (x *mconv) step(rng *rand.Rand, t *Talk) *Fail {
	st := x.cs[0].m.State
	helo := func() *Fail {
		cmd, n := pick(rng, []string{"EHLO", "EHLO", "HELO"}), pick(rng, t.Helos)
		rep := x.c.Cmd(cmd + " " + n)
		return x.narrow(cmd+" "+n, rep, phHelo, func(c *cand) (Verdict, string) { return c.m.helo(cmd, n), "" })
	}
	mail := func() *Fail {
		a := pick(rng, t.Froms)
		rep := x.c.Cmdf("MAIL FROM:<%s>", a)
		return x.narrow("MAIL "+a, rep, phFrom, func(c *cand) (Verdict, string) { return c.m.mail(a), "" })
	}
	rcpt := func() *Fail {
		a := pick(rng, t.Tos)
		rep := x.c.Cmdf("RCPT TO:<%s>", a)
		return x.narrow("RCPT "+a, rep, phTo, func(c *cand) (Verdict, string) { return c.m.rcpt(a), "" })
	}
	rset := func() *Fail {
		for _, c := range x.cs {
			c.m.rset()
		}
		if rep := x.c.Cmd("RSET"); rep.Code != 250 {
			return failf(x.c.log, "RSET: %s", rep)
		}
		return nil
	}
	switch st {
	case "initial":
		return helo()
	case "helo":
		if n := len(x.trace); n > 0 && strings.HasPrefix(x.trace[n-1], "@helo") && !strings.HasSuffix(x.trace[n-1], "2") {
			return helo()
		}
		return mail()
	case "mail":
		if rng.Intn(8) == 0 {
			return rset()
		}
		return rcpt()
	case "rcpt":
		switch rng.Intn(6) {
		case 0:
			return rset()
		case 1:
			return rcpt()
		}
		rep := x.c.Cmd("DATA")
		return x.narrow("DATA", rep, phData, func(c *cand) (Verdict, string) { return c.m.data(), "" })
	case "data":
		body := t.Body(rng)
		if len(x.shared) > 0 && rng.Intn(2) == 0 {
			body = pick(rng, x.shared)
			x.r.Count("messages_others_send_too", 1)
		}
		rep := x.c.Body(body)
		m := x.cs[0].m
		tx := &Txn{Src: x.c.Src, Dst: m.E.Lip + ":2525", Rip: x.e.Rip, Helo: m.Helo, From: m.From, Rcpts: append([]string{}, m.S.Rcpts...), Data: body,
			Verified: x.e.Verified, Nofwd: x.e.Nofwd, Inconsis: x.e.Inconsis, T0: x.t0, T1: time.Now()}
		if x.c.TLS != nil {
			tx.TLSLine = anyTLS
			tx.TLSLog = fmt.Sprintf(" tls:cipher 0x%04x tls:proto 0x%04x", x.c.TLS.CipherSuite, x.c.TLS.Version)
		}
		x.txns = append(x.txns, tx)
		return x.narrow("message", rep, phMessage, func(c *cand) (Verdict, string) {
			dir := c.dir
			v := c.m.message()
			if v.class() != "stall" {
				id := replyID(rep)
				b, err := os.ReadFile(filepath.Join(x.base, dir, id))
				if err != nil {
					return v, fmt.Sprint(err)
				}
				if len(x.shared) > 0 {
					// perhaps another session's
					if _, data, _ := strings.Cut(string(b), "\nbody\n"); data != body {
						return v, fmt.Sprintf("saved file: it has %d bytes of message and not the %d sent", len(data), len(body))
					}
				} else {
					fid, s := tx.checkFile(string(b))
					if s != "" {
						return v, "saved file: " + s
					}
					tx.ID = fid
				}
			}
			if sd := v.Props["savedir"]; sd != "" {
				c.dir = sd
			}
			return v, ""
		})
	}
	return rset()
}

func c13(r *Run) {
	r.Rule = "a case: one server (race detector in two of four, yields and short sleeps between any two statements in two of four) with 6-16 clients at once, each holding several sessions from its own IP and reverse DNS, over plain and TLS connections, while rules files are replaced every few milliseconds by other sets (some broken), pattern-free so that a session's verdicts depend on the set it started with alone, and statistics, goroutine dumps and -conncfg files change or are read meanwhile; every reply, message text, saved file, log line must be what the reference model gives for one of the sets in force while that session connected; distinct by session trace"
	r.Each("sessions", r.N(280, 1800), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		w.prepRules()
		for _, n := range []string{"save", "saveb", "savec"} {
			mkdir(w.path(n))
			clearDir(w.path(n))
		}
		o := DOpts{Args: []string{"-d", "save", "-r", "r1,r2", "-smtplog", "slog", "-l", "mlog", "-dncount", "1000000", "-dnlog", "dnlog", "-c", "srv.crt", "-k", "srv.key", "-statsperip", "-conncfg", "cc"}, Pprof: true}
		switch i % 4 {
		case 0:
			o.Kind = "sinksmtp-race"
		case 1:
			o.Kind = "sinksmtp-yield"
		case 2:
			o.Kind = "sinksmtp-raceyield"
		}
		bymsg := rng.Intn(3) == 0
		if bymsg {
			o.Args = append(o.Args, "-save-hash", "msg")
		}
		std := rng.Intn(2) == 0
		if !std {
			o.Args = append(o.Args, "-nostdrules")
		}
		if rng.Intn(2) == 0 {
			o.Args = append(o.Args, "-minphase", pick(rng, []string{"from", "message", "accepted"}))
		}
		o.Env = []string{fmt.Sprintf("GOMAXPROCS=%d", pick2(rng, 1, 2, 4, 8))}
		serverCert().save(w.dir, "srv")
		ccs := []string{"10.0.0.0/8 hostname=x.example\n", "127.0.0.0/8 hostname=host.example cert=srv.crt key=srv.key\n", "* cert=srv.crt key=srv.key\n"}
		w.write("cc", ccs[0])
		for _, l := range []string{"slog", "mlog", "dnlog"} {
			os.Remove(w.path(l))
		}
		g, e0, t := w.basicGen(rng)
		t.Body = anyBody
		var ips []string
		for k := 0; k < 16; k++ {
			ip := fmt.Sprintf("127.2.%d.%d", 1+k%3, 1+k)
			ips = append(ips, ip)
			if ip == e0.Rip {
				continue
			}
			switch rng.Intn(4) {
			case 0:
				n := fmt.Sprintf("m%d.c.example.", k)
				w.dns.AddPTR(ip, n)
				w.dns.AddIP(n, ip)
			case 1:
				w.dns.AddPTR(ip, fmt.Sprintf("gone%d.c.example.", k))
			case 2:
				n := fmt.Sprintf("m%d.c.example.", k)
				w.dns.AddPTR(ip, n)
				w.dns.AddIP(n, "127.9.9.9")
			}
			if rng.Intn(2) == 0 {
				w.dns.AddIP(strings.TrimSuffix(PTRName(ip), "in-addr.arpa.")+"bl.example", "127.0.0.2")
			}
			g.IPs = append(g.IPs, ip, ip)
		}
		nw := 0
		g.Withs = func(g *Gen) []With {
			nw++
			switch g.rng.Intn(6) {
			case 0, 1:
				return []With{{"message", fmt.Sprintf("with-%d says no", nw)}}
			case 2:
				return []With{{"note", fmt.Sprintf("note %d", nw)}, {"message", fmt.Sprintf("with-%d\nand more", nw)}}
			case 3:
				return []With{{"savedir", pick(g.rng, []string{"save", "saveb", "savec"})}}
			}
			return nil
		}
		// the rule sets
		type set struct {
			rules []*MRule
			t1    string
			t2    string
		}
		var sets []set
		lay := &Layout{rng: rng}
		for k := 0; k < 6; k++ {
			ru := g.rules(1 + rng.Intn(6))
			for _, x := range ru {
				if x.Phase == phConnect || x.Phase == phAny && x.requires() == phConnect {
					x.Phase = phFrom + rng.Intn(3) // do not drop or refuse everyone
				}
			}
			all := ru
			if std {
				all = append(stdRules(), ru...)
			}
			sets = append(sets, set{all, lay.file(ru), ""})
		}
		sets = append(sets, set{[]*MRule{{Action: "stall", Clauses: []Clause{{Expr: &Node{Op: "all"}}}}}, "accept all\nthis is no rule\n", ""})
		// the history of what was in force
		type span struct {
			ver        int
			begin, end time.Time
		}
		var mu sync.Mutex
		w.write("r1", sets[0].t1)
		spans := []span{{0, time.Now(), time.Time{}}}
		d := w.mustDaemon(o)
		w.ds["c13"] = d
		defer func() { d.Stop(); delete(w.ds, "c13") }()
		stop := make(chan struct{})
		var bg sync.WaitGroup
		bg.Add(2)
		srng := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer bg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				v := srng.Intn(len(sets))
				if v == len(sets)-1 && srng.Intn(3) > 0 {
					v = 0
				}
				mu.Lock()
				spans = append(spans, span{v, time.Now(), time.Time{}})
				mu.Unlock()
				w.write("r1", sets[v].t1)
				mu.Lock()
				spans[len(spans)-2].end = time.Now()
				mu.Unlock()
				if srng.Intn(4) == 0 {
					w.write("cc", pick(srng, ccs))
				}
				r.Count("rule_changes", 1)
				time.Sleep(time.Duration(1+srng.Intn(20)) * time.Millisecond)
			}
		}()
		go func() {
			defer bg.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				if n%3 == 0 {
					d.goroutines()
				} else if _, err := d.Vars(); err == nil {
					r.Count("statistics_reads", 1)
				}
				time.Sleep(2 * time.Millisecond)
			}
		}()
		nc := 6 + rng.Intn(11)
		per := 3 + rng.Intn(4)
		shared := make([][]string, per)
		if bymsg {
			for n := range shared {
				for k := 1 + rng.Intn(3); k > 0; k-- {
					shared[n] = append(shared[n], fmt.Sprintf("Subject: %d %d\n\n", rng.Int63(), n)+strings.Repeat("shared\n", rng.Intn(20000)))
				}
			}
		}
		var all []*mconv
		var fails []*Fail
		var wg sync.WaitGroup
		for k := 0; k < nc; k++ {
			rg := rand.New(rand.NewSource(rng.Int63()))
			ip := ips[k%len(ips)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						f, ok := e.(*Fail)
						if !ok {
							panic(e)
						}
						mu.Lock()
						fails = append(fails, f)
						mu.Unlock()
					}
				}()
				for n := 0; n < per; n++ {
					e := *e0
					e.Rip, e.Lip = ip, d.IP
					e.setRDNS()
					x := &mconv{r: r, e: &e, base: w.dir, t0: time.Now(), shared: shared[n]}
					x.c = mustDial(ip, d.Addr)
					rep := x.c.Read()
					t1 := time.Now()
					if rep.Code != 220 {
						panic(failf(x.c.log, "no greeting: %s", rep))
					}
					r.Count("sessions", 1)
					mu.Lock()
					seen := map[int]bool{}
					for _, s := range spans {
						if !seen[s.ver] && !s.begin.After(t1) && (s.end.IsZero() || !s.end.Before(x.t0)) {
							seen[s.ver] = true
							c := &cand{ver: s.ver, m: newSession(&e, sets[s.ver].rules), dir: "save"}
							v := c.m.connect()
							if sd := v.Props["savedir"]; sd != "" {
								c.dir = sd
							}
							x.cs = append(x.cs, c)
							x.vers = append(x.vers, s.ver)
						}
					}
					all = append(all, x)
					mu.Unlock()
					r.Seen("candidate_rule_sets", fmt.Sprint(len(x.cs)))
					var f *Fail
					if rg.Intn(4) == 0 {
						f = x.step(rg, t)
						if f == nil && x.cs[0].m.State == "helo" && strings.Contains(strings.Join(x.c.wire, "\n"), "STARTTLS") {
							if _, err := x.c.StartTLS(&tls.Config{InsecureSkipVerify: true}); err != nil {
								f = failf(x.c.log, "STARTTLS: %v", err)
							}
							for _, c := range x.cs {
								c.m.State = "initial"
							}
							e.TLS = true
							r.Count("tls_sessions", 1)
						}
					}
					for s := 5 + rg.Intn(20); (s > 0 || x.cs[0].m.State == "data") && f == nil; s-- {
						f = x.step(rg, t)
					}
					if f == nil {
						if rg.Intn(3) == 0 {
							x.c.Drop()
						} else if err := x.c.Quit(); err != nil {
							f = failf(x.c.log, "QUIT: %v", err)
						}
					}
					x.c.Close()
					if f != nil {
						mu.Lock()
						fails = append(fails, f)
						mu.Unlock()
						return
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		bg.Wait()
		if t := w.trouble(); t != nil {
			return t
		}
		texts := map[string]string{}
		for k, s := range sets {
			texts[fmt.Sprint(k)] = s.t1
		}
		if len(fails) > 0 {
			fails[0].Detail = map[string]interface{}{"rule_sets": texts, "args": d.Args, "more": fails[0].Detail}
			return fails[0]
		}
		// the logs
		if f := w.logsAfter(d, all); f != nil {
			return f
		}
		for _, x := range all {
			r.Eval(strings.Join(x.trace, " ") + x.e.Rip)
		}
		if i < 2 {
			r.Sample(map[string]interface{}{"rule_sets": texts, "conversation": all[0].c.log})
		}
		return nil
	})
}

// logsAfter compares the SMTP log and message log with all the sessions.
func (w *W) logsAfter(d *Daemon, all []*mconv) *Fail {
	var by map[string][]string
	var complaint string
	ended := func(ls []string) bool {
		for _, l := range ls {
			if strings.HasPrefix(l, "# finished at") || strings.HasPrefix(l, "# abort at") {
				return true
			}
		}
		return false
	}
	waitFor(20*time.Second, func() bool {
		by, complaint = logBySession(readFile(w.path("slog")), d.pid)
		n := 0
		for _, ls := range by {
			if ended(ls) {
				n++
			}
		}
		return n >= len(all)
	})
	if complaint != "" {
		return failf(tailS(readFile(w.path("slog")), 3000), "SMTP log: %s", complaint)
	}
	if len(by) != len(all) {
		return failf(nil, "SMTP log: %d sessions in it, there were %d", len(by), len(all))
	}
	idOf := map[string]string{}
	for id, ls := range by {
		for _, l := range ls {
			if strings.HasPrefix(l, "# remote ") {
				idOf[strings.Fields(l)[2]] = id
			}
		}
	}
	ml := lines(readFile(w.path("mlog")))
	byID := map[string][]string{}
	for _, l := range ml {
		m := mlogLine.FindStringSubmatch(l)
		if m == nil {
			return failf(l, "message log: not a whole line: %q", l)
		}
		byID[m[2]] = append(byID[m[2]], l)
	}
	total := 0
	for _, x := range all {
		id := idOf[x.c.Src]
		if s := logMatches(x.c, x.e.Rip, by[id], false); s != "" {
			return failf(map[string]interface{}{"conversation": x.c.log, "log": by[id]}, "SMTP log of %s: %s", id, s)
		}
		total += len(x.txns)
		if len(byID[id]) != len(x.txns) {
			return failf(map[string]interface{}{"conversation": x.c.log, "log": byID[id]}, "message log: %d lines for %d messages of %s", len(byID[id]), len(x.txns), id)
		}
		for k, tx := range x.txns {
			if tx.ID != "" && tx.ID != id {
				return failf(x.c.log, "the saved file says %s, the SMTP log %s", tx.ID, id)
			}
			tx.ID = id
			if s := tx.checkLog(byID[id][k]); s != "" {
				return failf(map[string]interface{}{"conversation": x.c.log, "log": byID[id]}, "message log of %s: %s", id, s)
			}
		}
	}
	if total != len(ml) {
		return failf(nil, "message log: %d lines for %d messages", len(ml), total)
	}
	w.r.Count("log_lines", total)
	return nil
}
