package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"
)

func init() { register("C14", "clock", c14) }

// vclock is the daemon's clock as far as the harness knows it.
type vclock struct{ off time.Duration }

func (v *vclock) now() time.Time { return time.Now().Add(v.off) }

type skipCase struct{}

// ipRec is the reference record of one IP.
type ipRec struct {
	n      int
	lo, hi time.Time
}

// recs is a reference IP list with expiry. Every operation happens at some
// time between lo and hi; the workload stays clear of the edges, and if it
// does not (a slow machine) the case is abandoned.
type recs struct {
	m   map[string]*ipRec
	ttl time.Duration
}

func (l *recs) get(ip string, lo, hi time.Time) int {
	e := l.m[ip]
	if e == nil {
		return 0
	}
	if hi.Sub(e.lo) < l.ttl {
		return e.n
	}
	if lo.Sub(e.hi) >= l.ttl {
		delete(l.m, ip)
		return 0
	}
	panic(skipCase{})
}

func (l *recs) set(ip string, n int, lo, hi time.Time) { l.m[ip] = &ipRec{n, lo, hi} }

func (l *recs) add(ip string, lo, hi time.Time) int {
	n := l.get(ip, lo, hi) + 1
	l.set(ip, n, lo, hi)
	return n
}

// dnSess is a session of the do-nothing check.
type dnSess struct {
	c             *Client
	ip, dst       string
	stalled       bool
	broken        bool
	dropped       bool
	counts, got   bool
	force         bool
	state         string
	from          bool // an accepted sender is on record
	yaktos        []string
	to            string
	greeted       bool
	over          bool
	trace         []string
	tls           bool
	vague         bool // whether it got to minphase is left open
	starttls      bool
	id            string
	lo            time.Time
	lastTo, lastD string
}

const dnRules = `# rules for do-nothing clients
@connect reject ip 127.6.0.66
@connect accept ip 127.6.0.77 with make-yakker
reject helo bad.example
@helo accept helo yh.example with make-yakker
@helo reject helo yb.example with make-yakker
@helo stall helo ys.example with make-yakker
@from reject from bad@from.example
@from accept from y@from.example with make-yakker
@from reject from yb@from.example with make-yakker
@to reject to bad@to.example
@to accept to y@to.example with make-yakker
@to stall to yb@to.example with make-yakker
@data reject to bad@data.example
@data accept to y@data.example with make-yakker
@message reject to bad@msg.example
@message stall to stall@msg.example
@message accept to y@msg.example with make-yakker
@message reject to yb@msg.example with make-yakker
accept all
`

var dnLine = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \[(\d+/\d+)\] (connection|added|force-set) (\S+) -> (\S+)$`)

func c14(r *Run) {
	r.Rule = "a case: one server with the virtual clock, -dncount 0..5, a -dndur between 2 minutes and 30 hours and any -minphase, and 60 (quick) or 150 steps on up to 5 sessions at once from 6 IPs: opening, one SMTP command, closing by QUIT or drop, bursts of do-nothing sessions, TLS failures, make-yakker in every phase, RSETs, broken rules, clock jumps to just before, at and after -dndur; each connection must be stalled or not as the reference history says, slow if stalled, in the SMTP log if not and noted in the do-nothing log if so; distinct by history"
	phases := []string{"helo", "from", "to", "data", "message", "accepted"}
	r.Each("history", r.N(400, 4000), 8, func(w *W, i int, rng *rand.Rand) (fail *Fail) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(skipCase); ok {
					r.Count("abandoned_too_slow", 1)
					fail = nil
					return
				}
				panic(e)
			}
		}()
		N := pick2(rng, 0, 1, 1, 2, 2, 3, 3, 5)
		if rng.Intn(10) == 0 {
			N = 11 + rng.Intn(6)
		}
		minphase := phases[i%6]
		ttl := []time.Duration{2 * time.Minute, 10 * time.Minute, time.Hour, 8 * time.Hour, 30 * time.Hour}[rng.Intn(5)]
		os.RemoveAll(w.path("save.away"))
		mkdir(w.path("save"))
		clearDir(w.path("save"))
		serverCert().save(w.dir, "srv")
		w.write("rules", dnRules)
		for _, l := range []string{"slog", "dnlog"} {
			os.Remove(w.path(l))
		}
		args := []string{"-d", "save", "-r", "rules", "-c", "srv.crt", "-k", "srv.key", "-smtplog", "slog"}
		mp := minphase
		if mp == "helo" && rng.Intn(2) == 0 {
			mp = "ehlo"
		}
		if mp != "helo" || rng.Intn(2) == 0 {
			args = append(args, "-minphase", mp)
		}
		if N > 0 {
			args = append(args, "-dncount", fmt.Sprint(N), "-dnlog", "dnlog")
			if ttl != 8*time.Hour || rng.Intn(2) == 0 {
				args = append(args, "-dndur", ttl.String())
			}
		}
		if rng.Intn(3) == 0 {
			args = append(args, "-nostdrules")
		}
		lst := []string{freshIP() + ":2525"}
		if rng.Intn(2) == 0 {
			lst = append(lst, freshIP()+":2526")
		}
		clk := &vclock{}
		yak := &recs{m: map[string]*ipRec{}, ttl: ttl}
		notls := &recs{m: map[string]*ipRec{}, ttl: 72 * time.Hour}
		ips := []string{"127.6.0.1", "127.6.0.11", "127.60.1.1", "127.6.0.2", "127.6.0.66", "127.6.0.77"}
		// a focused case: one client with several sessions at once, forced
		// more often and with more time passing
		focus := rng.Intn(3) == 0 || N > 10
		crowd := 0
		if rng.Intn(4) == 0 {
			crowd = 1 + rng.Intn(3)
		}
		nip := 4
		rare := func(n int) bool { return !focus && rng.Intn(n) > 0 }
		if focus {
			nip = 1
			rng.Shuffle(4, func(a, b int) { ips[a], ips[b] = ips[b], ips[a] })
		}
		if rng.Intn(4) == 0 {
			if a := addr6(); a != "" {
				lst = append(lst, a)
				ips[0] = "::1"
			}
		}
		d := w.mustDaemon(DOpts{Kind: "sinksmtp-clock", Args: args, Listen: lst})
		w.ds["c14"] = d
		defer func() { d.Stop(); delete(w.ds, "c14") }()
		broken, nosave := false, false
		var open []*dnSess
		var hist []string
		nstall, nconn := 0, 0
		stalls := map[string]int{}
		fin := func(f *Fail, s *dnSess) *Fail {
			det := map[string]interface{}{"args": d.Args, "rules": dnRules, "history": hist, "more": f.Detail}
			if s != nil {
				det["conversation"] = s.c.log
			}
			f.Detail = det
			return f
		}
		bad := func(s *dnSess, format string, a ...interface{}) *Fail {
			return fin(failf(nil, format, a...), s)
		}
		openOne := func(ip string) (*dnSess, *Fail) {
			s := &dnSess{ip: ip, dst: pick(rng, lst), state: "initial", broken: broken}
			if ip == "::1" {
				s.dst = lst[len(lst)-1]
			} else if s.dst[0] == '[' {
				s.dst = lst[0]
			}
			s.lo = clk.now()
			s.c = mustDial(ip, s.dst)
			rep := s.c.Read()
			hi := clk.now()
			nconn++
			r.Count("sessions", 1)
			cnt := yak.get(ip, s.lo, hi)
			s.stalled = N > 0 && cnt >= N
			s.counts = N > 0 && !s.stalled && !broken
			s.starttls = notls.get(ip, s.lo, hi) < 2
			switch {
			case s.stalled:
				nstall++
				stalls[ip]++
			case !broken && ip == "127.6.0.66":
				s.dropped = true
			case !broken && ip == "127.6.0.77":
				s.force = true
			}
			hist = append(hist, fmt.Sprintf("%s open (%d on record) stalled=%v broken=%v", ip, cnt, s.stalled, s.broken))
			r.Seen("record_at_connect", fmt.Sprintf("%d of %d", cnt, N))
			if s.dropped {
				if rep.Err == nil {
					return s, bad(s, "connection from %s with %d of %d failures on record should be dropped by a rule, got %s", ip, cnt, N, rep)
				}
				s.c.Close()
				s.over = true
				return s, nil
			}
			if rep.Code != 220 {
				return s, bad(s, "no greeting for %s: %s", ip, rep)
			}
			t := d.TraceOf(s.c.Src)
			if t == nil {
				infra("no trace of %s", s.c.Src)
			}
			if s.stalled != (t.Delay > 0) {
				return s, bad(s, "%s has %d of %d failures on record within %v: slow speed is %v", ip, cnt, N, ttl, t.Delay > 0)
			}
			return s, nil
		}
		reach := func(s *dnSess, ph string) {
			if ph == minphase {
				s.got = true
			}
		}
		expect := func(s *dnSess, what string, rep Reply, ph int, want string) *Fail {
			r.Count("replies", 1)
			s.trace = append(s.trace, what+"="+want)
			hist = append(hist, fmt.Sprintf("%s %s: %s", s.ip, what, rep))
			if got := replyClass(ph, rep); got != want {
				if s.stalled || want == "stall" {
					return bad(s, "%s from %s (stalled: %v, broken rules: %v, %d on record of %d): expected %s, got %s", what, s.ip, s.stalled, s.broken, recN(yak, s.ip), N, want, rep)
				}
				return bad(s, "%s from %s, which is not stalled: expected %s, got %s", what, s.ip, want, rep)
			}
			return nil
		}
		closeOne := func(s *dnSess, drop bool) *Fail {
			if s.over {
				return nil
			}
			s.over = true
			lo := clk.now()
			var err error
			if drop || s.state == "data" {
				err = s.c.Drop()
			} else {
				err = s.c.Quit()
			}
			if err != nil {
				return bad(s, "closing: %v", err)
			}
			hi := clk.now()
			what := "nothing"
			switch {
			case s.stalled || s.broken:
			case s.force:
				if N > 0 {
					yak.set(s.ip, N, lo, hi)
					what = "forced"
				}
			case s.got:
				delete(yak.m, s.ip)
				what = "cleared"
			case s.counts:
				what = fmt.Sprintf("counted %d", yak.add(s.ip, lo, hi))
			}
			hist = append(hist, fmt.Sprintf("%s closed: %s", s.ip, what))
			r.Seen("outcome", strings.Fields(what)[0])
			return nil
		}
		step := func(s *dnSess) *Fail {
			if s.stalled || s.broken {
				// greetings only
				n := pick(rng, []string{"ok.example", "yh.example", "bad.example", ""})
				cmd := pick(rng, []string{"EHLO", "HELO"})
				return expect(s, cmd, s.c.Cmd(strings.TrimSpace(cmd+" "+n)), phHelo, "stall")
			}
			if s.state != "data" && rng.Intn(20) == 0 {
				rep := s.c.Cmd(pick(rng, []string{"NOOP", "HELP", "VRFY x"}))
				if rep.Err != nil {
					return bad(s, "NOOP: %s", rep)
				}
				return nil
			}
			if s.state == "helo" || s.state == "initial" {
				if s.starttls && !s.tls && s.state == "helo" && rng.Intn(12) == 0 {
					if rng.Intn(3) > 0 {
						lo := clk.now()
						rep := s.c.Cmd("STARTTLS")
						if rep.Code != 220 {
							return bad(s, "STARTTLS: %s", rep)
						}
						s.c.Send("this is no handshake\r\n\r\n")
						s.c.Drop()
						s.over = true
						hi := clk.now()
						notls.add(s.ip, lo, hi)
						hist = append(hist, s.ip+" TLS failure")
						r.Seen("outcome", "tls-failure")
						// the session does not count as failed; it may have succeeded already
						if s.force {
							if N > 0 {
								yak.set(s.ip, N, lo, hi)
							}
						} else if s.got {
							delete(yak.m, s.ip)
						}
						return nil
					}
					if _, err := s.c.StartTLS(&tls.Config{InsecureSkipVerify: true}); err != nil {
						return bad(s, "STARTTLS: %v", err)
					}
					s.tls = true
					s.state = "initial"
				}
			}
			switch s.state {
			case "initial":
				n := pick(rng, []string{"ok.example", "ok.example", "ok.example", "bad.example", "bad.example", "yh.example", "yb.example", "ys.example"})
				if n[0] == 'y' && rare(4) {
					n = "ok.example"
				}
				want := map[byte]string{'o': "accept", 'b': "reject"}[n[0]]
				switch n {
				case "yh.example":
					want, s.force = "accept", true
				case "yb.example":
					want, s.force = "reject", true
				case "ys.example":
					want, s.force = "stall", true
				}
				cmd := pick(rng, []string{"EHLO", "HELO"})
				if want == "accept" {
					s.state = "helo"
					s.from = false
					reach(s, "helo")
				}
				return expect(s, cmd+" "+n, s.c.Cmd(cmd+" "+n), phHelo, want)
			case "helo":
				a := pick(rng, []string{"ok", "ok", "ok", "ok", "ok", "bad", "bad", "y", "yb", "<>"})
				if a[0] == 'y' && rare(4) {
					a = "ok"
				}
				want := map[string]string{"ok": "accept", "bad": "reject", "y": "accept", "yb": "reject", "<>": "accept"}[a]
				if a[0] == 'y' {
					s.force = true
				}
				lo := clk.now()
				adr := "<" + a + "@from.example>"
				if a == "<>" {
					adr = a
				}
				rep := s.c.Cmd("MAIL FROM:" + adr)
				if want == "accept" {
					if s.from && !s.got && s.counts {
						// the attempt before came to nothing
						n := yak.add(s.ip, lo, clk.now())
						hist = append(hist, fmt.Sprintf("%s abandoned attempt counted %d", s.ip, n))
						r.Seen("outcome", "abandoned-attempt")
						if n > N {
							want = "stall"
							if f := expect(s, "MAIL "+a, rep, phFrom, want); f != nil {
								return f
							}
							s.over = true
							if err := s.c.EOF(); err != nil {
								return bad(s, "after too many attempts: %v", err)
							}
							s.c.Close()
							r.Seen("outcome", "disconnected")
							// whether make-yakker rules of this session still take hold is moot: the client is stalled
							return nil
						}
					}
					// one with the null sender does not count when abandoned
					s.from = a != "<>"
					s.state = "mail"
					s.to = ""
					reach(s, "from")
				}
				return expect(s, "MAIL "+a, rep, phFrom, want)
			case "mail", "rcpt":
				if rng.Intn(4) == 0 {
					s.state = "helo"
					if rep := s.c.Cmd("RSET"); rep.Code != 250 {
						return bad(s, "RSET: %s", rep)
					}
					hist = append(hist, s.ip+" RSET")
					return nil
				}
				if s.state == "rcpt" {
					want := "accept"
					switch s.to {
					case "bad@data.example":
						want = "reject"
					case "y@data.example":
						s.force = true
					}
					if want == "accept" {
						s.state = "data"
						reach(s, "data")
					}
					f := expect(s, "DATA", s.c.Cmd("DATA"), phData, want)
					if want != "accept" && f == nil {
						s.state = "mail?"
					}
					return f
				}
				a := pick(rng, []string{"ok@to.example", "ok@to.example", "ok@to.example", "bad@to.example", "y@to.example", "yb@to.example", "bad@data.example", "y@data.example", "bad@msg.example", "stall@msg.example", "y@msg.example", "yb@msg.example"})
				if a[0] == 'y' && rare(3) {
					a = "bad@msg.example"
				}
				want := "accept"
				switch a {
				case "bad@to.example":
					want = "reject"
				case "y@to.example":
					s.force = true
				case "yb@to.example":
					want, s.force = "stall", true
				}
				if want == "accept" {
					s.to = a
					s.state = "rcpt"
					reach(s, "to")
				}
				return expect(s, "RCPT "+a, s.c.Cmdf("RCPT TO:<%s>", a), phTo, want)
			case "mail?":
				s.state = "helo"
				if rep := s.c.Cmd("RSET"); rep.Code != 250 {
					return bad(s, "RSET: %s", rep)
				}
				return nil
			case "data":
				if rng.Intn(6) == 0 {
					// goes away in the middle of the message
					s.c.Send("Subject: half\r\n\r\nhalf a mess")
					return closeOne(s, true)
				}
				want := "accept"
				reach(s, "message")
				if nosave {
					// our failure, not the client's
					s.got = true
					s.state = "mail?"
					r.Seen("outcome", "not-saved")
					return expect(s, "message not saved", s.c.Body(simpleBody(rng)), phMessage, "stall")
				}
				switch s.to {
				case "bad@msg.example":
					want = "reject"
				case "stall@msg.example":
					want = "stall"
				case "y@msg.example":
					s.force = true
				case "yb@msg.example":
					want, s.force = "reject", true
				}
				f := expect(s, "message", s.c.Body(simpleBody(rng)), phMessage, want)
				s.state = "helo"
				if want == "accept" {
					reach(s, "accepted")
				} else {
					s.state = "mail?"
				}
				return f
			}
			return nil
		}
		drop1 := func(k int) {
			open = append(open[:k], open[k+1:]...)
		}
		for n := r.N(60, 150); n > 0; n-- {
			x := rng.Intn(100)
			if focus && rng.Intn(8) == 0 {
				x = 99
			}
			switch {
			case crowd > 0 && rng.Intn(20) == 0:
				// many other clients that do nothing
				crowd--
				m := 12 + rng.Intn(50)
				for k := 0; k < m; k++ {
					s, f := openOne(fmt.Sprintf("127.61.%d.%d", crowd, 1+rng.Intn(70)))
					if f == nil {
						f = closeOne(s, rng.Intn(4) == 0)
					}
					if f != nil {
						return f
					}
				}
				r.Count("crowds", 1)
			case x < 28 && len(open) < 5 || len(open) == 0:
				ip := ips[rng.Intn(nip)]
				if rng.Intn(12) == 0 {
					ip = pick(rng, ips)
				}
				s, f := openOne(ip)
				if f != nil {
					return f
				}
				if !s.over {
					open = append(open, s)
				}
			case x < 65:
				k := rng.Intn(len(open))
				for q := rng.Intn(6); q >= 0 && !open[k].over; q-- {
					if f := step(open[k]); f != nil {
						return f
					}
				}
				if open[k].over {
					drop1(k)
				}
			case x < 90:
				k := rng.Intn(len(open))
				s := open[k]
				drop1(k)
				if f := closeOne(s, rng.Intn(2) == 0); f != nil {
					return f
				}
			case x < 93:
				// a burst of sessions of one client that all end at once
				ip := ips[rng.Intn((nip+3)/2)]
				var b []*dnSess
				for k := 1 + rng.Intn(N+2); k > 0; k-- {
					s, f := openOne(ip)
					if f != nil {
						return f
					}
					b = append(b, s)
				}
				lo := clk.now()
				var wg sync.WaitGroup
				errs := make([]error, len(b))
				for k, s := range b {
					wg.Add(1)
					go func(k int, c *Client) {
						defer wg.Done()
						errs[k] = c.Quit()
					}(k, s.c)
				}
				wg.Wait()
				hi := clk.now()
				for k, s := range b {
					if errs[k] != nil {
						return bad(s, "closing: %v", errs[k])
					}
					if s.counts {
						yak.add(s.ip, lo, hi)
					}
				}
				hist = append(hist, fmt.Sprintf("%s burst of %d", ip, len(b)))
				r.Seen("outcome", "burst")
			case x == 93:
				nosave = !nosave
				if nosave {
					os.Rename(w.path("save"), w.path("save.away"))
				} else {
					os.Rename(w.path("save.away"), w.path("save"))
				}
				hist = append(hist, fmt.Sprintf("cannot save: %v", nosave))
			case x < 95:
				broken = !broken
				if broken {
					w.write("rules", dnRules+"no such rule\n")
				} else {
					w.write("rules", dnRules)
				}
				hist = append(hist, fmt.Sprintf("rules broken: %v", broken))
			default:
				a := []time.Duration{ttl / 3, ttl / 2, ttl - 30*time.Second, ttl - 30*time.Second, ttl, ttl, ttl + time.Second, 2 * ttl}[rng.Intn(8)]
				d.Advance(int64(a / time.Second))
				clk.off += a / time.Second * time.Second
				hist = append(hist, fmt.Sprintf("clock +%v", a))
				r.Seen("clock_jumps", fmt.Sprintf("%.2f dndur", a.Seconds()/ttl.Seconds()))
			}
		}
		for _, s := range open {
			if f := closeOne(s, false); f != nil {
				return f
			}
		}
		// The logs: every session that was not stalled and none that was.
		var by map[string][]string
		var complaint string
		waitFor(10*time.Second, func() bool {
			by, complaint = logBySession(readFile(w.path("slog")), d.pid)
			return len(by) >= nconn-nstall
		})
		if complaint != "" {
			return bad(nil, "SMTP log: %s", complaint)
		}
		if len(by) != nconn-nstall {
			return bad(nil, "the SMTP log has %d sessions; there were %d connections of which %d were stalled", len(by), nconn, nstall)
		}
		if N > 0 {
			got := map[string]int{}
			total := 0
			for _, l := range lines(readFile(w.path("dnlog"))) {
				m := dnLine.FindStringSubmatch(l)
				if m == nil {
					return bad(nil, "do-nothing log: odd line %q", l)
				}
				if m[2] != "connection" {
					continue
				}
				if by[m[1]] != nil {
					return bad(nil, "session %s is in the SMTP log and in the do-nothing log as stalled", m[1])
				}
				got[m[3]]++
				total++
			}
			for ip, n := range stalls {
				if got[ip] != n {
					return bad(nil, "do-nothing log: %d stalled connections of %s, there were %d", got[ip], ip, n)
				}
			}
			if total != nstall {
				return bad(nil, "do-nothing log: %d stalled connections, there were %d", total, nstall)
			}
		}
		r.Count("stalled_sessions", nstall)
		r.Eval(fmt.Sprint(N, minphase, ttl, hist))
		if i < 3 {
			r.Sample(map[string]interface{}{"args": d.Args, "history": hist})
		}
		return nil
	})
}

func recN(l *recs, ip string) int {
	if e := l.m[ip]; e != nil {
		return e.n
	}
	return 0
}
