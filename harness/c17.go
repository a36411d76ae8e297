package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() { register("C17", "plain race yield", c17) }

// logSess is a session as its client knows it.
type logSess struct {
	c            *Client
	role         string // normal, drop, yak, stalled
	notes        []string
	txns         []*Txn
	seq0, seq1   int64 // order of dialling and of the greeting
	partial      bool
	id           string
	added        bool
	rip          string
	ended        string // quit, drop, abort
	tlsok        bool
	replyMarkers int
}

var dnLine17 = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) \[(\d+/\d+)\] (connection|added|force-set) (\S+) -> (\S+)$`)
var smtpLine17 = regexp.MustCompile(`^(\d+/\d+) ?([#!rw.]) (.*)$`)

func longText(rng *rand.Rand, tag string) string {
	n := pick2(rng, 10, 100, 500, 4000, 4096, 8100, 8192, 9000, 16384, 40000)
	var b strings.Builder
	b.WriteString(tag)
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, " %s.%d", tag, i)
	}
	return b.String()
}

func c17(r *Run) {
	r.Rule = "a case: one server (every second one with the race detector) whose SMTP log, message log and do-nothing log are separate files, one shared file or one shared standard output, and 10 to 40 clients running 3 to 8 sessions each at once: transactions under rules with notes and messages of up to 40 KB, up to 120 recipients, commands of up to 2000 bytes, TLS, dropped, aborted and connect-dropped sessions, do-nothing and stalled clients; afterwards every line of the logs must be whole, carry an ID, belong to exactly one session, and each session's lines must be in order the commands sent, replies seen and remarks due; IDs must be unique, gapless and in order of connection; long: over 1000 sessions of one server, each with lines and an ID of its own; kept: logs with contents, restarts, two servers with the same logs, logs emptied by others: what was there stays and every session's lines are added whole. Distinct by the order in which sessions alternate in the log"
	r.Each("logs", r.N(130, 800), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		w.dns.Reset()
		os.RemoveAll(w.path("save"))
		mkdir(w.path("save"))
		for _, f := range []string{"slog", "mlog", "dlog"} {
			os.Remove(w.path(f))
		}
		serverCert().save(w.dir, "srv")
		kind := "sinksmtp"
		switch i % 4 {
		case 1:
			kind = "sinksmtp-race"
		case 2:
			kind = "sinksmtp-yield"
		case 3:
			kind = "sinksmtp-raceyield"
		}
		mode := []string{"files", "shared", "stdout", "stdout"}[rng.Intn(4)]
		sl, ml, dl := "slog", "mlog", "dlog"
		switch mode {
		case "shared":
			ml, dl = "slog", "slog"
		case "stdout":
			sl, ml, dl = "-", "-", "-"
		}
		// markers: the local part of the sender selects a note, that of the
		// recipient a message
		notes := map[string]string{}
		msgs := map[string]string{}
		var rl strings.Builder
		fmt.Fprintf(&rl, "@connect reject ip 127.31.0.0/16\n")
		for k := 0; k < 6; k++ {
			n := fmt.Sprintf("n%d", k)
			notes[n] = longText(rng, n)
			fmt.Fprintf(&rl, "@from set-with from %s@ with note \"%s\"\n", n, notes[n])
			m := fmt.Sprintf("m%d", k)
			msgs[m] = longText(rng, m)
			if rng.Intn(2) == 0 {
				msgs[m] += "\n" + longText(rng, m+"x")
			}
			fmt.Fprintf(&rl, "@to %s to %s@ with message \"%s\"\n", pick(rng, []string{"accept", "reject", "stall"}), m, msgs[m])
		}
		fmt.Fprintf(&rl, "@data reject from refused@\n@message reject from rejected@\n")
		w.write("rules", rl.String())
		lst := []string{freshIP() + ":2525", freshIP() + ":2525"}
		dn := 2
		d := w.mustDaemon(DOpts{Kind: kind, Listen: lst, Args: []string{"-d", "save", "-l", ml, "-smtplog", sl, "-dnlog", dl, "-dncount", fmt.Sprint(dn), "-r", "rules", "-c", "srv.crt", "-k", "srv.key"}})
		w.ds["c17"] = d
		defer func() { d.Stop(); delete(w.ds, "c17") }()
		var mu sync.Mutex
		var all []*logSess
		var seq int64
		var fail *Fail
		stamp := func() int64 { mu.Lock(); defer mu.Unlock(); seq++; return seq }
		setFail := func(f *Fail) {
			mu.Lock()
			if fail == nil {
				fail = f
			}
			mu.Unlock()
		}
		runSess := func(rng *rand.Rand, role, src string) *logSess {
			s := &logSess{role: role, rip: src}
			s.seq0 = stamp()
			la := pick(rng, lst)
			s.c = mustDial(src, la)
			defer s.c.Close()
			defer func() {
				mu.Lock()
				all = append(all, s)
				mu.Unlock()
			}()
			c := s.c
			rep := c.Read()
			s.seq1 = stamp()
			if role == "drop" {
				if rep.Err == nil {
					setFail(failf(c.log, "%s should be dropped at connect", src))
				}
				return s
			}
			if rep.Code != 220 {
				setFail(failf(c.log, "no greeting: %s", rep))
				return s
			}
			switch role {
			case "yak":
				// nothing, or a refused greeting
				if rng.Intn(2) == 0 {
					c.Cmd("EHLO")
				}
				c.Quit()
				s.ended = "quit"
				return s
			case "stalled":
				if rep := c.Cmd("EHLO x.example"); rep.Class() != 4 {
					setFail(failf(c.log, "stalled client: %s", rep))
				}
				c.Quit()
				s.ended = "quit"
				return s
			}
			helo := "c." + strings.Repeat("x", rng.Intn(3)*600) + ".example"
			if rep := c.Cmd("EHLO " + helo); rep.Class() != 2 {
				setFail(failf(c.log, "EHLO: %s", rep))
				return s
			}
			if rng.Intn(6) == 0 {
				if _, err := c.StartTLS(&tls.Config{InsecureSkipVerify: true}); err != nil {
					setFail(failf(c.log, "STARTTLS: %v", err))
					return s
				}
				s.tlsok = true
				c.Cmd("EHLO " + helo)
			}
			for k := 1 + rng.Intn(4); k > 0; k-- {
				switch rng.Intn(12) {
				case 0:
					c.Cmd("NOOP " + strings.Repeat("y", rng.Intn(1990)))
				case 1:
					c.Cmd("VRFY 50%s%d%n")
				case 2:
					if rng.Intn(3) == 0 {
						c.Cmd("")
					}
				}
				c.Cmd("RSET")
				lp := pick(rng, []string{"n0", "n1", "n2", "n3", "n4", "n5", "q", "q", "refused", "rejected"})
				from := fmt.Sprintf("%s@%s.example", lp, strings.Repeat("d", 1+rng.Intn(3)*500))
				if rep := c.Cmdf("MAIL FROM:<%s>", from); rep.Class() != 2 {
					setFail(failf(c.log, "MAIL FROM: %s", rep))
					return s
				}
				if n := notes[lp]; n != "" {
					s.notes = append(s.notes, n)
				}
				var rcpts []string
				for k := 1 + rng.Intn(3); k > 0; k-- {
					rc := fmt.Sprintf("%s@d.example", pick(rng, []string{"m0", "m1", "m2", "m3", "m4", "m5", "z", "z"}))
					rep := c.Cmdf("RCPT TO:<%s>", rc)
					if rep.Class() == 2 {
						rcpts = append(rcpts, rc)
					}
				}
				if rng.Intn(25) == 0 {
					// a long message log line
					for k := 20 + rng.Intn(100); k > 0; k-- {
						rc := fmt.Sprintf("z%d%s@d.example", k, strings.Repeat("-l", rng.Intn(100)))
						if rep := c.Cmdf("RCPT TO:<%s>", rc); rep.Class() != 2 {
							setFail(failf(c.log, "RCPT TO: %s", rep))
							return s
						}
						rcpts = append(rcpts, rc)
					}
				}
				if len(rcpts) == 0 || rng.Intn(6) == 0 {
					continue
				}
				if rep := c.Cmd("DATA"); rep.Code != 354 {
					continue
				}
				body := fmt.Sprintf("Subject: %d\n\n%s\n", rng.Int63(), longText(rng, "body"))
				t0 := time.Now()
				rep := c.Body(body)
				tx := &Txn{Src: c.Src, Dst: la, Rip: src, Helo: helo, From: from, Rcpts: rcpts, Data: body, T0: t0, T1: time.Now()}
				if s.tlsok {
					tx.TLSLog = fmt.Sprintf(" tls:cipher 0x%04x tls:proto 0x%04x", c.TLS.CipherSuite, c.TLS.Version)
				}
				if rep.Err != nil {
					setFail(failf(c.log, "message: %s", rep))
					return s
				}
				s.txns = append(s.txns, tx)
			}
			switch rng.Intn(6) {
			case 0:
				c.Drop()
				s.ended = "drop"
			case 1:
				// a command too long: aborted
				c.Send(strings.Repeat("w", 3000))
				c.Drop()
				s.ended = "drop"
			default:
				if err := c.Quit(); err != nil {
					setFail(failf(c.log, "QUIT: %v", err))
				}
				s.ended = "quit"
			}
			return s
		}
		nc := 10 + rng.Intn(31)
		ns := 3 + rng.Intn(6)
		var wg sync.WaitGroup
		for k := 0; k < nc; k++ {
			crng := rand.New(rand.NewSource(rng.Int63()))
			kindOf := rng.Intn(8)
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						if f, ok := e.(*Fail); ok {
							setFail(f)
							return
						}
						panic(e)
					}
				}()
				for n := 0; n < ns; n++ {
					src := fmt.Sprintf("127.30.%d.%d", 1+k/200, 1+k%200)
					switch {
					case kindOf == 0:
						runSess(crng, "drop", fmt.Sprintf("127.31.0.%d", 1+k))
					case kindOf == 1 && n < dn:
						s := runSess(crng, "yak", src)
						s.added = n == dn-1
					case kindOf == 1:
						runSess(crng, "stalled", src)
					default:
						runSess(crng, "normal", src)
					}
				}
			}(k)
		}
		wg.Wait()
		if fail != nil {
			return fail
		}
		// Which lines are due?
		slog, mlog, dlog := "", "", ""
		bigm := 0
		get := func() {
			switch mode {
			case "files":
				slog, mlog, dlog = readFile(w.path("slog")), readFile(w.path("mlog")), readFile(w.path("dlog"))
			case "shared":
				slog = readFile(w.path("slog"))
			case "stdout":
				slog = d.Stdout()
			}
		}
		nfin := 0
		for _, s := range all {
			if s.ended != "" && s.role != "stalled" {
				nfin++
			}
		}
		ndrop, ndn, nmsg := 0, 0, 0
		for _, s := range all {
			switch {
			case s.role == "drop":
				ndrop++
			case s.role == "stalled", s.added:
				ndn++
			}
			nmsg += len(s.txns)
		}
		check := func() string {
			get()
			var dlines, mlines []string
			if mode != "files" {
				// take the logs apart
				if slog != "" && !strings.HasSuffix(slog, "\n") {
					return "the log does not end in a whole line"
				}
				var sb strings.Builder
				for _, l := range lines(slog) {
					switch {
					case dnLine17.MatchString(l):
						dlines = append(dlines, l)
					case mlogLine.MatchString(l):
						mlines = append(mlines, l)
					default:
						sb.WriteString(l + "\n")
					}
				}
				slog = sb.String()
			} else {
				if dlog != "" && !strings.HasSuffix(dlog, "\n") || mlog != "" && !strings.HasSuffix(mlog, "\n") {
					return "a log does not end in a whole line"
				}
				dlines, mlines = lines(dlog), lines(mlog)
			}
			by, cpl := logBySession(slog, d.pid)
			if cpl != "" {
				return cpl
			}
			// whose is which
			src2id := map[string][]string{}
			used := map[string]bool{}
			for id, ls := range by {
				who := ""
				for _, l := range ls {
					if strings.HasPrefix(l, "# remote ") {
						if who != "" {
							return fmt.Sprintf("ID %s is used by two sessions: %s and %s", id, who, strings.Fields(l)[2])
						}
						who = strings.Fields(l)[2]
					}
					if m := aboutIP.FindStringSubmatch(l); m != nil && who == "" && m[2] == "dropped on connect" {
						who = "ip " + m[1]
					}
				}
				if who == "" {
					return fmt.Sprintf("session %s has no remote line: %q", id, tailS(strings.Join(ls, " / "), 300))
				}
				src2id[who] = append(src2id[who], id)
				used[id] = true
			}
			num := func(id string) int {
				_, n, _ := strings.Cut(id, "/")
				x, _ := strconv.Atoi(n)
				return x
			}
			for _, ids := range src2id {
				sort.Slice(ids, func(a, b int) bool { return num(ids[a]) < num(ids[b]) })
			}
			order := append([]*logSess{}, all...)
			sort.Slice(order, func(a, b int) bool { return order[a].seq0 < order[b].seq0 })
			for _, s := range order {
				if s.role == "stalled" {
					if len(src2id[s.c.Src]) > 0 {
						// the port may have been used before by the same
						// client when it was not stalled
						continue
					}
					continue
				}
				key := s.c.Src
				ids := src2id[key]
				if len(ids) == 0 && s.role == "drop" {
					key = "ip " + s.rip
					ids = src2id[key]
				}
				if len(ids) == 0 {
					return fmt.Sprintf("the session of %s is not in the log", s.c.Src)
				}
				s.id = ids[0]
				src2id[key] = ids[1:]
				ls := by[s.id]
				if s.role == "drop" {
					n := 0
					for _, l := range ls {
						if strings.HasPrefix(l, "! "+s.rip+" dropped on connect") {
							n++
						} else if l[0] == 'r' || l[0] == 'w' {
							return fmt.Sprintf("dropped session %s has %q", s.id, tailS(l, 200))
						}
					}
					if n != 1 {
						return fmt.Sprintf("dropped session %s: %q", s.id, ls)
					}
					continue
				}
				if c := logMatches(s.c, s.rip, ls, false); c != "" {
					return fmt.Sprintf("session %s of %s: %s", s.id, s.c.Src, c)
				}
				// notes: in order, right after their command
				var got []string
				last := ""
				added := 0
				for _, l := range ls {
					if l[0] == 'r' {
						last = l
					}
					if n := strings.TrimPrefix(l, "! rule note: "); n != l {
						got = append(got, n)
						if !strings.HasPrefix(last, "r MAIL FROM:<"+n[:2]+"@") {
							return fmt.Sprintf("session %s: the note %q is after %q", s.id, tailS(n, 50), tailS(last, 100))
						}
					}
					if strings.HasPrefix(l, "! ") && strings.Contains(l, " added as a yakker") {
						added++
					}
				}
				if strings.Join(got, "\n") != strings.Join(s.notes, "\n") {
					return fmt.Sprintf("session %s: %d notes logged, %d applied", s.id, len(got), len(s.notes))
				}
				if added != map[bool]int{true: 1}[s.added] {
					return fmt.Sprintf("session %s: %d times added as a yakker", s.id, added)
				}
			}
			for src, ids := range src2id {
				if len(ids) > 0 {
					return fmt.Sprintf("the log has sessions %q of %s that there were not", ids, src)
				}
			}
			// the do-nothing log
			stalledBy := map[string]int{}
			addedID := map[string]string{}
			for _, s := range all {
				if s.role == "stalled" {
					stalledBy[s.rip]++
				}
				if s.added {
					addedID[s.id] = s.rip
				}
			}
			for _, l := range dlines {
				m := dnLine17.FindStringSubmatch(l)
				if m == nil {
					return fmt.Sprintf("not a do-nothing log line: %q", tailS(l, 300))
				}
				switch m[3] {
				case "connection":
					if stalledBy[m[4]] == 0 {
						return fmt.Sprintf("there was no such stalled session: %q", l)
					}
					stalledBy[m[4]]--
					if used[m[2]] {
						return fmt.Sprintf("the ID of a stalled session is another's too: %q", l)
					}
					used[m[2]] = true
				case "added":
					if addedID[m[2]] != m[4] {
						return fmt.Sprintf("this was not the session added: %q", l)
					}
					delete(addedID, m[2])
				default:
					return fmt.Sprintf("unexpected do-nothing log line %q", l)
				}
			}
			for ip, n := range stalledBy {
				if n > 0 {
					return fmt.Sprintf("%d stalled sessions of %s are not in the do-nothing log", n, ip)
				}
			}
			for id := range addedID {
				return fmt.Sprintf("the addition in session %s is not in the do-nothing log", id)
			}
			// IDs
			for n := 1; n <= len(all); n++ {
				if !used[fmt.Sprintf("%d/%d", d.pid, n)] {
					return fmt.Sprintf("%d connections were made, but none has ID %d/%d", len(all), d.pid, n)
				}
			}
			for _, a := range order {
				for _, b := range order {
					if a.id != "" && b.id != "" && a.seq1 < b.seq0 && num(a.id) >= num(b.id) {
						return fmt.Sprintf("the session of %s has ID %s, the later one of %s has %s", a.c.Src, a.id, b.c.Src, b.id)
					}
				}
			}
			// the message log
			pend := map[string][]*Txn{}
			for _, s := range all {
				for _, t := range s.txns {
					t.ID = s.id
					pend[s.id] = append(pend[s.id], t)
				}
			}
			for _, l := range mlines {
				m := mlogLine.FindStringSubmatch(l)
				if m == nil {
					return fmt.Sprintf("not a message log line: %q", tailS(l, 300))
				}
				q := pend[m[2]]
				if len(q) == 0 {
					return fmt.Sprintf("session %s had no such message: %q", m[2], tailS(l, 300))
				}
				if c := q[0].checkLog(l); c != "" {
					return fmt.Sprintf("message log line of session %s: %s", m[2], c)
				}
				pend[m[2]] = q[1:]
				if len(l) > 4096 {
					bigm++
				}
			}
			for id, q := range pend {
				if len(q) > 0 {
					return fmt.Sprintf("%d messages of session %s are not in the message log", len(q), id)
				}
			}
			return ""
		}
		cpl := ""
		waitFor(5*time.Second, func() bool { bigm = 0; cpl = check(); return cpl == "" })
		if cpl != "" {
			return failf(map[string]interface{}{"args": d.Args, "rules": tailS(rl.String(), 2000), "log": tailS(slog, 20000)}, "%s (logs: %s)", cpl, mode)
		}
		sw, prev, big := 0, "", 0
		sig := ""
		nl := 0
		for _, l := range parseLog(slog) {
			nl++
			if l.ID != prev {
				sw++
				if len(sig) < 4000 {
					sig += strings.TrimPrefix(l.ID, fmt.Sprint(d.pid)) + " "
				}
			}
			prev = l.ID
			if len(l.Text) > 8192 {
				big++
			}
		}
		r.Count("sessions", len(all))
		r.Count("log_lines", nl)
		r.Count("session_switches_in_log", sw)
		r.Count("lines_over_8k", big)
		r.Count("message_log_lines_over_4k", bigm)
		r.Count("messages", nmsg)
		r.Count("dropped_at_connect", ndrop)
		r.Count("do_nothing_log_lines", ndn)
		r.Seen("log_targets", mode+" "+kind)
		r.Eval(sig)
		if i < 2 {
			r.Sample(map[string]interface{}{"mode": mode, "clients": nc, "sessions_each": ns, "first_lines": tailS(strings.Join(lines(slog)[:min(20, len(lines(slog)))], "\n"), 3000)})
		}
		return nil
	})
	r.Each("long", r.N(4, 30), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		// one server and very many sessions
		os.RemoveAll(w.path("save"))
		mkdir(w.path("save"))
		os.Remove(w.path("slog"))
		os.Remove(w.path("mlog"))
		d := w.mustDaemon(DOpts{Args: []string{"-d", "save", "-l", "mlog", "-smtplog", "slog"}})
		w.ds["c17l"] = d
		defer func() { d.Stop(); delete(w.ds, "c17l") }()
		n := r.N(1100, 5000) + rng.Intn(r.N(300, 20000))
		var mu sync.Mutex
		var fail *Fail
		by := map[string]*Client{}
		reused := map[string]bool{}
		mails := 0
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			seed := rng.Int63()
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						fail = failf(nil, "%v", e)
						if f, ok := e.(*Fail); ok {
							fail = f
						}
						mu.Unlock()
					}
				}()
				rng := rand.New(rand.NewSource(seed))
				src := fmt.Sprintf("127.34.0.%d", 1+g)
				for k := g; k < n; k += 16 {
					c := mustDial(src, d.Addr)
					rep := c.Read()
					cmds := []string{"EHLO c.example"}
					if rng.Intn(10) == 0 {
						cmds = append(cmds, "MAIL FROM:<a@x.example>", "RCPT TO:<b@x.example>", "DATA")
					}
					for _, s := range cmds {
						if rep.Err == nil {
							rep = c.Cmd(s)
						}
					}
					if rep.Err == nil && len(cmds) > 1 {
						rep = c.Body(simpleBody(rng))
						mu.Lock()
						mails++
						mu.Unlock()
					}
					if rep.Class() != 2 {
						panic(failf(c.log, "session %d: %s", k, rep))
					}
					if err := c.Quit(); err != nil {
						panic(failf(c.log, "session %d: %v", k, err))
					}
					mu.Lock()
					if by[c.Src] != nil {
						reused[c.Src] = true
					}
					by[c.Src] = c
					mu.Unlock()
				}
			}(g)
		}
		wg.Wait()
		if fail != nil {
			return fail
		}
		var ids map[string][]string
		complaint := ""
		waitFor(10*time.Second, func() bool {
			ids, complaint = logBySession(readFile(w.path("slog")), d.pid)
			return len(ids) >= n
		})
		if complaint != "" {
			return failf(nil, "SMTP log: %s", complaint)
		}
		if len(ids) != n {
			return failf(nil, "the SMTP log has %d IDs, there were %d sessions", len(ids), n)
		}
		for k := 1; k <= n; k++ {
			id := fmt.Sprintf("%d/%d", d.pid, k)
			ls := ids[id]
			if ls == nil {
				return failf(nil, "no session in the SMTP log has the ID %s; there were %d sessions", id, n)
			}
			src := ""
			if f := strings.Fields(ls[0]); len(f) > 2 && f[1] == "remote" {
				src = f[2]
			}
			c := by[src]
			if c == nil {
				return failf(ls, "the lines of %s do not say whose they are", id)
			}
			if reused[src] {
				continue
			}
			if s := logMatches(c, strings.Split(src, ":")[0], ls, false); s != "" {
				return failf(map[string]interface{}{"log": ls, "conversation": c.log}, "session %s of %d: %s", id, n, s)
			}
			r.Count("sessions_of_long_runs", 1)
		}
		if m := len(lines(readFile(w.path("mlog")))); m != mails {
			return failf(nil, "the message log has %d lines, there were %d messages", m, mails)
		}
		r.Eval(fmt.Sprint("long", n, mails))
		return nil
	})
	r.Each("kept", r.N(60, 600), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		// log files that have something in them already, restarts, several
		// servers writing to the same files, files being emptied by others
		os.RemoveAll(w.path("save"))
		mkdir(w.path("save"))
		files := []string{"slog", "mlog", "dlog"}
		if rng.Intn(3) == 0 {
			files = []string{"log", "log", "log"}
		}
		base := map[string]string{}
		for _, f := range files {
			if _, ok := base[f]; ok {
				continue
			}
			os.Remove(w.path(f))
			s := ""
			if rng.Intn(5) > 0 {
				for k := rng.Intn(200); k >= 0; k-- {
					s += fmt.Sprintf("%d/%d %s line %d of %s\n", 1+rng.Intn(9), k, pick(rng, []string{"r", "w", "!", "#"}), k, f)
				}
				w.write(f, s)
			}
			base[f] = s
		}
		nd := 1 + rng.Intn(2)
		ds := make([]*Daemon, nd)
		start := func(k int) {
			ds[k] = w.mustDaemon(DOpts{Args: []string{"-d", "save", "-l", files[1], "-smtplog", files[0], "-dnlog", files[2], "-dncount", "1"}})
			w.ds[fmt.Sprint("kept", k)] = ds[k]
		}
		defer func() {
			for k, d := range ds {
				if d != nil {
					d.Stop()
					delete(w.ds, fmt.Sprint("kept", k))
				}
			}
		}()
		for k := range ds {
			start(k)
		}
		type ks struct {
			pid int
			c   *Client
			rip string
			dn  bool
		}
		var all []ks
		var hist []string
		check := func() string {
			got := map[string]string{}
			for f, b := range base {
				s := readFile(w.path(f))
				if !strings.HasPrefix(s, b) {
					return fmt.Sprintf("what %s held before (%d bytes) is not there any more: it has %d bytes, %q", f, len(b), len(s), tailS(s, 200))
				}
				got[f] = s[len(b):]
				if got[f] != "" && !strings.HasSuffix(got[f], "\n") {
					return fmt.Sprintf("%s does not end in a whole line", f)
				}
			}
			var sl, ml, dl []string
			for f := range base {
				for _, l := range lines(got[f]) {
					at := f
					if f == "log" {
						switch {
						case dnLine17.MatchString(l):
							at = "dlog"
						case mlogLine.MatchString(l):
							at = "mlog"
						default:
							at = "slog"
						}
					}
					switch at {
					case "slog":
						sl = append(sl, l)
					case "mlog":
						ml = append(ml, l)
					default:
						dl = append(dl, l)
					}
				}
			}
			pids := map[int]string{}
			for _, l := range sl {
				p, _, _ := strings.Cut(l, "/")
				n, _ := strconv.Atoi(p)
				pids[n] += l + "\n"
			}
			msgs, dns := map[string]int{}, map[string]int{}
			for _, l := range ml {
				m := mlogLine.FindStringSubmatch(l)
				if m == nil {
					return fmt.Sprintf("not a message log line: %q", tailS(l, 300))
				}
				msgs[m[2]]++
			}
			for _, l := range dl {
				m := dnLine17.FindStringSubmatch(l)
				if m == nil {
					return fmt.Sprintf("not a do-nothing log line: %q", tailS(l, 300))
				}
				dns[m[2]+" "+m[3]+" "+m[4]]++
			}
			n := 0
			for _, s := range all {
				by, cpl := logBySession(pids[s.pid], s.pid)
				if cpl != "" {
					return cpl
				}
				id := ""
				for x, ls := range by {
					for _, l := range ls {
						if strings.HasPrefix(l, "# remote "+s.c.Src+" at ") {
							id = x
						}
					}
				}
				if id == "" {
					return fmt.Sprintf("the session of %s with server %d is not in the log", s.c.Src, s.pid)
				}
				if c := logMatches(s.c, s.rip, by[id], false); c != "" {
					return fmt.Sprintf("session %s: %s", id, c)
				}
				n += len(by[id])
				if s.dn && dns[id+" added "+s.rip] != 1 || !s.dn && msgs[id] != 1 {
					return fmt.Sprintf("session %s has %d message log lines and %d do-nothing log lines", id, msgs[id], dns[id+" added "+s.rip])
				}
			}
			if n != len(sl) {
				return fmt.Sprintf("the SMTP log has %d new lines, the sessions account for %d", len(sl), n)
			}
			if len(ml)+len(dl) != len(all) {
				return fmt.Sprintf("%d message log and %d do-nothing log lines for %d sessions", len(ml), len(dl), len(all))
			}
			return ""
		}
		for round := 2 + rng.Intn(3); round > 0; round-- {
			var wg sync.WaitGroup
			var mu sync.Mutex
			for _, d := range ds {
				for j := 1 + rng.Intn(4); j > 0; j-- {
					wg.Add(1)
					go func(d *Daemon, dn bool) {
						defer wg.Done()
						rip := anySrc()
						c, err := dial(rip, d.Addr)
						if err != nil {
							return
						}
						defer c.Close()
						c.Read()
						if !dn {
							for _, s := range []string{"EHLO h.example", "MAIL FROM:<a@b.example>", "RCPT TO:<c@d.example>", "DATA"} {
								c.Cmd(s)
							}
							c.Body("Subject: " + rip + "\n\n" + strings.Repeat("x", 20) + "\n")
						}
						c.Quit()
						mu.Lock()
						all = append(all, ks{d.pid, c, rip, dn})
						mu.Unlock()
					}(d, rng.Intn(3) == 0)
				}
			}
			wg.Wait()
			cpl := ""
			waitFor(5*time.Second, func() bool { cpl = check(); return cpl == "" })
			if cpl != "" {
				return failf(map[string]interface{}{"history": hist, "files": files, "slog": tailS(readFile(w.path(files[0])), 8000)}, "%s", cpl)
			}
			r.Count("kept_rounds", 1)
			switch rng.Intn(4) {
			case 0:
				hist = append(hist, "emptied")
				for f := range base {
					if err := os.Truncate(w.path(f), 0); err != nil {
						infra("%v", err)
					}
					base[f] = ""
				}
				all = nil
				r.Count("logs_emptied", 1)
			case 1, 2:
				k := rng.Intn(nd)
				ds[k].Stop()
				hist = append(hist, fmt.Sprint("restart ", k))
				start(k)
				r.Count("restarts", 1)
			}
		}
		if t := w.trouble(); t != nil {
			return t
		}
		r.Eval(fmt.Sprint("kept ", nd, hist, len(all), len(base["slog"])))
		return nil
	})
}
