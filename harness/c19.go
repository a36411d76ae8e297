package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() { register("C19", "plain race yield", c19) }

const statRules = `@connect reject ip 127.41.0.0/16
@helo reject helo bad.example
@helo stall helo stall.example
@helo accept helo yh.example with make-yakker
@from set-with dnsbl bl1.example. with message "listed"
@from set-with dnsbl sbl.spamhaus.org. with message "listed"
@from reject from bad@
@from stall from stall@
@to set-with dnsbl bl2.example. with message "listed"
@to reject to bad@
@to stall to stall@
@to accept to nosave@ with savedir missing
@data reject to nodata@
@message reject to nomsg@
@message stall to stallmsg@
accept all
`

// tally counts what should be published.
type tally map[string]int

func (t tally) add(o tally) {
	for k, v := range o {
		t[k] += v
	}
}

// statClient is a client IP and the server's record of it.
type statClient struct {
	sbls    []string
	ip      string
	yak     int
	tlsfail int
	listed  string   // zone
	also    []string // more zones
	known   bool     // it has an entry in the do-nothing record
}

// flatten turns /debug/vars into the same form.
func flatten(v map[string]interface{}) tally {
	t := tally{}
	num := func(k string, x interface{}) {
		if f, ok := x.(float64); ok {
			t[k] = int(f)
		}
	}
	sub := func(m map[string]interface{}, k string) map[string]interface{} {
		s, _ := m[k].(map[string]interface{})
		return s
	}
	for k, x := range sub(v, "events") {
		num(k, x)
	}
	sc := sub(v, "smtpcounts")
	for k, x := range sc {
		num(k, x)
	}
	for k, x := range sub(sc, "commands") {
		num("seen "+k, x)
	}
	for k, x := range sub(sc, "accepted") {
		num("accepted "+k, x)
	}
	for k, x := range sub(v, "dnsbl_hits") {
		num("dnsbl "+k, x)
	}
	for k, x := range sub(v, "sbl_hits") {
		num("sbl "+k, x)
	}
	for k, x := range sub(v, "connects_to") {
		num("to "+k, x)
	}
	sz := sub(v, "sizes")
	for _, m := range []string{"notls", "yakkers"} {
		for k, x := range sub(sz, m) {
			num(m+" "+k, x)
		}
	}
	return t
}

// counters that are compared even when nothing is due
var statNames = []string{"connections", "tls_errors", "yakkers", "notls_conns", "rules_errors", "yakker_adds", "yakker_forces", "rsetdrops", "rsets",
	"seen ehlo", "seen mailfrom", "seen rcptto", "seen data", "seen starttls",
	"accepted ehlo", "accepted mailfrom", "accepted rcptto", "accepted data", "accepted messages", "ehlo_tlson", "quits", "aborts",
	"dnsbl bl1.example.", "dnsbl bl2.example.", "dnsbl sbl.spamhaus.org.", "sbl SBL123", "sbl SBL45", "sbl SBLCSS",
	"abandons", "refuseds", "notls Size", "notls Adds", "notls AddsNew", "notls AddsExpired", "notls Dels", "notls Lookup", "notls LookupHit", "notls LookupExpired",
	"yakkers Size", "yakkers Adds", "yakkers AddsNew", "yakkers AddsExpired", "yakkers Dels", "yakkers Sets", "yakkers Lookup", "yakkers LookupHit", "yakkers LookupExpired"}

// lastTimes checks the times of the last events: ev has what happened in
// the round (by event, and by address and event), begun at t0; old is what
// was published before it.
func lastTimes(v map[string]interface{}, q *statRun, ev map[string]bool, old map[string]string, t0 time.Time) (map[string]string, string) {
	now := map[string]string{}
	get := func(pref string, m map[string]interface{}) {
		for k, x := range m {
			if s, ok := x.(string); ok && s != "" {
				now[pref+k] = s
			}
		}
	}
	l, _ := v["last"].(map[string]interface{})
	get("", l)
	if lt, ok := v["lasts_to"].(map[string]interface{}); ok {
		for a, m := range lt {
			if mm, ok := m.(map[string]interface{}); ok {
				get(a+" ", mm)
			}
		}
	}
	for k := range ev {
		s := now[k]
		t, err := time.ParseInLocation("2006-01-02 15:04:05", s, time.Local)
		if err != nil {
			return now, fmt.Sprintf("the time of the last %q is %q", k, s)
		}
		if t.Before(t0.Add(-2*time.Second)) || t.After(time.Now().Add(2*time.Second)) {
			return now, fmt.Sprintf("the time of the last %q is %s; it was since %s", k, s, t0.Format("15:04:05"))
		}
	}
	for k, s := range old {
		if now[k] == "" {
			return now, fmt.Sprintf("the time of the last %q was %s and is gone", k, s)
		}
	}
	for k, s := range now {
		if !ev[k] && old[k] != s {
			return now, fmt.Sprintf("the time of the last %q became %s (%q before) though there was none", k, s, old[k])
		}
	}
	return now, ""
}

type statRun struct {
	N        int
	minphase string
	slog     bool
	certs    bool
	perIP    bool
	lst      []string
}

// session runs one session and returns what it should add to the counters.
func (q *statRun) session(rng *rand.Rand, sc *statClient, broken bool) (t tally, c *Client, f *Fail) {
	t = tally{}
	la := pick(rng, q.lst)
	c = mustDial(sc.ip, la)
	defer c.Close()
	t["connections"]++
	ev := func(k string) {
		t["ev "+k]++
		if q.perIP {
			t["ev "+la+" "+k]++
		}
	}
	ev("connection")
	t["notls Lookup"]++
	t["yakkers Lookup"]++
	if sc.known {
		t["yakkers LookupHit"]++
	}
	if sc.tlsfail > 0 {
		t["notls LookupHit"]++
	}
	if q.perIP {
		t["to "+la]++
	}
	if broken {
		t["rules_errors"]++
	}
	stalled := q.N > 0 && sc.yak >= q.N
	if stalled {
		t["yakkers"]++
		ev("yakker")
	} else {
		ev("regular")
	}
	newEnt := func() {
		if !sc.known {
			t["yakkers Size"]++
			t["yakkers AddsNew"]++
		}
		sc.known = true
	}
	if sc.tlsfail >= 2 {
		t["notls_conns"]++
	}
	bad := func(what string, rep Reply) *Fail { return failf(c.log, "%s: %s", what, rep) }
	rep := c.Read()
	if strings.HasPrefix(sc.ip, "127.41.") && !stalled && !broken {
		if rep.Err == nil {
			return t, c, bad("not dropped at connect", rep)
		}
		return t, c, nil
	}
	if rep.Code != 220 {
		return t, c, bad("greeting", rep)
	}
	counts := q.N > 0 && !stalled && !broken
	got, force := false, false
	// What a command's rules found is counted if it is not what they found
	// the time before.
	lastHit := ""
	listed := func(ph string) {
		var l []string
		for _, z := range append([]string{sc.listed}, sc.also...) {
			if z != "" && (z == "bl2.example.") == (ph == "to") {
				l = append(l, z)
			}
		}
		k := strings.Join(l, " ")
		if !q.slog || k == "" || k == lastHit {
			return
		}
		lastHit = k
		for _, z := range l {
			t["dnsbl "+z]++
			if z == "sbl.spamhaus.org." {
				for _, x := range sc.sbls {
					t["sbl "+x]++
				}
			}
		}
	}
	from := false
	reach := func(p string) {
		if p == q.minphase {
			got = true
		}
	}
	ended := ""
	again := false
	rsetfull := false
	nosave := false
	last := true // the last command was accepted
	end := func() {
		if got && q.minphase != "message" {
			ev("reached_minphase")
		}
		if !broken && (counts || q.N == 0) {
			if last {
				t["abandons"]++
			} else {
				t["refuseds"]++
			}
		}
		switch {
		case force:
			t["yakkers Sets"]++
			newEnt()
			if q.N > 0 {
				if sc.yak != q.N {
					t["yakker_adds"]++
					t["yakker_forces"]++
				}
				sc.yak = q.N
			}
		case got && q.N > 0:
			sc.yak = 0
			if sc.known {
				t["yakkers Dels"]++
				t["yakkers Size"]--
			}
			sc.known = false
		case counts:
			sc.yak++
			t["yakkers Adds"]++
			newEnt()
			if sc.yak == q.N || rsetfull {
				t["yakker_adds"]++
			}
		}
	}
	ehlo := func(over bool) (bool, *Fail) {
		n := pick(rng, []string{"ok.example", "ok.example", "ok.example", "ok.example", "bad.example", "stall.example", "", "yh.example"})
		if over || n == "yh.example" && rng.Intn(4) > 0 {
			n = "ok.example"
		}
		if n == "yh.example" && rsetfull || n == "" && again {
			n = "ok.example"
		}
		want := map[string]string{"ok.example": "accept", "bad.example": "reject", "stall.example": "stall", "": "reject", "yh.example": "accept"}[n]
		if stalled || broken {
			want = "stall"
		} else if n == "yh.example" {
			force = true
		}
		rep := c.Cmd(strings.TrimSpace(pick(rng, []string{"EHLO ", "HELO "}) + n))
		t["seen ehlo"]++
		last = want == "accept"
		if replyClass(phHelo, rep) != want {
			return false, bad("greeting "+n, rep)
		}
		if want == "accept" {
			t["accepted ehlo"]++
			reach("helo")
			from = false
			return true, nil
		}
		return false, nil
	}
	in := false
	for k := 1 + rng.Intn(3); k > 0 && !in; k-- {
		if in, f = ehlo(false); f != nil {
			return t, c, f
		}
	}
	if in && q.certs && sc.tlsfail < 2 && rng.Intn(5) == 0 {
		if rng.Intn(2) == 0 {
			if rep := c.Cmd("STARTTLS"); rep.Code != 220 {
				return t, c, bad("STARTTLS", rep)
			}
			if err := c.failTLS(pick(rng, tlsFailures)); err != nil {
				return t, c, failf(c.log, "%v", err)
			}
			sc.tlsfail++
			t["notls Adds"]++
			if sc.tlsfail == 1 {
				t["notls AddsNew"]++
				t["notls Size"]++
			}
			t["tls_errors"]++
			t["seen starttls"]++
			t["aborts"]++
			counts = false
			end()
			return t, c, nil
		}
		if _, err := c.StartTLS(&tls.Config{InsecureSkipVerify: true}); err != nil {
			return t, c, failf(c.log, "STARTTLS: %v", err)
		}
		if in, f = ehlo(true); f != nil {
			return t, c, f
		}
		t["seen starttls"]++
		t["ehlo_tlson"]++
	}
	for k := rng.Intn(5); k > 0 && in; k-- {
		if rng.Intn(6) == 0 {
			c.Cmd("RSET")
			again = true
			ok, f := ehlo(false)
			if f == nil && !ok {
				_, f = ehlo(true)
			}
			again = false
			if f != nil {
				return t, c, f
			}
		}
		c.Cmd("RSET")
		a := pick(rng, []string{"ok", "ok", "ok", "ok", "bad", "stall", ""})
		cmd := "MAIL FROM:<" + a + "@x.example>"
		if a == "" {
			cmd = "MAIL FROM:<>"
		}
		rep := c.Cmd(cmd)
		t["seen mailfrom"]++
		listed("from")
		want := map[string]string{"ok": "accept", "bad": "reject", "stall": "stall", "": "accept"}[a]
		last = want == "accept"
		if want == "accept" && from && !got && counts {
			t["rsets"]++
			sc.yak++
			t["yakkers Adds"]++
			newEnt()
			if sc.yak == q.N {
				rsetfull = true
			}
			if sc.yak > q.N {
				t["yakker_adds"]++
				t["rsetdrops"]++
				if rep.Class() != 4 {
					return t, c, bad("one attempt too many", rep)
				}
				if err := c.EOF(); err != nil {
					return t, c, failf(c.log, "%v", err)
				}
				return t, c, nil
			}
		}
		if replyClass(phFrom, rep) != want {
			return t, c, bad(cmd, rep)
		}
		if want != "accept" {
			continue
		}
		from = a != ""
		t["accepted mailfrom"]++
		reach("from")
		var rcpts []string
		for j := pick2(rng, 0, 1, 1, 2, 2, 3, 3, 12); j > 0; j-- {
			to := pick(rng, []string{"ok", "ok", "bad", "stall", "nodata", "nomsg", "stallmsg", "nosave"})
			if to == "nosave" && rng.Intn(3) > 0 {
				to = "ok"
			}
			rep := c.Cmdf("RCPT TO:<%s@y.example>", to)
			t["seen rcptto"]++
			listed("to")
			nosave = nosave || to == "nosave"
			want := map[string]string{"bad": "reject", "stall": "stall"}[to]
			if want == "" {
				want = "accept"
			}
			last = want == "accept"
			if replyClass(phTo, rep) != want {
				return t, c, bad("RCPT TO "+to, rep)
			}
			if want == "accept" {
				rcpts = append(rcpts, to)
				t["accepted rcptto"]++
				reach("to")
			}
		}
		has := func(s string) bool {
			for _, x := range rcpts {
				if x == s {
					return true
				}
			}
			return false
		}
		if len(rcpts) == 0 {
			continue
		}
		rep = c.Cmd("DATA")
		t["seen data"]++
		last = !has("nodata")
		if has("nodata") {
			if rep.Class() != 5 {
				return t, c, bad("DATA", rep)
			}
			continue
		}
		if rep.Code != 354 {
			return t, c, bad("DATA", rep)
		}
		t["accepted data"]++
		reach("data")
		if rng.Intn(8) == 0 {
			c.Send("Subject: half\r\n\r\nhal")
			ended = "drop"
			break
		}
		rep = c.Body(simpleBody(rng))
		t["accepted messages"]++
		ev("message")
		reach("message")
		wantc := 2
		if nosave {
			// it cannot be saved, which is no fault of the client
			wantc = 4
			got = true
			t["messages not saved"]++
		} else if has("nomsg") {
			wantc = 5
		} else if has("stallmsg") {
			wantc = 4
		}
		if rep.Class() != wantc {
			return t, c, bad("message", rep)
		}
		last = wantc == 2 || nosave
		if wantc == 2 {
			reach("accepted")
		}
	}
	if ended == "" && rng.Intn(3) > 0 {
		if err := c.Quit(); err != nil {
			return t, c, failf(c.log, "QUIT: %v", err)
		}
		t["quits"]++
	} else {
		if err := c.Drop(); err != nil {
			return t, c, failf(c.log, "drop: %v", err)
		}
		t["aborts"]++
	}
	end()
	return t, c, nil
}

func c19(r *Run) {
	r.Rule = "a case: one server (every second one with the race detector) with random -dncount, -minphase, certificates, listen addresses and -statsperip, and 1 to 30 clients at once with 2 to 6 sessions each: greetings, senders, recipients, DATA and messages accepted, refused and stalled, TLS starts and failures, drops, abandoned attempts, make-yakker, clients listed in DNS blocklists, clients dropped at connect, do-nothing bursts from one IP, rules broken and repaired between rounds, statistics being read all the time; after each round every published counter, the sizes of the records of clients and the operations on them must equal the clients' own tally, and the times of last events must be within the round exactly if there was such an event; distinct by tally"
	r.Each("stats", r.N(160, 2500), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		w.dns.Reset()
		q := &statRun{N: pick2(rng, 0, 0, 1, 2, 2, 3, 5), slog: true}
		q.minphase = pick(rng, []string{"helo", "from", "to", "data", "message", "accepted"})
		q.certs = rng.Intn(2) == 0
		q.lst = []string{freshIP() + ":2525"}
		for k := rng.Intn(3); k > 0; k-- {
			q.lst = append(q.lst, freshIP()+fmt.Sprintf(":%d", 2525+k))
		}
		os.RemoveAll(w.path("save"))
		mkdir(w.path("save"))
		os.Remove(w.path("slog"))
		serverCert().save(w.dir, "srv")
		rules := statRules
		zones := []string{"bl1.example.", "bl2.example.", "sbl.spamhaus.org."}
		more := rng.Intn(4) == 0
		if more {
			for k := 0; k < 14; k++ {
				z := fmt.Sprintf("more%d.example.", k)
				zones = append(zones, z)
				rules = "@from set-with dnsbl " + z + " with message \"listed\"\n" + rules
			}
		}
		w.write("rules", rules)
		rfiles := pick(rng, []string{"rules", "rules", "rules,rmore", "rmore,rules", "rnil,rules,rmore"})
		w.write("rmore", "# more\n@message accept from nobody@nowhere.example\n")
		w.write("rnil", "")
		args := []string{"-d", "save", "-r", rfiles, "-minphase", q.minphase}
		if q.N == 0 && rng.Intn(2) == 0 {
			q.slog = false
		}
		if q.slog {
			args = append(args, "-smtplog", "slog")
		}
		if q.N > 0 {
			args = append(args, "-dncount", fmt.Sprint(q.N))
		}
		if q.certs {
			args = append(args, "-c", "srv.crt", "-k", "srv.key")
		}
		q.perIP = len(q.lst) > 1
		if rng.Intn(3) == 0 {
			q.perIP = true
			args = append(args, "-statsperip")
		}
		kind := "sinksmtp"
		switch i % 4 {
		case 1:
			kind = "sinksmtp-race"
		case 2, 3:
			kind = "sinksmtp-yield"
		}
		var env []string
		env = append(env, "VERIF_DELAY_DIV=100000000")
		d := w.mustDaemon(DOpts{Kind: kind, Args: args, Listen: q.lst, Pprof: true, Env: env})
		w.ds["c19"] = d
		defer func() { d.Stop(); delete(w.ds, "c19") }()
		if !waitFor(30*time.Second, func() bool { _, err := d.Vars(); return err == nil }) {
			return failf(d.Args, "the statistics are not published")
		}
		var clients []*statClient
		nc := 1 + rng.Intn(30)
		if i%16 == 4 {
			nc = 80 + rng.Intn(160)
			r.Count("cases_with_many_clients", 1)
		}
		for k := 0; k < nc; k++ {
			sc := &statClient{ip: fmt.Sprintf("127.40.%d.%d", 1+rng.Intn(200), 1+k)}
			switch rng.Intn(8) {
			case 0:
				sc.ip = fmt.Sprintf("127.41.1.%d", 1+k)
			case 1, 2, 3:
				sc.listed = pick(rng, zones)
				if rng.Intn(2) == 0 {
					for _, z := range zones {
						if z != sc.listed && !strings.Contains(z, "sbl") && rng.Intn(len(zones)) < 2 {
							sc.also = append(sc.also, z)
							w.dns.AddIP(strings.TrimSuffix(PTRName(sc.ip), "in-addr.arpa.")+z, "127.0.0.2")
						}
					}
				}
				n := strings.TrimSuffix(PTRName(sc.ip), "in-addr.arpa.") + sc.listed
				w.dns.AddIP(n, "127.0.0.2")
				sc.sbls = []string{"SBL123", "SBL45", "SBLCSS"}
				rng.Shuffle(3, func(a, b int) { sc.sbls[a], sc.sbls[b] = sc.sbls[b], sc.sbls[a] })
				sc.sbls = sc.sbls[:rng.Intn(4)]
				for _, x := range sc.sbls {
					w.dns.Add(n, tTXT, "https://www.spamhaus.org/sbl/query/"+x)
				}
				if rng.Intn(4) == 0 {
					w.dns.Add(n, tTXT, pick(rng, []string{"no record named", "https://www.spamhaus.org/sbl/query/"}))
				}
			}
			clients = append(clients, sc)
		}
		want := tally{}
		lasts := map[string]string{}
		if v, err := d.Vars(); err == nil {
			if p, ok := v["pid"].(float64); !ok || int(p) != d.pid {
				return failf(d.Args, "the published pid is %v", v["pid"])
			}
		}
		var sample []string
		for round := 1 + rng.Intn(3); round > 0; round-- {
			broken := round > 1 && rng.Intn(4) == 0
			w.write("rules", rules)
			w.write("rmore", "# more\n@message accept from nobody@nowhere.example\n")
			if broken {
				f := pick(rng, strings.Split(rfiles, ","))
				if rng.Intn(3) == 0 {
					os.Remove(w.path(f))
				} else {
					w.write(f, "such rule does not exist\n")
				}
			} else {
				w.write("rnil", "")
			}
			t0 := time.Now()
			evs := map[string]bool{}
			var newLasts map[string]string
			stop := make(chan struct{})
			var rd sync.WaitGroup
			for k := 0; k < 2; k++ {
				rd.Add(1)
				go func() {
					defer rd.Done()
					for {
						select {
						case <-stop:
							return
						case <-time.After(time.Millisecond):
							d.Vars()
						}
					}
				}()
			}
			var mu sync.Mutex
			var fail *Fail
			var wg sync.WaitGroup
			ns := 2 + rng.Intn(5)
			guard := func() {
				if e := recover(); e != nil {
					f, ok := e.(*Fail)
					if !ok {
						panic(e)
					}
					mu.Lock()
					fail = f
					mu.Unlock()
				}
			}
			for _, sc := range clients {
				crng := rand.New(rand.NewSource(rng.Int63()))
				wg.Add(1)
				go func(sc *statClient) {
					defer wg.Done()
					defer guard()
					for k := 0; k < ns; k++ {
						t, c, f := q.session(crng, sc, broken)
						mu.Lock()
						want.add(t)
						if f != nil && fail == nil {
							fail = f
						}
						if len(sample) == 0 {
							sample = c.log
						}
						mu.Unlock()
						if f != nil {
							return
						}
					}
				}(sc)
			}
			// several do-nothing sessions of one client that end at once
			if q.N > 0 && !broken && rng.Intn(2) == 0 {
				wg.Add(1)
				m := 1 + rng.Intn(2*q.N)
				ip := fmt.Sprintf("127.42.1.%d", round)
				go func() {
					defer wg.Done()
					defer guard()
					t := tally{}
					var cs []*Client
					for k := 0; k < m; k++ {
						la := q.lst[k%len(q.lst)]
						c := mustDial(ip, la)
						c.Read()
						cs = append(cs, c)
						t["connections"]++
						t["ev connection"]++
						t["ev regular"]++
						if q.perIP {
							t["to "+la]++
							t["ev "+la+" connection"]++
							t["ev "+la+" regular"]++
						}
						t["notls Lookup"]++
						t["yakkers Lookup"]++
						t["yakkers Adds"]++
						t["abandons"]++
					}
					t["yakkers AddsNew"]++
					t["yakkers Size"]++
					var g sync.WaitGroup
					for _, c := range cs {
						g.Add(1)
						go func(c *Client) { defer g.Done(); c.Quit() }(c)
						t["quits"]++
					}
					g.Wait()
					if m >= q.N {
						t["yakker_adds"]++
					}
					mu.Lock()
					want.add(t)
					mu.Unlock()
					r.Count("bursts", 1)
				}()
			}
			wg.Wait()
			close(stop)
			rd.Wait()
			if fail != nil {
				fail.Detail = map[string]interface{}{"args": d.Args, "conversation": fail.Detail}
				return fail
			}
			for k := range want {
				if n := strings.TrimPrefix(k, "ev "); n != k {
					evs[n] = true
					delete(want, k)
				}
			}
			var diff []string
			var have tally
			cmp := func() bool {
				v, err := d.Vars()
				if err != nil {
					diff = []string{err.Error()}
					return false
				}
				have = flatten(v)
				diff = nil
				keys := map[string]bool{}
				for _, k := range statNames {
					keys[k] = true
				}
				for k := range want {
					keys[k] = true
				}
				for k := range have {
					if strings.HasPrefix(k, "to ") || strings.HasPrefix(k, "dnsbl ") || strings.HasPrefix(k, "sbl ") {
						keys[k] = true
					}
				}
				for k := range keys {
					if k == "messages not saved" {
						continue
					}
					if !q.slog && (strings.HasPrefix(k, "dnsbl ") || strings.HasPrefix(k, "sbl ")) {
						continue
					}
					if q.N == 0 && strings.HasPrefix(k, "yakkers ") {
						// what make-yakker records without -dncount has no effect
						continue
					}
					if have[k] != want[k] {
						diff = append(diff, fmt.Sprintf("%s is %d, should be %d", k, have[k], want[k]))
					}
				}
				sort.Strings(diff)
				var cpl string
				if newLasts, cpl = lastTimes(v, q, evs, lasts, t0); cpl != "" {
					diff = append(diff, cpl)
				}
				return len(diff) == 0
			}
			if !waitFor(5*time.Second, cmp) {
				return failf(map[string]interface{}{"args": d.Args, "should_be": want, "published": have, "clients": nc, "differences": diff, "one_conversation": sample}, "%s", diff[0])
			}
			lasts = newLasts
			r.Count("rounds_compared", 1)
			r.Count("last_times_compared", len(lasts))
			r.Count("counters_compared", len(statNames))
			r.Eval(fmt.Sprint(want))
		}
		for k, v := range want {
			if strings.HasPrefix(k, "to ") {
				k = "to local address"
			}
			r.Count("events "+k, v)
		}
		if i < 2 {
			r.Sample(map[string]interface{}{"args": d.Args, "clients": nc, "tally": want, "one_conversation": sample})
		}
		return nil
	})
}
