package main

// Driving a conversation and comparing every reply with the model.

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// Conv is a conversation in progress.
type Conv struct {
	r     *Run
	c     *Client
	m     *Session
	Gone  bool
	Trace []string // phase:verdict
	// OnVerdict, if set, looks at each decided reply as well.
	OnVerdict func(ph int, arg string, v Verdict, rep Reply) *Fail
	// OnMsg is called after a message was sent and answered.
	OnMsg func(body string, v Verdict, rep Reply) *Fail
	// MsgAt is when the last message was about to be sent.
	MsgAt time.Time
}

func (x *Conv) detail() map[string]interface{} {
	return map[string]interface{}{"conversation": x.c.log}
}

func replyClass(ph int, r Reply) string {
	switch {
	case r.Err != nil:
		return "error"
	case r.Class() == 2 && ph != phData, r.Code == 354 && ph == phData:
		return "accept"
	case r.Class() == 4:
		return "stall"
	case r.Class() == 5:
		return "reject"
	}
	return fmt.Sprintf("?%d", r.Code)
}

func (x *Conv) judge(ph int, arg string, v Verdict, rep Reply) *Fail {
	x.Trace = append(x.Trace, fmt.Sprintf("%s:%s:%d", phaseWord[ph], v.class(), v.Rule))
	x.r.Count("decisions", 1)
	x.r.Seen("phase_verdicts", phaseWord[ph]+" "+v.class())
	if got := replyClass(ph, rep); got != v.class() {
		return failf(x.detail(), "%s %q: expected %s (rule %d), got %s", phaseWord[ph], arg, v.class(), v.Rule, rep)
	}
	if x.OnVerdict != nil {
		return x.OnVerdict(ph, arg, v, rep)
	}
	return nil
}

// open connects and handles the connect phase.
func (w *W) open(e *Env, rules []*MRule, addr string) (*Conv, *Fail) {
	x := &Conv{r: w.r, m: newSession(e, rules)}
	x.c = mustDial(e.Rip, addr)
	w.r.Count("sessions", 1)
	v := x.m.connect()
	rep := x.c.Read()
	if v.Action == "reject" {
		x.Gone = true
		x.r.Seen("phase_verdicts", "@connect drop")
		x.Trace = append(x.Trace, "@connect:drop")
		if rep.Err == nil {
			return x, failf(x.detail(), "connection should be dropped by rule %d, got greeting %s", v.Rule, rep)
		}
		x.c.Close()
		return x, nil
	}
	if rep.Err != nil || rep.Code != 220 {
		return x, failf(x.detail(), "no greeting: %s", rep)
	}
	if x.OnVerdict != nil {
		return x, x.OnVerdict(phConnect, "", v, rep)
	}
	return x, nil
}

func (x *Conv) helo(cmd, name string) *Fail {
	v := x.m.helo(cmd, name)
	rep := x.c.Cmd(strings.TrimRight(cmd+" "+name, " "))
	return x.judge(phHelo, name, v, rep)
}

func (x *Conv) mail(from string) *Fail {
	v := x.m.mail(from)
	return x.judge(phFrom, from, v, x.c.Cmdf("MAIL FROM:<%s>", from))
}

func (x *Conv) rcpt(to string) *Fail {
	v := x.m.rcpt(to)
	return x.judge(phTo, to, v, x.c.Cmdf("RCPT TO:<%s>", to))
}

func (x *Conv) data() *Fail {
	v := x.m.data()
	return x.judge(phData, "", v, x.c.Cmd("DATA"))
}

func (x *Conv) body(msg string) *Fail {
	v := x.m.message()
	x.MsgAt = time.Now()
	rep := x.c.Body(msg)
	if f := x.judge(phMessage, "", v, rep); f != nil {
		return f
	}
	if x.OnMsg != nil {
		return x.OnMsg(msg, v, rep)
	}
	return nil
}

// starttls turns on TLS, after which the client has to greet again.
func (x *Conv) starttls() *Fail {
	if _, err := x.c.StartTLS(&tls.Config{InsecureSkipVerify: true}); err != nil {
		return failf(x.detail(), "STARTTLS: %v", err)
	}
	e := *x.m.E
	e.TLS = true
	x.m.E = &e
	x.m.State = "initial"
	x.r.Count("starttls", 1)
	x.Trace = append(x.Trace, "tls:accept")
	return nil
}

func (x *Conv) rset() *Fail {
	x.m.rset()
	if rep := x.c.Cmd("RSET"); rep.Code != 250 {
		return failf(x.detail(), "RSET: %s", rep)
	}
	return nil
}

func (x *Conv) quit() *Fail {
	if x.Gone {
		return nil
	}
	x.Gone = true
	if err := x.c.Quit(); err != nil {
		return failf(x.detail(), "QUIT: %v", err)
	}
	return nil
}

// Talk is what a random conversation draws from.
type Talk struct {
	Helos, Froms, Tos []string
	Steps             int
	Body              func(rng *rand.Rand) string
	Sloppy            bool // go on after a refused second greeting
	Many              bool // transactions of many recipients
	TLS               bool // the server has certificates
}

var msgseq = 0

func simpleBody(rng *rand.Rand) string {
	return fmt.Sprintf("Subject: test %d\n\nhello %d\n", rng.Intn(1000), rng.Intn(1000000))
}

// random runs a random conversation, biased towards getting on.
func (x *Conv) random(rng *rand.Rand, t *Talk) *Fail {
	if x.Gone {
		return nil
	}
	if t.Body == nil {
		t.Body = simpleBody
	}
	for i := 0; i < t.Steps; i++ {
		if f := x.step(rng, t); f != nil {
			return f
		}
	}
	if x.m.State == "data" {
		if f := x.body(t.Body(rng)); f != nil {
			return f
		}
	}
	return x.quit()
}

// step takes one random step of a conversation.
func (x *Conv) step(rng *rand.Rand, t *Talk) *Fail {
	if t.Body == nil {
		t.Body = simpleBody
	}
	var f *Fail
	before := x.m.State
	refused := len(x.Trace) > 0 && !strings.Contains(x.Trace[len(x.Trace)-1], ":accept")
	switch x.m.State {
	case "initial":
		f = x.helo(pick(rng, []string{"EHLO", "EHLO", "HELO"}), pick(rng, t.Helos))
	case "helo":
		if t.TLS && x.c.TLS == nil && rng.Intn(5) == 0 {
			f = x.starttls()
			break
		}
		last := ""
		if n := len(x.Trace); n > 0 {
			last = x.Trace[n-1]
		}
		if strings.HasPrefix(last, "@helo") && refused && !t.Sloppy {
			// what counts after a refused second greeting is left open: greet again
			f = x.helo("EHLO", pick(rng, t.Helos))
			break
		}
		if rng.Intn(8) == 0 {
			f = x.helo(pick(rng, []string{"EHLO", "HELO"}), pick(rng, t.Helos))
		} else {
			f = x.mail(pick(rng, t.Froms))
		}
	case "mail":
		if t.TLS && x.c.TLS == nil && rng.Intn(16) == 0 {
			f = x.starttls()
		} else if rng.Intn(8) == 0 {
			f = x.rset()
		} else {
			f = x.rcpt(pick(rng, t.Tos))
		}
	case "rcpt":
		if t.Many && len(x.m.S.Rcpts) < 40 && rng.Intn(20) > 0 {
			f = x.rcpt(pick(rng, t.Tos))
			break
		}
		switch rng.Intn(6) {
		case 0:
			f = x.rset()
		case 1, 2:
			f = x.rcpt(pick(rng, t.Tos))
		default:
			if refused && strings.HasPrefix(x.Trace[len(x.Trace)-1], "@data") && rng.Intn(2) == 0 {
				f = x.rset()
			} else {
				f = x.data()
			}
		}
	case "data":
		f = x.body(t.Body(rng))
	case "post":
		f = x.rset()
	}
	if f != nil {
		return f
	}
	x.r.Seen("transitions", before+">"+x.m.State)
	return nil
}
