package main

// An independent recogniser of the documented rule language. It says whether
// a text is a rules file, where the rule with the error lies, or that the
// documentation leaves the text open.

import (
	"net/netip"
	"strings"
)

type gtok struct {
	k    byte // w word, q quoted, f filename, ',' '(' ')' ';' n(ewline) e(of) x(error)
	v    string
	line int
	end  int // line it ends on
}

type gram struct {
	toks []gtok
	i    int
	open bool
	file func(string) (string, bool) // include files
	incs int
	last int // last line looked at
}

type gerr struct{}

func glex(s string) []gtok {
	var res []gtok
	line := 1
	i := 0
	start := true // of a line
	for {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
			i++
		}
		if i >= len(s) {
			return append(res, gtok{'e', "", line, line})
		}
		c := s[i]
		if start {
			switch {
			case c == '#':
				for i < len(s) && s[i] != '\n' {
					i++
				}
				continue
			case c == '\n':
				i++
				line++
				continue
			case strings.HasPrefix(s[i:], "\\\n"):
				i += 2
				line++
				continue
			}
		}
		start = false
		switch {
		case c == '\n':
			res = append(res, gtok{'n', "", line, line})
			line++
			i++
			start = true
		case strings.HasPrefix(s[i:], "\\\n"):
			i += 2
			line++
		case c == '(' || c == ')' || c == ';':
			res = append(res, gtok{c, string(c), line, line})
			i++
		case c == ',':
			if i+1 >= len(s) || strings.IndexByte(" \t\n", s[i+1]) >= 0 {
				return append(res, gtok{'x', "", line, line})
			}
			res = append(res, gtok{c, ",", line, line})
			i++
		case c == '"':
			l0 := line
			var b strings.Builder
			i++
			closed := false
			for i < len(s) {
				if s[i] == '"' {
					closed = true
					i++
					break
				}
				if s[i] == '\\' && i+1 < len(s) && (s[i+1] == '"' || s[i+1] == '\\') {
					b.WriteByte(s[i+1])
					i += 2
					continue
				}
				if s[i] == '\n' {
					line++
				}
				b.WriteByte(s[i])
				i++
			}
			if !closed {
				return append(res, gtok{'x', "", l0, line})
			}
			res = append(res, gtok{'q', b.String(), l0, line})
		default:
			j := i
			for j < len(s) && strings.IndexByte("(),;\n \t", s[j]) < 0 {
				j++
			}
			w := s[i:j]
			k := byte('w')
			if w == "file:" {
				return append(res, gtok{'x', "", line, line})
			}
			if isFileArg(w) {
				k = 'f'
			}
			res = append(res, gtok{k, w, line, line})
			i = j
		}
	}
}

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

var (
	gAAttrs = words("unqualified route quoted noat garbage bad resolves baddom unknown")
	gHAttrs = words("helo ehlo none nodots bareip properip myip remip otherip ip bogus")
	gDAttrs = words("nodns inconsistent noforward good exists")
	gSrcs   = words("host ehlo helo from any")
	gPhase  = map[string]int{"@connect": phConnect, "@helo": phHelo, "@from": phFrom, "@to": phTo, "@data": phData, "@message": phMessage}
	gAction = words("accept reject stall set-with")
	// every word that means something somewhere
	gKeys = words("include @connect @helo @from @to @data @message accept reject stall set-with or not all from to helo host from-has to-has helo-has tls dns ip dnsbl source dbl with message note savedir tls-opt make-yakker ehlo none bogus nodots bareip properip myip remip otherip nodns inconsistent noforward unqualified route quoted noat garbage resolves baddom unknown bad on off good exists any")
)

func (g *gram) cur() gtok {
	t := g.toks[g.i]
	if t.end > g.last {
		g.last = t.end
	}
	return t
}

func (g *gram) next() {
	g.cur()
	if g.i < len(g.toks)-1 {
		g.i++
	}
	g.cur()
}

func (g *gram) bad() { panic(gerr{}) }

func (g *gram) word(w string) bool { t := g.cur(); return t.k == 'w' && t.v == w }

// arg is any word, keyword, file name or quoted string.
func (g *gram) arg() string {
	t := g.cur()
	switch t.k {
	case 'w', 'q', 'f':
		g.next()
		return t.v
	case ',', '(', ')', ';':
		g.open = true // punctuation as an argument: undocumented
		g.next()
		return t.v
	}
	g.bad()
	return ""
}

func (g *gram) opts(m map[string]bool) []string {
	var res []string
	for {
		t := g.cur()
		if t.k != 'w' || !m[t.v] {
			if t.k == 'w' && t.v == "remoteip" {
				g.open = true
			}
			g.bad()
		}
		res = append(res, t.v)
		g.next()
		if g.cur().k != ',' {
			return res
		}
		g.next()
	}
}

func (g *gram) domain() {
	t := g.cur()
	if t.k != 'q' && (t.k != 'w' || gKeys[t.v]) || !strings.Contains(t.v, ".") {
		g.bad()
	}
	g.next()
}

// term returns false if there is none here.
func (g *gram) term(req *int) bool {
	t := g.cur()
	need := func(p int) {
		if p > *req {
			*req = p
		}
	}
	if t.k == '(' {
		g.next()
		if !g.and(req) {
			g.bad()
		}
		if g.cur().k != ')' {
			g.bad()
		}
		g.next()
		return true
	}
	if t.k != 'w' {
		return false
	}
	switch t.v {
	case "not":
		g.next()
		if !g.term(req) {
			g.bad()
		}
	case "all":
		g.next()
	case "from", "source":
		need(phFrom)
		g.next()
		g.arg()
	case "to":
		need(phTo)
		g.next()
		g.arg()
	case "helo", "ehlo":
		need(phHelo)
		g.next()
		g.arg()
	case "host":
		g.next()
		g.arg()
	case "ip":
		g.next()
		a := g.cur()
		switch {
		case a.k == 'f':
		case a.k == 'w' && !gKeys[a.v], a.k == 'q':
			_, e1 := netip.ParseAddr(a.v)
			_, e2 := netip.ParsePrefix(a.v)
			if strings.Contains(a.v, "%") {
				g.open = true
			}
			if e1 != nil && e2 != nil {
				if a.k == 'q' && isFileArg(a.v) {
					g.open = true
				}
				g.bad()
			}
		default:
			g.bad()
		}
		g.next()
	case "dnsbl":
		g.next()
		g.domain()
	case "tls":
		need(phFrom)
		g.next()
		if !g.word("on") && !g.word("off") {
			g.bad()
		}
		g.next()
	case "from-has":
		need(phFrom)
		g.next()
		g.opts(gAAttrs)
	case "to-has":
		need(phTo)
		g.next()
		g.opts(gAAttrs)
	case "helo-has":
		need(phHelo)
		g.next()
		g.opts(gHAttrs)
	case "dns":
		g.next()
		g.opts(gDAttrs)
	case "dbl":
		g.next()
		for _, o := range g.opts(gSrcs) {
			switch o {
			case "from", "any":
				need(phFrom)
			case "helo", "ehlo":
				need(phHelo)
			}
		}
		g.domain()
	default:
		return false
	}
	return true
}

func (g *gram) or(req *int) bool {
	if !g.term(req) {
		if g.word("or") {
			g.bad()
		}
		return false
	}
	for g.word("or") {
		g.next()
		if !g.term(req) {
			g.bad()
		}
	}
	return true
}

func (g *gram) and(req *int) bool {
	n := 0
	for g.or(req) {
		n++
	}
	return n > 0
}

func (g *gram) eol() bool   { k := g.cur().k; return k == 'n' || k == 'e' }
func (g *gram) erule() bool { return g.eol() || g.cur().k == ';' }

func (g *gram) clause(req *int, setwith bool) {
	if !g.and(req) {
		g.bad()
	}
	n := 0
	if g.word("with") {
		g.next()
		seen := map[string]bool{}
		empty := map[string]bool{}
	loop:
		for {
			t := g.cur()
			if t.k != 'w' {
				break
			}
			switch t.v {
			case "message", "note", "savedir", "tls-opt":
				if seen[t.v] {
					if empty[t.v] {
						g.open = true
					}
					g.bad()
				}
				g.next()
				a := g.arg()
				if t.v == "note" && strings.Contains(a, "\n") {
					g.bad()
				}
				if t.v == "tls-opt" && a != "off" && a != "no-client" {
					g.bad()
				}
				if a == "" {
					empty[t.v] = true
					seen[t.v] = true
					n++
					continue
				}
				seen[t.v] = true
			case "make-yakker":
				if seen[t.v] {
					g.bad()
				}
				seen[t.v] = true
				g.next()
			default:
				break loop
			}
			n++
		}
		if n == 0 {
			g.bad()
		}
	}
	if !g.erule() {
		g.bad()
	}
	if setwith && n == 0 {
		g.bad()
	}
}

func (g *gram) rule() {
	phase := 0
	if t := g.cur(); t.k == 'w' && gPhase[t.v] != 0 {
		phase = gPhase[t.v]
		g.next()
	}
	t := g.cur()
	if t.k != 'w' || !gAction[t.v] {
		g.bad()
	}
	g.next()
	req := 0
	for {
		g.clause(&req, t.v == "set-with")
		if g.eol() {
			break
		}
		g.next()
		if g.cur().k == 'n' {
			g.next()
		}
	}
	if phase != 0 && phase < req {
		g.bad()
	}
}

// Parsed is what the recogniser thinks of a text.
type Parsed struct {
	OK, Open    bool
	First, Last int // lines of the rule with the error
}

// recognise judges a rules file; files gives the included ones.
func recognise(s string, files map[string]string) (res Parsed) {
	g := &gram{toks: glex(s)}
	first := 1
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(gerr); !ok {
				panic(e)
			}
			// the logical line goes on to its end
			for !g.eol() && g.cur().k != 'x' {
				g.next()
			}
			res = Parsed{Open: g.open, First: first, Last: g.last}
		}
	}()
	for g.cur().k != 'e' {
		first = g.cur().line
		g.last = 0
		if g.word("include") {
			g.next()
			a := g.arg()
			t, ok := files[a]
			if !ok {
				g.bad()
			}
			if p := recognise(t, files); !p.OK {
				g.open = g.open || p.Open
				g.bad()
			} else if p.Open {
				g.open = true
			}
			if !g.eol() {
				g.bad()
			}
		} else {
			g.rule()
		}
		if g.cur().k == 'e' {
			break
		}
		g.next()
	}
	return Parsed{OK: true, Open: g.open}
}
