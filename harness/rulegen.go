package main

// Random rules and random ways of writing them down.

import (
	"fmt"
	"math/rand"
	"strings"
)

// Layout controls how rules are printed.
type Layout struct {
	rng  *rand.Rand
	Wild bool // odd but legal layout
}

func (l *Layout) p(n int) bool { return l.Wild && l.rng.Intn(n) == 0 }

func (l *Layout) ws() string {
	if !l.Wild {
		return " "
	}
	switch l.rng.Intn(9) {
	case 0:
		return "\t"
	case 1:
		return "  "
	case 2:
		return " \\\n"
	case 3:
		return " \\\n\t "
	case 4:
		return "\t \\\n \\\n "
	}
	return " "
}

func quote(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func plainWord(s string) bool {
	return s != "" && !strings.ContainsAny(s, "(),; \t\n\"#\\") && s != "file:"
}

func (l *Layout) arg(s string, op string) string {
	if !plainWord(s) {
		return quote(s)
	}
	if op == "ip" && isFileArg(s) {
		return s
	}
	if l.p(4) {
		return quote(s)
	}
	return s
}

// node prints an expression; prec: 0 in an and-list, 1 operand of or, 2 operand of not
func (l *Layout) node(n *Node, prec int) string {
	var s string
	np := 2
	switch n.Op {
	case "and":
		np = 0
		var ps []string
		for _, k := range n.Kids {
			// an and directly inside an and needs no parentheses
			ps = append(ps, l.node(k, 0))
		}
		s = strings.Join(ps, l.ws())
	case "or":
		np = 1
		var ps []string
		for _, k := range n.Kids {
			ps = append(ps, l.node(k, 2))
		}
		s = strings.Join(ps, l.ws()+"or"+l.ws())
	case "not":
		s = "not" + l.ws() + l.node(n.Kids[0], 2)
	case "all":
		s = "all"
	case "tls":
		s = "tls" + l.ws() + n.Arg
	case "dnsbl":
		s = "dnsbl" + l.ws() + l.arg(n.Arg, "dnsbl")
	case "dbl":
		s = "dbl" + l.ws() + strings.Join(n.Opts, ",") + l.ws() + l.arg(n.Arg, "dbl")
	case "from-has", "to-has", "helo-has", "dns":
		s = n.Op + l.ws() + strings.Join(n.Opts, ",")
	default:
		s = n.Op + l.ws() + l.arg(n.Arg, n.Op)
	}
	if np < prec || l.p(6) {
		in, out := "", ""
		if l.p(2) {
			in = l.ws()
		}
		if l.p(2) {
			out = l.ws()
		}
		s = "(" + in + s + out + ")"
	}
	return s
}

func (l *Layout) with(ws []With) string {
	s := ""
	for _, w := range ws {
		s += l.ws() + w.Key
		if w.Key != "make-yakker" {
			v := w.Val
			if w.Key == "message" || w.Key == "note" || !plainWord(v) || l.p(3) {
				v = quote(v)
			}
			s += l.ws() + v
		}
	}
	return s
}

func (l *Layout) rule(r *MRule) string {
	s := ""
	if l.p(4) {
		s += "   "
	}
	if r.Phase != phAny {
		s += phaseWord[r.Phase] + l.ws()
	}
	s += r.Action
	for i, c := range r.Clauses {
		if i > 0 {
			switch {
			case l.p(3):
				s += ";\n"
			case l.p(3):
				s += " ;\n\t"
			case l.p(4):
				s += ";\n# comment (in \"between\n\n   "
			case l.Wild && l.rng.Intn(2) == 0:
				s += ";"
			default:
				s += " ;"
			}
		}
		if i == 0 || !strings.HasSuffix(s, "\n") {
			s += l.ws()
		}
		s += l.node(c.Expr, 0)
		if len(c.With) > 0 {
			s += l.ws() + "with" + l.with(c.With)
		}
	}
	if l.p(5) {
		s += "  \t"
	}
	return s
}

// file prints rules; the last newline is optional.
func (l *Layout) file(rules []*MRule) string {
	var b strings.Builder
	for i, r := range rules {
		switch {
		case l.p(4):
			b.WriteString("# a comment, with \"odd ; ( things\n")
		case l.p(5):
			b.WriteString("\n  \t\n")
		}
		b.WriteString(l.rule(r))
		if i == len(rules)-1 && l.p(3) {
			break
		}
		b.WriteString("\n")
	}
	if len(rules) > 0 && l.p(6) && strings.HasSuffix(b.String(), "\n") {
		b.WriteString("# the end")
	}
	return b.String()
}

// Gen makes random rules over fixed alphabets.
type Gen struct {
	rng      *rand.Rand
	Addrs    []string // address patterns
	Hosts    []string // host patterns
	IPs      []string
	Files    []string // file arguments for from/to
	HFiles   []string
	IFiles   []string
	Zones    []string
	AAttrs   []string
	HAttrs   []string
	DAttrs   []string
	Ops      []string // operators to draw from
	MaxDepth int
	Withs    func(g *Gen) []With
	NoPhases bool
}

func pick(rng *rand.Rand, l []string) string { return l[rng.Intn(len(l))] }

func subset(rng *rand.Rand, l []string) []string {
	n := 1
	for n < 3 && rng.Intn(3) == 0 {
		n++
	}
	var res []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		x := pick(rng, l)
		if !seen[x] {
			seen[x] = true
			res = append(res, x)
		}
	}
	return res
}

func (g *Gen) leaf() *Node {
	op := pick(g.rng, g.Ops)
	n := &Node{Op: op}
	fileOr := func(pats, files []string) string {
		if len(files) > 0 && g.rng.Intn(5) == 0 {
			return pick(g.rng, files)
		}
		return pick(g.rng, pats)
	}
	switch op {
	case "from", "to":
		n.Arg = fileOr(g.Addrs, g.Files)
	case "helo", "ehlo", "host", "source":
		n.Arg = fileOr(g.Hosts, g.HFiles)
	case "ip":
		n.Arg = fileOr(g.IPs, g.IFiles)
	case "from-has", "to-has":
		n.Opts = subset(g.rng, g.AAttrs)
	case "helo-has":
		n.Opts = subset(g.rng, g.HAttrs)
	case "dns":
		n.Opts = subset(g.rng, g.DAttrs)
	case "dnsbl":
		n.Arg = pick(g.rng, g.Zones)
	case "dbl":
		n.Opts = subset(g.rng, []string{"host", "helo", "ehlo", "from", "any"})
		n.Arg = pick(g.rng, g.Zones)
	case "tls":
		n.Arg = pick(g.rng, []string{"on", "off"})
	case "all":
	default:
		panic("gen: " + op)
	}
	return n
}

// terms is how many an and or an or has.
func (g *Gen) terms() int {
	n := 2 + g.rng.Intn(2)
	if g.rng.Intn(25) == 0 {
		n += 3 + g.rng.Intn(9)
	}
	return n
}

func (g *Gen) expr(depth int) *Node {
	if depth <= 0 || g.rng.Intn(3) == 0 {
		return g.leaf()
	}
	switch g.rng.Intn(5) {
	case 0, 1:
		n := &Node{Op: "and"}
		for i := g.terms(); i > 0; i-- {
			n.Kids = append(n.Kids, g.expr(depth-1))
		}
		return n
	case 2, 3:
		n := &Node{Op: "or"}
		for i := g.terms(); i > 0; i-- {
			n.Kids = append(n.Kids, g.expr(depth-1))
		}
		return n
	}
	return &Node{Op: "not", Kids: []*Node{g.expr(depth - 1)}}
}

func (g *Gen) rule() *MRule {
	r := &MRule{Action: []string{"accept", "reject", "reject", "stall", "stall", "set-with"}[g.rng.Intn(6)]}
	n := 1
	if g.rng.Intn(6) == 0 {
		n += 1 + g.rng.Intn(2)
		if g.rng.Intn(8) == 0 {
			n += 3 + g.rng.Intn(12)
		}
	}
	for i := 0; i < n; i++ {
		c := Clause{Expr: g.expr(g.MaxDepth)}
		if g.Withs != nil {
			c.With = g.Withs(g)
		}
		if r.Action == "set-with" && len(c.With) == 0 {
			c.With = []With{{"message", fmt.Sprintf("sw %d", g.rng.Intn(100))}}
		}
		r.Clauses = append(r.Clauses, c)
	}
	if !g.NoPhases && g.rng.Intn(3) == 0 {
		q := r.requires()
		r.Phase = q + g.rng.Intn(phMessage-q+1)
	}
	return r
}

func (g *Gen) rules(n int) []*MRule {
	var res []*MRule
	for i := 0; i < n; i++ {
		res = append(res, g.rule())
	}
	return res
}

// depth-independent shape of an expression, for counting distinct cases
func (n *Node) shape() string {
	s := n.Op
	if len(n.Kids) > 0 {
		var k []string
		for _, x := range n.Kids {
			k = append(k, x.shape())
		}
		s += "(" + strings.Join(k, " ") + ")"
	}
	return s
}
