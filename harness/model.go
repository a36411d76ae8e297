package main

// An independent reference model of the documented rule system.

import (
	"fmt"
	"net/netip"
	"sort"
	"strings"
)

// Phases.
const (
	phAny = iota
	phConnect
	phHelo
	phFrom
	phTo
	phData
	phMessage
)

var phaseWord = []string{"", "@connect", "@helo", "@from", "@to", "@data", "@message"}

// Node is a match expression.
type Node struct {
	Op   string // and or not, or an operator
	Kids []*Node
	Arg  string   // pattern, domain, file (as the rule says it), on/off
	Opts []string // attribute lists, dbl sources
}

// With is one with option.
type With struct{ Key, Val string }

// Clause is one ';' clause.
type Clause struct {
	Expr *Node
	With []With
}

// MRule is a rule.
type MRule struct {
	Phase   int
	Action  string // accept reject stall set-with
	Clauses []Clause
}

// Env is what is fixed about a connection.
type Env struct {
	Rip, Lip                  string
	Verified, Nofwd, Inconsis []string
	Files                     map[string][]string // by argument; absent: missing
	Zone                      *DNS
	TLS                       bool
}

// St is what the client has said.
type St struct {
	HeloCmd, Helo string
	From          string
	To            string
	Rcpts         []string
}

func isFileArg(a string) bool {
	return strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./") || strings.HasPrefix(a, "file:")
}

func requires(n *Node) int {
	p := phConnect
	switch n.Op {
	case "and", "or", "not":
		for _, k := range n.Kids {
			if q := requires(k); q > p {
				p = q
			}
		}
	case "from", "from-has", "source", "tls":
		p = phFrom
	case "helo", "ehlo", "helo-has":
		p = phHelo
	case "to", "to-has":
		p = phTo
	case "dbl":
		for _, o := range n.Opts {
			switch o {
			case "from", "any":
				return phFrom
			case "helo", "ehlo":
				p = phHelo
			}
		}
	}
	return p
}

func (r *MRule) requires() int {
	p := phConnect
	for _, c := range r.Clauses {
		if q := requires(c.Expr); q > p {
			p = q
		}
	}
	return p
}

func (r *MRule) eligible(ph int) bool {
	if r.Phase != phAny {
		return ph == r.Phase
	}
	return ph >= r.requires()
}

// eval returns match and rule miss.
func (e *Env) eval(n *Node, s *St) (bool, bool) {
	switch n.Op {
	case "and":
		miss := false
		for _, k := range n.Kids {
			v, m := e.eval(k, s)
			miss = miss || m
			if !v {
				return false, miss
			}
		}
		return true, miss
	case "or":
		miss := false
		for _, k := range n.Kids {
			v, m := e.eval(k, s)
			miss = miss || m
			if v {
				return true, miss
			}
		}
		return false, miss
	case "not":
		v, m := e.eval(n.Kids[0], s)
		return !v, m
	case "all":
		return true, false
	case "tls":
		return e.TLS == (n.Arg == "on"), false
	case "dnsbl":
		return e.dnsbl(n.Arg), false
	case "dbl":
		return e.dbl(n, s), false
	case "from-has":
		return hasAny(e.addrAttrs(s.From), n.Opts), false
	case "to-has":
		return hasAny(e.addrAttrs(s.To), n.Opts), false
	case "helo-has":
		return hasAny(e.heloAttrs(s), n.Opts), false
	case "dns":
		return hasAny(e.dnsAttrs(), n.Opts), false
	}
	var pats []string
	if isFileArg(n.Arg) {
		l := e.Files[n.Arg]
		if len(l) == 0 {
			return false, true
		}
		pats = l
	} else {
		pats = []string{n.Arg}
	}
	for _, p := range pats {
		switch n.Op {
		case "from":
			if addrMatch(s.From, p) {
				return true, false
			}
		case "to":
			if addrMatch(s.To, p) {
				return true, false
			}
		case "helo", "ehlo":
			if hostMatch(s.Helo, p) {
				return true, false
			}
		case "host":
			for _, h := range e.Verified {
				if hostMatch(h, p) {
					return true, false
				}
			}
		case "source":
			for _, h := range e.Verified {
				if hostMatch(h, p) {
					return true, false
				}
			}
			if hostMatch(s.Helo, p) || addrMatch(s.From, "@"+p) {
				return true, false
			}
		case "ip":
			if ipMatch(e.Rip, p) {
				return true, false
			}
		default:
			panic("model: operator " + n.Op)
		}
	}
	return false, false
}

func hasAny(have map[string]bool, want []string) bool {
	for _, w := range want {
		switch w {
		case "bad":
			for _, x := range []string{"noat", "unqualified", "garbage", "route"} {
				if have[x] {
					return true
				}
			}
		case "ip":
			if have["bareip"] || have["properip"] {
				return true
			}
		}
		if have[w] {
			return true
		}
	}
	return false
}

func addrMatch(addr, pat string) bool {
	addr, pat = strings.ToLower(addr), strings.ToLower(pat)
	if addr == "" {
		return pat == "<>"
	}
	if strings.HasPrefix(addr, "@") || strings.HasSuffix(addr, "@") {
		return false
	}
	local, dom, hasdom := strings.Cut(addr, "@")
	switch {
	case pat == "@":
		return hasdom
	case strings.HasSuffix(pat, "@"):
		return local+"@" == pat
	case strings.HasPrefix(pat, "@."):
		return hasdom && domUnder(dom, pat[2:])
	case strings.HasPrefix(pat, "@"):
		return hasdom && dom == pat[1:]
	}
	return addr == pat
}

func domUnder(d, b string) bool { return d == b || strings.HasSuffix(d, "."+b) }

func hostMatch(h, pat string) bool {
	h, pat = strings.ToLower(h), strings.ToLower(pat)
	h = strings.TrimSuffix(h, ".")
	if h == "" {
		return false
	}
	if strings.HasPrefix(pat, ".") {
		return domUnder(h, pat[1:])
	}
	return h == pat
}

func ipMatch(ip, pat string) bool {
	a, err := netip.ParseAddr(ip)
	if err != nil {
		return false
	}
	if p, err := netip.ParseAddr(pat); err == nil {
		return a == p
	}
	p, err := netip.ParsePrefix(pat)
	return err == nil && p.Contains(a)
}

// syntactic address attributes
func addrSyntax(a string) map[string]bool {
	o := map[string]bool{}
	if a == "" {
		return o
	}
	local, dom, at := strings.Cut(a, "@")
	if !at {
		o["noat"] = true
	} else {
		if !strings.Contains(dom, ".") {
			o["unqualified"] = true
		}
		if local == "" {
			if strings.Contains(dom, "@") {
				o["route"] = true
			} else {
				o["garbage"] = true
			}
		}
	}
	last := a[len(a)-1:]
	if strings.Contains("@>\"].", last) && !(last == "@" && strings.IndexByte(a, '@') != len(a)-1) || a[0] == '<' ||
		strings.Contains(a, "..") || strings.Contains(a, "@@") {
		o["garbage"] = true
	}
	if i := strings.IndexByte(a, '"'); i >= 0 && i < len(a)-1 {
		o["quoted"] = true
	}
	return o
}

func (e *Env) addrAttrs(a string) map[string]bool {
	o := addrSyntax(a)
	if a == "" {
		return o
	}
	if !(o["noat"] || o["unqualified"] || o["route"] || o["garbage"]) {
		_, dom, _ := strings.Cut(a, "@")
		o[e.domClass(dom)] = true
	}
	return o
}

func (e *Env) heloAttrs(s *St) map[string]bool {
	o := map[string]bool{strings.ToLower(s.HeloCmd): true}
	n := s.Helo
	switch {
	case n == "":
		o["none"] = true
		o["nodots"] = true
		return o
	case n == ".":
		o["bogus"] = true
		o["nodots"] = true
		return o
	}
	if !strings.ContainsAny(n, ".:") {
		o["nodots"] = true
	}
	ip := ""
	if _, err := netip.ParseAddr(n); err == nil {
		o["bareip"] = true
		ip = n
	} else if strings.HasPrefix(n, "[") && strings.HasSuffix(n, "]") {
		if _, err := netip.ParseAddr(n[1 : len(n)-1]); err == nil {
			o["properip"] = true
			ip = n[1 : len(n)-1]
		}
	}
	if ip != "" {
		switch ip {
		case e.Rip:
			o["remip"] = true
		case e.Lip:
			o["myip"] = true
		default:
			o["otherip"] = true
		}
	}
	return o
}

func (e *Env) dnsAttrs() map[string]bool {
	o := map[string]bool{}
	if len(e.Verified) > 0 {
		o["exists"] = true
	} else {
		o["nodns"] = true
	}
	if len(e.Nofwd) > 0 {
		o["noforward"] = true
	}
	if len(e.Inconsis) > 0 {
		o["inconsistent"] = true
	}
	if o["exists"] && !o["noforward"] && !o["inconsistent"] {
		o["good"] = true
	}
	return o
}

// --- DNS, from the zone itself.

func (d *DNS) get(name string, typs ...int) (rrs []RR, fail bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := fqdn(name)
	if d.mode[n] != "" {
		return nil, true
	}
	for _, t := range typs {
		if d.mode[fmt.Sprintf("%s/%d", n, t)] != "" {
			return nil, true
		}
	}
	for _, r := range d.rr[n] {
		for _, t := range typs {
			if r.Type == t {
				rrs = append(rrs, r)
			}
		}
	}
	return rrs, false
}

var privateNets = []netip.Prefix{
	netip.MustParsePrefix("10.0.0.0/8"), netip.MustParsePrefix("172.16.0.0/12"), netip.MustParsePrefix("192.168.0.0/16"),
	netip.MustParsePrefix("127.0.0.0/8"), netip.MustParsePrefix("169.254.0.0/16"), netip.MustParsePrefix("224.0.0.0/4"),
	netip.MustParsePrefix("0.0.0.0/32"), netip.MustParsePrefix("255.255.255.255/32"),
	netip.MustParsePrefix("::/128"), netip.MustParsePrefix("::1/128"), netip.MustParsePrefix("fc00::/7"),
	netip.MustParsePrefix("fe80::/10"), netip.MustParsePrefix("fec0::/10"), netip.MustParsePrefix("ff00::/8"),
}

func publicIP(s string) bool {
	a := netip.MustParseAddr(s)
	for _, p := range privateNets {
		if p.Contains(a) {
			return false
		}
	}
	return true
}

// hostClass: 3 resolves, 2 unknown, 1 baddom
func (d *DNS) hostClass(name string) int {
	rrs, fail := d.get(name, tA, tAAAA)
	if fail {
		return 2
	}
	if len(rrs) == 0 {
		return 1
	}
	for _, r := range rrs {
		if !publicIP(r.Data) {
			return 1
		}
	}
	return 3
}

func (e *Env) domClass(dom string) string {
	if e.Zone == nil {
		return "baddom"
	}
	mx, fail := e.Zone.get(dom, tMX)
	if fail {
		return "unknown"
	}
	c := 1
	if len(mx) == 0 {
		c = e.Zone.hostClass(dom)
	} else {
		for _, m := range mx {
			h := fqdn(m.Data)
			if h == "." || h == "localhost." {
				c = 1
				break
			}
			if k := e.Zone.hostClass(h); k > c {
				c = k
			}
		}
		for _, m := range mx {
			h := fqdn(m.Data)
			if h == "." || h == "localhost." {
				c = 1
			}
		}
	}
	return []string{"", "baddom", "unknown", "resolves"}[c]
}

// setRDNS classifies the client's PTR names.
func (e *Env) setRDNS() {
	e.Verified, e.Nofwd, e.Inconsis = nil, nil, nil
	ptr, fail := e.Zone.get(PTRName(e.Rip), tPTR)
	if fail {
		return
	}
	for _, p := range ptr {
		n := fqdn(p.Data)
		ips, fail := e.Zone.get(n, tA, tAAAA)
		if fail || len(ips) == 0 {
			e.Nofwd = append(e.Nofwd, n)
			continue
		}
		ok := false
		for _, r := range ips {
			if netip.MustParseAddr(r.Data) == netip.MustParseAddr(e.Rip) {
				ok = true
			}
		}
		if ok {
			e.Verified = append(e.Verified, n)
		} else {
			e.Inconsis = append(e.Inconsis, n)
		}
	}
	sort.Strings(e.Verified)
	sort.Strings(e.Nofwd)
	sort.Strings(e.Inconsis)
}

func (e *Env) listed(name string) bool {
	if e.Zone == nil {
		return false
	}
	rrs, _ := e.Zone.get(name, tA, tAAAA)
	return len(rrs) > 0
}

func (e *Env) dnsbl(zone string) bool {
	a, err := netip.ParseAddr(e.Rip)
	if err != nil || !a.Is4() {
		return false
	}
	return e.listed(strings.TrimSuffix(PTRName(e.Rip), "in-addr.arpa.") + zone)
}

func (e *Env) dbl(n *Node, s *St) bool {
	var names []string
	src := map[string]bool{}
	for _, o := range n.Opts {
		switch o {
		case "any":
			src["host"], src["helo"], src["from"] = true, true, true
		case "ehlo":
			src["helo"] = true
		default:
			src[o] = true
		}
	}
	if src["helo"] && s.Helo != "" {
		names = append(names, s.Helo)
	}
	if src["host"] {
		for _, l := range [][]string{e.Verified, e.Nofwd, e.Inconsis} {
			names = append(names, l...)
		}
	}
	if src["from"] {
		if a := addrSyntax(s.From); s.From != "" && !(a["noat"] || a["unqualified"] || a["route"] || a["garbage"]) {
			_, dom, _ := strings.Cut(s.From, "@")
			names = append(names, dom)
		}
	}
	for _, x := range names {
		if e.listed(strings.TrimSuffix(x, ".") + "." + n.Arg) {
			return true
		}
	}
	return false
}

// --- deciding

// Verdict is the outcome of a phase.
type Verdict struct {
	Action string // "" (no rule), accept, reject, stall
	Props  map[string]string
	Rule   int // deciding rule, -1
}

func (v Verdict) class() string {
	switch v.Action {
	case "reject", "stall":
		return v.Action
	}
	return "accept"
}

func (e *Env) checkRule(r *MRule, s *St, props map[string]string) bool {
	for _, c := range r.Clauses {
		v, miss := e.eval(c.Expr, s)
		if miss {
			return false
		}
		if v {
			for _, w := range c.With {
				props[w.Key] = w.Val
			}
			return true
		}
	}
	return false
}

func (e *Env) ruleMisses(r *MRule, s *St) bool {
	for _, c := range r.Clauses {
		v, miss := e.eval(c.Expr, s)
		if miss {
			return true
		}
		if v {
			return false
		}
	}
	return false
}

// decide evaluates the rules in a phase.
func (e *Env) decide(rules []*MRule, ph int, s *St) Verdict {
	v := Verdict{Props: map[string]string{}, Rule: -1}
	for i, r := range rules {
		if !r.eligible(ph) {
			continue
		}
		hit := false
		if ph > phTo && r.requires() >= phTo {
			for _, to := range s.Rcpts {
				s2 := *s
				s2.To = to
				if e.ruleMisses(r, &s2) {
					break
				}
				if e.checkRule(r, &s2, v.Props) {
					hit = true
					break
				}
			}
		} else {
			hit = e.checkRule(r, s, v.Props)
		}
		if hit && r.Action != "set-with" {
			v.Action = r.Action
			v.Rule = i
			break
		}
	}
	return v
}

// Session is the model of one connection.
type Session struct {
	E     *Env
	Rules []*MRule
	S     St
	State string // initial helo mail rcpt data post
	def   *Verdict
	// accepted things
	Helo string
	From string
}

func newSession(e *Env, rules []*MRule) *Session {
	return &Session{E: e, Rules: rules, State: "initial"}
}

func (m *Session) connect() Verdict { return m.E.decide(m.Rules, phConnect, &m.S) }

func (m *Session) helo(cmd, name string) Verdict {
	m.S.HeloCmd, m.S.Helo = cmd, name
	m.def = nil
	v := m.E.decide(m.Rules, phHelo, &m.S)
	if v.class() == "accept" {
		m.Helo = name
		m.State = "helo"
		m.S.Rcpts = nil
		m.From = ""
	}
	return v
}

func (m *Session) mail(from string) Verdict {
	m.S.From = from
	m.def = nil
	v := m.E.decide(m.Rules, phFrom, &m.S)
	if from == "" && v.class() != "accept" {
		d := v
		m.def = &d
		v = Verdict{Action: "accept", Props: map[string]string{}, Rule: -1}
	}
	if v.class() == "accept" {
		m.State = "mail"
		m.From = from
		m.S.Rcpts = nil
	}
	return v
}

func (m *Session) rcpt(to string) Verdict {
	m.S.To = to
	var v Verdict
	if m.def != nil {
		v = *m.def
	} else {
		v = m.E.decide(m.Rules, phTo, &m.S)
	}
	if v.class() == "accept" {
		m.State = "rcpt"
		m.S.Rcpts = append(m.S.Rcpts, to)
	}
	return v
}

func (m *Session) data() Verdict {
	v := m.E.decide(m.Rules, phData, &m.S)
	if v.class() == "accept" {
		m.State = "data"
	}
	return v
}

func (m *Session) message() Verdict {
	v := m.E.decide(m.Rules, phMessage, &m.S)
	if v.class() == "accept" {
		m.State = "helo"
	} else {
		m.State = "post"
	}
	return v
}

func (m *Session) rset() {
	if m.State != "initial" {
		m.State = "helo"
	}
}

// Rules of the command line options.
func stdRules() []*MRule {
	mk := func(op string, opts ...string) *MRule {
		return &MRule{Action: "reject", Clauses: []Clause{{Expr: &Node{Op: op, Opts: opts}}}}
	}
	return []*MRule{mk("from-has", "bad", "route"), mk("to-has", "bad", "route"), mk("helo-has", "none")}
}
