package main

// What a saved file and a message log line must say.

import (
	"crypto/sha1"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Txn is a completed mail transaction as the client knows it.
type Txn struct {
	ID           string // PID/N, if known
	Src, Dst     string // addresses with ports
	Rip          string
	Helo, From   string
	Rcpts        []string
	Data         string
	Verified     []string
	Nofwd        []string
	Inconsis     []string
	T0, T1       time.Time
	TLSLine      *regexp.Regexp // nil: not over TLS
	TLSLog       string         // the TLS fields of the log line
	SkipDNSCheck bool
	TLS          bool // attempt it over TLS
}

func sha1hex(s string) string { return fmt.Sprintf("%x", sha1.Sum([]byte(s))) }

var hdrLine = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9-]*: [ -~]*$`)
var contLine = regexp.MustCompile(`^[ \t][ -~]*[!-~][ -~]*$`)

// bodyHash is the body's hash if the message is well formed.
func bodyHash(msg string) (string, bool) {
	i := strings.Index(msg, "\n\n")
	if i < 0 || i > 8192 {
		return "", false
	}
	for k, l := range strings.Split(msg[:i], "\n") {
		if !hdrLine.MatchString(l) && (k == 0 || !contLine.MatchString(l)) {
			return "", false
		}
	}
	return sha1hex(msg[i+2:]), true
}

func undot(l []string) []string {
	var r []string
	for _, s := range l {
		r = append(r, strings.ToLower(strings.TrimSuffix(s, ".")))
	}
	sort.Strings(r)
	return r
}

func near(stamp string, t0, t1 time.Time) bool {
	t, err := time.Parse("2006-01-02 15:04:05", stamp)
	return err == nil && !t.Before(t0.UTC().Add(-time.Second)) && !t.After(t1.UTC().Add(time.Second))
}

var anyTLS = regexp.MustCompile(`^tls on cipher 0x`)

var idLine = regexp.MustCompile(`^id (\d+/\d+) (\S+) (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)$`)

// checkFile complains about a saved file; it returns the ID in it.
func (x *Txn) checkFile(s string) (id, complaint string) {
	meta, data, ok := strings.Cut(s, "\nbody\n")
	if !ok {
		return "", "there is no 'body' line"
	}
	ls := strings.Split(meta, "\n")
	m := idLine.FindStringSubmatch(ls[0])
	if m == nil {
		return "", fmt.Sprintf("the first line is no id line: %q", ls[0])
	}
	id = m[1]
	if x.ID != "" && id != x.ID {
		return id, fmt.Sprintf("the ID is %s and not %s", id, x.ID)
	}
	if m[2] != x.Src {
		return id, fmt.Sprintf("the id line says %s, the client was %s", m[2], x.Src)
	}
	if !near(m[3], x.T0, x.T1) {
		return id, fmt.Sprintf("the id line says %s, it was %v", m[3], x.T1.UTC())
	}
	want := []string{fmt.Sprintf("remote %s to %s with helo '%s'", x.Rip, x.Dst, x.Helo)}
	pos := 1
	if pos >= len(ls) || ls[pos] != want[0] {
		return id, fmt.Sprintf("the remote line should be %q: %q", want[0], ls[1:])
	}
	pos++
	for _, k := range []struct {
		n string
		l []string
	}{{"remote-dns", x.Verified}, {"remote-dns-nofwd", x.Nofwd}, {"remote-dns-inconsist", x.Inconsis}} {
		var have []string
		if pos < len(ls) && strings.HasPrefix(ls[pos], k.n+" ") {
			have = strings.Fields(ls[pos])[1:]
			pos++
		}
		if !x.SkipDNSCheck && strings.Join(undot(have), " ") != strings.Join(undot(k.l), " ") {
			return id, fmt.Sprintf("%s should be %q, it is %q", k.n, k.l, have)
		}
	}
	tl := ""
	if pos < len(ls) && strings.HasPrefix(ls[pos], "tls ") {
		tl = ls[pos]
		pos++
	}
	switch {
	case x.TLSLine == nil && tl != "":
		return id, fmt.Sprintf("it has a line %q, but came without TLS", tl)
	case x.TLSLine != nil && !x.TLSLine.MatchString(tl):
		return id, fmt.Sprintf("the tls line should match %s, it is %q", x.TLSLine, tl)
	}
	want = []string{fmt.Sprintf("from <%s>", x.From)}
	for _, t := range x.Rcpts {
		want = append(want, fmt.Sprintf("to <%s>", t))
	}
	want = append(want, fmt.Sprintf("hash %s bytes %d", sha1hex(x.Data), len(x.Data)))
	rest := ls[pos:]
	if len(rest) != len(want)+1 || strings.Join(rest[:len(want)], "\n") != strings.Join(want, "\n") {
		return id, fmt.Sprintf("the envelope should be %q, it is %q", want, rest)
	}
	bh := rest[len(rest)-1]
	if !strings.HasPrefix(bh, "bodyhash ") {
		return id, fmt.Sprintf("no bodyhash line: %q", bh)
	}
	if h, ok := bodyHash(x.Data); ok && bh != "bodyhash "+h {
		return id, fmt.Sprintf("the bodyhash should be %s: %q", h, bh)
	}
	if data != x.Data {
		return id, fmt.Sprintf("the data differs: %d bytes were sent, %d saved, first difference at %d", len(x.Data), len(data), firstDiff(x.Data, data))
	}
	return id, ""
}

func firstDiff(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

var mlogLine = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) \[(\d+/\d+)\] from (\S+) / (.*)$`)

// checkLog complains about a message log line.
func (x *Txn) checkLog(l string) string {
	m := mlogLine.FindStringSubmatch(l)
	if m == nil {
		return fmt.Sprintf("not a message log line: %q", l)
	}
	if x.ID != "" && m[2] != x.ID {
		return fmt.Sprintf("the ID is %s and not %s", m[2], x.ID)
	}
	if m[3] != x.Src {
		return fmt.Sprintf("it says %s, the client was %s", m[3], x.Src)
	}
	if !near(m[1], x.T0, x.T1) {
		return fmt.Sprintf("it says %s, it was %v", m[1], x.T1.UTC())
	}
	w := fmt.Sprintf("<%s> to", x.From)
	for _, t := range x.Rcpts {
		w += fmt.Sprintf(" <%s>", t)
	}
	w += fmt.Sprintf(": message %d bytes hash %s body ", len(x.Data), sha1hex(x.Data))
	if !strings.HasPrefix(m[4], w) {
		return fmt.Sprintf("it should go on %q, it goes %q", w, m[4])
	}
	rest := m[4][len(w):]
	w2 := fmt.Sprintf(" | local %s helo '%s'%s", x.Dst, x.Helo, x.TLSLog)
	if !strings.HasSuffix(rest, w2) {
		return fmt.Sprintf("it should end %q, it ends %q", w2, rest)
	}
	rest = strings.TrimSuffix(rest, w2)
	if h, ok := bodyHash(x.Data); ok && rest != h {
		return fmt.Sprintf("the body hash should be %s: %q", h, rest)
	}
	return ""
}
