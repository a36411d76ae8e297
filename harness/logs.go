package main

// Reading the daemon's logs.

import (
	"fmt"
	"regexp"
	"strings"
	"time"
)

var logPrefix = regexp.MustCompile(`^(\d+/\d+)(.*)$`)

// LogLine is one line of the SMTP log.
type LogLine struct{ ID, Text string }

func parseLog(s string) []LogLine {
	var res []LogLine
	for _, l := range lines(s) {
		m := logPrefix.FindStringSubmatch(l)
		if m == nil {
			res = append(res, LogLine{"", l})
			continue
		}
		res = append(res, LogLine{m[1], strings.TrimLeft(m[2], " ")})
	}
	return res
}

// sessionLog finds the lines of the session of client address src.
func sessionLog(file, src string) (id string, ls []string) {
	all := parseLog(readFile(file))
	for _, l := range all {
		if strings.HasPrefix(l.Text, "# remote "+src+" at ") {
			id = l.ID
		}
	}
	if id == "" {
		return "", nil
	}
	for _, l := range all {
		if l.ID == id {
			ls = append(ls, l.Text)
		}
	}
	return id, ls
}

// finishedLog waits for the session to be over in the log.
func finishedLog(file, src string) (id string, ls []string, ok bool) {
	ok = waitFor(20*time.Second, func() bool {
		id, ls = sessionLog(file, src)
		for _, l := range ls {
			if strings.HasPrefix(l, "# finished at") || strings.HasPrefix(l, "# abort at") {
				return true
			}
		}
		return false
	})
	return
}

var hex40 = regexp.MustCompile(`\b[0-9a-f]{40}\b`)

// replyID is the message ID a reply names.
func replyID(r Reply) string {
	m := hex40.FindAllString(r.Text(), -1)
	if len(m) == 0 {
		return ""
	}
	return m[len(m)-1]
}

var aboutIP = regexp.MustCompile(`^! (\S+) (added as a yakker|forced to be a yakker|dropped on connect)`)

// logMatches complains unless a session's log lines are what happened in it.
// partial says that the client may not have seen the last replies.
func logMatches(c *Client, rip string, ls []string, partial bool) string {
	var got []string
	for i, l := range ls {
		switch {
		case strings.HasPrefix(l, "# remote "):
			if i > 0 && !strings.HasPrefix(ls[0], "! ") {
				return fmt.Sprintf("%q is not the first line", l)
			}
			if !strings.HasPrefix(l, "# remote "+c.Src+" at ") {
				return fmt.Sprintf("%q is about another client than %s", l, c.Src)
			}
		case strings.HasPrefix(l, "# "):
		case strings.HasPrefix(l, "! "):
			if m := aboutIP.FindStringSubmatch(l); m != nil && m[1] != rip {
				return fmt.Sprintf("%q is about another client than %s", l, rip)
			}
			if strings.HasPrefix(l, "! %!") || strings.HasPrefix(l, "! <nil>") {
				return fmt.Sprintf("%q is a remark about nothing", l)
			}
		case strings.HasPrefix(l, "r "), strings.HasPrefix(l, "w "), strings.HasPrefix(l, ". "):
			got = append(got, l)
		default:
			return fmt.Sprintf("odd line %q", l)
		}
	}
	want := c.wire
	if partial {
		if len(got) > len(want) {
			got = got[:len(want)]
		} else {
			want = want[:len(got)]
		}
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		g, x := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			x = want[i]
		}
		if g != x {
			return fmt.Sprintf("line %d should be %q, it is %q", i, tailS(x, 300), tailS(g, 300))
		}
	}
	return ""
}

// logBySession splits an SMTP log; it complains about lines that have no ID
// or are not whole.
func logBySession(s string, pid int) (map[string][]string, string) {
	res := map[string][]string{}
	if s != "" && !strings.HasSuffix(s, "\n") {
		return nil, "the log does not end in a whole line"
	}
	for _, l := range parseLog(s) {
		if l.ID == "" || l.Text == "" {
			return nil, fmt.Sprintf("line without ID: %q", tailS(l.Text, 300))
		}
		if p, _, _ := strings.Cut(l.ID, "/"); p != fmt.Sprint(pid) {
			return nil, fmt.Sprintf("line with an ID that is not the server's: %s %q", l.ID, tailS(l.Text, 300))
		}
		switch l.Text[0] {
		case '#', '!', 'r', 'w', '.':
		default:
			return nil, fmt.Sprintf("torn line: %s %q", l.ID, tailS(l.Text, 300))
		}
		if len(l.Text) > 1 && l.Text[1] != ' ' {
			return nil, fmt.Sprintf("torn line: %s %q", l.ID, tailS(l.Text, 300))
		}
		res[l.ID] = append(res[l.ID], l.Text)
	}
	return res, ""
}
