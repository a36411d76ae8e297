package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"time"
)

func init() { register("C16", "plain race", c16) }

var ccOnce sync.Once
var ccCerts []*Cert // server certificates with distinct names

const ccNCerts = 6

func confCerts() []*Cert {
	ccOnce.Do(func() {
		for i := 0; i < ccNCerts; i++ {
			ccCerts = append(ccCerts, mkCert(CertSpec{CN: fmt.Sprintf("cert%d.example", i), DNS: []string{fmt.Sprintf("cert%d.example", i), fmt.Sprintf("*.c%d.example", i)}}))
		}
	})
	return ccCerts
}

// ccLine is a line of a -conncfg file as we read the manual.
type ccLine struct {
	local string
	host  string
	certs []int
}

func (l *ccLine) matches(la string) bool {
	if l.local == "*" || l.local == la {
		return true
	}
	h, _, _ := net.SplitHostPort(la)
	ip := net.ParseIP(h)
	if o := net.ParseIP(l.local); o != nil {
		return o.Equal(ip)
	}
	if _, n, err := net.ParseCIDR(l.local); err == nil {
		return n.Contains(ip)
	}
	return false
}

func (l *ccLine) text(rng *rand.Rand) string {
	var f []string
	if l.host != "" {
		f = append(f, "hostname="+l.host)
	}
	if len(l.certs) > 0 {
		var c, k []string
		for _, n := range l.certs {
			b := pick(rng, []string{"s%d", "s%d", "s%d", "eq/s=%d", "./s%d", "\"q%d", "'Q'%d"})
			c = append(c, fmt.Sprintf(b+".crt", n))
			k = append(k, fmt.Sprintf(b+".key", n))
		}
		f = append(f, "cert="+strings.Join(c, ","), "key="+strings.Join(k, ","))
	}
	rng.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
	sep := func() string { return pick(rng, []string{" ", "\t", "  ", " \t "}) }
	s := pick(rng, []string{"", "", "", " ", "\t"}) + l.local
	for _, x := range f {
		s += sep() + x
	}
	return s + pick(rng, []string{"", "", "", " ", "\t", "\r"})
}

// ccIdent is what a connection shows.
type ccIdent struct {
	name  string
	certs []int // -1: none
}

// pickCert is the certificate to expect for a server name.
func pickCert(certs []int, sni string) int {
	if sni != "" {
		for _, n := range certs {
			if confCerts()[n].X.VerifyHostname(sni) == nil {
				return n
			}
		}
	}
	return certs[0]
}

type ccFile struct {
	state string // ok, or what is wrong with it
	lines []*ccLine
	text  string
}

// ccLines is how many lines a file gets.
func ccLines(rng *rand.Rand) int {
	if rng.Intn(8) == 0 {
		return 6 + rng.Intn(40)
	}
	return rng.Intn(6)
}

func genCC(rng *rand.Rand, locals []string, n int) *ccFile {
	f := &ccFile{state: "ok"}
	var b strings.Builder
	for i := 0; i < n; i++ {
		for rng.Intn(5) == 0 {
			b.WriteString(pick(rng, []string{"\n", "# * hostname=comment.example\n", "   \n", "  # indented\n", "#\n", "\t\n"}))
		}
		l := &ccLine{}
		la := pick(rng, locals)
		ip, port, _ := net.SplitHostPort(la)
		v6 := strings.Contains(ip, ":")
		switch rng.Intn(12) {
		case 0:
			l.local = "*"
		case 1, 2:
			l.local = ip
		case 3, 4:
			l.local = la
		case 5, 6:
			if v6 {
				l.local = pick(rng, []string{"::1/128", "::/0", "::/64", "::2/127", "::2/128", "::1/127", "::2/126"})
			} else {
				l.local = fmt.Sprintf("%s/%d", ip, pick2(rng, 0, 8, 16, 20, 24, 25, 28, 30, 31, 32))
			}
		case 7: // near misses
			if v6 {
				l.local = pick(rng, []string{"::2", "[::1]", "[::1]:" + port + "0", "::"})
			} else {
				l.local = pick(rng, []string{ip + "1", ip + ":" + port + "0", ip[:len(ip)-1], ip + ":" + port[:len(port)-1], ip + ":", "0" + ip, ip + "/33", "127.0.0.1"})
			}
		case 8: // a neighbour's network
			if v6 {
				l.local = "0:0:0:0:0:0:0:1"
			} else {
				p := net.ParseIP(ip).To4()
				bits := uint(rng.Intn(24))
				v := uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3])
				v ^= 1 << bits
				l.local = fmt.Sprintf("%d.%d.%d.%d/%d", v>>24, v>>16&255, v>>8&255, v&255, 32-int(bits)-rng.Intn(2))
			}
		case 9:
			l.local = "0.0.0.0/0"
		case 10:
			p := []string{"2525", "2526", "25"}
			l.local = ip + ":" + pick(rng, p)
			if v6 {
				l.local = "[" + ip + "]:" + pick(rng, p)
			}
		case 11:
			l.local = ip
		}
		if rng.Intn(4) > 0 {
			l.host = fmt.Sprintf(pick(rng, []string{"h%d-%d.example", "h%d-%d.example", "h%d-%d.example", strings.Repeat("long-", 10+rng.Intn(8)) + "h%d-%d." + strings.Repeat("label.", rng.Intn(12)) + "example", "h%d=%d.example", "H%d-%d.eXample", "\"h%d-%d\"", "h%d%%%d.example"}), i, rng.Intn(1000))
		}
		if rng.Intn(3) > 0 {
			perm := rng.Perm(ccNCerts)
			l.certs = perm[:1+rng.Intn(3)]
		}
		f.lines = append(f.lines, l)
		b.WriteString(l.text(rng))
		b.WriteString("\n")
	}
	f.text = b.String()
	if rng.Intn(25) == 0 {
		// more than any buffer holds
		f.text = "#" + strings.Repeat(" * hostname=long.example", 3000+rng.Intn(3000)) + "\n" + f.text
	}
	if rng.Intn(3) == 0 {
		f.text = strings.TrimSuffix(f.text, "\n")
	}
	return f
}

// breakCC puts an error into a file.
func (f *ccFile) breakCC(rng *rand.Rand) {
	bad := [][2]string{
		{"too many fields", "* hostname=a.example cert=s0.crt key=s0.key more"},
		{"no =", "* hostname"},
		{"no = in the middle", "127.0.0.1 hostname=a.example cert"},
		{"unknown key", "* name=a.example"},
		{"key in upper case", "* Hostname=a.example"},
		{"cert without key", "* cert=s0.crt"},
		{"key without cert", "* hostname=x.example key=s0.key"},
		{"no such certificate", "* cert=nosuch.crt key=s0.key"},
		{"no such key", "* cert=s0.crt key=nosuch.key"},
		{"key of another certificate", "* cert=s0.crt key=s1.key"},
		{"different numbers", "* cert=s0.crt,s1.crt key=s0.key"},
		{"second pair bad", "* cert=s0.crt,s1.crt key=s0.key,s2.key"},
		{"not a certificate", "1.2.3.4 cert=junk key=s0.key"},
	}
	x := bad[rng.Intn(len(bad))]
	f.state = x[0]
	ls := strings.Split(strings.TrimSuffix(f.text, "\n"), "\n")
	if f.text == "" {
		ls = nil
	}
	k := rng.Intn(len(ls) + 1)
	if rng.Intn(2) == 0 {
		k = len(ls)
	}
	ls = append(ls[:k:k], append([]string{x[1]}, ls[k:]...)...)
	f.text = strings.Join(ls, "\n")
	if rng.Intn(3) > 0 {
		f.text += "\n"
	}
}

// ident is what the file says for a local address; nil if it says nothing.
func (f *ccFile) find(la string) (*ccLine, int) {
	if f == nil || f.state != "ok" {
		return nil, 0
	}
	for i, l := range f.lines {
		if l.matches(la) {
			return l, i
		}
	}
	return nil, 0
}

// saveConfCerts makes every certificate file that a generated -conncfg
// file can name.
func saveConfCerts(w *W) {
	mkdir(w.path("eq"))
	for i := range confCerts() {
		saveConfCert(w, i, i)
	}
}

// saveConfCert puts certificate n, or none if it is -1, into the i-th files.
func saveConfCert(w *W, i, n int) {
	for _, f := range []string{"eq/s=%d", "s%d", "\"q%d", "'Q'%d"} {
		f = fmt.Sprintf(f, i)
		if n < 0 {
			os.Remove(w.path(f + ".crt"))
			os.Remove(w.path(f + ".key"))
			continue
		}
		confCerts()[n].save(w.dir, f)
	}
}

func c16(r *Run) {
	r.Rule = "a case: one server on up to five local addresses (two ports, IPv6, a wildcard listener) with or without -helo, -c/-k, -S and -conncfg, and 25 (quick) or 60 steps: rewrite, break, empty, remove or make unreadable the -conncfg file, replace or remove the certificate files it names, change the DNS names of the local addresses or make their lookup fail, connect from ordinary and stalled clients, and continue connections opened before a change; the name in the greeting and in EHLO replies, the STARTTLS offer, the certificate shown for a random server name and the output delay must be those of the reference reading of the file at connect time; in swap cases 24 clients connect while the file is being replaced atomically and must see one version each. Distinct by the files and what the connections showed"
	dir := func(w *W) {
		saveConfCerts(w)
		w.write("junk", "junk\n")
	}
	r.Each("config", r.N(1000, 8000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		dir(w)
		w.dns.Reset()
		os.RemoveAll(w.path("cc"))
		os.Remove(w.path("slog"))
		w.write("rules", "accept all\n")
		base := freshIP()
		lst := []string{base + ":2525"}
		locals := []string{base + ":2525"}
		if rng.Intn(2) == 0 {
			lst = append(lst, base+":2526")
			locals = append(locals, base+":2526")
		}
		if rng.Intn(2) == 0 {
			b := freshIP()
			lst = append(lst, b+":2525")
			locals = append(locals, b+":2525")
		}
		if rng.Intn(3) == 0 {
			if a := addr6(); a != "" {
				lst = append(lst, a)
				locals = append(locals, a)
			}
		}
		if rng.Intn(6) == 0 {
			// all addresses of one port
			if p := freePort("0.0.0.0"); p != "" {
				lst = append(lst, "0.0.0.0:"+p)
				locals = append(locals, base+":"+p, freshIP()+":"+p)
			}
		}
		args := []string{"-force-receive", "-r", "rules"}
		helo := ""
		if rng.Intn(3) == 0 {
			helo = "cmdline.example"
			args = append(args, "-helo", helo)
		}
		var certs []int
		if rng.Intn(2) == 0 {
			certs = rng.Perm(ccNCerts)[:1+rng.Intn(2)]
			var c, k []string
			for _, n := range certs {
				c = append(c, fmt.Sprintf("s%d.crt", n))
				k = append(k, fmt.Sprintf("s%d.key", n))
			}
			args = append(args, "-c", strings.Join(c, ","), "-k", strings.Join(k, ","))
		}
		slow := rng.Intn(4) == 0
		if slow {
			args = append(args, "-S")
		}
		yak := rng.Intn(3) == 0
		if yak {
			args = append(args, "-smtplog", "slog", "-dncount", "1", "-minphase", "to")
		}
		conf := rng.Intn(8) > 0
		// which certificate the certificate files hold
		held := make([]int, ccNCerts)
		gone := map[int]bool{}
		for n := range held {
			held[n] = n
		}
		usable := func(f *ccFile) bool {
			for _, l := range f.lines {
				for _, n := range l.certs {
					if gone[n] {
						return false
					}
				}
			}
			return true
		}
		var cur *ccFile
		var hist []string
		put := func(f *ccFile) {
			var was os.FileInfo
			if cur != nil && cur.state == "ok" && f.state == "ok" && rng.Intn(2) == 0 {
				// of the old size and perhaps age
				if n := len(cur.text) - len(f.text); n >= 2 {
					f.text += "\n#" + strings.Repeat("-", n-2)
				}
				if len(f.text) == len(cur.text) {
					r.Count("changes_of_same_size", 1)
				}
				was, _ = os.Stat(w.path("cc"))
			}
			defer func() {
				if was != nil && rng.Intn(3) == 0 {
					os.Chtimes(w.path("cc"), was.ModTime(), was.ModTime())
				}
			}()
			os.RemoveAll(w.path("cc"))
			switch f.state {
			case "missing":
			case "directory":
				mkdir(w.path("cc"))
			default:
				w.write("cc", f.text)
			}
			cur = f
			hist = append(hist, fmt.Sprintf("conncfg (%s):\n%s", f.state, f.text))
			r.Seen("file_states", f.state)
		}
		if conf {
			put(genCC(rng, locals, ccLines(rng)))
			args = append(args, "-conncfg", "cc")
		}
		ptr := map[string][]string{} // "!" means failing
		setDNS := func() {
			w.dns.Reset()
			for _, la := range locals {
				ip, _, _ := net.SplitHostPort(la)
				for _, n := range ptr[ip] {
					if n == "!" {
						w.dns.Mode(PTRName(ip), pick(rng, []string{"servfail", "timeout", "refused"}))
					} else {
						w.dns.AddPTR(ip, n+".")
					}
				}
			}
		}
		d := w.mustDaemon(DOpts{Args: args, Listen: lst, Env: []string{"VERIF_DELAY_DIV=100000000"}})
		w.ds["c16"] = d
		defer func() { d.Stop(); delete(w.ds, "c16") }()
		stalled := map[string]bool{}
		yaks := []string{"127.9.0.1", "127.9.0.2", "127.9.0.3"}
		type sess struct {
			c     *Client
			la    string
			names []string
			certs []int
			stall bool
			src   string
			why   string
		}
		bad := func(s *sess, format string, a ...interface{}) *Fail {
			det := map[string]interface{}{"args": d.Args, "history": hist, "because": s.why}
			if s.c != nil {
				det["conversation"] = s.c.log
			}
			return failf(det, format, a...)
		}
		nameOK := func(s *sess, n string) bool {
			for _, x := range s.names {
				if x == n {
					return true
				}
			}
			return false
		}
		trace := ""
		open := func() (*sess, *Fail) {
			s := &sess{la: pick(rng, locals), src: "127.9.1.1"}
			if yak && rng.Intn(2) == 0 {
				s.src = pick(rng, yaks)
			}
			if strings.HasPrefix(s.la, "[") {
				s.src = "::1"
				s.stall = false
			}
			ip, _, _ := net.SplitHostPort(s.la)
			s.certs = certs
			switch {
			case helo != "":
				s.names = []string{helo}
				s.why = "command line"
			case len(hostsNames(ip)) > 0:
				s.names = hostsNames(ip)
				s.why = "hosts name"
			case len(ptr[ip]) > 0 && ptr[ip][0] != "!":
				s.names = ptr[ip]
				s.why = "DNS name"
			default:
				s.names = []string{s.la}
				s.why = "IP:port"
			}
			if conf {
				if l, n := cur.find(s.la); l != nil && usable(cur) {
					s.certs = nil
					for _, c := range l.certs {
						s.certs = append(s.certs, held[c])
					}
					s.why = fmt.Sprintf("entry %d of the file (%s)", n+1, l.local)
					if l.host != "" {
						s.names = []string{l.host}
					} else {
						s.why += ", name not from it"
					}
				}
			}
			s.stall = stalled[s.src]
			s.c = mustDial(s.src, s.la)
			rep := s.c.Read()
			if rep.Code != 220 {
				return s, bad(s, "no greeting: %s", rep)
			}
			r.Count("connections", 1)
			hist = append(hist, "connect to "+s.la+" from "+s.c.Src)
			if n := strings.Fields(rep.Lines[0])[0]; !nameOK(s, n) {
				return s, bad(s, "connection to %s: the greeting says %q, it should be %q", s.la, n, s.names)
			}
			var tr *ConnTrace
			waitFor(10*time.Second, func() bool { tr = d.TraceOf(s.c.Src); return tr != nil })
			if tr == nil {
				infra("no trace of %s", s.c.Src)
			}
			if (tr.Delay > 0) != (slow || s.stall) {
				return s, bad(s, "connection from %s: slow is %v, -S is %v and stalled %v", s.src, tr.Delay > 0, slow, s.stall)
			}
			if tr.Delay > 0 {
				r.Count("slow_connections", 1)
			}
			w := s.why
			if k := strings.Index(w, "("); k > 0 {
				w = w[:k]
			}
			r.Seen("identity_from", w)
			trace += fmt.Sprint(s.names, s.certs, s.la)
			return s, nil
		}
		finish := func(s *sess) *Fail {
			if rng.Intn(8) == 0 && (!yak || strings.HasPrefix(s.src, "127.9.0.")) {
				// do nothing
				if err := s.c.Quit(); err != nil {
					return bad(s, "QUIT: %v", err)
				}
				if yak && !s.stall {
					stalled[s.src] = true
				}
				return nil
			}
			rep := s.c.Cmd("EHLO c.example")
			if s.stall {
				if rep.Class() != 4 {
					return bad(s, "EHLO from a stalled client: %s", rep)
				}
				s.c.Quit()
				return nil
			}
			if rep.Code != 250 {
				return bad(s, "EHLO: %s", rep)
			}
			if n := strings.Fields(rep.Lines[0])[0]; !nameOK(s, n) {
				return bad(s, "connection to %s: EHLO reply says %q, it should be %q", s.la, n, s.names)
			}
			if rep.HasExt("STARTTLS") != (len(s.certs) > 0) {
				return bad(s, "connection to %s: STARTTLS offered is %v, certificates %v are configured", s.la, rep.HasExt("STARTTLS"), s.certs)
			}
			if len(s.certs) > 0 {
				sni := pick(rng, []string{"", "cert0.example", "cert1.example", "cert2.example", "cert3.example", "cert4.example", "cert5.example", "www.c1.example", "www.c3.example", "other.example", "h0.example"})
				if rng.Intn(2) == 0 {
					sni = fmt.Sprintf("cert%d.example", s.certs[rng.Intn(len(s.certs))])
				}
				cfg := &tls.Config{InsecureSkipVerify: true, ServerName: sni}
				if rng.Intn(2) == 0 {
					cfg.MaxVersion = tls.VersionTLS12
				}
				if _, err := s.c.StartTLS(cfg); err != nil {
					return bad(s, "STARTTLS: %v", err)
				}
				want := pickCert(s.certs, sni)
				got := s.c.TLS.PeerCertificates[0]
				if !got.Equal(confCerts()[want].X) {
					return bad(s, "connection to %s asking for %q: the certificate is %s, it should be %s", s.la, sni, got.Subject.CommonName, confCerts()[want].Spec.CN)
				}
				r.Count("certificates_checked", 1)
				rep := s.c.Cmd("EHLO c.example")
				if rep.Code != 250 || !nameOK(s, strings.Fields(rep.Lines[0])[0]) || rep.HasExt("STARTTLS") {
					return bad(s, "EHLO over TLS: %s", rep)
				}
				trace += sni
			} else if rep := s.c.Cmd("STARTTLS"); rep.Class() == 2 {
				return bad(s, "STARTTLS without certificates: %s", rep)
			}
			for _, cmd := range []string{"MAIL FROM:<a@b.example>", "RCPT TO:<c@d.example>"} {
				if rep := s.c.Cmd(cmd); rep.Class() != 2 {
					return bad(s, "%s: %s", cmd, rep)
				}
			}
			if err := s.c.Quit(); err != nil {
				return bad(s, "QUIT: %v", err)
			}
			return nil
		}
		var kept []*sess
		setDNS()
		for n := r.N(25, 60); n > 0; n-- {
			switch x := rng.Intn(20); {
			case x < 5 && conf:
				f := genCC(rng, locals, rng.Intn(6))
				switch rng.Intn(10) {
				case 0, 1, 2:
					f.breakCC(rng)
				case 3:
					f = &ccFile{state: pick(rng, []string{"missing", "directory"})}
				}
				put(f)
			case x < 6 && conf:
				// other certificates under the old names
				a, b := rng.Intn(ccNCerts), rng.Intn(ccNCerts)
				if rng.Intn(4) == 0 {
					gone[a] = true
					saveConfCert(w, a, -1)
				} else {
					held[a], held[b] = held[b], held[a]
					for _, n := range []int{a, b} {
						gone[n] = false
						saveConfCert(w, n, held[n])
					}
				}
				hist = append(hist, fmt.Sprintf("the certificate files hold %v, these are missing: %v", held, gone))
				r.Count("certificate_changes", 1)
			case x < 8:
				ip, _, _ := net.SplitHostPort(pick(rng, locals))
				switch rng.Intn(4) {
				case 0:
					ptr[ip] = nil
				case 1:
					ptr[ip] = []string{"!"}
				case 2:
					ptr[ip] = []string{fmt.Sprintf("ptr%d.example", rng.Intn(100))}
				default:
					ptr[ip] = []string{fmt.Sprintf("ptr%d.example", rng.Intn(100)), fmt.Sprintf("ptr%d.example", rng.Intn(100))}
				}
				setDNS()
				hist = append(hist, fmt.Sprintf("DNS of %s: %q", ip, ptr[ip]))
			case x < 10 && len(kept) > 0:
				k := rng.Intn(len(kept))
				s := kept[k]
				kept = append(kept[:k], kept[k+1:]...)
				if f := finish(s); f != nil {
					return f
				}
			case x < 10 && len(kept) < 4:
				s, f := open()
				if f != nil {
					return f
				}
				kept = append(kept, s)
			default:
				s, f := open()
				if f == nil {
					f = finish(s)
				}
				if f != nil {
					return f
				}
			}
			// A stalled client is one whose record was set by a session that
			// ended before it connected; overlapping sessions of one client
			// may clear it.
			if len(kept) == 0 {
				continue
			}
			for _, s := range kept {
				if strings.HasPrefix(s.src, "127.9.0.") {
					// finish these at once, so that the record is simple
					if f := finish(s); f != nil {
						return f
					}
					s.src = ""
				}
			}
			k := kept[:0]
			for _, s := range kept {
				if s.src != "" {
					k = append(k, s)
				}
			}
			kept = k
		}
		for _, s := range kept {
			if f := finish(s); f != nil {
				return f
			}
		}
		r.Eval(trace + strings.Join(hist, "\n"))
		if i < 3 {
			r.Sample(map[string]interface{}{"args": d.Args, "history": hist})
		}
		return nil
	})
	r.Each("swap", r.N(30, 400), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		dir(w)
		w.dns.Reset()
		var lst []string
		for k := 0; k < 3; k++ {
			lst = append(lst, freshIP()+":2525")
		}
		gen := func(v int) *ccFile {
			f := &ccFile{state: "ok"}
			for k, la := range lst {
				ip, _, _ := net.SplitHostPort(la)
				l := &ccLine{local: pick(rng, []string{la, ip, ip + "/32"}), host: fmt.Sprintf("v%d-%d.example", v, k), certs: []int{(v + k) % ccNCerts}}
				f.lines = append(f.lines, l)
				f.text += l.text(rng) + "\n"
			}
			return f
		}
		vers := []*ccFile{gen(0), gen(1), gen(3)}
		w.write("cc", vers[0].text)
		kind := "sinksmtp"
		if i%2 == 0 {
			kind = "sinksmtp-race"
		}
		d := w.mustDaemon(DOpts{Kind: kind, Args: []string{"-force-receive", "-conncfg", "cc"}, Listen: lst})
		w.ds["c16s"] = d
		defer func() { d.Stop(); delete(w.ds, "c16s") }()
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				os.WriteFile(w.path("cc.new"), []byte(vers[n%3].text), 0666)
				os.Rename(w.path("cc.new"), w.path("cc"))
				time.Sleep(200 * time.Microsecond)
			}
		}()
		var mu sync.Mutex
		var fail *Fail
		seen := map[string]int{}
		var cg sync.WaitGroup
		for k := 0; k < 24; k++ {
			cg.Add(1)
			go func(k int) {
				defer cg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						if f, ok := e.(*Fail); ok {
							fail = f
						} else {
							fail = failf(nil, "%v", e)
						}
						mu.Unlock()
					}
				}()
				src := fmt.Sprintf("127.9.2.%d", 1+k)
				for n := 0; n < 4; n++ {
					la := lst[(k+n)%3]
					c := mustDial(src, la)
					defer c.Close()
					rep := c.Read()
					name := ""
					if rep.Code == 220 {
						name = strings.Fields(rep.Lines[0])[0]
					}
					e := c.Cmd("EHLO c.example")
					ok := false
					if e.Code == 250 && strings.Fields(e.Lines[0])[0] == name {
						if _, err := c.StartTLS(&tls.Config{InsecureSkipVerify: true}); err == nil {
							for _, v := range vers {
								l, _ := v.find(la)
								if l.host == name && c.TLS.PeerCertificates[0].Equal(confCerts()[l.certs[0]].X) {
									ok = true
								}
							}
						}
					}
					mu.Lock()
					seen[name]++
					if !ok && fail == nil {
						fail = failf(map[string]interface{}{"conversation": c.log, "local": la, "versions": []string{vers[0].text, vers[1].text, vers[2].text}}, "connection to %s while the file is replaced: what it shows is no version's line for it (%s)", la, rep)
					}
					mu.Unlock()
					c.Quit()
				}
			}(k)
		}
		cg.Wait()
		close(stop)
		wg.Wait()
		if fail != nil {
			return fail
		}
		r.Count("swap_connections", 96)
		r.Count("swap_distinct_identities", len(seen))
		r.Eval(fmt.Sprint("swap", seen))
		return nil
	})
}
