package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"net"
	"os"
	"sort"
	"strings"
	"time"
)

func init() { register("C20", "plain", c20) }

// startCfg is a set of start-up settings.
type startCfg struct {
	opt    map[string]string // "\x00" for a flag that is just there
	flags  []string          // -M, -S ...
	listen []string
	uid    uint32
	faults []string // why it must be refused
	dir    string   // real place of the save directory, "" if none
}

func (s *startCfg) fault(f string) { s.faults = append(s.faults, f) }

// snapshot describes everything below a directory.
func snapshot(dir string) string {
	if dir == "" {
		return ""
	}
	var res []string
	for _, e := range listAll(dir) {
		fi, err := os.Lstat(dir + "/" + e)
		if err != nil {
			continue
		}
		res = append(res, fmt.Sprintf("%s %v %d %s", e, fi.Mode(), fi.Size(), fi.ModTime()))
	}
	sort.Strings(res)
	return strings.Join(res, "\n")
}

func listAll(dir string) []string {
	var res []string
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		res = append(res, e.Name())
	}
	return res
}

func c20(r *Run) {
	r.Rule = "a case: a random set of valid options (save directory or -force-receive or -M, -save-hash, -minphase, logs, -dncount/-dndur/-dnlog, one or more certificates, rules files, -conncfg, missing filter files, one to three IPv4/IPv6/named addresses), in random order and spelling, with no, one or two refusal reasons put in; a refused start must exit non-zero with a message and never greet a client that keeps connecting, any other must listen on every address and greet, and in both cases the save directory must be as it was. Some runs are as an unprivileged user. Distinct by the options and the reasons"
	junkRules := []string{"such\n", "accept all\nreject\n", "accept from\n", "@nophase accept all\n", "accept all with\n", "accept (all\n", "include nosuchfile\n", "accept tls maybe\n", "accept \"unfinished\n", "accept all; accept all\n", "@from accept to a@b\n"}
	r.Each("start", r.N(9000, 60000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		os.RemoveAll(w.dir)
		mkdir(w.dir)
		os.Chmod(w.dir, 0777)
		w.dns.Reset()
		for i, c := range confCerts()[:4] {
			c.save(w.dir, fmt.Sprintf("s%d", i))
		}
		w.write("junk", "junk\n")
		s := &startCfg{opt: map[string]string{}}
		var held []net.Listener
		defer func() {
			for _, l := range held {
				l.Close()
			}
		}()
		if os.Getuid() == 0 && rng.Intn(5) == 0 {
			s.uid = 65534
		}
		nf := pick2(rng, 0, 0, 1, 1, 1, 2)
		want := map[int]bool{}
		const nkinds = 16
		for len(want) < nf {
			want[rng.Intn(nkinds)] = true
		}
		coin := func(n int) bool { return rng.Intn(n) == 0 }

		// receiving: 0, saving: 1
		mode := rng.Intn(5)
		save := mode < 3
		if want[1] {
			save = true
		}
		if want[0] && !want[1] {
			save = false
		}
		if save {
			s.opt["-d"] = pick(rng, []string{"save", "./save", "save/", w.path("save"), "link"})
			s.dir = w.path("save")
			mkdir(s.dir)
			os.Chmod(s.dir, 0777)
			os.Symlink("save", w.path("link"))
			for _, n := range subset(rng, []string{"0123456789abcdef0123456789abcdef01234567", ".hidden", "notes", "x.tmp", ".wecan", "wecanmake"}) {
				w.write("save/"+n, "keep "+n+"\n")
			}
			if coin(4) {
				mkdir(s.dir + "/sub")
			}
			if want[1] {
				switch rng.Intn(6) {
				case 0:
					s.opt["-d"] = "nosuchdir"
					s.fault("save directory missing")
				case 1:
					w.write("afile", "x")
					s.opt["-d"] = "afile"
					s.fault("save directory is a file")
				case 2:
					os.Symlink("nowhere", w.path("dangling"))
					s.opt["-d"] = "dangling"
					s.fault("save directory is a dangling link")
				case 3:
					s.opt["-d"] = "nosuchdir/save"
					s.fault("save directory below a missing one")
				default:
					if os.Getuid() != 0 {
						s.opt["-d"] = "nosuchdir"
						s.fault("save directory missing")
						break
					}
					s.uid = 65534
					os.Chmod(s.dir, os.FileMode(pick2(rng, 0555, 0755, 0444, 0711, 0000)))
					s.fault("save directory not writable")
				}
				if s.opt["-d"] == "nosuchdir" || strings.HasPrefix(s.opt["-d"], "nosuchdir/") || s.opt["-d"] == "afile" || s.opt["-d"] == "dangling" {
					os.RemoveAll(s.dir)
					s.dir = ""
				}
			}
		} else if want[0] {
			s.fault("nowhere to put mail")
			if coin(3) {
				s.opt["-d"] = ""
			}
			if coin(3) {
				s.flags = append(s.flags, pick(rng, []string{"-M=false", "-force-receive=false"}))
			}
		}
		if !save && !want[0] || coin(6) && !want[0] {
			s.flags = append(s.flags, pick(rng, []string{"-force-receive", "-M", "--force-receive", "-M=true"}))
		}

		// logs
		if coin(2) {
			s.opt["-smtplog"] = pick(rng, []string{"slog", "-", "./slog2"})
		}
		if coin(2) {
			s.opt["-l"] = pick(rng, []string{"mlog", "-"})
		}

		// -save-hash
		switch {
		case want[2]:
			s.opt["-save-hash"] = pick(rng, []string{"", "ALL", "message", "mesg", "All", "fulL", "msg ", "none", "all,full"})
			s.fault("bad -save-hash " + s.opt["-save-hash"])
		case want[3]:
			s.opt["-save-hash"] = "msg"
			delete(s.opt, "-l")
			if coin(4) {
				s.opt["-l"] = ""
			}
			s.fault("-save-hash msg without -l")
		case coin(2):
			s.opt["-save-hash"] = pick(rng, []string{"all", "full", "msg"})
			if s.opt["-save-hash"] == "msg" && s.opt["-l"] == "" {
				s.opt["-l"] = pick(rng, []string{"mlog", "-"})
			}
		}

		// do-nothing clients
		switch {
		case want[4]:
			s.opt["-dncount"] = pick(rng, []string{"1", "2", "5", "100"})
			delete(s.opt, "-smtplog")
			if coin(3) {
				s.opt["-smtplog"] = ""
			}
			s.fault("-dncount without -smtplog")
			if coin(2) {
				s.opt["-dndur"] = "1h"
			}
			if coin(2) {
				s.opt["-dnlog"] = "dnlog"
			}
		case want[5]:
			s.opt["-dncount"] = pick(rng, []string{"1", "2", "5"})
			if s.opt["-smtplog"] == "" {
				s.opt["-smtplog"] = "slog"
			}
			s.opt["-dndur"] = pick(rng, []string{"0s", "0", "1ms", "500ms", "999ms", "999999999ns", "-1s", "-8h", "0.99s"})
			s.fault("-dndur " + s.opt["-dndur"])
		case want[6]:
			delete(s.opt, "-dncount")
			if coin(2) {
				s.opt["-dncount"] = "0"
			}
			s.opt["-dnlog"] = pick(rng, []string{"dnlog", "-"})
			s.fault("-dnlog without -dncount")
		case coin(2):
			s.opt["-dncount"] = pick(rng, []string{"1", "2", "7"})
			if s.opt["-smtplog"] == "" {
				s.opt["-smtplog"] = pick(rng, []string{"slog", "-"})
			}
			if coin(2) {
				s.opt["-dndur"] = pick(rng, []string{"1s", "1000ms", "8h", "1h30m", "1.5s", "72h"})
			}
			if coin(2) {
				s.opt["-dnlog"] = pick(rng, []string{"dnlog", "-"})
			}
		case coin(4):
			// without -dncount it does not matter
			s.opt["-dndur"] = pick(rng, []string{"10ms", "1h", "0s"})
		}

		// -minphase
		if want[7] {
			s.opt["-minphase"] = pick(rng, []string{"", "connect", "HELO", "rcpt", "mail", "accept", "messages", "eh", "quit", "data ", "all"})
			s.fault("bad -minphase " + s.opt["-minphase"])
		} else if coin(2) {
			s.opt["-minphase"] = pick(rng, []string{"helo", "ehlo", "from", "to", "data", "message", "accepted"})
		}

		// certificates
		certlist := func(n int) ([]string, []string) {
			var c, k []string
			for _, x := range rng.Perm(4)[:n] {
				c = append(c, fmt.Sprintf("s%d.crt", x))
				k = append(k, fmt.Sprintf("s%d.key", x))
			}
			return c, k
		}
		if want[8] {
			n := 1 + rng.Intn(3)
			c, k := certlist(n)
			x := rng.Intn(n)
			what := ""
			switch rng.Intn(9) {
			case 0:
				what, k = "-c alone", nil
			case 1:
				what, c = "-k alone", nil
			case 2:
				what, c[x] = "certificate file missing", "nosuch.crt"
			case 3:
				what, k[x] = "key file missing", "nosuch.key"
			case 4:
				what = "fewer keys"
				c, k = certlist(2 + rng.Intn(2))
				k = k[:len(k)-1]
			case 5:
				what = "fewer certificates"
				c, k = certlist(2 + rng.Intn(2))
				c = c[:len(c)-1]
			case 6:
				what, k[x] = "key of another certificate", "other.key"
				confCerts()[5].save(w.dir, "other")
			case 7:
				what, c[x] = "certificate file is junk", "junk"
			case 8:
				what, k[x] = "key file is not a key", c[x]
			}
			s.fault(what)
			if c != nil {
				s.opt["-c"] = strings.Join(c, ",")
			}
			if k != nil {
				s.opt["-k"] = strings.Join(k, ",")
			}
		} else if coin(2) {
			c, k := certlist(1 + rng.Intn(3))
			s.opt["-c"], s.opt["-k"] = strings.Join(c, ","), strings.Join(k, ",")
		}

		// rules
		var rf []string
		for j := rng.Intn(4); j > 0; j-- {
			n := fmt.Sprintf("r%d", j)
			w.write(n, pick(rng, []string{"", "# nothing\n", "accept all\n", "reject from a@b\naccept all\n", "@from reject not dns good\n", "include inc\n", "accept helo file:nosuchlist"}))
			rf = append(rf, n)
		}
		w.write("inc", "accept all\n")
		if want[9] {
			k := rng.Intn(len(rf) + 1)
			rf = append(rf[:k:k], append([]string{"norules"}, rf[k:]...)...)
			s.fault("rules file missing")
			if coin(4) && os.Getuid() == 0 {
				w.write("norules", "accept all\n")
				os.Chmod(w.path("norules"), 0600)
				s.uid = 65534
				s.faults[len(s.faults)-1] = "rules file unreadable"
			} else if coin(4) {
				mkdir(w.path("norules"))
				s.faults[len(s.faults)-1] = "rules file a directory"
			}
		}
		if want[10] {
			k := rng.Intn(len(rf) + 1)
			rf = append(rf[:k:k], append([]string{"badrules"}, rf[k:]...)...)
			x := rng.Intn(len(junkRules))
			w.write("badrules", pick(rng, []string{"", "", "accept from a@b\n", "# text\n\n"})+junkRules[x])
			s.fault("rules error " + junkRules[x])
		}
		if len(rf) > 0 {
			s.opt["-r"] = strings.Join(rf, ",")
		}

		// -conncfg
		if want[11] {
			s.opt["-conncfg"] = "nocc"
			s.fault("-conncfg file missing")
			if coin(3) {
				mkdir(w.path("nocc"))
				s.faults[len(s.faults)-1] = "-conncfg file a directory"
			}
		} else if want[12] || coin(3) {
			f := genCC(rng, []string{"127.0.0.1:2525", "127.1.2.3:25"}, rng.Intn(5))
			saveConfCerts(w)
			if want[12] {
				f.breakCC(rng)
				s.fault("-conncfg error: " + f.state)
			}
			w.write("cc", f.text)
			s.opt["-conncfg"] = "cc"
		}

		// unopenable logs
		if want[13] {
			o := pick(rng, []string{"-smtplog", "-l", "-dnlog"})
			if o == "-dnlog" && (want[4] || want[5] || want[6]) {
				o = "-l"
			}
			if o == "-smtplog" && want[4] || o == "-l" && want[3] {
				o = map[bool]string{true: "-smtplog", false: "-l"}[o == "-l"]
			}
			if !(o == "-smtplog" && want[4] || o == "-l" && want[3]) {
				mkdir(w.path("adir"))
				s.opt[o] = pick(rng, []string{"adir", "nosuch/log", "junk/log"})
				s.fault(o + " cannot be opened")
				if o == "-dnlog" {
					s.opt["-dncount"] = "3"
					if s.opt["-smtplog"] == "" {
						s.opt["-smtplog"] = "slog"
					}
					if d := s.opt["-dndur"]; d == "10ms" || d == "0s" {
						delete(s.opt, "-dndur")
					}
				}
			}
		}

		// addresses
		for j := 1 + rng.Intn(3); j > 0; j-- {
			s.listen = append(s.listen, freshIP()+":2525")
		}
		if coin(6) {
			if a := addr6(); a != "" {
				s.listen = append(s.listen, a)
			}
		}
		probe := s.listen[rng.Intn(len(s.listen))]
		bad := func(a, why string) {
			k := rng.Intn(len(s.listen) + 1)
			s.listen = append(s.listen[:k:k], append([]string{a}, s.listen[k:]...)...)
			s.fault(why)
		}
		if want[14] {
			l, err := net.Listen("tcp", freshIP()+":2525")
			if err != nil {
				infra("%v", err)
			}
			held = append(held, l)
			bad(l.Addr().String(), "address in use")
		}
		if want[15] {
			switch rng.Intn(5) {
			case 0:
				bad(s.listen[rng.Intn(len(s.listen))], "address given twice")
			case 1:
				bad("192.0.2.77:2525", "not a local address")
			case 2:
				bad("127.0.0.1", "no port")
			case 3:
				bad("127.0.0.1:70000", "no such port")
			case 4:
				if coin(2) {
					bad("no-such-host.invalid:2525", "no such host")
					break
				}
				// the other addresses are long open when it turns out
				s.listen = append(s.listen, "no-such-host.invalid:2525")
				s.fault("no such host, found out late")
				w.dns.mu.Lock()
				w.dns.hook = func(name string, typ int) {
					if strings.HasPrefix(name, "no-such-host.") {
						time.Sleep(150 * time.Millisecond)
					}
				}
				w.dns.mu.Unlock()
			}
		}
		if coin(3) {
			s.opt["-fromreject"] = "nosuchlist"
		}
		if coin(5) {
			s.opt["-heloreject"] = "junk"
		}
		for _, f := range []string{"-S", "-nostdrules", "-statsperip"} {
			if coin(5) {
				s.flags = append(s.flags, f)
			}
		}
		var parts [][]string
		var keys []string
		for k := range s.opt {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v := s.opt[k]
			if coin(3) {
				parts = append(parts, []string{pick(rng, []string{"", "-"}) + k + "=" + v})
			} else {
				parts = append(parts, []string{k, v})
			}
		}
		for _, f := range s.flags {
			parts = append(parts, []string{f})
		}
		rng.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
		// a later flag overrides an earlier one of the same name
		sort.SliceStable(parts, func(a, b int) bool {
			return strings.HasSuffix(parts[a][0], "=false") && !strings.HasSuffix(parts[b][0], "=false")
		})
		var args []string
		for _, p := range parts {
			args = append(args, p...)
		}
		before := snapshot(s.dir)
		d, err := r.startOnce(DOpts{Args: args, Listen: s.listen, Dir: w.dir, DNS: w.dns, NoWait: true, UID: s.uid, Env: []string{"VERIF_DELAY_DIV=100000000"}})
		if err != nil {
			return failf(args, "%v", err)
		}
		w.ds["c20"] = d
		defer func() { d.Stop(); delete(w.ds, "c20") }()
		det := func() interface{} {
			return map[string]interface{}{"args": d.Args, "reasons_to_refuse": s.faults, "unprivileged": s.uid != 0, "stderr": tailS(d.Stderr(), 1500), "save_directory_before": before, "save_directory_after": snapshot(s.dir)}
		}
		exited := func() bool {
			select {
			case <-d.done:
				return true
			default:
				return false
			}
		}
		greet := func(a string) string {
			nc, err := net.DialTimeout("tcp", a, 5*time.Second)
			if err != nil {
				return ""
			}
			defer nc.Close()
			nc.SetReadDeadline(time.Now().Add(20 * time.Second))
			l, _ := bufio.NewReader(nc).ReadString('\n')
			return l
		}
		if len(s.faults) > 0 {
			served := ""
			if !waitFor(60*time.Second, func() bool {
				if exited() {
					return true
				}
				if listening(probe) {
					served = greet(probe)
				}
				return served != ""
			}) {
				return failf(det(), "neither refused nor started: %s", strings.Join(s.faults, "; "))
			}
			if served != "" {
				return failf(det(), "started in spite of: %s", strings.Join(s.faults, "; "))
			}
			if d.state.Success() {
				return failf(det(), "exit status 0 in spite of: %s", strings.Join(s.faults, "; "))
			}
			if t := d.Stderr(); strings.Contains(t, "panic: ") || strings.Contains(t, "goroutine 1 [") {
				return failf(det(), "crashed instead of a refusal: %s", strings.Join(s.faults, "; "))
			}
			if strings.TrimSpace(d.Stderr()) == "" {
				return failf(det(), "nothing said about: %s", strings.Join(s.faults, "; "))
			}
			r.Count("refused", 1)
			for _, f := range s.faults {
				r.Seen("reasons", f)
			}
		} else {
			all := func() bool {
				for _, a := range s.listen {
					if !listening(a) {
						return false
					}
				}
				return true
			}
			if !waitFor(60*time.Second, func() bool { return exited() || all() }) {
				return failf(det(), "does not listen on every address")
			}
			if exited() {
				return failf(det(), "does not start: %s", tailS(d.Stderr(), 300))
			}
			for _, a := range s.listen {
				if g := greet(a); !strings.HasPrefix(g, "220") {
					return failf(det(), "no greeting on %s: %q", a, g)
				}
			}
			r.Count("started", 1)
		}
		if after := snapshot(s.dir); after != before {
			return failf(det(), "the save directory was changed by the start")
		}
		if s.dir != "" {
			r.Count("save_directories_compared", 1)
		}
		if s.uid != 0 {
			r.Count("unprivileged", 1)
		}
		r.Eval(fmt.Sprint(args, s.faults))
		if i < 4 {
			r.Sample(map[string]interface{}{"args": d.Args, "reasons_to_refuse": s.faults, "stderr": tailS(d.Stderr(), 300)})
		}
		return nil
	})
}
