package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() { register("C01", "plain", c01) }

// wholeFiles complains about message files that are not complete.
func wholeFiles(dir, mode string) string {
	for _, n := range listDir(dir) {
		if hex40.FindString(n) != n {
			continue
		}
		s := readFile(filepath.Join(dir, n))
		_, data, ok := strings.Cut(s, "\nbody\n")
		if !ok || nameFor(mode, s, data) != n {
			return fmt.Sprintf("the file %s is incomplete (%d bytes)", n, len(s))
		}
	}
	return ""
}

// attempt delivers a message as far as the server lets it.
func attempt(addr string, x *Txn) (c *Client, rep Reply) {
	c, err := dial(x.Rip, addr)
	if err != nil {
		return nil, Reply{Err: err}
	}
	x.Src = c.Src
	x.T0 = time.Now()
	if rep = c.Read(); rep.Code != 220 {
		return c, Reply{Err: fmt.Errorf("greeting: %v", rep)}
	}
	if x.TLS {
		if rep = c.Cmd("EHLO " + x.Helo); rep.Class() != 2 {
			return c, Reply{Err: fmt.Errorf("EHLO: %v", rep)}
		}
		if rep, err = c.StartTLS(&tls.Config{InsecureSkipVerify: true}); err != nil {
			return c, Reply{Err: fmt.Errorf("STARTTLS: %v %v", rep, err)}
		}
		x.TLSLine = anyTLS
	}
	cmds := []string{"EHLO " + x.Helo, "MAIL FROM:<" + x.From + ">"}
	for _, t := range x.Rcpts {
		cmds = append(cmds, "RCPT TO:<"+t+">")
	}
	for _, s := range append(cmds, "DATA") {
		if rep = c.Cmd(s); rep.Class() != 2 && rep.Code != 354 {
			return c, Reply{Err: fmt.Errorf("%s: %v", s, rep)}
		}
	}
	rep = c.Body(x.Data)
	x.T1 = time.Now()
	return c, rep
}

// keptPromise checks the directory after a reply to a message.
func keptPromise(dir, mode string, x *Txn, rep Reply) string {
	if rep.Err != nil {
		return ""
	}
	id := replyID(rep)
	if rep.Class() == 2 || rep.Class() == 5 {
		if id == "" {
			return fmt.Sprintf("the reply names no ID: %s", rep)
		}
		s, err := os.ReadFile(filepath.Join(dir, id))
		if err != nil {
			return fmt.Sprintf("the client got %q, but: %v", rep, err)
		}
		if _, c := x.checkFile(string(s)); c != "" {
			// with names that do not cover them, the file may be from an
			// earlier session
			earlier := strings.Contains(c, "id line says") || mode == "msg" && (strings.Contains(c, "the remote line") || strings.Contains(c, "the envelope should"))
			if mode == "all" || !earlier {
				return fmt.Sprintf("the client got %q, but the file is wrong: %s", rep, c)
			}
		}
		_, data, _ := strings.Cut(string(s), "\nbody\n")
		if data != x.Data || nameFor(mode, string(s), data) != id {
			return fmt.Sprintf("the client got %q, but the file does not have the message: %d bytes of data in it, %d sent", rep, len(data), len(x.Data))
		}
	}
	return ""
}

func newTxn(rng *rand.Rand, d *Daemon, max int) *Txn {
	x := &Txn{Rip: fmt.Sprintf("127.8.1.%d", 1+rng.Intn(50)), Dst: d.Addr, Helo: "h.example", From: "a@x.example", Rcpts: []string{"b@x.example"}, Data: plainBody(rng, max), SkipDNSCheck: true}
	// saving must not depend on the envelope
	if rng.Intn(3) == 0 {
		x.From = pick(rng, []string{"", "", "Other@y.example", "a@y.example"})
	}
	if rng.Intn(3) == 0 {
		for k := pick2(rng, 1, 2, 3, 30); k > 0; k-- {
			x.Rcpts = append(x.Rcpts, fmt.Sprintf("r%d@%s.example", k, pick(rng, []string{"x", "y"})))
		}
	}
	if rng.Intn(5) == 0 {
		x.Helo = "[127.0.0.1]"
	}
	return x
}

var injected = []struct{ calls, err string }{
	{"openat", "EACCES"}, {"openat", "ENOSPC"}, {"openat", "EMFILE"}, {"openat", "EROFS"},
	{"fsync,fdatasync", "EIO"}, {"fsync,fdatasync", "ENOSPC"}, {"fsync,fdatasync", "EDQUOT"},
	{"link,linkat,rename,renameat,renameat2", "EIO"}, {"link,linkat,rename,renameat,renameat2", "ENOSPC"}, {"link,linkat,rename,renameat,renameat2", "EPERM"},
	{"link,linkat,rename,renameat,renameat2", "ENOENT"}, {"link,linkat,rename,renameat,renameat2", "EMLINK"}, {"link,linkat,rename,renameat,renameat2", "EACCES"},
	{"openat", "ENOENT"}, {"newfstatat,fstatat64,lstat,stat,statx", "EACCES"},
	{"close", "EIO"}, {"unlink,unlinkat", "EIO"}, {"newfstatat,fstatat64,lstat,stat,statx", "EIO"},
	{"fsync,fdatasync", "EINTR:when=1"}, {"ftruncate", "EIO"},
}

func c01(r *Run) {
	r.Level = "fault_enumeration"
	r.Rule = "order: messages from concurrent sessions, some the same, with every system call of the server on record: no reply may name a message before its file was flushed and named. fault: directory gone or replaced, writes cut short by a file size limit or a full file system at every sort of offset, each system call of the save path failing with several errors, with rules that accept, reject or stall: a reply other than 4xx needs the complete file, no incomplete message file may be left, a retry after the fault must be accepted and complete. crash: SIGKILL at the n-th call of each kind, and at random times under load; accepted messages must be there and complete and the rest must be deliverable to a restarted server; distinct by fault, place and message"
	r.Assumptions = []string{"crashes are process kills; that flushed data survives a power failure is the file system's business"}
	r.Each("order", r.N(100, 800), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		mode := pick(rng, hashModes)
		mkdir(w.path("save"))
		clearDir(w.path("save"))
		rules, sdir := pick(rng, []string{"", "@message accept all with message \"fine by us\"\n"}), "save"
		if rng.Intn(3) == 0 {
			// a rule says where to
			sdir = pick(rng, []string{"save2", "save/sub", "save 3"})
			mkdir(w.path(sdir))
			clearDir(w.path(sdir))
			rules = pick(rng, []string{"", "@helo ", "@to "}) + "set-with all with savedir \"" + pick(rng, []string{sdir, w.path(sdir)}) + "\"\n" + rules
		}
		w.write("r1", rules)
		tr := w.path("strace.out")
		os.Remove(tr)
		d := w.mustDaemon(DOpts{Args: []string{"-d", "save", "-l", "mlog", "-save-hash", mode, "-r", "r1"}, Wrap: []string{"strace", "-f", "-y", "-q", "-s", "400", "-o", tr, "-e", orderCalls}})
		defer d.Stop()
		w.ds["order"] = d
		defer delete(w.ds, "order")
		n := 1 + rng.Intn(8)
		bodies := []string{plainBody(rng, 200), plainBody(rng, 5000), plainBody(rng, pick2(rng, 100, 300000)), pick(rng, []string{"\n", "x\n", "no header at all\n"})}
		fails := make([]*Fail, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			x := newTxn(rng, d, 10)
			x.Data = pick(rng, bodies)
			if rng.Intn(2) == 0 {
				x.Rip = "127.8.1.1"
			}
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				c, rep := attempt(d.Addr, x)
				if c != nil {
					defer c.Close()
				}
				if rep.Class() != 2 {
					fails[k] = failf(c.log, "not accepted: %s", rep)
					return
				}
				if s := keptPromise(w.path(sdir), mode, x, rep); s != "" {
					fails[k] = failf(c.log, "%s", s)
					return
				}
				c.Quit()
			}(k)
		}
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		d.Stop()
		log := readFile(tr)
		re, sy, s := sysOrder(log, w.path(sdir))
		if s != "" {
			return failf(tailS(log, 8000), "%s", s)
		}
		if re != n {
			return failf(tailS(log, 8000), "%d replies with an ID seen in the system call log of %d deliveries", re, n)
		}
		r.Count("replies_in_order", re)
		r.Count("flushes", sy)
		r.Eval(fmt.Sprint("order", mode, sdir, n, bodies))
		if i == 0 {
			r.Sample(map[string]interface{}{"system_calls": strings.Split(tailS(log, 2500), "\n")})
		}
		return nil
	})

	// faults
	kinds := []string{"nodir", "notdir", "fsize", "fsize", "fsize", "fsize", "full", "full", "rulesdir"}
	for range injected {
		kinds = append(kinds, "inject")
	}
	tmpfs := exec1("unshare", "-Ur", "-m", "sh", "-c", "mount -t tmpfs none /tmp && echo yes") == "yes\n"
	if !tmpfs {
		r.Count("no_tmpfs_here", 1)
	}
	r.Each("fault", r.N(len(kinds)*14, len(kinds)*250), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		kind := kinds[i%len(kinds)]
		if kind == "full" && !tmpfs {
			kind = "fsize"
		}
		mode := pick(rng, hashModes)
		verdict := pick(rng, []string{"accept", "accept", "reject", "stall"})
		dir := w.path("save")
		os.RemoveAll(dir)
		os.RemoveAll(w.path("save.away"))
		mkdir(dir)
		args := []string{"-d", "save", "-save-hash", mode, "-l", "mlog"}
		useM := kind == "inject"
		if useM {
			// no rules file to fail on
			if verdict == "reject" {
				args = append(args, "-M")
			} else {
				verdict = "accept"
			}
		} else {
			rules := "@message " + verdict + " all\n"
			if rng.Intn(2) == 0 {
				rules = "@message " + verdict + " all with message \"rule words\"\n"
			}
			if kind == "rulesdir" {
				rules = "set-with all with savedir " + pick(rng, []string{"nosuchdir", "save/x/y", "/dev/null"}) + "\n" + rules
			}
			w.write("r1", rules)
			args = append(args, "-r", "r1")
		}
		overTLS := rng.Intn(3) == 0
		if overTLS {
			serverCert().save(w.dir, "srv")
			args = append(args, "-c", "srv.crt", "-k", "srv.key")
		}
		o := DOpts{Args: args}
		if kind == "full" {
			o.Wrap = []string{"unshare", "-Ur", "-m", "sh", "-c", `mount -t tmpfs -o size=96k none "` + dir + `" && exec "$0" "$@"`}
		}
		os.Remove(w.path("mlog"))
		d := w.mustDaemon(o)
		defer d.Stop()
		w.ds["fault"] = d
		defer delete(w.ds, "fault")
		if kind == "full" {
			dir = fmt.Sprintf("/proc/%d/root%s", d.pid, dir)
		}
		wantClass := map[string]int{"accept": 2, "reject": 5, "stall": 4}[verdict]
		var logs []interface{}
		desc := kind
		det := func(c *Client, format string, a ...interface{}) *Fail {
			if c != nil {
				logs = append(logs, c.log)
			}
			return failf(map[string]interface{}{"fault": desc, "verdict": verdict, "mode": mode, "conversations": logs, "directory": listDir(dir), "stderr": tailS(d.Stderr(), 500)}, "%s: %s", desc, fmt.Sprintf(format, a...))
		}
		deliver := func(x *Txn) (Reply, *Fail) {
			x.TLS = overTLS
			c, rep := attempt(d.Addr, x)
			if c == nil {
				return rep, det(nil, "cannot connect: %v", rep.Err)
			}
			defer c.Close()
			if rep.Err != nil {
				return rep, det(c, "no reply to the message: %v", rep.Err)
			}
			if s := keptPromise(dir, mode, x, rep); kind != "rulesdir" && s != "" {
				return rep, det(c, "%s", s)
			}
			if s := wholeFiles(dir, mode); s != "" {
				return rep, det(c, "after reply %q %s", rep, s)
			}
			c.Cmd("QUIT") // it may not be able to close
			logs = append(logs, c.log)
			return rep, nil
		}
		big := pick2(rng, 300, 3000, 30000, 300000)
		first := newTxn(rng, d, 200)
		if kind != "rulesdir" {
			rep, f := deliver(first)
			if f != nil {
				return f
			}
			if rep.Class() != wantClass {
				return det(nil, "before any fault: %s", rep)
			}
		}
		x := newTxn(rng, d, big)
		lift := func() {}
		certain := true
		switch kind {
		case "nodir":
			os.Rename(dir, w.path("save.away"))
			lift = func() { os.Rename(w.path("save.away"), dir) }
		case "notdir":
			os.Rename(dir, w.path("save.away"))
			os.WriteFile(dir, []byte("x"), 0666)
			lift = func() { os.Remove(dir); os.Rename(w.path("save.away"), dir) }
		case "fsize":
			// anywhere from nothing to one byte short, and beyond
			n := rng.Int63n(int64(len(x.Data)) + 120)
			if rng.Intn(4) == 0 {
				n = int64(len(x.Data)) + 350 - rng.Int63n(250)
			}
			desc = fmt.Sprintf("file size limit %d of about %d", n, len(x.Data)+230)
			certain = n < int64(len(x.Data))
			d.setFsize(n)
			lift = func() { d.setFsize(-1) }
		case "full":
			// fill up
			certain = false
			x.Data = plainBody(rng, 120000)
			for k := 0; k < 12; k++ {
				y := newTxn(rng, d, 40000)
				rep, f := deliver(y)
				if f != nil {
					return f
				}
				if rep.Class() == 4 {
					r.Count("deferred_on_full_disk", 1)
				}
			}
			lift = func() {
				for _, n := range listDir(dir) {
					os.Remove(filepath.Join(dir, n))
				}
			}
			first = nil
		case "inject":
			in := injected[(i/len(kinds)+i)%len(injected)]
			desc = "inject " + in.calls + " " + in.err
			certain = in.calls == "openat" || strings.HasPrefix(in.calls, "fsync") && !strings.HasPrefix(in.err, "EINTR")
			if strings.HasPrefix(in.calls, "link") {
				certain = false // a way of saving may need neither
			}
			t := d.attach("-e", "trace="+in.calls, "-e", "inject="+in.calls+":error="+in.err)
			lift = t.detach
		}
		for k := 0; k < 1+rng.Intn(2); k++ {
			rep, f := deliver(x)
			if f != nil {
				lift()
				return f
			}
			if kind == "rulesdir" {
				if rep.Class() != 4 {
					return det(nil, "the message cannot be saved, the reply is %s", rep)
				}
				continue
			}
			if certain && rep.Class() != 4 {
				lift()
				return det(nil, "the message cannot be saved, the reply is %s", rep)
			}
			if rep.Class() != 4 && rep.Class() != wantClass {
				lift()
				return det(nil, "a message the rules %s got %s", verdict, rep)
			}
			r.Seen("fault_outcomes", fmt.Sprintf("%s -> %dxx", kind, rep.Class()))
		}
		lift()
		if kind == "rulesdir" {
			r.Count("faults", 1)
			r.Eval(fmt.Sprint(desc, mode, verdict, x.Data))
			return nil
		}
		if kind == "full" {
			x.Data = plainBody(rng, 30000)
		}
		rep, f := deliver(x)
		if f != nil {
			return f
		}
		if rep.Class() != wantClass {
			return det(nil, "retry after the fault: %s", rep)
		}
		// a stall says nothing of the file: look for it
		if verdict == "stall" && mode == "msg" {
			if _, err := os.Stat(filepath.Join(dir, sha1hex(x.Data))); err != nil {
				return det(nil, "the retried message is not there")
			}
		}
		if first != nil && mode == "msg" {
			if _, err := os.Stat(filepath.Join(dir, sha1hex(first.Data))); err != nil {
				return det(nil, "the message accepted before the fault is gone")
			}
		}
		r.Count("faults", 1)
		if kind == "inject" {
			r.Seen("faults", desc+" "+verdict)
		} else {
			r.Seen("faults", kind+" "+verdict)
		}
		r.Eval(fmt.Sprint(desc, mode, verdict, x.Data))
		return nil
	})

	calls := []string{"write", "openat", "fsync,fdatasync", "close", "link,linkat", "rename,renameat,renameat2", "unlink,unlinkat", "newfstatat,statx", "futex", "epoll_pwait", "read"}
	r.Each("crash", r.N(len(calls)*12, len(calls)*200), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		call := calls[i%len(calls)]
		when := 1 + (i/len(calls))%2
		switch call {
		case "write", "read":
			when = 1 + (i/len(calls))%10
		case "futex", "epoll_pwait":
			when = 1 + (i/len(calls))%6
		case "openat", "close":
			when = 1 + (i/len(calls))%3
		}
		mode := pick(rng, hashModes)
		os.RemoveAll(w.path("save"))
		mkdir(w.path("save"))
		mk := func() *Daemon {
			return w.mustDaemon(DOpts{Args: []string{"-d", "save", "-save-hash", mode, "-l", "mlog"}, Env: []string{"GOMAXPROCS=1"}})
		}
		d := mk()
		defer func() { d.Stop() }()
		type sent struct {
			x   *Txn
			rep Reply
		}
		var all []sent
		deliver := func(x *Txn) sent {
			c, rep := attempt(d.Addr, x)
			if c != nil {
				c.Close()
			}
			return sent{x, rep}
		}
		s := deliver(newTxn(rng, d, 2000))
		if s.rep.Class() != 2 {
			return failf(nil, "not accepted: %s", s.rep)
		}
		all = append(all, s)
		n := 1 + rng.Intn(3)
		xs := make([]*Txn, n)
		for k := range xs {
			xs[k] = newTxn(rng, d, pick2(rng, 300, 20000, 1000000))
		}
		t := d.attach("-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, when))
		out := make([]sent, n)
		var wg sync.WaitGroup
		for k := range xs {
			wg.Add(1)
			go func(k int) { defer wg.Done(); out[k] = deliver(xs[k]) }(k)
		}
		wg.Wait()
		select {
		case <-d.done:
			r.Count("killed_at_a_call", 1)
			r.Seen("kill_points", fmt.Sprintf("%s %d", call, when))
		default:
			r.Count("call_not_reached", 1)
		}
		atomic.StoreInt32(&d.stopped, 1)
		syscall.Kill(d.pid, syscall.SIGKILL)
		<-d.done
		t.cmd.Process.Kill()
		t.cmd.Wait()
		all = append(all, out...)
		det := func(f string, a ...interface{}) *Fail {
			return failf(map[string]interface{}{"call": call, "when": when, "mode": mode, "directory": listDir(w.path("save"))}, "killed at %s number %d: %s", call, when, fmt.Sprintf(f, a...))
		}
		if s := wholeFiles(w.path("save"), mode); s != "" {
			return det("%s", s)
		}
		for _, s := range all {
			if s.rep.Class() == 2 {
				if c := keptPromise(w.path("save"), mode, s.x, s.rep); c != "" {
					return det("%s", c)
				}
			}
		}
		d = mk()
		for _, s := range all {
			if s.rep.Class() == 2 && rng.Intn(2) == 0 {
				continue
			}
			s.x.Dst = d.Addr
			s2 := deliver(s.x)
			if s2.rep.Class() != 2 {
				return det("retry with a new server: %s", s2.rep)
			}
			if c := keptPromise(w.path("save"), mode, s.x, s2.rep); c != "" {
				return det("retry with a new server: %s", c)
			}
		}
		if s := wholeFiles(w.path("save"), mode); s != "" {
			return det("%s", s)
		}
		r.Eval(fmt.Sprint("crash", call, when, mode, xs[0].Data))
		return nil
	})

	r.Each("load", r.N(60, 1200), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		mode := pick(rng, hashModes)
		os.RemoveAll(w.path("save"))
		mkdir(w.path("save"))
		d := w.mustDaemon(DOpts{Args: []string{"-d", "save", "-save-hash", mode, "-l", "mlog"}})
		defer d.Stop()
		const peers = 8
		pool := make([]string, 6)
		for k := range pool {
			pool[k] = plainBody(rng, pick2(rng, 300, 30000, 800000))
		}
		var mu sync.Mutex
		type sent struct {
			x   *Txn
			rep Reply
		}
		var ok []sent
		var early *Fail
		var wg sync.WaitGroup
		for k := 0; k < peers; k++ {
			rg := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 400; n++ {
					x := newTxn(rg, d, 400)
					if rg.Intn(2) == 0 {
						x.Data = pick(rg, pool)
						x.Rip = "127.8.2.2"
					}
					c, rep := attempt(d.Addr, x)
					if c != nil {
						c.Close()
					}
					if rep.Err != nil {
						return
					}
					s := ""
					if rep.Class() != 2 {
						s = "not accepted: " + rep.String()
					} else {
						s = keptPromise(w.path("save"), mode, x, rep)
					}
					mu.Lock()
					if s != "" {
						early = failf(c.log, "%s", s)
					} else {
						ok = append(ok, sent{x, rep})
					}
					mu.Unlock()
					if s != "" {
						return
					}
				}
			}()
		}
		time.Sleep(time.Duration(5000+rng.Intn(120000)) * time.Microsecond)
		t := d.Trouble()
		atomic.StoreInt32(&d.stopped, 1)
		syscall.Kill(d.pid, syscall.SIGKILL)
		<-d.done
		wg.Wait()
		if t != "" {
			return failf(t, "the server crashed: %s", firstLine(t))
		}
		if early != nil {
			return early
		}
		if s := wholeFiles(w.path("save"), mode); s != "" {
			return failf(nil, "killed under load: %s", s)
		}
		for _, s := range ok {
			if c := keptPromise(w.path("save"), mode, s.x, s.rep); c != "" {
				return failf(nil, "killed under load: %s", c)
			}
		}
		r.Count("accepted_before_kill", len(ok))
		r.Count("kills_under_load", 1)
		r.Eval(fmt.Sprint("load", mode, pool, len(ok)))
		return nil
	})
}
