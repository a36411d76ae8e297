package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() { register("C03", "plain race yield", c03) }

type fileID struct {
	ino         uint64
	size, mtime int64
	mode        uint32
	sum         string
}

func identify(p string) (fileID, error) {
	var st syscall.Stat_t
	if err := syscall.Lstat(p, &st); err != nil {
		return fileID{}, err
	}
	id := fileID{st.Ino, st.Size, st.Mtim.Nano(), st.Mode, ""}
	switch st.Mode & syscall.S_IFMT {
	case syscall.S_IFREG:
		id.sum = sha1hex(readFile(p))
	case syscall.S_IFLNK:
		t, _ := os.Readlink(p)
		id.sum = t + "=" + sha1hex(readFile(p))
	case syscall.S_IFDIR:
		id.sum = strings.Join(listDir(p), " ")
	}
	return id, nil
}

// nameFor is the name a saved file must have.
func nameFor(mode, content, data string) string {
	switch mode {
	case "msg":
		return sha1hex(data)
	case "full":
		_, rest, _ := strings.Cut(content, "\n")
		return sha1hex(rest)
	}
	return sha1hex(content)
}

// fullFor is the part of the saved file that 'full' hashes.
func fullFor(x *Txn) string {
	s := fmt.Sprintf("remote %s to %s with helo '%s'\nfrom <%s>\n", x.Rip, x.Dst, x.Helo, x.From)
	for _, t := range x.Rcpts {
		s += fmt.Sprintf("to <%s>\n", t)
	}
	bh, _ := bodyHash(x.Data)
	return s + fmt.Sprintf("hash %s bytes %d\nbodyhash %s\nbody\n%s", sha1hex(x.Data), len(x.Data), bh, x.Data)
}

// sendTo goes through a transaction up to before the final dot.
func sendTo(src, addr string, x *Txn) *Client {
	c := mustDial(src, addr)
	if r := c.Read(); r.Code != 220 {
		panic(failf(c.log, "no greeting: %s", r))
	}
	if r := c.Cmd("EHLO " + x.Helo); r.Class() != 2 {
		panic(failf(c.log, "EHLO: %s", r))
	}
	if x.TLSLine != nil {
		if _, err := c.StartTLS(&tls.Config{InsecureSkipVerify: true, ServerName: x.Dst}); err != nil {
			panic(failf(c.log, "STARTTLS: %v", err))
		}
		if r := c.Cmd("EHLO " + x.Helo); r.Class() != 2 {
			panic(failf(c.log, "EHLO: %s", r))
		}
	}
	c.envelope(x)
	x.Src = c.Src
	return c
}

func (c *Client) envelope(x *Txn) {
	if r := c.Cmdf("MAIL FROM:<%s>", x.From); r.Class() != 2 {
		panic(failf(c.log, "MAIL: %s", r))
	}
	for _, t := range x.Rcpts {
		if r := c.Cmdf("RCPT TO:<%s>", t); r.Class() != 2 {
			panic(failf(c.log, "RCPT: %s", r))
		}
	}
	if r := c.Cmd("DATA"); r.Code != 354 {
		panic(failf(c.log, "DATA: %s", r))
	}
}

func clearDir(p string) {
	for _, n := range listDir(p) {
		os.RemoveAll(filepath.Join(p, n))
	}
}

func plainBody(rng *rand.Rand, max int) string {
	b := fmt.Sprintf("Subject: %x\n\n", rng.Int63())
	n := rng.Intn(max)
	for len(b) < n {
		b += strings.Repeat(pick(rng, []string{"some text ", "x", "abcdefghij"}), 1+rng.Intn(90)) + "\n"
	}
	return b
}

var hashModes = []string{"msg", "full", "all"}

func c03(r *Run) {
	r.Rule = "names: messages (accepted, rejected or stalled after reception, with and without rule messages, -d or rule savedir) delivered under each -save-hash mode, singly and repeated in and across sessions; name and reply ID compared with the SHA1 of what the mode covers. taken: a regular, empty, partial, read-only, linked or foreign entry already has the name: it must be identical afterwards and the message be accepted. dup: up to 24 sessions finish sending the same message at the same instant (also with system calls delayed so that all are in the middle of saving at once); one complete, never replaced file must result; distinct by content, mode and situation"
	r.Each("names", r.N(3500, 20000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		mode := pick(rng, hashModes)
		mkdir(w.path("save"))
		mkdir(w.path("save2"))
		w.write("r1", "")
		serverCert().save(w.dir, "srv")
		d := w.daemon(mode, func() DOpts {
			return DOpts{Args: []string{"-d", "save", "-l", "mlog", "-save-hash", mode, "-r", "r1", "-c", "srv.crt", "-k", "srv.key"}}
		})
		w.dns.Reset()
		e := &Env{Zone: w.dns, Rip: fmt.Sprintf("127.7.1.%d", 1+rng.Intn(9))}
		randRDNS(rng, w.dns, e.Rip, 0)
		e.setRDNS()
		rules := ""
		dir := w.path("save")
		if rng.Intn(3) == 0 {
			rules += "set-with all with savedir save2\n"
			dir = w.path("save2")
		}
		if rng.Intn(3) == 0 {
			rules += "@message set-with all with message \"custom words\\\nand more\"\n"
		}
		out := pick(rng, []string{"accept", "accept", "reject", "stall"})
		rules += "@message " + out + " all\n"
		w.write("r1", rules)
		clearDir(w.path("save"))
		clearDir(w.path("save2"))
		type saved struct {
			id fileID
			c  string
		}
		have := map[string]saved{}
		before := map[string]bool{}
		var logs []interface{}
		pool := []string{anyBody(rng), anyBody(rng), plainBody(rng, 3000)}
		for s := 0; s < 1+rng.Intn(3); s++ {
			tx := &Txn{Rip: e.Rip, Dst: d.Addr, Helo: pick(rng, []string{"h1.example", "h2.example"}), From: pick(rng, []string{"a@x.example", "b@x.example"}), Rcpts: subset(rng, []string{"c@x.example", "d@x.example"}),
				Verified: e.Verified, Nofwd: e.Nofwd, Inconsis: e.Inconsis, T0: time.Now()}
			if len(tx.Rcpts) == 0 {
				tx.Rcpts = []string{"e@x.example"}
			}
			if rng.Intn(3) == 0 {
				tx.TLSLine = anyTLS
			}
			c := sendTo(e.Rip, d.Addr, tx)
			defer c.Close()
			n := 1 + rng.Intn(4)
			for k := 0; k < n; k++ {
				if k > 0 {
					c.envelope(tx)
				}
				tx.Data = pick(rng, pool)
				rep := c.Body(tx.Data)
				tx.T1 = time.Now()
				if got := replyClass(phMessage, rep); got != out {
					return failf(c.log, "expected %s, got %s", out, rep)
				}
				id := replyID(rep)
				if (id == "") != (out == "stall") {
					return failf(c.log, "wrong ID in reply to a message (%s): %s", out, rep)
				}
				fresh := ""
				for _, n := range listDir(dir) {
					p := filepath.Join(dir, n)
					x, err := identify(p)
					if err != nil {
						return failf(c.log, "%v", err)
					}
					if h, was := have[n]; was {
						if h.id != x {
							return failf([]interface{}{c.log, h, x}, "the saved file %s changed", n)
						}
						continue
					}
					if fresh != "" {
						return failf(c.log, "one message made several files")
					}
					fresh = n
					have[n] = saved{x, readFile(p)}
					if want := nameFor(mode, have[n].c, tx.Data); want != n {
						return failf(map[string]interface{}{"conversation": c.log, "file": tailS(have[n].c, 2000)}, "the saved file should be named %s (-save-hash %s), it is %s", want, mode, n)
					}
					if _, s := tx.checkFile(have[n].c); s != "" {
						return failf(c.log, "saved file: %s", s)
					}
				}
				if len(have) == 0 {
					return failf(c.log, "nothing was saved")
				}
				if id != "" {
					h, ok := have[id]
					if !ok {
						return failf(c.log, "the reply names %s, which is not there", id)
					}
					if fresh != "" && fresh != id {
						return failf(c.log, "the reply names %s, saved was %s", id, fresh)
					}
					if nameFor(mode, h.c, tx.Data) != id {
						return failf(c.log, "the reply names another message's file %s", id)
					}
				}
				same := tx.Data
				if mode == "full" {
					same = fullFor(tx)
					if c.TLS != nil {
						same += fmt.Sprint(c.TLS.CipherSuite, c.TLS.Version)
					}
				}
				if mode != "all" && before[same] && fresh != "" {
					return failf(c.log, "the same message again was saved again as %s (-save-hash %s)", fresh, mode)
				}
				before[same] = true
				if fresh == "" {
					r.Count("repeats", 1)
				} else {
					r.Count("saved", 1)
				}
				r.Eval(mode + out + tx.Data + fmt.Sprint(tx.Rcpts, tx.From, fresh == ""))
				if k < n-1 && out != "accept" {
					c.Cmd("RSET")
				}
			}
			if err := c.Quit(); err != nil {
				return failf(c.log, "QUIT: %v", err)
			}
			logs = append(logs, c.log)
		}
		if i < 2 {
			r.Sample(map[string]interface{}{"mode": mode, "rules": rules, "conversations": logs})
		}
		return nil
	})

	r.Each("taken", r.N(2000, 10000), 8, func(w *W, i int, rng *rand.Rand) *Fail {
		mode := pick(rng, []string{"msg", "full"})
		mkdir(w.path("save"))
		mkdir(w.path("out"))
		clearDir(w.path("save"))
		clearDir(w.path("out"))
		d := w.daemon(mode, func() DOpts {
			return DOpts{Args: []string{"-d", "save", "-l", "mlog", "-save-hash", mode}}
		})
		w.dns.Reset()
		src := fmt.Sprintf("127.7.2.%d", 1+rng.Intn(9))
		tx := &Txn{Rip: src, Dst: d.Addr, Helo: "h.example", From: "a@x.example", Rcpts: []string{"b@x.example"}, Data: plainBody(rng, 4000)}
		name := sha1hex(tx.Data)
		if mode == "full" {
			name = sha1hex(fullFor(tx))
		}
		tgt := w.path("save/" + name)
		kind := pick(rng, []string{"other", "empty", "longer", "readonly", "symlink", "dangling", "dir", "hardlink", "same"})
		must := func(err error) {
			if err != nil {
				infra("%v", err)
			}
		}
		watch := []string{tgt}
		switch kind {
		case "other":
			must(os.WriteFile(tgt, []byte("someone else's words\n"), 0666))
		case "empty":
			must(os.WriteFile(tgt, nil, 0666))
		case "longer":
			must(os.WriteFile(tgt, []byte(strings.Repeat("0123456789", 2000)), 0666))
		case "readonly":
			must(os.WriteFile(tgt, []byte("read only\n"), 0444))
		case "symlink":
			must(os.WriteFile(w.path("out/t"), []byte("target\n"), 0666))
			must(os.Symlink("../out/t", tgt))
			watch = append(watch, w.path("out/t"))
		case "dangling":
			must(os.Symlink("../out/t2", tgt))
		case "dir":
			must(os.Mkdir(tgt, 0777))
			must(os.WriteFile(tgt+"/x", []byte("x"), 0666))
		case "hardlink":
			must(os.WriteFile(w.path("out/t"), []byte("linked\n"), 0666))
			must(os.Link(w.path("out/t"), tgt))
			watch = append(watch, w.path("out/t"))
		case "same":
			must(os.WriteFile(tgt, []byte("id 1/1 1.2.3.4:5 2001-02-03 04:05:06\n"+fullFor(tx)), 0666))
		}
		var before []fileID
		for _, p := range watch {
			x, err := identify(p)
			must(err)
			before = append(before, x)
		}
		others := listDir(w.path("save"))
		for k := 0; k < 1+rng.Intn(2); k++ {
			c := sendTo(src, d.Addr, tx)
			defer c.Close()
			rep := c.Body(tx.Data)
			if rep.Class() != 2 || replyID(rep) != name {
				return failf(c.log, "a message whose name %s is taken (%s) got %s", name, kind, rep)
			}
			if err := c.Quit(); err != nil {
				return failf(c.log, "QUIT: %v", err)
			}
			for j, p := range watch {
				x, err := identify(p)
				if err != nil || x != before[j] {
					return failf(map[string]interface{}{"before": fmt.Sprint(before[j]), "after": fmt.Sprint(x, err), "conversation": c.log}, "the %s file that had the name was changed", kind)
				}
			}
			if kind == "dangling" {
				if _, err := os.Lstat(w.path("out/t2")); err == nil {
					return failf(c.log, "the message was written through a dangling link")
				}
			}
			if now := listDir(w.path("save")); strings.Join(now, " ") != strings.Join(others, " ") {
				return failf(c.log, "the save directory had %q, has %q", others, now)
			}
			r.Count("taken_names", 1)
		}
		r.Seen("taken_by", kind+" "+mode)
		r.Eval(kind + mode + tx.Data)
		return nil
	})

	r.Each("dup", r.N(500, 3000), 4, func(w *W, i int, rng *rand.Rand) *Fail {
		mode := pick(rng, []string{"msg", "full"})
		mkdir(w.path("save"))
		clearDir(w.path("save"))
		how := pick(rng, []string{"plain", "yield", "yield", "race", "delay", "delay2"})
		kind := "sinksmtp"
		var wrap []string
		switch how {
		case "race":
			kind = "sinksmtp-race"
		case "yield":
			kind = "sinksmtp-yield"
		case "delay":
			wrap = []string{"strace", "-f", "-q", "-o", "/dev/null", "-e", "trace=fsync,fdatasync", "-e", "inject=fsync,fdatasync:delay_enter=30000"}
		case "delay2":
			wrap = []string{"strace", "-f", "-q", "-o", "/dev/null", "-e", "trace=link,linkat,rename,renameat,renameat2,openat", "-e", "inject=link,linkat,rename,renameat,renameat2,openat:delay_enter=8000"}
		}
		d := w.daemon(mode+how, func() DOpts {
			return DOpts{Kind: kind, Wrap: wrap, Args: []string{"-d", "save", "-l", "mlog", "-save-hash", mode}}
		})
		w.dns.Reset()
		n := 2 + rng.Intn(23)
		src := fmt.Sprintf("127.7.3.%d", 1+rng.Intn(9))
		base := Txn{Rip: src, Dst: d.Addr, Helo: "h.example", From: "a@x.example", Rcpts: []string{"b@x.example"}, Data: plainBody(rng, pick2(rng, 500, 5000, 60000, 400000))}
		name := sha1hex(base.Data)
		if mode == "full" {
			name = sha1hex(fullFor(&base))
		}
		tgt := w.path("save/" + name)
		cs := make([]*Client, n)
		txs := make([]*Txn, n)
		fails := make([]*Fail, n)
		ids := make([]fileID, n)
		var ready, wg sync.WaitGroup
		start := make(chan struct{})
		cut := rng.Intn(2) == 0
		base.T0 = time.Now()
		for k := 0; k < n; k++ {
			ready.Add(1)
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				once := sync.Once{}
				defer once.Do(ready.Done)
				defer func() {
					if e := recover(); e != nil {
						f, ok := e.(*Fail)
						if !ok {
							panic(e)
						}
						fails[k] = f
					}
				}()
				tx := base
				txs[k] = &tx
				c := sendTo(src, d.Addr, &tx)
				cs[k] = c
				defer c.Close()
				body := dotStuff(tx.Data) + ".\r\n"
				if cut {
					c.Send(body[:len(body)-3])
					body = body[len(body)-3:]
				}
				once.Do(ready.Done)
				<-start
				c.Send(body)
				rep := c.Read()
				if rep.Class() != 2 || replyID(rep) != name {
					fails[k] = failf(c.log, "one of %d deliveries of the same message should be accepted with ID %s, it got %s", n, name, rep)
					return
				}
				x, err := identify(tgt)
				if err != nil {
					fails[k] = failf(c.log, "accepted as %s, but: %v", name, err)
					return
				}
				ids[k] = x
				if err := c.Quit(); err != nil {
					fails[k] = failf(c.log, "QUIT: %v", err)
				}
			}(k)
		}
		ready.Wait()
		close(start)
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		for k := range ids {
			if ids[k] != ids[0] {
				return failf(fmt.Sprintf("%+v", ids), "the file %s is not the same after each acceptance: it was replaced, changed or not complete (%d sessions, %s)", name, n, how)
			}
		}
		last, err := identify(tgt)
		if err != nil || last != ids[0] {
			return failf(fmt.Sprintf("%+v %+v", ids[0], last), "the saved file changed after it was accepted (%d sessions, %s)", n, how)
		}
		if l := listDir(w.path("save")); len(l) != 1 {
			return failf(l, "%d files result from %d deliveries of one message", len(l), n)
		}
		content := readFile(tgt)
		ok := false
		why := ""
		for _, tx := range txs {
			tx.T1 = time.Now()
			if _, s := tx.checkFile(content); s == "" {
				ok = true
			} else if !strings.Contains(s, "id line says") {
				why = s
			}
		}
		if !ok {
			return failf(tailS(content, 2000), "the file left by %d deliveries is none of them: %s", n, why)
		}
		r.Count("duplicate_deliveries", n)
		r.Seen("dup_situations", how+" "+mode)
		r.Eval(fmt.Sprint(how, mode, n, cut) + base.Data)
		return nil
	})
}
