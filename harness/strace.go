package main

// strace as fault injector and as witness of system call order.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Tracer is a strace attached to a running daemon.
type Tracer struct {
	cmd *exec.Cmd
}

// attach starts strace on a running daemon and waits until it has it.
func (d *Daemon) attach(args ...string) *Tracer {
	a := append([]string{"-f", "-q", "-o", "/dev/null", "-p", strconv.Itoa(d.pid)}, args...)
	t := &Tracer{cmd: exec.Command("strace", a...)}
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var eb syncBuf
	t.cmd.Stderr = &eb
	if err := t.cmd.Start(); err != nil {
		infra("strace: %v", err)
	}
	ok := waitFor(20*time.Second, func() bool {
		ths, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/status", d.pid))
		if len(ths) == 0 {
			return true
		}
		for _, p := range ths {
			b, err := os.ReadFile(p)
			if err == nil && strings.Contains(string(b), "TracerPid:\t0\n") {
				return false
			}
		}
		return true
	})
	if !ok {
		infra("strace does not attach: %s", eb.String())
	}
	return t
}

// detach lets go of the daemon.
func (t *Tracer) detach() {
	t.cmd.Process.Signal(syscall.SIGINT)
	done := make(chan struct{})
	go func() { t.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.cmd.Process.Kill()
		<-done
	}
}

// setFsize sets the daemon's file size limit; -1 is none.
func (d *Daemon) setFsize(n int64) {
	lim := [2]uint64{uint64(n), ^uint64(0)}
	if n < 0 {
		lim[0] = ^uint64(0)
	}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(d.pid), 1 /* RLIMIT_FSIZE */, uintptr(unsafe.Pointer(&lim)), 0, 0, 0); e != 0 {
		infra("prlimit: %v", e)
	}
}

var scLine = regexp.MustCompile(`^(\d+)\s+(.*)$`)
var scCall = regexp.MustCompile(`^([a-z0-9_]+)\((.*)$`)
var scResumed = regexp.MustCompile(`^<\.\.\. ([a-z0-9_]+) resumed>(.*)$`)
var scFD = regexp.MustCompile(`^(\d+)<([^>]*)>`)
var scRet = regexp.MustCompile(`\)\s+= (-?\d+)`)
var scNames = regexp.MustCompile(`"([^"]*)"`)

// sysOrder follows a strace log and complains if a reply naming a message is
// sent before that message's file is on disk under its name. It returns the
// number of such replies and of flushes seen.
func sysOrder(log, savedir string) (replies, syncs int, complaint string) {
	type file struct {
		wrote, dirty, synced, osync bool
	}
	files := map[string]*file{} // by base name
	pending := map[string]string{}
	base := func(p string) string { return filepath.Base(p) }
	get := func(n string) *file {
		if files[n] == nil {
			files[n] = &file{}
		}
		return files[n]
	}
	finish := func(name, rest string) {
		m := scRet.FindStringSubmatch(rest)
		if m == nil {
			return
		}
		ret, _ := strconv.Atoi(m[1])
		fd := scFD.FindStringSubmatch(rest)
		infile := fd != nil && filepath.Dir(fd[2]) == savedir
		switch name {
		case "openat", "open", "creat":
			if i := strings.LastIndex(rest, "= "+m[1]+"<"); ret >= 0 && i >= 0 {
				p := strings.TrimSuffix(rest[i+len("= "+m[1]+"<"):], ">")
				if filepath.Dir(p) == savedir && (strings.Contains(rest, "O_SYNC") || strings.Contains(rest, "O_DSYNC")) {
					get(base(p)).osync = true
				}
			}
		case "write", "pwrite64", "writev", "pwritev", "pwritev2", "ftruncate", "copy_file_range", "sendfile":
			if infile && ret >= 0 {
				f := get(base(fd[2]))
				f.wrote = true
				if f.osync {
					f.synced = true
				} else {
					f.dirty, f.synced = true, false
				}
			}
		case "fsync", "fdatasync":
			if infile && ret == 0 {
				f := get(base(fd[2]))
				f.dirty, f.synced = false, true
				syncs++
			}
		case "sync", "syncfs":
			for _, f := range files {
				f.dirty, f.synced = false, true
			}
			syncs++
		case "link", "linkat", "rename", "renameat", "renameat2":
			ns := scNames.FindAllStringSubmatch(rest, -1)
			if ret == 0 && len(ns) >= 2 {
				files[base(ns[len(ns)-1][1])] = get(base(ns[0][1]))
			}
		}
	}
	for _, l := range lines(log) {
		m := scLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		pid, rest := m[1], m[2]
		if r := scResumed.FindStringSubmatch(rest); r != nil {
			finish(r[1], pending[pid]+r[2])
			continue
		}
		c := scCall.FindStringSubmatch(rest)
		if c == nil {
			continue
		}
		// a reply counts from when it is begun
		if c[1] == "write" || c[1] == "sendto" || c[1] == "writev" {
			if fd := scFD.FindStringSubmatch(c[2]); fd != nil && (strings.HasPrefix(fd[2], "socket:") || strings.HasPrefix(fd[2], "TCP:")) {
				if i := strings.Index(c[2], ", \"2"); i >= 0 {
					if id := hex40.FindString(c[2]); id != "" {
						replies++
						f := files[id]
						switch {
						case f == nil || !f.wrote:
							complaint = fmt.Sprintf("the reply naming %s was sent before its file was seen to be written", id)
						case f.dirty || !f.synced:
							complaint = fmt.Sprintf("the reply naming %s was sent before its file was flushed to disk", id)
						}
						if complaint != "" {
							return
						}
					}
				}
			}
		}
		if strings.HasSuffix(rest, "<unfinished ...>") {
			pending[pid] = strings.TrimSuffix(c[2], "<unfinished ...>")
			continue
		}
		finish(c[1], c[2])
	}
	return
}

const orderCalls = "trace=openat,open,creat,write,pwrite64,writev,pwritev,pwritev2,sendto,fsync,fdatasync,syncfs,sync,link,linkat,rename,renameat,renameat2,ftruncate,copy_file_range,sendfile"
