package main

// Running the daemon under observation.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() > 64<<20 {
		return len(p), nil
	}
	return s.b.Write(p)
}
func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// DOpts says how to start a daemon.
type DOpts struct {
	Kind   string   // binary name; default sinksmtp
	Args   []string // without listening addresses
	Listen []string // default: one fresh address
	Dir    string
	DNS    *DNS
	Env    []string
	Pprof  bool
	Wrap   []string // command to run it under
	NoWait bool     // do not wait for it to listen
	Port   int
	UID    uint32 // run as this user
}

// Daemon is a running sinksmtp.
type Daemon struct {
	cmd     *exec.Cmd
	Addr    string // first address
	IP      string
	Addrs   []string
	Pprof   string
	Args    []string
	out, er syncBuf
	done    chan struct{}
	state   *os.ProcessState
	stopped int32
	Ctl     string
	Trace   string
	pid     int
	base    [2]int
}

var ipseq int64

// ipnet is the second byte of our server addresses. A listener that is
// kept open claims it, so that runs at the same time do not meet.
var ipnet = func() int {
	for i := 0; i < 100; i++ {
		n := 120 + (os.Getpid()+i)%100
		if l, err := net.Listen("tcp", fmt.Sprintf("127.%d.255.254:999", n)); err == nil {
			claim = l
			return n
		}
	}
	return 120 + os.Getpid()%100
}()
var claim net.Listener

func freshIP() string {
	n := atomic.AddInt64(&ipseq, 1)
	return fmt.Sprintf("127.%d.%d.%d", ipnet, 1+(n/250)%250, 1+n%250)
}

func tailS(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// startDaemon starts one and waits until it listens. An early exit is
// reported as an error.
func (r *Run) startDaemon(o DOpts) (*Daemon, error) {
	var last error
	for try := 0; try < 5; try++ {
		d, err := r.startOnce(o)
		if err == nil {
			return d, nil
		}
		last = err
		if !strings.Contains(err.Error(), "address already in use") {
			return nil, err
		}
		time.Sleep(time.Duration(try+1) * 200 * time.Millisecond)
	}
	return nil, last
}

func (r *Run) startOnce(o DOpts) (*Daemon, error) {
	if o.Kind == "" {
		o.Kind = "sinksmtp"
	}
	d := &Daemon{done: make(chan struct{})}
	if o.Port == 0 {
		o.Port = 2525
	}
	if o.Listen == nil {
		o.Listen = []string{fmt.Sprintf("%s:%d", freshIP(), o.Port)}
	}
	d.Addrs = o.Listen
	if len(o.Listen) > 0 {
		d.Addr = o.Listen[0]
		d.IP, _, _ = net.SplitHostPort(d.Addr)
	}
	args := append([]string{}, o.Args...)
	if o.Pprof {
		d.Pprof = freshIP() + ":6060"
		args = append([]string{"-pprof", d.Pprof}, args...)
	}
	args = append(args, o.Listen...)
	d.Args = args
	bin := filepath.Join(r.Bin, o.Kind)
	if len(o.Wrap) > 0 {
		d.cmd = exec.Command(o.Wrap[0], append(append(append([]string{}, o.Wrap[1:]...), bin), args...)...)
	} else {
		d.cmd = exec.Command(bin, args...)
	}
	d.cmd.Dir = o.Dir
	env := []string{"PATH=/usr/bin:/bin:/usr/sbin:/sbin", "HOME=/", "TZ=UTC", "GOTRACEBACK=single",
		"GORACE=halt_on_error=0 history_size=3 exitcode=66", "VERIF_DELAY_DIV=1000"}
	dns := o.DNS
	if dns != nil {
		env = append(env, "VERIF_DNS="+dns.Addr)
	}
	d.Trace = filepath.Join(o.Dir, fmt.Sprintf("trace.%d", atomic.AddInt64(&ipseq, 1)))
	env = append(env, "VERIF_TRACE="+d.Trace)
	if o.Kind == "sinksmtp-clock" {
		d.Ctl = filepath.Join(o.Dir, fmt.Sprintf("ctl.%d", atomic.AddInt64(&ipseq, 1)))
		env = append(env, "VERIF_CTL="+d.Ctl)
	}
	d.cmd.Env = append(env, o.Env...)
	d.cmd.Stdout = &d.out
	d.cmd.Stderr = &d.er
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if o.UID != 0 {
		d.cmd.SysProcAttr.Credential = &syscall.Credential{Uid: o.UID, Gid: o.UID}
	}
	if err := d.cmd.Start(); err != nil {
		infra("starting %s: %v", bin, err)
	}
	d.pid = d.cmd.Process.Pid
	go func() {
		d.cmd.Wait()
		d.state = d.cmd.ProcessState
		close(d.done)
	}()
	if o.NoWait {
		return d, nil
	}
	for _, a := range o.Listen {
		deadline := time.Now().Add(60 * time.Second)
		for !listening(a) {
			select {
			case <-d.done:
				return nil, fmt.Errorf("daemon exited: %v: %s%s", d.state, d.out.String(), d.er.String())
			default:
			}
			if time.Now().After(deadline) {
				d.Stop()
				return nil, fmt.Errorf("daemon does not listen on %s", a)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	return d, nil
}

// mustDaemon treats a failed start as a failing case.
func (w *W) mustDaemon(o DOpts) *Daemon {
	if o.Dir == "" {
		o.Dir = w.dir
	}
	if o.DNS == nil {
		o.DNS = w.dns
	}
	d, err := w.r.startDaemon(o)
	if err != nil {
		panic(failf(map[string]interface{}{"args": o.Args, "error": err.Error()}, "the server does not start: %v", tailS(err.Error(), 300)))
	}
	w.r.Count("daemons", 1)
	return d
}

func hexAddr(a string) string {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return ""
	}
	var port int
	fmt.Sscanf(p, "%d", &port)
	ip := net.ParseIP(h)
	if ip4 := ip.To4(); ip4 != nil {
		return fmt.Sprintf("%02X%02X%02X%02X:%04X", ip4[3], ip4[2], ip4[1], ip4[0], port)
	}
	s := ""
	for i := 0; i < 16; i += 4 {
		s += fmt.Sprintf("%02X%02X%02X%02X", ip[i+3], ip[i+2], ip[i+1], ip[i])
	}
	return fmt.Sprintf("%s:%04X", s, port)
}

// listening looks at /proc so that no connection is made to find out.
func listening(a string) bool {
	if strings.HasPrefix(a, "0.0.0.0:") && listening("[::]"+strings.TrimPrefix(a, "0.0.0.0")) {
		return true // Go's way to listen on everything
	}
	f := "/proc/net/tcp"
	if strings.HasPrefix(a, "[") {
		f = "/proc/net/tcp6"
	}
	b, err := os.ReadFile(f)
	if err != nil {
		infra("%v", err)
	}
	return strings.Contains(string(b), hexAddr(a)+" 00000000:0000 0A") ||
		strings.Contains(string(b), hexAddr(a)+" 00000000000000000000000000000000:0000 0A")
}

// Exited is true if the daemon ended other than by Stop.
func (d *Daemon) Exited() bool {
	select {
	case <-d.done:
		return atomic.LoadInt32(&d.stopped) == 0
	default:
		return false
	}
}

// Stderr is what the daemon wrote to standard error so far.
func (d *Daemon) Stderr() string { return d.er.String() }

// Stdout is its standard output.
func (d *Daemon) Stdout() string { return d.out.String() }

// Stop kills it.
func (d *Daemon) Stop() {
	atomic.StoreInt32(&d.stopped, 1)
	syscall.Kill(-d.pid, syscall.SIGKILL)
	d.cmd.Process.Kill()
	<-d.done
}

// Trouble returns a complaint if the daemon crashed or the race detector
// spoke.
func (d *Daemon) Trouble() string {
	s := d.Stderr()
	for _, m := range []string{"WARNING: DATA RACE", "panic: ", "fatal error: ", "goroutine 1 ["} {
		if i := strings.Index(s, m); i >= 0 {
			e := i + 3500
			if e > len(s) {
				e = len(s)
			}
			return s[i:e]
		}
	}
	if d.Exited() {
		return "exited: " + d.state.String() + " " + tailS(s, 500)
	}
	return ""
}

var hc = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

func (d *Daemon) httpGet(path string) (string, error) {
	resp, err := hc.Get("http://" + d.Pprof + path)
	if err != nil {
		return "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return string(b), err
}

// Vars returns the sinksmtp part of /debug/vars.
func (d *Daemon) Vars() (map[string]interface{}, error) {
	s, err := d.httpGet("/debug/vars")
	if err != nil {
		return nil, err
	}
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		return nil, fmt.Errorf("/debug/vars is not JSON: %v: %s", err, tailS(s, 300))
	}
	v, ok := m["sinksmtp"].(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("no sinksmtp in /debug/vars")
	}
	return v, nil
}

// FDs lists the daemon's open descriptors.
func (d *Daemon) FDs() []string {
	var res []string
	dir := fmt.Sprintf("/proc/%d/fd", d.pid)
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		l, err := os.Readlink(filepath.Join(dir, e.Name()))
		if err == nil {
			res = append(res, e.Name()+" "+l)
		}
	}
	return res
}

// Advance moves the virtual clock.
func (d *Daemon) Advance(sec int64) {
	nc, err := net.Dial("unix", d.Ctl)
	if err != nil {
		infra("clock: %v", err)
	}
	defer nc.Close()
	fmt.Fprintf(nc, "%d\n", sec)
	nc.SetReadDeadline(time.Now().Add(60 * time.Second))
	b := make([]byte, 8)
	if n, err := nc.Read(b); err != nil || !strings.HasPrefix(string(b[:n]), "ok") {
		infra("clock: %v", err)
	}
}

// ConnTrace is one connection as configured by the daemon.
type ConnTrace struct {
	Remote, Local, Name string
	Delay               int64
	TLS                 bool
	ClientAuth          int
	NCerts              int
}

// TraceOf finds the trace entry of a client address.
func (d *Daemon) TraceOf(remote string) *ConnTrace {
	b, _ := os.ReadFile(d.Trace)
	var res *ConnTrace
	for _, l := range strings.Split(string(b), "\n") {
		var t ConnTrace
		if l != "" && json.Unmarshal([]byte(l), &t) == nil && t.Remote == remote {
			tt := t
			res = &tt
		}
	}
	return res
}

// waitFor polls until cond holds.
func waitFor(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(3 * time.Millisecond)
	}
}
