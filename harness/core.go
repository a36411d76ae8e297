package main

// Bookkeeping of a check: cases, counters, evidence, violations.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Run is one run of one check.
type Run struct {
	ID, Tier        string
	Seed            int64
	Bin, Work, Evid string
	Verif           string
	Level           string
	Rule            string
	Assumptions     []string
	OnlyCase        int // -1: all

	start    time.Time
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	sets     map[string]map[string]int64
	samples  []interface{}
	viol     []string
	nknown   int
	stop     int32
	wseq     int64
	unsteady int64
	known    []knownFinding
	exhaust  bool
}

type knownFinding struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	seen     int64
}

// Fail is what a case function returns when an oracle objects.
type Fail struct {
	What   string      `json:"what"`
	Detail interface{} `json:"detail,omitempty"`
	// Key identifies the failing input for the known findings file.
	Key string `json:"key,omitempty"`
	// Sure failures (a crash, a race report) need not happen twice.
	Sure bool `json:"-"`
}

func failf(detail interface{}, format string, a ...interface{}) *Fail {
	return &Fail{What: fmt.Sprintf(format, a...), Detail: detail}
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a case count by tier.
func (r *Run) N(quick, thorough int) int {
	n := quick
	if r.Thorough() {
		n = thorough
	}
	// a development aid: smaller runs
	if d, _ := strconv.Atoi(os.Getenv("VERIF_SHRINK")); d > 1 {
		n = (n + d - 1) / d
	}
	return n
}

// Eval counts one evaluation; key says what is distinct about it ("" is a
// trivial case).
func (r *Run) Eval(key string) {
	r.mu.Lock()
	r.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Count adds to a counter of observed events.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

// Seen records that a value of some kind was observed.
func (r *Run) Seen(kind, val string) {
	r.mu.Lock()
	m := r.sets[kind]
	if m == nil {
		m = make(map[string]int64)
		r.sets[kind] = m
	}
	if len(m) < 4000 || m[val] > 0 {
		m[val]++
	}
	r.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (r *Run) Sample(v interface{}) {
	r.mu.Lock()
	if len(r.samples) < 4 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Stopped is true when enough violations were found.
func (r *Run) Stopped() bool { return atomic.LoadInt32(&r.stop) != 0 }

// Violate records a violation, or a known finding.
func (r *Run) Violate(idx int, f *Fail) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if f.Key != "" {
		for i := range r.known {
			if r.known[i].Status == "known" && r.known[i].Property == r.ID && r.known[i].Key == f.Key {
				r.known[i].seen++
				return
			}
		}
	}
	if len(r.viol) >= 5 {
		return
	}
	n := len(r.viol) + 1
	path := filepath.Join(r.Evid, fmt.Sprintf("replay-%s-%d.json", r.ID, n))
	b, err := json.MarshalIndent(map[string]interface{}{
		"property": r.ID, "seed": r.Seed, "tier": r.Tier, "case": idx,
		"what": f.What, "detail": f.Detail,
		"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s VERIF_CASE=%d bash check.sh %s", r.Seed, r.Tier, idx, r.ID),
	}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%v\n%+v\n", f.What, f.Detail))
	}
	os.WriteFile(path, append(b, '\n'), 0666)
	r.viol = append(r.viol, f.What)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
	fmt.Printf("  case %d: %s\n", idx, f.What)
	if len(r.viol) >= 3 || time.Since(r.start) > 100*time.Second {
		atomic.StoreInt32(&r.stop, 1)
	}
}

func infra(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK ERROR: "+format+"\n", a...)
	debug.PrintStack()
	os.Exit(2)
}

// Rng is the random source of a case.
func (r *Run) Rng(label string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", r.ID, label, r.Seed, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// W is a worker: it owns a directory, a DNS zone and (usually) a daemon.
type W struct {
	r    *Run
	id   int64
	dir  string
	dns  *DNS
	ds   map[string]*Daemon
	n    int
	hist []int // cases run on this worker
}

// daemon returns the worker's daemon of that name, starting it if need be.
func (w *W) daemon(key string, mk func() DOpts) *Daemon {
	if d := w.ds[key]; d != nil {
		return d
	}
	d := w.mustDaemon(mk())
	w.ds[key] = d
	return d
}

// stopDaemon stops and forgets one.
func (w *W) stopDaemon(key string) {
	if d := w.ds[key]; d != nil {
		d.Stop()
		delete(w.ds, key)
	}
}

// trouble looks for crashed daemons.
func (w *W) trouble() *Fail {
	for k, d := range w.ds {
		if t := d.Trouble(); t != "" {
			f := failf(map[string]interface{}{"daemon": k, "args": d.Args, "stderr": t}, "the server crashed or raced: %s", firstLine(t))
			f.Sure = true
			return f
		}
	}
	return nil
}

// silent is true if the server says nothing to a new client for a long time.
func (d *Daemon) silent() bool {
	if d.Addr == "" {
		return false
	}
	nc, err := net.DialTimeout("tcp", d.Addr, 20*time.Second)
	if err != nil {
		ne, ok := err.(net.Error)
		return ok && ne.Timeout()
	}
	defer nc.Close()
	nc.SetReadDeadline(time.Now().Add(20 * time.Second))
	_, err = nc.Read(make([]byte, 1))
	ne, ok := err.(net.Error)
	return ok && ne.Timeout()
}

// hung looks for a server that serves nobody any more, while a new one does.
func (w *W) hung(f *Fail) *Fail {
	b, _ := json.Marshal(f)
	if !strings.Contains(string(b), "i/o timeout") && !strings.Contains(string(b), "does not close") {
		return nil
	}
	for k, d := range w.ds {
		if !d.silent() {
			continue
		}
		kind := filepath.Base(d.cmd.Path)
		if !strings.HasPrefix(kind, "sinksmtp") {
			kind = "sinksmtp"
		}
		ctl, err := w.r.startDaemon(DOpts{Dir: w.dir, DNS: w.dns, Args: []string{"-force-receive"}, Kind: kind})
		if err != nil {
			return nil
		}
		t0 := time.Now()
		bad := ctl.silent() || time.Since(t0) > 5*time.Second
		ctl.Stop()
		if bad || !d.silent() {
			return nil
		}
		// have it say what it is doing
		syscall.Kill(d.pid, syscall.SIGQUIT)
		select {
		case <-d.done:
		case <-time.After(5 * time.Second):
		}
		h := failf(map[string]interface{}{"daemon": k, "args": d.Args, "case": f, "goroutines": tailS(d.Stderr(), 20000)}, "the server does not serve anybody any more: %s", f.What)
		h.Sure = true
		return h
	}
	return nil
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}

func (r *Run) newW() *W {
	id := atomic.AddInt64(&r.wseq, 1)
	w := &W{r: r, id: id}
	w.dir = filepath.Join(r.Work, fmt.Sprintf("w%d", id))
	if err := os.MkdirAll(w.dir, 0777); err != nil {
		infra("mkdir: %v", err)
	}
	w.dns = newDNS()
	w.ds = make(map[string]*Daemon)
	return w
}

func (w *W) path(n string) string { return filepath.Join(w.dir, n) }

// write replaces a file atomically.
func (w *W) write(n, s string) {
	p := n
	if !strings.HasPrefix(n, "/") {
		p = w.path(n)
	}
	if err := os.WriteFile(p+".tmp~", []byte(s), 0666); err != nil {
		infra("write: %v", err)
	}
	if err := os.Rename(p+".tmp~", p); err != nil {
		infra("rename: %v", err)
	}
}

func (w *W) close() {
	for _, d := range w.ds {
		d.Stop()
	}
	w.ds = nil
	w.dns.Close()
	os.RemoveAll(w.dir)
}

// Each runs cases 0..n-1 on nw workers. A failing case is run again on fresh
// workers, alone and after the cases that its worker ran before, and reported
// if it fails again: cases are deterministic functions of the seed, so what
// does not repeat may be a hiccup of the sandbox. Crashes and race reports
// are never that, and three such cases without a timeout in them are not
// either.
func (r *Run) Each(label string, n, nw int, fn func(w *W, i int, rng *rand.Rand) *Fail) {
	t0 := time.Now()
	defer func() {
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Printf("%s: %.1fs\n", label, time.Since(t0).Seconds())
		}
	}()
	var next int64 = -1
	var wg sync.WaitGroup
	if n < nw {
		nw = n
	}
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := r.newW()
			defer func() { w.close() }()
			for !r.Stopped() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if r.OnlyCase >= 0 && i != r.OnlyCase {
					continue
				}
				t1 := time.Now()
				f := r.guard(w, i, r.Rng(label, i), fn)
				if os.Getenv("VERIF_TIMES") != "" && time.Since(t1) > 5*time.Second {
					fmt.Printf("%s/%d took %.1fs\n", label, i, time.Since(t1).Seconds())
				}
				w.hist = append(w.hist, i)
				if f == nil {
					if len(w.hist) >= 200 {
						w.close()
						w = r.newW()
					}
					continue
				}
				hist := w.hist
				var f2 *Fail
				if f.Sure {
					f2 = f
				}
				for t := 0; t < 4 && f2 == nil; t++ {
					w.close()
					w = r.newW()
					if t == 1 && len(hist) > 1 {
						for _, h := range hist[:len(hist)-1] {
							if f2 = r.guard(w, h, r.Rng(label, h), fn); f2 != nil {
								break
							}
						}
					}
					if f2 == nil {
						f2 = r.guard(w, i, r.Rng(label, i), fn)
					}
				}
				w.close()
				w = r.newW()
				if f2 != nil {
					r.Violate(i, f2)
					continue
				}
				fmt.Printf("note: case %s/%d failed once and not again: %s\n", label, i, f.What)
				b, _ := json.Marshal(f)
				if os.Getenv("VERIF_DEBUG") != "" {
					os.WriteFile(fmt.Sprintf("%s.%s-%d", os.Getenv("VERIF_DEBUG"), r.ID, i), b, 0666)
				}
				timeout := strings.Contains(string(b), "i/o timeout") || strings.Contains(string(b), "does not close")
				r.Count("not_reproduced", 1)
				if !timeout && atomic.AddInt64(&r.unsteady, 1) == 3 {
					f.What = "(intermittent) " + f.What
					r.Violate(i, f)
				}
			}
		}()
	}
	wg.Wait()
}

func (r *Run) guard(w *W, i int, rng *rand.Rand, fn func(w *W, i int, rng *rand.Rand) *Fail) (f *Fail) {
	defer func() {
		if e := recover(); e != nil {
			ff, ok := e.(*Fail)
			if !ok {
				infra("case %d: %v\n%s", i, e, debug.Stack())
			}
			f = ff
		}
		// a crash explains whatever else went wrong
		if t := w.trouble(); t != nil {
			if f != nil {
				t.Detail = map[string]interface{}{"crash": t.Detail, "case": f}
			}
			f = t
		} else if f != nil && !f.Sure {
			if h := w.hung(f); h != nil {
				f = h
			}
		}
	}()
	return fn(w, i, rng)
}

func (r *Run) finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Rule,
		"samples":             r.samples,
		"observed":            r.counters,
	}
	if r.exhaust {
		cov["exhaustive"] = true
	}
	for k, m := range r.sets {
		cov["distinct_"+k] = len(m)
		if len(m) <= 40 {
			cov["seen_"+k] = m
		}
	}
	kf := []string{}
	for _, k := range r.known {
		if k.Status == "known" && k.Property == r.ID && k.seen > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, k.What)
			kf = append(kf, k.What)
		}
	}
	if len(kf) > 0 {
		cov["known_findings_seen"] = kf
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
		"violations": len(r.viol), "assumptions": r.Assumptions,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		infra("evidence: %v", err)
	}
	if err := os.WriteFile(filepath.Join(r.Evid, r.ID+".json"), append(b, '\n'), 0666); err != nil {
		infra("evidence: %v", err)
	}
	var ks []string
	for k, v := range r.counters {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %.1fs; %s\n", r.ID, r.Tier, r.Seed, r.evals, len(r.distinct), time.Since(r.start).Seconds(), strings.Join(ks, " "))
	if len(r.viol) > 0 {
		return 1
	}
	if r.evals == 0 {
		infra("nothing was evaluated")
	}
	return 0
}
