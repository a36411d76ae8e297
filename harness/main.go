package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

type checkDef struct {
	kinds string // builds of the daemon it needs
	fn    func(r *Run)
}

var checks = map[string]checkDef{}

func register(id, kinds string, fn func(r *Run)) { checks[id] = checkDef{kinds, fn} }

func main() {
	if len(os.Args) == 3 && os.Args[1] == "kinds" {
		c, ok := checks[os.Args[2]]
		if !ok {
			infra("no check %s", os.Args[2])
		}
		fmt.Println(c.kinds)
		return
	}
	// harness run ID BIN WORK
	if len(os.Args) != 5 || os.Args[1] != "run" {
		infra("usage: harness run ID BIN WORK")
	}
	id := os.Args[2]
	c, ok := checks[id]
	if !ok {
		infra("no check %s", id)
	}
	r := &Run{ID: id, Bin: os.Args[3], Work: os.Args[4], Level: "exploration", OnlyCase: -1,
		start: time.Now(), distinct: make(map[uint64]struct{}), counters: make(map[string]int64),
		sets: make(map[string]map[string]int64)}
	r.Verif = os.Getenv("VERIF_DIR")
	r.Evid = filepath.Join(r.Verif, "evidence")
	os.MkdirAll(r.Evid, 0777)
	old, _ := filepath.Glob(filepath.Join(r.Evid, "replay-"+id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	r.Tier = os.Getenv("VERIF_TIER")
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			r.Seed = n
		}
	}
	if s := os.Getenv("VERIF_CASE"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			r.OnlyCase = n
		}
	}
	b, _ := os.ReadFile(filepath.Join(r.Verif, "known_findings.jsonl"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			infra("known_findings.jsonl: %v", err)
		}
		r.known = append(r.known, k)
	}
	c.fn(r)
	os.Exit(r.finish())
}
