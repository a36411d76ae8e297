package main

import (
	"math/rand"
	"net"
	"os"
	"os/exec"
	"sort"
	"strings"
)

func mkdir(p string) {
	if err := os.MkdirAll(p, 0777); err != nil {
		infra("mkdir: %v", err)
	}
}

func readFile(p string) string {
	b, _ := os.ReadFile(p)
	return string(b)
}

func listDir(p string) []string {
	es, _ := os.ReadDir(p)
	var res []string
	for _, e := range es {
		res = append(res, e.Name())
	}
	sort.Strings(res)
	return res
}

func lines(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

func haveIPv6() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err != nil {
		return false
	}
	l.Close()
	return true
}

func sortStrings(ls ...[]string) {
	for _, l := range ls {
		sort.Strings(l)
	}
}

func pick2(rng *rand.Rand, l ...int) int { return l[rng.Intn(len(l))] }

func exec1(name string, args ...string) string {
	b, _ := exec.Command(name, args...).Output()
	return string(b)
}

// hostsNames are the names /etc/hosts gives an IP; these come before the DNS.
func hostsNames(ip string) []string {
	var res []string
	p := net.ParseIP(ip)
	for _, l := range lines(readFile("/etc/hosts")) {
		l, _, _ = strings.Cut(l, "#")
		f := strings.Fields(l)
		if len(f) > 1 && p.Equal(net.ParseIP(f[0])) {
			res = append(res, f[1:]...)
		}
	}
	return res
}

func indexOf(l []string, s string) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return -1
}
