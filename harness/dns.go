package main

// A scripted DNS server on loopback.

import (
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"sync"
)

const (
	tA    = 1
	tPTR  = 12
	tMX   = 15
	tTXT  = 16
	tAAAA = 28
)

// RR is one record.
type RR struct {
	Type int
	Data string
	Pref int
}

// DNS is a scripted server. Names that have no records do not exist.
type DNS struct {
	Addr string
	pc   net.PacketConn
	mu   sync.Mutex
	rr   map[string][]RR
	mode map[string]string // servfail, timeout, refused by name
	log  []string
	hook func(name string, typ int)
	held []heldQuery
}

// heldQuery is a question that is kept waiting.
type heldQuery struct {
	q    []byte
	from net.Addr
}

// Release answers what was held, as the zone is now.
func (d *DNS) Release() {
	d.mu.Lock()
	h := d.held
	d.held = nil
	for n, m := range d.mode {
		if m == "hold" {
			delete(d.mode, n)
		}
	}
	d.mu.Unlock()
	for _, x := range h {
		if a := d.answer(x.q); a != nil {
			d.pc.WriteTo(a, x.from)
		}
	}
}

// Held is the number of questions being kept waiting.
func (d *DNS) Held() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.held)
}

func newDNS() *DNS {
	pc, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		infra("dns: %v", err)
	}
	d := &DNS{pc: pc, Addr: pc.LocalAddr().String()}
	d.Reset()
	go d.serve()
	return d
}

// Reset forgets everything.
func (d *DNS) Reset() {
	d.mu.Lock()
	d.rr = make(map[string][]RR)
	d.mode = make(map[string]string)
	d.log = nil
	d.hook = nil
	d.held = nil
	d.mu.Unlock()
}

// Close stops it.
func (d *DNS) Close() { d.pc.Close() }

func fqdn(n string) string {
	n = strings.ToLower(n)
	if !strings.HasSuffix(n, ".") {
		n += "."
	}
	return n
}

// Add adds a record.
func (d *DNS) Add(name string, typ int, data string) {
	d.mu.Lock()
	n := fqdn(name)
	d.rr[n] = append(d.rr[n], RR{Type: typ, Data: data, Pref: 10 + len(d.rr[n])})
	d.mu.Unlock()
}

// AddMX adds an MX.
func (d *DNS) AddMX(name string, pref int, host string) {
	d.mu.Lock()
	n := fqdn(name)
	d.rr[n] = append(d.rr[n], RR{Type: tMX, Data: host, Pref: pref})
	d.mu.Unlock()
}

// AddIP adds an A or AAAA record.
func (d *DNS) AddIP(name, ip string) {
	if strings.Contains(ip, ":") {
		d.Add(name, tAAAA, ip)
	} else {
		d.Add(name, tA, ip)
	}
}

// PTRName is the reverse name of an IP.
func PTRName(ip string) string {
	p := net.ParseIP(ip)
	if p4 := p.To4(); p4 != nil {
		return fmt.Sprintf("%d.%d.%d.%d.in-addr.arpa.", p4[3], p4[2], p4[1], p4[0])
	}
	s := ""
	for i := 15; i >= 0; i-- {
		s += fmt.Sprintf("%x.%x.", p[i]&15, p[i]>>4)
	}
	return s + "ip6.arpa."
}

// AddPTR adds a reverse record.
func (d *DNS) AddPTR(ip, name string) { d.Add(PTRName(ip), tPTR, name) }

// Mode sets a failure mode of a name.
func (d *DNS) Mode(name, mode string) {
	d.mu.Lock()
	d.mode[fqdn(name)] = mode
	d.mu.Unlock()
}

// ModeType sets a failure mode of a name for one type of record.
func (d *DNS) ModeType(name string, typ int, mode string) {
	d.mu.Lock()
	d.mode[fmt.Sprintf("%s/%d", fqdn(name), typ)] = mode
	d.mu.Unlock()
}

// Log returns the queries so far.
func (d *DNS) Log() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]string{}, d.log...)
}

func encName(n string) []byte {
	n = strings.TrimSuffix(n, ".")
	var b []byte
	if n != "" {
		for _, l := range strings.Split(n, ".") {
			b = append(b, byte(len(l)))
			b = append(b, l...)
		}
	}
	return append(b, 0)
}

func (d *DNS) serve() {
	buf := make([]byte, 4096)
	for {
		n, from, err := d.pc.ReadFrom(buf)
		if err != nil {
			return
		}
		q := append([]byte{}, buf[:n]...)
		a := d.answer(q)
		if a == nil {
			continue
		}
		if len(a) == 0 {
			d.mu.Lock()
			d.held = append(d.held, heldQuery{q, from})
			d.mu.Unlock()
			continue
		}
		d.pc.WriteTo(a, from)
	}
}

func (d *DNS) answer(q []byte) []byte {
	if len(q) < 17 {
		return nil
	}
	i := 12
	var labels []string
	for i < len(q) && q[i] != 0 {
		l := int(q[i])
		if i+1+l >= len(q) {
			return nil
		}
		labels = append(labels, string(q[i+1:i+1+l]))
		i += 1 + l
	}
	i++
	if i+4 > len(q) {
		return nil
	}
	typ := int(binary.BigEndian.Uint16(q[i:]))
	qend := i + 4
	name := fqdn(strings.Join(labels, "."))
	d.mu.Lock()
	if len(d.log) < 100000 {
		d.log = append(d.log, fmt.Sprintf("%s %d", name, typ))
	}
	mode := d.mode[name]
	if m := d.mode[fmt.Sprintf("%s/%d", name, typ)]; m != "" {
		mode = m
	}
	rrs := append([]RR{}, d.rr[name]...)
	hook := d.hook
	d.mu.Unlock()
	if hook != nil {
		hook(name, typ)
	}
	if mode == "hold" {
		return []byte{}
	}
	if mode == "timeout" {
		return []byte("TIMEOUT")
	}
	h := make([]byte, 12)
	copy(h, q[:2])
	h[2] = 0x85 // response, authoritative, rd
	h[3] = 0x80
	binary.BigEndian.PutUint16(h[4:], 1)
	rcode := 0
	switch mode {
	case "servfail":
		rcode = 2
	case "refused":
		rcode = 5
	case "":
		if len(rrs) == 0 {
			rcode = 3
		}
	}
	h[3] |= byte(rcode)
	out := append(h, q[12:qend]...)
	cnt := 0
	if rcode == 0 {
		for _, r := range rrs {
			if r.Type != typ {
				continue
			}
			var rd []byte
			switch r.Type {
			case tA:
				rd = net.ParseIP(r.Data).To4()
			case tAAAA:
				rd = net.ParseIP(r.Data).To16()
			case tPTR:
				rd = encName(r.Data)
			case tMX:
				rd = append([]byte{byte(r.Pref >> 8), byte(r.Pref)}, encName(r.Data)...)
			case tTXT:
				rd = append([]byte{byte(len(r.Data))}, r.Data...)
			}
			out = append(out, 0xc0, 12) // the name of the question
			var t [10]byte
			binary.BigEndian.PutUint16(t[0:], uint16(r.Type))
			binary.BigEndian.PutUint16(t[2:], 1)
			binary.BigEndian.PutUint32(t[4:], 60)
			binary.BigEndian.PutUint16(t[8:], uint16(len(rd)))
			out = append(out, t[:]...)
			out = append(out, rd...)
			cnt++
		}
	}
	binary.BigEndian.PutUint16(out[6:], uint16(cnt))
	return out
}
