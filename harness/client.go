package main

// A plain SMTP client that records the conversation.

import (
	"bufio"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"syscall"
	"time"
)

const opTimeout = 40 * time.Second

// Reply is one server reply.
type Reply struct {
	Code  int
	Lines []string // texts, without codes
	Err   error
}

func (r Reply) String() string {
	if r.Err != nil {
		return "error: " + r.Err.Error()
	}
	return fmt.Sprintf("%d %s", r.Code, strings.Join(r.Lines, " | "))
}

// Class is the first digit; 0 for an error.
func (r Reply) Class() int { return r.Code / 100 }

// Text is the reply's text lines joined.
func (r Reply) Text() string { return strings.Join(r.Lines, "\n") }

// Client is a client connection.
type Client struct {
	nc   net.Conn
	raw  *net.TCPConn
	br   *bufio.Reader
	log  []string
	Src  string // local address as the daemon sees it
	TLS  *tls.ConnectionState
	dead bool
	wire []string // commands and reply lines as the SMTP log should have them
}

func dial(src, addr string) (*Client, error) {
	la := &net.TCPAddr{IP: net.ParseIP(src)}
	dl := net.Dialer{Timeout: opTimeout, Control: func(network, address string, rc syscall.RawConn) error {
		// the port is chosen at connect time, and may be one that lingers
		rc.Control(func(fd uintptr) {
			syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
			syscall.SetsockoptInt(int(fd), syscall.IPPROTO_IP, 24 /* IP_BIND_ADDRESS_NO_PORT */, 1)
		})
		return nil
	}}
	if src != "" {
		dl.LocalAddr = la
	}
	var nc net.Conn
	var err error
	for i := 0; ; i++ {
		nc, err = dl.Dial("tcp", addr)
		if err == nil || !strings.Contains(err.Error(), "address already in use") && !strings.Contains(err.Error(), "cannot assign") {
			break
		}
		if i == 200 {
			infra("no ports left: %v", err)
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		return nil, err
	}
	c := &Client{nc: nc, raw: nc.(*net.TCPConn), br: bufio.NewReader(nc), Src: nc.LocalAddr().String()}
	c.log = append(c.log, "# from "+c.Src+" to "+addr)
	return c, nil
}

// mustDial dials; failure is a failing case.
func mustDial(src, addr string) *Client {
	c, err := dial(src, addr)
	if err != nil {
		panic(failf(nil, "cannot connect to the server: %v", err))
	}
	return c
}

func (c *Client) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	if len(c.log) < 3000 {
		c.log = append(c.log, s)
	}
}

var errShape = errors.New("malformed reply")

// Read reads one reply.
func (c *Client) Read() Reply {
	var r Reply
	c.nc.SetReadDeadline(time.Now().Add(opTimeout))
	for {
		l, err := c.br.ReadString('\n')
		if err != nil {
			r.Err = err
			c.dead = true
			c.note("S: (%v) %q", err, l)
			return r
		}
		c.note("S: %s", strings.TrimRight(l, "\r\n"))
		if !strings.HasSuffix(l, "\r\n") {
			r.Err = errShape
			return r
		}
		l = strings.TrimSuffix(l, "\r\n")
		c.wire = append(c.wire, "w "+l)
		var code int
		if len(l) < 4 {
			r.Err = errShape
			return r
		}
		if n, e := fmt.Sscanf(l[:3], "%d", &code); n != 1 || e != nil || (l[3] != ' ' && l[3] != '-') {
			r.Err = errShape
			return r
		}
		if r.Code != 0 && r.Code != code {
			r.Err = errShape
			return r
		}
		r.Code = code
		r.Lines = append(r.Lines, l[4:])
		if l[3] == ' ' {
			return r
		}
	}
}

// Send sends raw bytes.
func (c *Client) Send(s string) error {
	c.nc.SetWriteDeadline(time.Now().Add(opTimeout))
	c.note("C: %s", strings.TrimRight(s, "\r\n"))
	_, err := io.WriteString(c.nc, s)
	return err
}

// Cmd sends a command line and reads the reply.
func (c *Client) Cmd(s string) Reply {
	c.wire = append(c.wire, "r "+s)
	if err := c.Send(s + "\r\n"); err != nil {
		// there may still be a reply to read
		r := c.Read()
		if r.Err != nil {
			r.Err = err
		}
		return r
	}
	return c.Read()
}

// Cmdf is Cmd with formatting.
func (c *Client) Cmdf(f string, a ...interface{}) Reply { return c.Cmd(fmt.Sprintf(f, a...)) }

func dotStuff(msg string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(msg, "\n") {
		if l == "" {
			continue
		}
		if l[0] == '.' {
			b.WriteByte('.')
		}
		b.WriteString(strings.TrimSuffix(l, "\n"))
		b.WriteString("\r\n")
	}
	return b.String()
}

// Body sends a message (text with \n line ends, ending in \n) and the final dot.
func (c *Client) Body(msg string) Reply {
	c.wire = append(c.wire, ". <end of data>")
	if err := c.Send(dotStuff(msg) + ".\r\n"); err != nil {
		return Reply{Err: err}
	}
	return c.Read()
}

// Quit says QUIT and waits for the connection to be closed by the server,
// which it does when it is through with the session.
func (c *Client) Quit() error {
	defer c.nc.Close()
	if !c.dead {
		r := c.Cmd("QUIT")
		if r.Err != nil {
			return r.Err
		}
		if r.Code != 221 {
			return fmt.Errorf("reply to QUIT: %v", r)
		}
	}
	return c.EOF()
}

// EOF waits for the server to close.
func (c *Client) EOF() error {
	c.nc.SetReadDeadline(time.Now().Add(opTimeout))
	for {
		_, err := c.br.ReadByte()
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return fmt.Errorf("server does not close the connection")
			}
			return nil
		}
	}
}

// Drop half-closes and waits for the server to finish with the session.
func (c *Client) Drop() error {
	defer c.nc.Close()
	c.note("C: (drop)")
	c.raw.CloseWrite()
	return c.EOF()
}

// Close just closes.
func (c *Client) Close() { c.nc.Close() }

// StartTLS does STARTTLS; the reply is to the command, err from the handshake.
func (c *Client) StartTLS(cfg *tls.Config) (Reply, error) {
	r := c.Cmd("STARTTLS")
	if r.Code != 220 {
		return r, fmt.Errorf("no STARTTLS")
	}
	t := tls.Client(c.nc, cfg)
	c.nc.SetDeadline(time.Now().Add(opTimeout))
	if err := t.Handshake(); err != nil {
		return r, err
	}
	c.nc.SetDeadline(time.Time{})
	c.nc = t
	c.br = bufio.NewReader(t)
	st := t.ConnectionState()
	c.TLS = &st
	c.note("# TLS %s %s", tls.VersionName(st.Version), tls.CipherSuiteName(st.CipherSuite))
	return r, nil
}

// HasExt is true if an EHLO reply lists an extension.
func (r Reply) HasExt(e string) bool {
	for i, l := range r.Lines {
		if i > 0 && strings.EqualFold(strings.Fields(l + " x")[0], e) {
			return true
		}
	}
	return false
}
