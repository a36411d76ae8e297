// Package smtpd is a stand-in for github.com/siebenmann/smtpd, which is not
// available in this sandbox. It implements the same API (as used by
// sinksmtp, plus the rest of the exported surface) and the same conversation
// rules: command sequencing, PIPELINING, STARTTLS, implicit accept, RSET
// swallowed internally, a rejected DATA block needing a RSET.
//
// It is part of the test environment, not of the code under test.
package smtpd

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/textproto"
	"strings"
	"sync"
	"time"
)

// TimeFmt is the time format used in logs.
const TimeFmt = "2006-01-02 15:04:05 -0700"

// Command represents known SMTP commands.
type Command int

const (
	noCmd Command = iota
	BadCmd
	HELO
	EHLO
	MAILFROM
	RCPTTO
	DATA
	QUIT
	RSET
	NOOP
	VRFY
	EXPN
	HELP
	AUTH
	STARTTLS
)

func (v Command) String() string {
	switch v {
	case noCmd:
		return "<zero Command value>"
	case BadCmd:
		return "<bad SMTP command>"
	case HELO:
		return "HELO"
	case EHLO:
		return "EHLO"
	case MAILFROM:
		return "MAIL FROM"
	case RCPTTO:
		return "RCPT TO"
	case DATA:
		return "DATA"
	case QUIT:
		return "QUIT"
	case RSET:
		return "RSET"
	case NOOP:
		return "NOOP"
	case VRFY:
		return "VRFY"
	case EXPN:
		return "EXPN"
	case HELP:
		return "HELP"
	case AUTH:
		return "AUTH"
	case STARTTLS:
		return "STARTTLS"
	}
	return fmt.Sprintf("<cmd %d>", int(v))
}

// ParsedLine represents a parsed SMTP command line.
type ParsedLine struct {
	Cmd    Command
	Arg    string
	Params string
	Err    string
}

type argStyle int

const (
	noArg argStyle = iota
	canArg
	mustArg
	oldMustArg
	colonAddress
)

var smtpCommand = []struct {
	cmd  Command
	text string
	arg  argStyle
}{
	{HELO, "HELO", canArg},
	{EHLO, "EHLO", canArg},
	{MAILFROM, "MAIL FROM", colonAddress},
	{RCPTTO, "RCPT TO", colonAddress},
	{DATA, "DATA", noArg},
	{QUIT, "QUIT", noArg},
	{RSET, "RSET", noArg},
	{NOOP, "NOOP", canArg},
	{VRFY, "VRFY", mustArg},
	{EXPN, "EXPN", mustArg},
	{HELP, "HELP", canArg},
	{STARTTLS, "STARTTLS", noArg},
	{AUTH, "AUTH", mustArg},
}

func isAll7bit(b []byte) bool {
	for _, c := range b {
		if c > 127 {
			return false
		}
	}
	return true
}

// ParseCmd parses a SMTP command line.
func ParseCmd(line string) ParsedLine {
	var res ParsedLine
	res.Cmd = BadCmd
	line = strings.TrimRight(line, " \t")
	if !isAll7bit([]byte(line)) {
		res.Err = "command contains non 7-bit ASCII"
		return res
	}
	up := strings.ToUpper(line)
	found := -1
	for i := range smtpCommand {
		if strings.HasPrefix(up, smtpCommand[i].text) {
			found = i
			break
		}
	}
	if found == -1 {
		res.Err = "unrecognized command"
		return res
	}
	cmd := smtpCommand[found]
	llen, clen := len(line), len(cmd.text)
	if !(llen == clen || line[clen] == ' ' || line[clen] == ':') {
		res.Err = "unrecognized command"
		return res
	}
	res.Cmd = cmd.cmd
	switch cmd.arg {
	case noArg:
		if llen != clen {
			res.Err = "SMTP command does not take an argument"
		}
	case mustArg:
		if llen <= clen+1 {
			res.Err = "SMTP command requires an argument"
			break
		}
		res.Arg = strings.TrimSpace(line[clen+1:])
	case canArg:
		if llen > clen+1 {
			res.Arg = strings.TrimSpace(line[clen+1:])
		}
	case colonAddress:
		idx := clen
		if idx >= llen || line[idx] != ':' {
			res.Err = "no address: missing ':'"
			break
		}
		idx++
		// tolerate a space after the ':'
		for idx < llen && line[idx] == ' ' {
			idx++
		}
		if idx >= llen || line[idx] != '<' {
			res.Err = "missing opening <"
			break
		}
		end := strings.LastIndexByte(line, '>')
		// parameters follow the first "> " if there is one.
		if i := strings.Index(line[idx:], "> "); i != -1 {
			end = idx + i
		}
		if end <= idx {
			res.Err = "missing closing >"
			break
		}
		res.Arg = line[idx+1 : end]
		rest := line[end+1:]
		if rest != "" && rest[0] != ' ' {
			res.Err = "garbage after >"
			break
		}
		res.Params = strings.TrimSpace(rest)
		if cmd.cmd == RCPTTO && res.Arg == "" {
			res.Err = "null address in RCPT TO"
		}
	}
	return res
}

// Limits has the time and message limits for a Conn.
type Limits struct {
	CmdInput time.Duration
	MsgInput time.Duration
	ReplyOut time.Duration
	TLSSetup time.Duration
	MsgSize  int64
	BadCmds  int
	NoParams bool
}

// DefaultLimits are the default limits.
var DefaultLimits = Limits{
	CmdInput: 2 * time.Minute,
	MsgInput: 10 * time.Minute,
	ReplyOut: 2 * time.Minute,
	TLSSetup: 4 * time.Minute,
	MsgSize:  5 * 1024 * 1024,
	BadCmds:  5,
	NoParams: true,
}

// AuthFunc is called for AUTH challenges.
type AuthFunc func(c *Conn, input []byte)

// AuthConfig specifies the authentication mechanisms.
type AuthConfig struct {
	Mechanisms []string
}

// Config represents the configuration for a Conn.
type Config struct {
	TLSConfig *tls.Config
	Limits    *Limits
	Auth      *AuthConfig
	Delay     time.Duration
	SayTime   bool
	LocalName string
	SftName   string
	Announce  string
}

// Event is the sort of event in EventInfo.
type Event int

const (
	_ Event = iota
	COMMAND
	AUTHRESP
	AUTHABORT
	GOTDATA
	DONE
	ABORT
	TLSERROR
)

// EventInfo is what Conn.Next() returns.
type EventInfo struct {
	What Event
	Cmd  Command
	Arg  string
}

type conState int

const (
	sStartup conState = iota
	sInitial conState = 1 << iota
	sHelo
	sAuth
	sMail
	sRcpt
	sData
	sQuit
	sPostData
	sAbort
)

var states = map[Command]struct {
	validin, next conState
}{
	HELO:     {sInitial | sHelo, sHelo},
	EHLO:     {sInitial | sHelo, sHelo},
	AUTH:     {sHelo, sHelo},
	MAILFROM: {sHelo, sMail},
	RCPTTO:   {sMail | sRcpt, sRcpt},
	DATA:     {sRcpt, sData},
}

// Conn represents an ongoing SMTP connection.
type Conn struct {
	Config   Config
	TLSOn    bool
	TLSState tls.ConnectionState

	conn   net.Conn
	lr     *io.LimitedReader
	rdr    *textproto.Reader
	logger io.Writer
	limits Limits

	state, nstate conState
	badcmds       int
	curcmd        Command
	replied       bool
}

// NewConn creates a new SMTP conversation over conn.
func NewConn(conn net.Conn, cfg Config, log io.Writer) *Conn {
	c := &Conn{state: sStartup, Config: cfg, logger: log}
	if cfg.Limits != nil {
		c.limits = *cfg.Limits
	} else {
		c.limits = DefaultLimits
	}
	c.setupConn(conn)
	if c.Config.SftName == "" {
		c.Config.SftName = "go-smtpd"
	}
	if c.Config.Announce != "" && c.Config.Announce[len(c.Config.Announce)-1] == '\n' {
		c.Config.Announce = c.Config.Announce[:len(c.Config.Announce)-1]
	}
	traceConn(conn, &c.Config)
	return c
}

func (c *Conn) setupConn(conn net.Conn) {
	c.conn = conn
	c.lr = &io.LimitedReader{R: conn, N: 4096}
	c.rdr = textproto.NewReader(bufio.NewReader(c.lr))
}

func (c *Conn) log(dir string, format string, elems ...interface{}) {
	if c.logger == nil {
		return
	}
	msg := fmt.Sprintf(format, elems...)
	c.logger.Write([]byte(fmt.Sprintf("%s %s\n", dir, msg)))
}

func (c *Conn) send(lines []string) {
	for _, l := range lines {
		c.log("w", "%s", l)
	}
	s := strings.Join(lines, "\r\n") + "\r\n"
	within(c.conn.SetWriteDeadline, c.limits.ReplyOut)
	if c.Config.Delay > 0 {
		d := scaleDelay(c.Config.Delay)
		for i := 0; i < len(s); i++ {
			if _, err := c.conn.Write([]byte{s[i]}); err != nil {
				c.log("!", "reply abort: %v", err)
				c.state = sAbort
				return
			}
			time.Sleep(d)
			within(c.conn.SetWriteDeadline, c.limits.ReplyOut)
		}
		return
	}
	if _, err := c.conn.Write([]byte(s)); err != nil {
		c.log("!", "reply abort: %v", err)
		c.state = sAbort
	}
}

func (c *Conn) reply(format string, elems ...interface{}) {
	c.send([]string{fmt.Sprintf(format, elems...)})
}

func (c *Conn) replyMulti(code int, format string, elems ...interface{}) {
	s := strings.Trim(fmt.Sprintf(format, elems...), " \t\n")
	sl := strings.Split(s, "\n")
	out := make([]string, 0, len(sl))
	for i, l := range sl {
		sep := '-'
		if i == len(sl)-1 {
			sep = ' '
		}
		out = append(out, fmt.Sprintf("%3d%c%s", code, sep, l))
	}
	c.send(out)
}

func (c *Conn) stopme() bool {
	return c.state == sAbort || c.badcmds > c.limits.BadCmds || c.state == sQuit
}

// clockMu keeps the virtual clock, if there is one, from jumping between
// reading it and setting a deadline by it.
var clockMu sync.RWMutex

func within(set func(time.Time) error, d time.Duration) {
	clockMu.RLock()
	defer clockMu.RUnlock()
	set(time.Now().Add(d))
}

func (c *Conn) readCmd() string {
	within(c.conn.SetReadDeadline, c.limits.CmdInput)
	c.lr.N = 2048
	line, err := c.rdr.ReadLine()
	if err != nil || c.lr.N == 0 {
		c.state = sAbort
		line = ""
		if err != nil {
			c.log("!", "command abort %s err: %v", fmtBytesLeft(2048, c.lr.N), err)
		} else {
			c.log("!", "command abort %s err: no more input", fmtBytesLeft(2048, c.lr.N))
		}
		return ""
	}
	c.log("r", "%s", line)
	if line == "" {
		line = " "
	}
	return line
}

func fmtBytesLeft(max, cur int64) string {
	if cur == 0 {
		return "0 bytes left"
	}
	return fmt.Sprintf("%d bytes read", max-cur)
}

func (c *Conn) readData() string {
	within(c.conn.SetReadDeadline, c.limits.MsgInput)
	c.lr.N = c.limits.MsgSize
	b, err := c.rdr.ReadDotBytes()
	if err != nil || c.lr.N == 0 {
		c.state = sAbort
		c.log("!", "DATA abort %s err: %v", fmtBytesLeft(c.limits.MsgSize, c.lr.N), err)
		return ""
	}
	c.log(".", "<end of data>")
	return string(b)
}

// Accept accepts the current SMTP command.
func (c *Conn) Accept() {
	if c.replied {
		return
	}
	oldstate := c.state
	c.state = c.nstate
	switch c.curcmd {
	case HELO:
		c.reply("250 %s Hello %v", c.Config.LocalName, c.conn.RemoteAddr())
	case EHLO:
		l := []string{
			fmt.Sprintf("250-%s Hello %v", c.Config.LocalName, c.conn.RemoteAddr()),
			"250-8BITMIME",
			"250-PIPELINING",
		}
		if c.Config.TLSConfig != nil && !c.TLSOn {
			l = append(l, "250-STARTTLS")
		}
		l = append(l, "250 HELP")
		c.send(l)
	case MAILFROM, RCPTTO:
		c.reply("250 Okay, I'll believe you for now")
	case DATA:
		if oldstate == sRcpt {
			c.reply("354 Send away")
		} else {
			c.reply("250 I've put it in a can")
		}
	}
	c.replied = true
}

func (c *Conn) acceptCode() int {
	if c.curcmd == DATA && c.state == sRcpt {
		return 354
	}
	return 250
}

// AcceptMsg accepts with a message.
func (c *Conn) AcceptMsg(format string, elems ...interface{}) {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO:
		c.Accept()
		return
	}
	code := c.acceptCode()
	c.state = c.nstate
	c.replyMulti(code, format, elems...)
	c.replied = true
}

// AcceptData accepts a message with an ID.
func (c *Conn) AcceptData(id string) {
	if c.replied {
		return
	}
	c.state = c.nstate
	c.reply("250 I've put it in a can called %s", id)
	c.replied = true
}

// RejectData rejects a message with an ID.
func (c *Conn) RejectData(id string) {
	if c.replied {
		return
	}
	c.reply("554 Not put in a can called %s", id)
	c.replied = true
}

func (c *Conn) rejectCode() int {
	if c.curcmd == DATA {
		return 554
	}
	return 550
}

// Reject rejects the current SMTP command.
func (c *Conn) Reject() {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO:
		c.reply("550 Not accepted")
	case MAILFROM, RCPTTO:
		c.reply("550 Bad address")
	case DATA:
		c.reply("554 Not accepted")
	}
	c.replied = true
}

// RejectMsg rejects with a message.
func (c *Conn) RejectMsg(format string, elems ...interface{}) {
	if c.replied {
		return
	}
	c.replyMulti(c.rejectCode(), format, elems...)
	c.replied = true
}

func (c *Conn) tempCode() int {
	switch c.curcmd {
	case HELO, EHLO:
		return 421
	case AUTH:
		return 454
	}
	return 450
}

// Tempfail temporarily fails the current SMTP command.
func (c *Conn) Tempfail() {
	if c.replied {
		return
	}
	c.reply("%d Not available now", c.tempCode())
	c.replied = true
}

// TempfailMsg tempfails with a message.
func (c *Conn) TempfailMsg(format string, elems ...interface{}) {
	if c.replied {
		return
	}
	c.replyMulti(c.tempCode(), format, elems...)
	c.replied = true
}

// Next returns the next high-level event from the conversation.
func (c *Conn) Next() EventInfo {
	var evt EventInfo

	if !c.replied && c.curcmd != noCmd {
		c.Accept()
	}
	if c.state == sStartup {
		c.state = sInitial
		c.log("#", "remote %v at %s", c.conn.RemoteAddr(), time.Now().Format(TimeFmt))
		first := fmt.Sprintf("%s %s", c.Config.LocalName, c.Config.SftName)
		if c.Config.SayTime {
			first += " " + time.Now().Format(time.RFC1123Z)
		}
		if c.Config.Announce != "" {
			first += "\n" + c.Config.Announce
		}
		c.replyMulti(220, "%s", first)
	}

	if c.state == sData {
		data := c.readData()
		if len(data) > 0 {
			evt.What = GOTDATA
			evt.Arg = data
			c.replied = false
			c.state = sPostData
			c.nstate = sHelo
			return evt
		}
		if c.state != sAbort {
			c.state = sAbort
		}
	}

	for {
		if c.stopme() {
			break
		}
		line := c.readCmd()
		if line == "" {
			break
		}
		res := ParseCmd(line)
		if res.Cmd == BadCmd {
			c.badcmds++
			c.reply("501 Bad: %s", res.Err)
			continue
		}
		t := states[res.Cmd]
		if t.validin != 0 && (t.validin&c.state) == 0 {
			c.reply("503 Out of sequence command")
			continue
		}
		if len(res.Err) > 0 {
			c.reply("553 Garbled command: %s", res.Err)
			continue
		}
		if t.validin == 0 {
			switch res.Cmd {
			case NOOP:
				c.reply("250 Okay")
			case RSET:
				if c.state != sInitial {
					c.state = sHelo
				}
				c.reply("250 Okay")
			case QUIT:
				c.state = sQuit
				c.reply("221 Goodbye")
				if c.state == sAbort {
					c.state = sQuit
				}
			case HELP:
				c.reply("214 No help here")
			case STARTTLS:
				if c.Config.TLSConfig == nil || c.TLSOn {
					c.reply("502 Not supported")
					continue
				}
				c.reply("220 Ready to start TLS")
				if c.state == sAbort {
					continue
				}
				within(c.conn.SetDeadline, c.limits.TLSSetup)
				tlsConn := tls.Server(c.conn, c.Config.TLSConfig)
				err := tlsConn.Handshake()
				if err != nil {
					c.log("!", "TLS setup failed: %v", err)
					c.state = sAbort
					evt.What = TLSERROR
					evt.Arg = fmt.Sprintf("%v", err)
					return evt
				}
				c.conn.SetDeadline(time.Time{})
				c.setupConn(tlsConn)
				c.TLSOn = true
				c.TLSState = tlsConn.ConnectionState()
				c.log("!", "TLS negociated with cipher 0x%04x protocol 0x%04x", c.TLSState.CipherSuite, c.TLSState.Version)
				c.state = sInitial
			default:
				c.reply("502 Not supported")
			}
			continue
		}
		if res.Cmd == AUTH {
			c.reply("502 Not supported")
			continue
		}
		c.nstate = t.next
		c.replied = false
		c.curcmd = res.Cmd
		evt.What = COMMAND
		evt.Cmd = res.Cmd
		evt.Arg = res.Arg
		return evt
	}

	evt.Arg = ""
	if c.badcmds > c.limits.BadCmds {
		c.reply("554 Too many bad commands")
		c.state = sAbort
		evt.Arg = "too many bad commands"
	}
	if c.state == sQuit {
		evt.What = DONE
		c.log("#", "finished at %v", time.Now().Format(TimeFmt))
	} else {
		evt.What = ABORT
		c.log("#", "abort at %v", time.Now().Format(TimeFmt))
	}
	c.curcmd = noCmd
	c.replied = true
	return evt
}
