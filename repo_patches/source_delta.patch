From bfe1b32a88c8a1550e39c4c189ee498bdc594829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 01/12] fix: do not crash matching an empty HELO name or host
 pattern

matchHost() indexed the last character of names that may be empty: an
EHLO without a name under -nostdrules, or 'helo ""', ended the server.
---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index e3f9f72..dbab0ce 100644
--- a/rules.go
+++ b/rules.go
@@ -349,7 +349,7 @@ func matchAddress(addr string, pat string) bool {
 // This stripping is suppressed if the pattern ends in a '.' itself.
 func matchHost(host string, pat string) bool {
 	host = strings.ToLower(host)
-	if host[len(host)-1] == '.' && pat[len(pat)-1] != '.' {
+	if strings.HasSuffix(host, ".") && !strings.HasSuffix(pat, ".") {
 		host = host[:len(host)-1]
 	}
 	if host == pat || "."+host == pat {
-- 
2.43.0


From 4f9c19572103bd6ad87ed4b204b1e977b5ed390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 02/12] fix: do not crash on an empty quoted match argument

'reject from ""' is accepted by the parser but getMatchList() looked at
the first character of the argument.
---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index dbab0ce..8f6857f 100644
--- a/rules.go
+++ b/rules.go
@@ -132,7 +132,7 @@ func newContext(trans *smtpTransaction, rules []*Rule) *Context {
 func (c *Context) getMatchList(a string) []string {
 	var fname string
 	switch {
-	case a[0] == '/' || strings.HasPrefix(a, "./"):
+	case strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./"):
 		fname = a
 	case strings.HasPrefix(a, "file:"):
 		fname = a[len("file:"):]
-- 
2.43.0


From 8d485a9562f1e7a4e58715840a4c401110bf2602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 03/12] fix: a rule note without an SMTP log is harmless

Without -smtplog (and for stalled clients) there is no logger and the
write crashed the server.
---
 sinksmtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index c5a7c29..680a165 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -787,7 +787,7 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
 	if note := c.withprops["note"]; note != "" {
-		c.trans.log.Write([]byte(fmt.Sprintf("! rule note: %s\n", note)))
+		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
-- 
2.43.0


From af5454a6b9042b6c70a74f14a625553168f95c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 04/12] fix: connections no longer overwrite each other's rules

append() to the shared base rules wrote into the spare capacity of their
backing array, so concurrent connections raced and could get each
other's version of the rules files.
---
 sinksmtp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 680a165..9a42181 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -155,7 +155,9 @@ func accumRules(baserules []*Rule, fname string) ([]*Rule, error) {
 		return baserules, nil
 	}
 	rules, err := loadRules(fname)
-	return append(baserules, rules...), err
+	// The base rules are shared by all connections, so appending must
+	// never write into their backing array.
+	return append(baserules[:len(baserules):len(baserules)], rules...), err
 }
 
 // Accumulate the set of rules for this connection from our base rules
-- 
2.43.0


From ad0c6c04cbadf637fdf5f269e54105f0356550aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 05/12] fix: use the last line of a pattern file that has no
 final newline

---
 sinksmtp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 9a42181..61ad528 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -89,7 +89,8 @@ func readList(rdr *bufio.Reader) ([]string, error) {
 	var a []string
 	for {
 		line, err := rdr.ReadString('\n')
-		if err != nil {
+		// The last line may lack a newline.
+		if err != nil && !(err == io.EOF && line != "") {
 			if err == io.EOF {
 				return a, nil
 			}
-- 
2.43.0


From c0406fdfb3ed899db04c1dbc3b531ac19f1ba60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 06/12] fix: use the last line of a -conncfg file that has no
 final newline

---
 conncfg.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 84bbecb..9478c05 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -60,10 +60,11 @@ func readConnFile(rdr *bufio.Reader) (*destMap, error) {
 		var host, cert, key string
 
 		line, err := rdr.ReadString('\n')
-		if err == io.EOF {
+		// The last line may lack a newline.
+		if err == io.EOF && line == "" {
 			break
 		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
 		lnum++
-- 
2.43.0


From 10ab18a04815370410ff8be26e3c61214b95ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 07/12] fix: make-yakker takes effect whatever the session does
 afterwards

Only the options of the last decision were looked at when the session
ended, so any further command lost the make-yakker.
---
 sinksmtp.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 61ad528..6c81c72 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -433,6 +433,9 @@ type smtpTransaction struct {
 	lastamsg string
 
 	lastresgood bool // last result from decider()
+
+	// some matching rule so far had a make-yakker
+	forceyakker bool
 }
 
 // returns overall hash and body-of-message hash. The latter may not
@@ -786,6 +789,11 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	if sd := c.withprops["savedir"]; sd != "" {
 		c.trans.savedir = sd
 	}
+	// make-yakker applies regardless of what happens later in the
+	// session, while withprops is reset by every Decide().
+	if _, ok := c.withprops["make-yakker"]; ok {
+		c.trans.forceyakker = true
+	}
 	// rule notes are deliberately logged every time they hit.
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
@@ -1190,9 +1198,8 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	// Once people are yakkers we don't count their continued failure
 	// to do anything against them.
 	// And we have to have good rules to start with because duh.
-	_, forceyakker := c.withprops["make-yakker"]
 	switch {
-	case forceyakker:
+	case trans.forceyakker:
 		// It's a lot simpler if forced yakking takes priority
 		// over everything else.
 		cnt = yakkers.Set(trans.rip, yakTimeout, yakCount)
-- 
2.43.0


From cae55229499323331cd32ed9ecddd3c8cf22be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:48 +0000
Subject: [PATCH 08/12] fix: look up host names without a trailing dot
 unmangled in dbl

Names from /etc/hosts have no trailing dot and lost their last letter.
---
 rnodes.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rnodes.go b/rnodes.go
index bd0c865..629d3ca 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -451,15 +451,16 @@ func (d *DblNode) Eval(c *Context) (r Result) {
 		check[c.heloname] = struct{}{}
 	}
 	if (d.src & oHost) == oHost {
-		// DNS names have a trailing '.', which we must remove.
+		// DNS names have a trailing '.' (names from /etc/hosts may
+		// not), which we must remove.
 		for _, s := range c.trans.rdns.verified {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.nofwd {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.inconsist {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 	}
 	if (d.src&oFrom) == oFrom && c.from != "" {
-- 
2.43.0


From 4e0d23bb5f9aa8c37776979c75362e5074232bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:02 +0000
Subject: [PATCH 09/12] fix: a message that could not be written is not
 accepted

The error from writing the message file was replaced by the result of
closing it, so the client was told that the message had been accepted.
The truncated file that was left behind by this (or by the server being
killed) also made a retry of the message look already saved, as did
another session still writing it.
---
 sinksmtp.go | 54 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 6c81c72..770a062 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -664,28 +664,48 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 		panic(fmt.Sprintf("unhandled hashtype '%s'", hashtype))
 	}
 
-	tgt := trans.savedir + "/" + hash
-	// O_CREATE|O_EXCL will fail if the file already exists, which
-	// is okay with us.
-	fp, err := os.OpenFile(tgt, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
-	if err == nil {
-		_, err = fp.Write(m)
-		if err != nil {
-			warnf("error writing message file: %s\n", err)
-		}
-		_ = fp.Sync()
-		err = fp.Close()
-		if err != nil {
-			warnf("error closing message file: %s\n", err)
-		}
-	} else if !os.IsExist(err) {
+	err := saveFile(trans.savedir, hash, prefix, m)
+	if err != nil {
 		warnf("error writing message file: %v\n", err)
-	} else {
-		err = nil
 	}
 	return hash, err
 }
 
+// saveFile saves a message. The file appears under its real name only
+// once it is complete and on disk, because a partial file left by an
+// error or a crash would make us think that the message had already
+// been saved when the sender retries it.
+func saveFile(dir, hash, prefix string, m []byte) error {
+	tgt := dir + "/" + hash
+	// It is okay with us if the file already exists.
+	if _, err := os.Lstat(tgt); err == nil {
+		return nil
+	}
+	tmp := dir + "/.tmp-" + hash + "-" + strings.Replace(prefix, "/", "-", -1)
+	// This can only be left over from an earlier process.
+	os.Remove(tmp)
+	fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+	if err != nil {
+		return err
+	}
+	defer os.Remove(tmp)
+	_, err = fp.Write(m)
+	if err == nil {
+		err = fp.Sync()
+	}
+	if cerr := fp.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		// Unlike a rename, this never overwrites anything.
+		err = os.Link(tmp, tgt)
+		if os.IsExist(err) {
+			err = nil
+		}
+	}
+	return err
+}
+
 // Given a SBL hit on a remote IP, try to give us what SBL records were hit.
 func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
-- 
2.43.0


From 3d39db7f7df78a040bc9764a9a9da3294f6d4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:53 +0000
Subject: [PATCH 10/12] fix: report a do-nothing client added after its record
 was filled by a RSET

A client whose record reached exactly -dncount through an abandoned
attempt and whose session then ended without getting anywhere went past
the exact count at the end of the session, so that it was stalled from
then on without the addition being counted or logged anywhere.
---
 sinksmtp.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 770a062..eb2bc56 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -904,7 +904,7 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	var convo *smtpd.Conn
 	var logger *smtpLogger
 	var l2 io.Writer
-	var gotsomewhere, stall, sesscounts bool
+	var gotsomewhere, stall, sesscounts, rsethit bool
 	var cfg smtpd.Config
 
 	defer nc.Close()
@@ -1123,6 +1123,12 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 						// the connection.
 						return
 					}
+					// If this final attempt fails too, it
+					// takes us past the exact hit, so the
+					// addition must still be reported.
+					if cnt == yakCount {
+						rsethit = true
+					}
 				}
 				trans.from = evt.Arg
 				trans.data = ""
@@ -1240,7 +1246,8 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 		// We report yakker addition only once. This is safe even
 		// with multiple sessions happening at once because we know
 		// that *some* session will have exactly hit the yakker count.
-		if cnt == yakCount {
+		// (It may have done so through a RSET instead of here.)
+		if cnt == yakCount || rsethit {
 			writeLog(logger, "! %s added as a yakker at hit %d\n", trans.rip, cnt)
 			events.yakads.Add(1)
 			yakLog(dnlog, trans, prefix, "added")
-- 
2.43.0


From 9eeafd408a592b7c5f1520e3210bf63cb691934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:15 +0000
Subject: [PATCH 11/12] fix: do not let TLS names from clients add lines to
 saved messages and logs

The server name a client asks for and the name in its certificate are
written out as they are, but unlike the arguments of SMTP commands they
can contain newlines. With them a client could put lines like 'from' and
'to' into its saved message, and lines of any session into the SMTP log.
---
 sinksmtp.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index eb2bc56..b7eea5f 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -500,15 +500,29 @@ func tlsProtoVersion(ver uint16) string {
 	}
 }
 
+// tlsClean makes a name that the client gave us during TLS setup safe
+// to put on a line of a saved message or a log. Unlike SMTP arguments,
+// such a name can contain newlines, which would let the client write
+// whole lines of its own.
+func tlsClean(name string) string {
+	b := []byte(name)
+	for i := range b {
+		if b[i] < ' ' || b[i] == 0x7f {
+			b[i] = '?'
+		}
+	}
+	return string(b)
+}
+
 // tlsName returns the (host) name for the peer certificate,
 // either the Subject CommonName if it has one or the first
 // DNS name otherwise (or a complaint).
 func tlsName(cert *x509.Certificate) string {
 	if cert.Subject.CommonName != "" {
-		return cert.Subject.CommonName
+		return tlsClean(cert.Subject.CommonName)
 	}
 	if len(cert.DNSNames) > 0 {
-		return cert.DNSNames[0]
+		return tlsClean(cert.DNSNames[0])
 	}
 	return "<no CN or DNS Names>"
 }
@@ -1174,7 +1188,7 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 			trans.when = time.Now()
 			trans.tlson = convo.TLSOn
 			trans.cipher = convo.TLSState.CipherSuite
-			trans.servername = convo.TLSState.ServerName
+			trans.servername = tlsClean(convo.TLSState.ServerName)
 			trans.tlsversion = convo.TLSState.Version
 			if len(convo.TLSState.VerifiedChains) > 0 {
 				trans.tlsverified = true
-- 
2.43.0


From f5c00acc7ba74110caf9942827416e5708b69505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:49 +0000
Subject: [PATCH 12/12] fix: a dbl hit in sbl.spamhaus.org for an IPv6 client
 does not crash

After a blocklist hit in sbl.spamhaus.org the SBL records of the client's
address are looked up, assuming that it has four octets. 'dnsbl' only hits
for IPv4 clients, but 'dbl' with that zone also does for IPv6 ones, and
then the server panicked.
---
 sinksmtp.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index b7eea5f..2440919 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -723,8 +723,13 @@ func saveFile(dir, hash, prefix string, m []byte) error {
 // Given a SBL hit on a remote IP, try to give us what SBL records were hit.
 func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
-	// since we know this hit, we can omit a lot of checks.
+	// since we know this hit, we can omit a lot of checks. But the hit
+	// may be from 'dbl' instead of 'dnsbl', and then this may be an
+	// IPv6 client.
 	s := strings.Split(t.rip, ".")
+	if len(s) != 4 {
+		return sbls
+	}
 	ln := fmt.Sprintf("%s.%s.%s.%s.sbl.spamhaus.org.", s[3], s[2], s[1], s[0])
 	txts, err := net.LookupTXT(ln)
 	if err != nil {
-- 
2.43.0

