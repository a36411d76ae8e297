S, R, N, P, L, X, D, G, T = "sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "mxresolve.go", "rdns.go", "conncfg.go", "tlsnames.go"
M = [
 # ---- C13
 ("C13", "c13-append", [(S, "append(baserules[:len(baserules):len(baserules)], rules...)", "append(baserules, rules...)")]),
 ("C13", "c13-globaltls", [(S, "\t\tvar tlsc tls.Config\n\t\ttlsc.Certificates = certs\n", "\t\ttlsc := &sharedTLS\n\t\ttlsc.Certificates = certs\n\t\ttlsc.ClientAuth = tls.NoClientCert\n"), (S, "cfg.TLSConfig = &tlsc", "cfg.TLSConfig = tlsc"), (S, "// Process a single connection.\n", "var sharedTLS tls.Config\n\n// Process a single connection.\n")]),
 ("C13", "c13-nolocklookup", [(S, "\ti.Lock()\n\t// we defer the unlock because we now increment stats later.\n\tdefer i.Unlock()\n\tt := i.ips[ip]\n\ti.stats.Lookup++", "\ti.Lock()\n\tt := i.ips[ip]\n\ti.stats.Lookup++\n\ti.Unlock()")]),
 ("C13", "c13-stats", [(S, "\tdc.Lock()\n\tdefer dc.Unlock()\n\tnm := make", "\tnm := make")]),
 ("C13", "c13-statsret", [(S, "\tnm := make(map[string]uint64)\n\tfor k, v := range dc.dbls {\n\t\tnm[k] = v\n\t}\n\treturn nm", "\treturn dc.dbls")]),
 ("C13", "c13-domglobal", [(R, "\tc.domvalid = make(map[string]*DNSResult)\n", "\tc.domvalid = globDom\n"), (R, "func newContext(", "var globDom = make(map[string]*DNSResult)\n\nfunc newContext(")]),
 ("C13", "c13-filesglobal", [(R, "\tc.files = make(map[string][]string)\n", "\tc.files = globFiles\n"), (R, "func newContext(", "var globFiles = make(map[string][]string)\n\nfunc newContext(")]),
 ("C13", "c13-buf", [(S, "\tvar outbuf bytes.Buffer\n\twriter := bufio.NewWriter(&outbuf)\n\tfmt.Fprintf(writer, \"%s [%s] from %v / \",", "\toutbuf := &logBuf\n\toutbuf.Reset()\n\twriter := bufio.NewWriter(outbuf)\n\tfmt.Fprintf(writer, \"%s [%s] from %v / \","), (S, "func logMessage(", "var logBuf bytes.Buffer\n\nfunc logMessage(")]),
 ("C13", "c13-yakcnt", [(S, "\tcnt := t.count\n\ti.Unlock()\n\treturn cnt\n", "\ti.Unlock()\n\treturn t.count\n")]),
 ("C13", "c13-statsip", [(S, "\ti.Lock()\n\tdefer i.Unlock()\n\ti.stats.Size = len(i.ips)\n\treturn i.stats", "\ti.Lock()\n\ti.stats.Size = len(i.ips)\n\ti.Unlock()\n\treturn i.stats")]),
 ("C13", "c13-sortshared", [(S, "\tsort.Strings(c.dnsblhit)\n\tlmsg", "\tsort.Strings(c.dnsblhit)\n\tsort.SliceStable(c.ruleset, func(i, j int) bool { return false })\n\tif len(c.ruleset) > 1 {\n\t\tc.ruleset[0] = c.ruleset[0]\n\t}\n\tlmsg")]),
 ("C13", "c13-goprocess", [(S, "\t\tgo process(cid, nc, certs, logf, slogf, dnlogf, baserules)\n", "\t\tgo func() { process(cid, nc, certs, logf, slogf, dnlogf, baserules) }()\n")]),
 # ---- C14
 ("C14", "c14-off1", [(S, "hit && cnt >= yakCount && smtplog", "hit && cnt > yakCount && smtplog")]),
 ("C14", "c14-tlserr", [(S, "\t\t\tsesscounts = false\n\t\t\tevents.tlserrs", "\t\t\tevents.tlserrs")]),
 ("C14", "c14-nodel", [(S, "case yakCount > 0 && gotsomewhere:", "case yakCount > 0 && gotsomewhere && sesscounts:")]),
 ("C14", "c14-rules", [(S, "sesscounts = rulesgood && yakCount > 0", "sesscounts = yakCount > 0")]),
 ("C14", "c14-dropcount", [(S, "\t\tif !stall {\n\t\t\twriteLog(logger, \"! %s dropped", "\t\tif sesscounts {\n\t\t\tyakkers.Add(trans.rip, yakTimeout)\n\t\t}\n\t\tif !stall {\n\t\t\twriteLog(logger, \"! %s dropped")]),
 ("C14", "c14-setttl", [(S, "\tt.when = time.Now()\n\tocnt := t.count\n\tt.count = cnt\n", "\tocnt := t.count\n\tt.count = cnt\n\tif ocnt < cnt {\n\t\tt.when = time.Now()\n\t}\n")]),
 ("C14", "c14-rsetgt", [(S, "if cnt > yakCount {\n\t\t\t\t\t\t// We may", "if cnt >= yakCount {\n\t\t\t\t\t\t// We may")]),
 ("C14", "c14-rsetnull", [(S, "if trans.from != \"\" && !gotsomewhere && sesscounts {", "if len(trans.rcptto) == 0 && trans.from != \"\" && !gotsomewhere && sesscounts {")]),
 ("C14", "c14-lookupref", [(S, "\t\ti.stats.LookupHit++\n\t\treturn true, t.count", "\t\ti.stats.LookupHit++\n\t\tt.when = time.Now()\n\t\treturn true, t.count")]),
 ("C14", "c14-port", [(S, "\tcase !gotsomewhere && sesscounts:\n\t\tcnt = yakkers.Add(trans.rip, yakTimeout)", "\tcase !gotsomewhere && sesscounts:\n\t\tcnt = yakkers.Add(strings.TrimPrefix(trans.rip, \"::ffff:\"), yakTimeout)\n\t\tif strings.Contains(trans.rip, \":\") {\n\t\t\tyakkers.Del(trans.rip)\n\t\t}")]),
 ("C14", "c14-stallagain", [(S, "\t\tc = newContext(trans, stallall)\n\t\tstall = true\n\t\tsesscounts = false\n", "\t\tc = newContext(trans, stallall)\n\t\tstall = true\n\t\tsesscounts = rulesgood\n")]),
 ("C14", "c14-slow", [(S, "if goslow || stall {", "if goslow {")]),
 ("C14", "c14-minacc", [(S, "\t\t\t\tif minphase == \"accepted\" {\n\t\t\t\t\tgotsomewhere = true\n\t\t\t\t}\n\t\t\t\tdoAccept", "\t\t\t\tgotsomewhere = true\n\t\t\t\tdoAccept")]),
 ("C14", "c14-mindata", [(S, "\t\t\t\tevents.data.Add(1)\n\t\t\t\tif decider(pData", "\t\t\t\tevents.data.Add(1)\n\t\t\t\tif minphase == \"data\" {\n\t\t\t\t\tgotsomewhere = true\n\t\t\t\t}\n\t\t\t\tif decider(pData")]),
 ("C14", "c14-saveerr", [(S, "\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n", "\t\t\t\tconvo.Tempfail()\n")]),
 ("C14", "c14-force", [(S, "\tcase trans.forceyakker:\n", "\tcase trans.forceyakker && !gotsomewhere:\n")]),
 ("C14", "c14-addexp", [(S, "\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++", "\tcase time.Since(t.when) >= ttl:\n\t\tt.count--\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++")]),
 ("C14", "c14-window", [(S, "\tt.count++\n\tt.when = time.Now()\n", "\tt.count++\n\tif t.count == 1 {\n\t\tt.when = time.Now()\n\t}\n")]),
 ("C14", "c14-stalllog", [(S, "if smtplog != nil && !stall {", "if smtplog != nil && (!stall || !rulesgood) {")]),
 # ---- C15
 ("C15", "c15-three", [(S, "if len(certs) > 0 && !(blocktls && blcount >= 2) {", "if len(certs) > 0 && !(blocktls && blcount > 2) {")]),
 ("C15", "c15-cert1", [(S, "\t\tif blcount == 0 {\n\t\t\ttlsc", "\t\tif blcount < 2 {\n\t\t\ttlsc")]),
 ("C15", "c15-del", [(S, "\t\tyakkers.Del(trans.rip)\n", "\t\tyakkers.Del(trans.rip)\n\t\tnotls.Del(trans.rip)\n")]),
 ("C15", "c15-succ", [(S, "\t\t\t\t\tevents.tlson.Add(1)\n\t\t\t\t\tevents.starttls.Add(1)\n", "\t\t\t\t\tevents.tlson.Add(1)\n\t\t\t\t\tevents.starttls.Add(1)\n\t\t\t\t\tif blcount == 1 {\n\t\t\t\t\t\tnotls.Del(trans.rip)\n\t\t\t\t\t}\n")]),
 ("C15", "c15-refresh", [(S, "\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n", "\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n\tif blocktls && blcount >= 2 {\n\t\tnotls.Set(trans.rip, tlsTimeout, blcount)\n\t}\n")]),
 ("C15", "c15-lt", [(S, "const tlsTimeout = time.Hour * 72", "const tlsTimeout = time.Hour * 71")]),
 ("C15", "c15-early", [(S, "\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n", "\tblocktls, blcount := notls.Lookup(trans.lip, tlsTimeout)\n"), (S, "notls.Add(trans.rip, tlsTimeout)", "notls.Add(trans.lip, tlsTimeout)")]),
 ("C15", "c15-conncfg", [(S, "if len(certs) > 0 && !(blocktls && blcount >= 2) {", "if len(certs) > 0 && !(blocktls && blcount >= 2 && connfile == \"\") {")]),
 ("C15", "c15-addset", [(S, "notls.Add(trans.rip, tlsTimeout)", "notls.Set(trans.rip, tlsTimeout, blcount+1)")]),
 ("C15", "c15-stall", [(S, "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n", "\t\t\tif sesscounts || yakCount == 0 {\n\t\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\t}\n")]),
 # ---- C16
 ("C16", "c16-last", [(G, "\t\tif de.local == \"*\" || de.local == las {\n\t\t\treturn de\n\t\t}", "\t\tif de.local == las {\n\t\t\treturn de\n\t\t}\n\t\tif de.local == \"*\" {\n\t\t\tstar = de\n\t\t\tcontinue\n\t\t}"), (G, "\tfor _, de := range *d {", "\tvar star *perDest\n\tfor _, de := range *d {"), (G, "\t\t\treturn de\n\t\t}\n\t}\n\treturn nil\n}", "\t\t\treturn de\n\t\t}\n\t}\n\treturn star\n}")]),
 ("C16", "c16-certs", [(S, "\t\t\tcerts = pd.certs\n", "\t\t\tif len(pd.certs) > 0 || pd.myname == \"\" {\n\t\t\t\tcerts = pd.certs\n\t\t\t}\n")]),
 ("C16", "c16-name", [(S, "\t\t\tif pd.myname != \"\" {\n\t\t\t\tsname = pd.myname\n\t\t\t}", "\t\t\tif pd.myname != \"\" && srvname == \"\" {\n\t\t\t\tsname = pd.myname\n\t\t\t}")]),
 ("C16", "c16-trail", [(S, "\t\t\tif sname[len(sname)-1] == '.' {\n\t\t\t\tsname = sname[:len(sname)-1]\n\t\t\t}\n", "")]),
 ("C16", "c16-errpart", [(G, "\t\t\treturn nil, fmt.Errorf(\"too many fields in line %d\", lnum)", "\t\t\treturn &d, fmt.Errorf(\"too many fields in line %d\", lnum)")]),
 ("C16", "c16-errpart2", [(G, "\t\t\t\treturn nil, fmt.Errorf(\"error loading TLS", "\t\t\t\treturn &d, fmt.Errorf(\"error loading TLS")]),
 ("C16", "c16-v6", [(G, "if ip.Equal(net.ParseIP(de.local)) {", "if lip == de.local {")]),
 ("C16", "c16-order", [(G, "\t\td = append(d, pd)\n", "\t\tif pd.local == \"*\" || strings.Contains(pd.local, \"/\") {\n\t\t\td = append(d, pd)\n\t\t} else {\n\t\t\td = append(destMap{pd}, d...)\n\t\t}\n")]),
 ("C16", "c16-equals", [(G, "strings.SplitN(s, \"=\", 2)", "strings.Split(s, \"=\")")]),
 ("C16", "c16-hostlost", [(G, "\t\tvar host, cert, key string\n", ""), (G, "\tlnum := 0\n", "\tlnum := 0\n\tvar host, cert, key string\n")]),
 ("C16", "c16-hostlost2", [(G, "\t\tvar host, cert, key string\n", "\t\tvar cert, key string\n"), (G, "\tlnum := 0\n", "\tlnum := 0\n\tvar host string\n")]),
 ("C16", "c16-delay", [(S, "if goslow || stall {", "if goslow != stall {")]),
 ("C16", "c16-cached", [(S, "\t\tdm, err := loadConnFile(connfile)\n", "\t\tdm, err := loadConnFile(connfile)\n\t\tconnMu.Lock()\n\t\tif err == nil {\n\t\t\tlastConn = dm\n\t\t} else {\n\t\t\tdm = lastConn\n\t\t}\n\t\tconnMu.Unlock()\n"), (S, "// Process a single connection.\n", "var connMu sync.Mutex\nvar lastConn *destMap\n\n// Process a single connection.\n")]),
 ("C16", "c16-servername", [(S, "\t\t\tsname = nlst[0]\n", "\t\t\tsname = nlst[len(nlst)-1]\n\t\t\tif rd, _ := LookupAddrVerified(lip); len(rd.verified) == 0 {\n\t\t\t\tsname = laddrstr + \".\"\n\t\t\t}\n")]),
 # ---- C17
 ("C17", "c17-noflush", [(S, "\tn, err = log.writer.Write(buf)\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}", "\tn, err = log.writer.Write(buf)\n\tif err == nil && log.writer.Buffered() > 256 {\n\t\terr = log.writer.Flush()\n\t}")]),
 ("C17", "c17-cid", [(S, "\t\tcid++\n", "\t\tcid = (cid + 1) % 64\n")]),
 ("C17", "c17-two", [(S, "\tbuf = append(buf, log.prefix...)\n\tbuf = append(buf, b...)\n\tn, err = log.writer.Write(buf)\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}", "\tbuf = append(buf, log.prefix...)\n\tlog.writer.Write(buf)\n\tlog.writer.Flush()\n\tn, err = log.writer.Write(b)\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}")]),
 ("C17", "c17-small", [(S, "bufio.NewWriterSize(smtplog, 8*1024)", "bufio.NewWriterSize(smtplog, 128)"), (S, "\tbuf = append(buf, log.prefix...)\n\tbuf = append(buf, b...)\n\tn, err = log.writer.Write(buf)", "\tlog.writer.Write(log.prefix)\n\tn, err = log.writer.Write(b)\n\t_ = buf")]),
 ("C17", "c17-yaklog", [(S, "\tfmt.Fprintf(dnlog, \"%s [%s] %s %s -> %s\\n\", time.Now().Format(TimeNZ),\n\t\tprefix, what, trans.rip, trans.laddr)", "\tfmt.Fprintf(dnlog, \"%s [%s] \", time.Now().Format(TimeNZ), prefix)\n\tfmt.Fprintf(dnlog, \"%s %s -> %s\\n\", what, trans.rip, trans.laddr)")]),
 ("C17", "c17-msglog", [(S, "\tlogf.Write(outbuf.Bytes())\n", "\tb := outbuf.Bytes()\n\tfor len(b) > 1024 {\n\t\tlogf.Write(b[:1024])\n\t\tb = b[1024:]\n\t}\n\tlogf.Write(b)\n")]),
 ("C17", "c17-trunc", [(S, "os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)", "os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)")]),
 ("C17", "c17-trunc2", [(S, "os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)", "os.O_WRONLY|os.O_CREATE, 0666)")]),
 ("C17", "c17-maxline", [(S, "\tbuf = append(buf, b...)\n", "\tif len(b) > 4096 {\n\t\tb = append(b[:4095:4095], '\\n')\n\t}\n\tbuf = append(buf, b...)\n")]),
 # ---- C18
 ("C18", "c18-order", [(S, "\trules = baserules\n\tfor _, rfile = range rulefiles {", "\trules = nil\n\tfor _, rfile = range rulefiles {"), (S, "\tif err == nil {\n\t\treturn rules, true\n\t}\n\n\t// Our rule", "\tif err == nil {\n\t\treturn append(rules[:len(rules):len(rules)], baserules...), true\n\t}\n\n\t// Our rule")]),
 ("C18", "c18-mlast", [(S, "\t\tfmt.Fprintf(&outbuf, \"@message reject all\\n\")", "\t\tfmt.Fprintf(&outbuf, \"@message reject to @\\n\")")]),
 ("C18", "c18-mdata", [(S, "\t\tfmt.Fprintf(&outbuf, \"@message reject all\\n\")", "\t\tfmt.Fprintf(&outbuf, \"@data reject all\\n\")")]),
 ("C18", "c18-heloph", [(S, "\"@from reject helo file:%s\\n\"", "\"reject helo file:%s\\n\"")]),
 ("C18", "c18-fromph", [(S, "\"reject from file:%s\\n\"", "\"@to reject from file:%s\\n\"")]),
 ("C18", "c18-tobad", [(S, "\"reject to-has bad,route\\n\"", "\"reject to-has noat,garbage,route\\n\"")]),
 ("C18", "c18-toaccdata", [(S, "\"reject not to file:%s\\n\"", "\"@data reject not to file:%s\\n\"")]),
 ("C18", "c18-helonone", [(S, "\t\tfmt.Fprintf(&outbuf, \"reject helo-has none\\n\")\n\t}\n", "\t\tif heloreject == \"\" {\n\t\t\tfmt.Fprintf(&outbuf, \"reject helo-has none\\n\")\n\t\t}\n\t}\n")]),
 ("C18", "c18-nostd", [(S, "\tif stdrules {\n", "\tif stdrules || toaccept != \"\" {\n")]),
 ("C18", "c18-files", [(S, "\t\trulefiles = strings.Split(rfiles, \",\")\n", "\t\trulefiles = strings.Split(rfiles, \",\")\n\t\tsort.Strings(rulefiles)\n")]),
 # ---- C19
 ("C19", "c19-ehloacc", [(S, "\t\t\t\tif convo.TLSOn && !trans.tlson {\n\t\t\t\t\tevents.tlson.Add(1)", "\t\t\t\tif convo.TLSOn {\n\t\t\t\t\tevents.tlson.Add(1)")]),
 ("C19", "c19-rcpt", [(S, "\t\t\t\tdoAccept(convo, c, \"\")\n\t\t\t\tevents.rcpttoAccept.Add(1)", "\t\t\t\tdoAccept(convo, c, \"\")\n\t\t\t\tif len(trans.rcptto) < 8 {\n\t\t\t\t\tevents.rcpttoAccept.Add(1)\n\t\t\t\t}")]),
 ("C19", "c19-abort", [(S, "\t\t\t} else {\n\t\t\t\tevents.aborts.Add(1)\n\t\t\t}\n\t\t\tbreak", "\t\t\t} else if !rsethit {\n\t\t\t\tevents.aborts.Add(1)\n\t\t\t}\n\t\t\tbreak")]),
 ("C19", "c19-race", [(S, "\tfor i := range dbls {\n\t\tt := dc.dbls[dbls[i]]\n\t\tt++\n\t\tdc.dbls[dbls[i]] = t\n\t}\n\tdc.Unlock()", "\tcur := make([]uint64, len(dbls))\n\tfor i := range dbls {\n\t\tcur[i] = dc.dbls[dbls[i]]\n\t}\n\tdc.Unlock()\n\tdc.Lock()\n\tfor i := range dbls {\n\t\tdc.dbls[dbls[i]] = cur[i] + 1\n\t}\n\tdc.Unlock()")]),
 ("C19", "c19-notls", [(S, "\tif blocktls && blcount >= 2 {\n\t\t// We don't", "\tif blocktls && blcount >= 2 && len(certs) > 1 {\n\t\t// We don't")]),
 ("C19", "c19-ruleserr", [(S, "\tevents.ruleserr.Add(1)\n\treturn stallall, false", "\tif len(rules) > len(baserules) || len(rulefiles) == 1 {\n\t\tevents.ruleserr.Add(1)\n\t}\n\treturn stallall, false")]),
 ("C19", "c19-dblrepeat", [(S, "\tif lmsg == c.trans.lastmsg {\n\t\treturn\n\t}\n\tc.trans.log.Write([]byte(lmsg))", "\tif lmsg == c.trans.lastmsg {\n\t\tdblcounts.Add(c.dnsblhit)\n\t\treturn\n\t}\n\tc.trans.log.Write([]byte(lmsg))")]),
 ("C19", "c19-force2", [(S, "\t\tif cnt != yakCount {\n\t\t\twriteLog", "\t\tif cnt < yakCount || cnt > 0 {\n\t\t\twriteLog")]),
 ("C19", "c19-rsets", [(S, "\t\t\t\t\tevents.rsets.Add(1)\n", "")]),
 ("C19", "c19-yakadd", [(S, "\t\t\t\t\tif cnt == yakCount {\n\t\t\t\t\t\trsethit = true\n\t\t\t\t\t}", "")]),
 ("C19", "c19-tlserr", [(S, "\t\t\tevents.tlserrs.Add(1)\n\t\t\tevents.starttls.Add(1)\n", "\t\t\tevents.tlserrs.Add(1)\n")]),
 ("C19", "c19-messages", [(S, "\t\t\tevents.messages.Add(1)\n", ""), (S, "\t\t\t\tdoAccept(convo, c, transid)\n", "\t\t\t\tevents.messages.Add(1)\n\t\t\t\tdoAccept(convo, c, transid)\n")]),
 ("C19", "c19-sbl", [(S, "\t\t\t\tsblcounts.Add(sbls)\n", "\t\t\t\tsblcounts.Add(sbls[:1])\n")]),
 # ---- C20
 ("C20", "c20-msgl", [(S, "if hashtype == \"msg\" && logfile == \"\" {", "if hashtype == \"msg\" && logfile == \"\" && smtplogfile == \"\" {")]),
 ("C20", "c20-force", [(S, "if savedir == \"\" && !(force || failgotdata) {", "if savedir == \"\" && !(force || failgotdata || rfiles != \"\") {")]),
 ("C20", "c20-dnlog", [(S, "if dnlogfile != \"\" && yakCount == 0 {", "if dnlogfile != \"\" && yakCount == 0 && smtplogfile == \"\" {")]),
 ("C20", "c20-savetest", [(S, "\t\tfp.Close()\n\t\tos.Remove(tstfile)\n", "\t\tfp.Close()\n\t\tif hashtype == \"all\" {\n\t\t\tos.Remove(tstfile)\n\t\t}\n")]),
 ("C20", "c20-minph", [(S, "\tcase \"from\", \"to\", \"data\", \"message\", \"accepted\", \"helo\":", "\tcase \"from\", \"to\", \"data\", \"message\", \"accepted\", \"helo\", \"\":")]),
 ("C20", "c20-certnum", [(S, "if len(clist) != len(klist) {", "if len(clist) > len(klist) {")]),
 ("C20", "c20-listen", [(S, "\t\tif err != nil {\n\t\t\tdie(\"error listening to tcp!%s: %s\\n\", flag.Arg(i), err)\n\t\t}", "\t\tif err != nil {\n\t\t\tif i > 0 {\n\t\t\t\twarnf(\"error listening to tcp!%s: %s\\n\", flag.Arg(i), err)\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tdie(\"error listening to tcp!%s: %s\\n\", flag.Arg(i), err)\n\t\t}")]),
 ("C20", "c20-exit0", [(S, "\twarnf(format, elems...)\n\tos.Exit(1)", "\twarnf(format, elems...)\n\tif strings.Contains(format, \"listening\") {\n\t\tos.Exit(0)\n\t}\n\tos.Exit(1)")]),
 ("C20", "c20-conn", [(S, "\tif connfile != \"\" {\n\t\t_, err := loadConnFile(connfile)\n\t\tif err != nil {", "\tif connfile != \"\" {\n\t\t_, err := loadConnFile(connfile)\n\t\tif err != nil && len(certs) == 0 {")]),
 ("C20", "c20-rules", [(S, "\tif !isgood {\n", "\tif !isgood && len(rulefiles) < 2 {\n")]),
 ("C20", "c20-serveearly", [(S, "\tlistenc := make(chan net.Conn)\n", "\tlistenc := make(chan net.Conn)\n\tgo func() {\n\t\tcid := 1\n\t\tfor {\n\t\t\tnc := <-listenc\n\t\t\tevents.connections.Add(1)\n\t\t\tgo process(cid, nc, certs, logf, slogf, dnlogf, baserules)\n\t\t\tcid++\n\t\t}\n\t}()\n"), (S, "\tcid := 1\n\tfor {\n\t\tnc := <-listenc\n\t\tevents.connections.Add(1)\n\t\tupdateTimeOf(\"connection\", nc.LocalAddr().String())\n\t\tgo process(cid, nc, certs, logf, slogf, dnlogf, baserules)\n\t\tcid++\n\t}\n", "\tselect {}\n")]),
 ("C20", "c20-logdir", [(S, "\tif err != nil {\n\t\tdie(\"error opening logfile '%s': %v\\n\", logfile, err)\n\t}", "\tif err != nil {\n\t\twarnf(\"error opening logfile '%s': %v\\n\", logfile, err)\n\t\tlogf = nil\n\t}")]),
 # ---- C21
 ("C21", "c21-cipher", [(T, "0x1302: \"TLSv1.3:TLS_AES_256_GCM_SHA384:256\"", "0x1302: \"TLSv1.3:TLS_AES_128_GCM_SHA256:128\"")]),
 ("C21", "c21-c02f", [(T, "0xC02B: \"TLSv1.2:ECDHE-ECDSA-AES128-GCM-SHA256:128\"", "0xC02B: \"TLSv1.2:ECDH-ECDSA-AES128-GCM-SHA256:128\"")]),
 ("C21", "c21-tls12", [(S, "\tcase 0x0303: // tls.VersionTLS12\n\t\treturn \"TLSv1.2\"", "\tcase 0x0303: // tls.VersionTLS12\n\t\treturn \"TLSv1.3\"")]),
 ("C21", "c21-tls10", [(S, "\t\treturn \"TLSv1.0\"", "\t\treturn \"TLSv1\"")]),
 ("C21", "c21-tlsonearly", [(S, "\t\t\t\tif convo.TLSOn && !trans.tlson {", "\t\t\t\tif trans.heloname != \"\" && convo.TLSOn && !trans.tlson && evt.Cmd == smtpd.EHLO {")]),
 ("C21", "c21-verified", [(S, "\t\t\t\ttrans.tlsverified = (err == nil)\n", "\t\t\t\ttrans.tlsverified = err == nil || len(convo.TLSState.PeerCertificates) > 2\n")]),
 ("C21", "c21-usage", [(S, "KeyUsages:     []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth},", "KeyUsages:     []x509.ExtKeyUsage{x509.ExtKeyUsageAny},")]),
 ("C21", "c21-expired", [(S, "\t\tIntermediates: x509.NewCertPool(),", "\t\tCurrentTime:   state.PeerCertificates[0].NotBefore.Add(1),\n\t\tIntermediates: x509.NewCertPool(),")]),
 ("C21", "c21-interm", [(S, "\tfor _, cert := range state.PeerCertificates[1:] {\n\t\topts.Intermediates.AddCert(cert)\n\t}\n", "")]),
 ("C21", "c21-dnsname", [(S, "\tif len(cert.DNSNames) > 0 {\n\t\treturn tlsClean(cert.DNSNames[0])\n\t}", "\tif len(cert.DNSNames) > 0 {\n\t\treturn tlsClean(cert.DNSNames[len(cert.DNSNames)-1])\n\t}")]),
 ("C21", "c21-logtls", [(S, "trans.cipher, trans.tlsversion)\n\t}\n\tfmt.Fprintf(writer, \"\\n\")\n\twriter.Flush()\n\tlogf.Write", "trans.tlsversion, trans.cipher)\n\t}\n\tfmt.Fprintf(writer, \"\\n\")\n\twriter.Flush()\n\tlogf.Write")]),
 ("C21", "c21-sni", [(S, "trans.servername = tlsClean(convo.TLSState.ServerName)", "trans.servername = tlsClean(cfg.LocalName)\n\t\t\tif convo.TLSState.ServerName == \"\" {\n\t\t\t\ttrans.servername = \"\"\n\t\t\t}")]),
 ("C21", "c21-keephelo", [(S, "\t\t\t\tevents.mailfrom.Add(1)\n", "\t\t\t\tevents.mailfrom.Add(1)\n\t\t\t\ttrans.tlson = convo.TLSOn && trans.from == \"\"\n")]),
 ("C21", "c21-peerlog", [(S, "tlsClientLog(convo.TLSState, logger)", "tlsClientLog(convo.TLSState, logger)\n\t\t\t\t\tc.ruleset = rules")]),
 ("C21", "c21-clean", [(S, "if b[i] < ' ' || b[i] == 0x7f {", "if b[i] == '\\n' && i > 0 {")]),
 ("C21", "c21-clean2", [(S, "return tlsClean(cert.DNSNames[0])", "return cert.DNSNames[0]")]),
]
