S, R, N, P, L, G, X, D = "sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "conncfg.go", "mxresolve.go", "rdns.go"
M = [
 ("C01", "g01-savedirsync", [(S, "\tif err == nil {\n\t\terr = fp.Sync()\n\t}\n", "\tif err == nil && dir == savedir {\n\t\terr = fp.Sync()\n\t}\n")]),
 ("C01", "g01-syncall", [(S, "\tif err == nil {\n\t\terr = fp.Sync()\n\t}\n", "\tif err == nil && hashtype != \"msg\" {\n\t\terr = fp.Sync()\n\t}\n")]),
 ("C01", "g01-chunk", [(S, "\t_, err = fp.Write(m)\n", "\tfor len(m) > 65536 && err == nil {\n\t\t_, err = fp.Write(m[:65536])\n\t\tm = m[65536:]\n\t}\n\tfp.Write(m)\n")]),
 ("C02", "g02-helolong", [(S, "\t\t\t\ttrans.heloname = evt.Arg\n", "\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\tif len(trans.heloname) > 255 {\n\t\t\t\t\ttrans.heloname = trans.heloname[:255]\n\t\t\t\t}\n")]),
 ("C02", "g02-bodybig", [(S, "io.ReadAll(msg.Body)", "io.ReadAll(io.LimitReader(msg.Body, 1<<20))")]),
 ("C02", "g02-logcap", [(S, "\tlogf.Write(outbuf.Bytes())\n", "\tif outbuf.Len() > 16384 {\n\t\toutbuf.Truncate(16383)\n\t\toutbuf.WriteByte('\\n')\n\t}\n\tlogf.Write(outbuf.Bytes())\n")]),
 ("C02", "g02-databig", [(S, "\t\t\ttrans.data = evt.Arg\n", "\t\t\ttrans.data = evt.Arg\n\t\t\tif len(trans.data) > 2<<20 {\n\t\t\t\ttrans.data = trans.data[:2<<20]\n\t\t\t}\n")]),
 ("C02", "g02-rcpttls", [(S, "\t\t\t\ttrans.from = \"\"\n\t\t\t\ttrans.data = \"\"\n", "\t\t\t\tif !convo.TLSOn {\n\t\t\t\t\ttrans.from = \"\"\n\t\t\t\t}\n\t\t\t\ttrans.data = \"\"\n")]),
 ("C04", "g04-clauses", [(N, "\tfor i := range r.clauses {\n\t\tres :=", "\tfor i := range r.clauses {\n\t\tif i > 5 {\n\t\t\tbreak\n\t\t}\n\t\tres :=")]),
 ("C04", "g04-and8", [(N, "\tfor i := range a.nodes {\n\t\tr = a.nodes[i].Eval(c)\n", "\tfor i := range a.nodes {\n\t\tif i > 5 {\n\t\t\tbreak\n\t\t}\n\t\tr = a.nodes[i].Eval(c)\n")]),
 ("C04", "g04-rcpt20", [(R, "\tfor _, rcpt := range c.trans.rcptto {\n", "\tfor n, rcpt := range c.trans.rcptto {\n\t\tif n >= 20 {\n\t\t\tbreak\n\t\t}\n")]),
 ("C04", "g04-manytrans", [(R, "\tcase pMfrom:\n\t\tc.from = evt.Arg\n", "\tcase pMfrom:\n\t\tc.nfrom++\n\t\tif c.nfrom < 10 {\n\t\t\tc.from = evt.Arg\n\t\t}\n"), (R, "\trulemiss bool\n", "\trulemiss bool\n\tnfrom    int\n")]),
 ("C05", "g05-deep", [(R, "\tsi := &sDotIter{s: host}\n\tfor h := si.Next(); h != \"\"; h = si.Next() {\n", "\tsi := &sDotIter{s: host}\n\tn := 0\n\tfor h := si.Next(); h != \"\" && n < 4; h = si.Next() {\n\t\tn++\n")]),
 ("C05", "g05-deep2", [(R, "\tfor ts != \"@\" {\n", "\tn := 0\n\tfor ts != \"@\" {\n\t\tif n++; n > 6 {\n\t\t\tbreak\n\t\t}\n")]),
 ("C05", "g05-longaddr", [(R, "\taddr = strings.ToLower(addr)\n", "\tif len(addr) > 256 {\n\t\treturn addr == pat\n\t}\n\taddr = strings.ToLower(addr)\n")]),
 ("C06", "g06-long", [(R, "\tif a == \"\" {\n\t\treturn\n\t}\n\tidx :=", "\tif a == \"\" {\n\t\treturn\n\t}\n\tif len(a) > 254 {\n\t\treturn oGarbage\n\t}\n\tidx :=")]),
 ("C07", "g07-ips", [(X, "\tfor _, i := range addrs {\n", "\tfor n, i := range addrs {\n\t\tif n >= 4 {\n\t\t\tbreak\n\t\t}\n")]),
 ("C07", "g07-fwdips", [(D, "\t\tfor _, addr := range addrs {\n", "\t\tfor n, addr := range addrs {\n\t\t\tif n >= 4 {\n\t\t\t\tbreak\n\t\t\t}\n")]),
 ("C08", "g08-third", [(R, "\tcase pMfrom:\n\t\tc.from = evt.Arg\n\t\tc.defresult = aError\n", "\tcase pMfrom:\n\t\tif c.from != \"\" || evt.Arg != \"\" || c.defresult < aAccept {\n\t\t\tc.defresult = aError\n\t\t}\n\t\tc.from = evt.Arg\n")]),
 ("C09", "g09-notetls", [(S, "\tif note := c.withprops[\"note\"]; note != \"\" {\n", "\tif note := c.withprops[\"note\"]; note != \"\" && !(convo.TLSOn && ph == pHelo) {\n")]),
 ("C09", "g09-manynotes", [(S, "\tif note := c.withprops[\"note\"]; note != \"\" {\n", "\tif note := c.withprops[\"note\"]; note != \"\" {\n\t\ttrans.nnotes++\n\t}\n\tif note := c.withprops[\"note\"]; note != \"\" && trans.nnotes < 20 {\n"), (S, "\tforceyakker bool\n", "\tforceyakker bool\n\tnnotes      int\n")]),
 ("C09", "g09-sdempty", [(S, "\t\tc.trans.savedir = sd\n", "\t\tif c.trans.savedir == savedir || ph != pMessage {\n\t\t\tc.trans.savedir = sd\n\t\t}\n")]),
 ("C10", "g10-files", [(S, "\tfor _, rfile = range rulefiles {\n", "\tfor n := range rulefiles {\n\t\tif n > 3 {\n\t\t\tbreak\n\t\t}\n\t\trfile = rulefiles[n]\n")]),
 ("C11", "g11-line255", [(L, "func (l *lexer) lineInfo(pos int) (lnum int, lpos int) {\n", "func (l *lexer) lineInfo(pos int) (lnum int, lpos int) {\n\tdefer func() { lnum = int(uint8(lnum)) }()\n")]),
 ("C11", "g11-longerr", [(P, "\tln, lp := p.l.lineInfo(p.curtok.pos)\n\tvar fnd string\n", "\tln, lp := p.l.lineInfo(p.curtok.pos)\n\tif lp > 200 {\n\t\tln++\n\t}\n\tvar fnd string\n")]),
 ("C14", "g14-longsess", [(S, "\tcase yakCount > 0 && gotsomewhere:\n", "\tcase yakCount > 0 && gotsomewhere && evt.What == smtpd.DONE:\n")]),
 ("C14", "g14-getport", [(S, "\thit, cnt := yakkers.Lookup(trans.rip, yakTimeout)\n", "\thit, cnt := yakkers.Lookup(trans.rip, yakTimeout)\n\tif cnt > 2*yakCount {\n\t\tyakkers.Del(trans.rip)\n\t}\n")]),
 ("C16", "g16-lines", [(G, "\tfor _, de := range *d {\n", "\tfor n, de := range *d {\n\t\tif n >= 8 {\n\t\t\tbreak\n\t\t}\n")]),
 ("C16", "g16-longname", [(G, "\t\tpd.myname = host\n", "\t\tpd.myname = host\n\t\tif len(host) > 64 {\n\t\t\tpd.myname = \"\"\n\t\t}\n")]),
 ("C16", "g16-certs3", [(S, "\tfor i := range clist {\n\t\tcert, err", "\tfor i := range clist {\n\t\tif i > 1 {\n\t\t\tbreak\n\t\t}\n\t\tcert, err")]),
 ("C17", "g17-remark", [(S, "\ts := fmt.Sprintf(format, elems...)\n\tlogger.Write([]byte(s))\n", "\ts := fmt.Sprintf(format, elems...)\n\tif len(s) > 1000 {\n\t\tlogger.Write([]byte(s[:1000] + \"\\n\"))\n\t\treturn\n\t}\n\tlogger.Write([]byte(s))\n")]),
 ("C18", "g18-list", [(S, "\t\ta = append(a, line)\n", "\t\tif len(a) < 100 {\n\t\t\ta = append(a, line)\n\t\t}\n")]),
 ("C19", "g19-locs", [(S, "\tloccounts.Add([]string{laddrstr})\n", "\tif cid < 500 {\n\t\tloccounts.Add([]string{laddrstr})\n\t}\n")]),
 ("C21", "g21-chain", [(S, "\tfor _, cert := range state.PeerCertificates[1:] {\n", "\tfor n, cert := range state.PeerCertificates[1:] {\n\t\tif n > 0 {\n\t\t\tbreak\n\t\t}\n")]),
 ("C21", "g21-snilong", [(S, "tlsClean(convo.TLSState.ServerName)", "tlsClean(fmt.Sprintf(\"%.64s\", convo.TLSState.ServerName))")]),
 ("C21", "g21-verif2", [(S, "\t\t\t\ttrans.tlsverified = (err == nil)\n", "\t\t\t\ttrans.tlsverified = trans.tlsverified || (err == nil && trans.peername != \"\")\n\t\t\t\tif trans.hash != \"\" && trans.from == \"\" {\n\t\t\t\t\ttrans.tlsverified = true\n\t\t\t\t}\n")]),
 ("C12", "g12-trickle", [(S, "\tdefer nc.Close()\n\n\ttrans := &smtpTransaction{}\n", "\tdefer nc.Close()\n\tif cid%16 == 0 {\n\t\tgo func() { select {} }()\n\t}\n\n\ttrans := &smtpTransaction{}\n")]),
 ("C12", "g12-histleak", [(S, "\ttrans := &smtpTransaction{}\n", "\ttrans := &smtpTransaction{}\n\thistMu.Lock()\n\thist = append(hist, trans)\n\thistMu.Unlock()\n"), (S, "var notls = &ipMap{", "var histMu sync.Mutex\nvar hist []*smtpTransaction\nvar notls = &ipMap{")]),
 ("C13", "g13-hb", [(S, "\ttrans.rdns, _ = LookupAddrVerified(trans.rip)\n", "\trdnsMu.Lock()\n\trdnsLast, _ = LookupAddrVerified(trans.rip)\n\trdnsMu.Unlock()\n\trdnsMu.Lock()\n\ttrans.rdns = rdnsLast\n\trdnsMu.Unlock()\n"), (S, "var notls = &ipMap{", "var rdnsMu sync.Mutex\nvar rdnsLast *rDNSResults\nvar notls = &ipMap{")]),
 ("C13", "g13-tmpname", [(S, "\ttmp := dir + \"/.tmp-\" + hash + \"-\" + strings.Replace(prefix, \"/\", \"-\", -1)\n", "\ttmp := dir + \"/.tmp-\" + hash\n")]),
 ("C20", "g20-listen4", [(S, "\tfor i := range clist {\n\t\tcert, err := tls.LoadX509KeyPair(clist[i], klist[i])\n", "\tfor i := range clist {\n\t\tcert, err := tls.LoadX509KeyPair(clist[i], klist[i])\n\t\tif i > 1 && err != nil {\n\t\t\tcontinue\n\t\t}\n")]),
]
