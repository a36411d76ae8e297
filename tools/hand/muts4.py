# Changes that need a particular state, sequence, input or interleaving.
S, R, N, P, L, X, D, G, T = "sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "mxresolve.go", "rdns.go", "conncfg.go", "tlsnames.go"
M = [
 # ---- C01
 ("C01", "d01-secondtrans", [(S, "\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n", "\t\t\tcase err != nil && !gotsomewhere:\n\t\t\t\tconvo.Tempfail()\n")]),
 ("C01", "d01-fullnosync", [(S, "\tif err == nil {\n\t\terr = fp.Sync()\n\t}\n", "\tif err == nil && hashtype == \"all\" {\n\t\terr = fp.Sync()\n\t}\n")]),
 ("C01", "d01-syncbig", [(S, "\tif err == nil {\n\t\terr = fp.Sync()\n\t}\n", "\tif err == nil && len(m) > 4096 {\n\t\terr = fp.Sync()\n\t}\n")]),
 ("C01", "d01-syncignore", [(S, "\tif err == nil {\n\t\terr = fp.Sync()\n\t}\n", "\tif err == nil {\n\t\tfp.Sync()\n\t}\n")]),
 ("C01", "d01-linkerr", [(S, "\t\tif os.IsExist(err) {\n\t\t\terr = nil\n\t\t}\n", "\t\tif os.IsExist(err) || os.IsNotExist(err) {\n\t\t\terr = nil\n\t\t}\n")]),
 ("C01", "d01-ruleaccept", [(S, "\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):", "\t\t\tcase err != nil && c.withprops[\"savedir\"] == \"\":\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):")]),
 ("C01", "d01-decfirst", [(S, "\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n\t\t\t\t// do nothing, already handled\n", "\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n\t\t\t\t// do nothing, already handled\n\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n")]),
 ("C01", "d01-idhash", [(S, "\treturn hash, err\n}\n\n// saveFile", "\tif hashtype == \"full\" && len(trans.rcptto) > 1 {\n\t\treturn trans.hash, err\n\t}\n\treturn hash, err\n}\n\n// saveFile")]),
 ("C01", "d01-emptydata", [(S, "\tif trans.savedir == \"\" {\n\t\treturn trans.hash, nil\n", "\tif trans.savedir == \"\" || trans.data == \"\" {\n\t\treturn trans.hash, nil\n")]),
 ("C01", "d01-lstatdir", [(S, "if _, err := os.Lstat(tgt); err == nil {\n\t\treturn nil", "if _, err := os.Lstat(tgt); !os.IsNotExist(err) {\n\t\treturn nil")]),
 # ---- C02
 ("C02", "d02-rsetrcpt", [(S, "\t\t\t\ttrans.data = \"\"\n\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\tif minphase == \"from\" {", "\t\t\t\ttrans.data = \"\"\n\t\t\t\tif len(trans.rcptto) > 0 {\n\t\t\t\t\ttrans.rcptto = trans.rcptto[:0]\n\t\t\t\t}\n\t\t\t\tif minphase == \"from\" {")]),
 ("C02", "d02-rcptdup", [(S, "\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n", "\t\t\t\tif n := len(trans.rcptto); n == 0 || trans.rcptto[n-1] != evt.Arg {\n\t\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n\t\t\t\t}\n")]),
 ("C02", "d02-rcptmany", [(S, "\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n", "\t\t\t\tif len(trans.rcptto) < 100 {\n\t\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n\t\t\t\t}\n")]),
 ("C02", "d02-heloevil", [(S, "\t\t\t\tevents.ehlo.Add(1)\n\t\t\t\tif decider", "\t\t\t\tevents.ehlo.Add(1)\n\t\t\t\tif trans.heloname != \"\" {\n\t\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\t}\n\t\t\t\tif decider")]),
 ("C02", "d02-fromrej", [(S, "\t\t\t\tevents.mailfrom.Add(1)\n\t\t\t\tif decider(pMfrom, evt, c, convo, \"\", trans) {\n", "\t\t\t\tevents.mailfrom.Add(1)\n\t\t\t\tif decider(pMfrom, evt, c, convo, \"\", trans) {\n\t\t\t\t\ttrans.from = evt.Arg\n")]),
 ("C02", "d02-bodyhash8", [(S, "\tbody, err := io.ReadAll(msg.Body)\n", "\tbody, err := io.ReadAll(io.LimitReader(msg.Body, 1<<16))\n")]),
 ("C02", "d02-bodytrim", [(S, "\tbodyhash = genHash(body)\n", "\tbodyhash = genHash(bytes.TrimRight(body, \"\\n\"))\n")]),
 ("C02", "d02-percent", [(S, "\tfmt.Fprintf(writer, \"body\\n%s\", trans.data)\n", "\tfmt.Fprintf(writer, \"body\\n\"+strings.Replace(trans.data, \"%\", \"%%\", 100))\n")]),
 ("C02", "d02-lognull", [(S, "\tfmt.Fprintf(writer, \"<%s> to\", trans.from)\n", "\tif trans.from == \"\" {\n\t\tfmt.Fprintf(writer, \"<null> to\")\n\t} else {\n\t\tfmt.Fprintf(writer, \"<%s> to\", trans.from)\n\t}\n")]),
 ("C02", "d02-logdnsnofwd", [(S, "writeDNSList(writer, \"remote-dns-nofwd\", trans.rdns.nofwd)", "if len(trans.rdns.verified) == 0 {\n\t\twriteDNSList(writer, \"remote-dns-nofwd\", trans.rdns.nofwd)\n\t}")]),
 ("C02", "d02-logrcpt", [(S, "\tfor _, a := range trans.rcptto {\n\t\tfmt.Fprintf(writer, \" <%s>\", a)\n\t}\n", "\tfor i, a := range trans.rcptto {\n\t\tif i == 50 {\n\t\t\tfmt.Fprintf(writer, \" ...\")\n\t\t\tbreak\n\t\t}\n\t\tfmt.Fprintf(writer, \" <%s>\", a)\n\t}\n")]),
 # ---- C03
 ("C03", "d03-symlink", [(S, "if _, err := os.Lstat(tgt); err == nil {", "if _, err := os.Stat(tgt); err == nil {"), (S, "err = os.Link(tmp, tgt)", "err = os.Rename(tmp, tgt)")]),
 ("C03", "d03-zero", [(S, "if _, err := os.Lstat(tgt); err == nil {\n\t\treturn nil\n\t}\n", "if fi, err := os.Lstat(tgt); err == nil {\n\t\tif fi.Size() > 0 {\n\t\t\treturn nil\n\t\t}\n\t\tos.Remove(tgt)\n\t}\n")]),
 ("C03", "d03-tmpname", [(S, "tmp := dir + \"/.tmp-\" + hash + \"-\" + strings.Replace(prefix, \"/\", \"-\", -1)", "tmp := dir + \"/.tmp-\" + hash")]),
 ("C03", "d03-fullwhen", [(S, "\tfmt.Fprintf(writer, \"remote %s to %v with helo '%s'\\n\", rmsg,\n\t\ttrans.laddr, trans.heloname)\n", "\tif hashtype == \"full\" && trans.tlson {\n\t\trmsg = trans.raddr.String()\n\t}\n\tfmt.Fprintf(writer, \"remote %s to %v with helo '%s'\\n\", rmsg,\n\t\ttrans.laddr, trans.heloname)\n")]),
 # ---- C04
 ("C04", "d04-misssticky", [(N, "\tc.rulemiss = false\n\tfor i := range r.clauses {", "\tfor i := range r.clauses {"), (R, "\t\tc.rulemiss = false\n\t\tif ph > pRto", "\t\tif ph > pRto")]),
 ("C04", "d04-orshort", [(N, "\tr = o.left.Eval(c)\n\tif r {\n\t\treturn r\n\t}\n\treturn o.right.Eval(c)", "\tr = o.left.Eval(c)\n\tif r {\n\t\treturn r\n\t}\n\tif c.rulemiss {\n\t\tc.rulemiss = false\n\t}\n\treturn o.right.Eval(c)")]),
 ("C04", "d04-rcptlast", [(R, "\t\tc.rcptto = rcpt\n\t\tres := r.check(c)\n\t\tif res {\n\t\t\treturn res\n\t\t}\n", "\t\tc.rcptto = rcpt\n\t\tres := r.check(c)\n\t\tif res && (r.deferto == pAny || len(c.trans.rcptto) < 3) {\n\t\t\treturn res\n\t\t}\n")]),
 ("C04", "d04-setwithbreak", [(R, "\t\t\tif r.result >= aAccept {\n\t\t\t\tret = r.result\n\t\t\t\tbreak\n", "\t\t\tif r.result >= aAccept || ph == pData && len(r.clauses) > 1 {\n\t\t\t\tret = r.result\n\t\t\t\tbreak\n")]),
 ("C04", "d04-notparen", [(P, "\tp.consume()\n\texr := &NotN{}\n\texr.node, err = p.pTerm()\n", "\tp.consume()\n\tif p.curtok.typ == itemNot {\n\t\treturn p.pNot()\n\t}\n\texr := &NotN{}\n\texr.node, err = p.pTerm()\n")]),
 ("C04", "d04-requiresor", [(P, "\tif minReq[ct] != pAny && minReq[ct] > p.currule.requires {", "\tif minReq[ct] != pAny && (minReq[ct] > p.currule.requires || p.currule.requires == pRto && len(p.currule.clauses) > 0) {")]),
 ("C04", "d04-stalefrom", [(R, "\tcase pMfrom:\n\t\tc.from = evt.Arg\n", "\tcase pMfrom:\n\t\tif evt.Arg != \"\" || c.from == \"\" || c.defresult < aAccept {\n\t\t\tc.from = evt.Arg\n\t\t}\n")]),
 ("C04", "d04-connmsgrcpt", [(R, "\tfor _, rcpt := range c.trans.rcptto {\n", "\tfor _, rcpt := range c.trans.rcptto[len(c.trans.rcptto)/8:] {\n")]),
 # ---- C05
 ("C05", "d05-filespace", [(S, "\t\tline = strings.ToLower(line)\n\t\ta = append(a, line)\n", "\t\tline = strings.ToLower(line)\n\t\tif i := strings.Index(line, \" #\"); i > 0 {\n\t\t\tline = line[:i]\n\t\t}\n\t\ta = append(a, line)\n")]),
 ("C05", "d05-longline", [(S, "alist, err := readList(bufio.NewReader(fp))", "alist, err := readList(bufio.NewReader(io.LimitReader(fp, 1<<20)))")]),
 ("C05", "d05-unicode", [(R, "\taddr = strings.ToLower(addr)\n\tif (addr", "\taddr = string(bytes.Map(func(r rune) rune {\n\t\tif r >= 'A' && r < 'Z' {\n\t\t\treturn r + 32\n\t\t}\n\t\treturn r\n\t}, []byte(addr)))\n\tif (addr"), (R, "import (\n", "import (\n\t\"bytes\"\n")]),
 ("C05", "d05-hostfirst", [(N, "\t\t\treturn c.trans.rdns.verified\n", "\t\t\tif len(c.trans.rdns.verified) > 3 {\n\t\t\t\treturn c.trans.rdns.verified[:3]\n\t\t\t}\n\t\t\treturn c.trans.rdns.verified\n")]),
 ("C05", "d05-cidr4in6", [(R, "\treturn ipn.Contains(ip)\n}\n\n// ----", "\tif ip.To4() == nil && len(ipn.Mask) == 16 && ipn.Mask[15] == 0xff {\n\t\treturn false\n\t}\n\treturn ipn.Contains(ip)\n}\n\n// ----")]),
 ("C05", "d05-srcnull", [(N, "\treturn m.host.Eval(c) || m.ehlo.Eval(c) || m.from.Eval(c)", "\tif c.from == \"\" {\n\t\treturn m.host.Eval(c)\n\t}\n\treturn m.host.Eval(c) || m.ehlo.Eval(c) || m.from.Eval(c)")]),
 # ---- C06
 ("C06", "d06-helocmd", [(R, "\tif c.helocmd == smtpd.HELO {\n\t\to |= oHelo", "\tif c.helocmd == smtpd.HELO && !c.trans.tlson {\n\t\to |= oHelo")]),
 ("C06", "d06-quotedend", [(R, "\tidx3 := strings.IndexByte(a, '\"')\n\tif idx3 != -1 && idx3 != lp {", "\tidx3 := strings.LastIndexByte(a, '\"')\n\tif idx3 != -1 && idx3 != lp {")]),
 ("C06", "d06-dnsgood", [(R, "\tif o == oExists {\n\t\to |= oGood", "\tif o&oExists != 0 && o&oInconsist == 0 {\n\t\to |= oGood")]),
 ("C06", "d06-remipv6", [(R, "\tcase hip == c.trans.rip:\n", "\tcase hip == c.trans.rip && !strings.Contains(hip, \":\"):\n")]),
 ("C06", "d06-otherip", [(R, "\tcase hip != \"\":\n\t\to |= oOtherip", "\tcase hip != \"\" && o&oProperip == 0:\n\t\to |= oOtherip")]),
 # ---- C07
 ("C07", "d07-mxcase", [(X, "lc := strings.ToLower(m.Host)", "lc := strings.TrimSpace(m.Host)")]),
 ("C07", "d07-secondtemp", [(X, "\t\tif v > valid {\n\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n", "\t\tif v > valid {\n\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n\t\tif valid == dnsGood && len(mxs) > 2 {\n\t\t\tbreak\n\t\t}\n")]),
 ("C07", "d07-172", [(X, "\"172.16.0.0/12\"", "\"172.16.0.0/13\"")]),
 ("C07", "d07-fec0", [(X, "\"FC00::/7\"", "\"FC00::/8\"")]),
 ("C07", "d07-dnsblcase", [(R, "\tres = len(ips) > 0\n\tc.dnsbl[hn] = &res\n", "\tfor _, ip := range ips {\n\t\tif ip.IsLoopback() {\n\t\t\tres = true\n\t\t}\n\t}\n\tc.dnsbl[hn] = &res\n")]),
 ("C07", "d07-dblinc", [(N, "\t\tfor _, s := range c.trans.rdns.inconsist {\n", "\t\tfor _, s := range c.trans.rdns.inconsist[len(c.trans.rdns.inconsist)/2:] {\n")]),
 ("C07", "d07-domstick", [(R, "\tt, err := ValidDomain(domain)\n\tc.domvalid[domain] = &DNSResult{d: t, e: err}\n\treturn *c.domvalid[domain]", "\tt, err := ValidDomain(domain)\n\tif i := strings.IndexByte(domain, '.'); i > 0 && t == dnsBad {\n\t\tc.domvalid[domain[i+1:]] = &DNSResult{d: t, e: err}\n\t}\n\tc.domvalid[domain] = &DNSResult{d: t, e: err}\n\treturn *c.domvalid[domain]")]),
 ("C07", "d07-verany", [(D, "\t\tif err != nil {\n\t\t\tr.nofwd", "\t\tif err != nil && !isTemporary(err) {\n\t\t\tr.nofwd")]),
 # ---- C08
 ("C08", "d08-secondnull", [(R, "\tcase pMfrom:\n\t\tc.from = evt.Arg\n\t\tc.defresult = aError\n", "\tcase pMfrom:\n\t\tif evt.Arg != \"\" || c.from != \"\" {\n\t\t\tc.defresult = aError\n\t\t}\n\t\tc.from = evt.Arg\n")]),
 ("C08", "d08-heloclear", [(R, "\t\tc.heloname = evt.Arg\n\t\tc.defresult = aError\n", "\t\tc.heloname = evt.Arg\n")]),
 ("C08", "d08-props", [(R, "\t\tc.defprops = c.withprops\n\t\tc.defdnsblhit", "\t\tif ret == aReject || c.defprops == nil {\n\t\t\tc.defprops = c.withprops\n\t\t}\n\t\tc.defdnsblhit")]),
 ("C08", "d08-once", [(R, "\t\tc.withprops = c.defprops\n\t\treturn c.defresult\n", "\t\tc.withprops = c.defprops\n\t\tc.defprops = make(map[string]string)\n\t\treturn c.defresult\n")]),
 ("C08", "d08-stallonce", [(R, "\t\tc.withprops = c.defprops\n\t\treturn c.defresult\n", "\t\tc.withprops = c.defprops\n\t\tr := c.defresult\n\t\tif len(c.trans.rcptto) == 0 && r == aStall {\n\t\t\tc.defresult = aStall\n\t\t}\n\t\tif evt.Arg == \"postmaster\" {\n\t\t\treturn aAccept\n\t\t}\n\t\treturn r\n")]),
 # ---- C09
 ("C09", "d09-clausewith", [(N, "\t\tif !res {\n\t\t\tcontinue\n\t\t}\n\t\tfor k, v := range r.clauses[i].withs {", "\t\tif !res {\n\t\t\tcontinue\n\t\t}\n\t\tif _, ok := c.withprops[\"message\"]; ok && r.result == aNoresult && len(r.clauses) > 1 {\n\t\t\treturn res\n\t\t}\n\t\tfor k, v := range r.clauses[i].withs {")]),
 ("C09", "d09-savedirlast", [(S, "if sd := c.withprops[\"savedir\"]; sd != \"\" {", "if sd := c.withprops[\"savedir\"]; sd != \"\" && !(ph == pMessage && c.trans.savedir != savedir) {")]),
 ("C09", "d09-noclienttls", [(S, "convo.Config.TLSConfig.ClientAuth = tls.NoClientCert", "if len(convo.Config.TLSConfig.Certificates) == 1 {\n\t\t\t\tconvo.Config.TLSConfig.ClientAuth = tls.NoClientCert\n\t\t\t}")]),
 ("C09", "d09-notedup", [(S, "\t\twriteLog(c.trans.log, \"! rule note: %s\\n\", note)\n", "\t\tif lmsg := \"! rule note: \" + note + \"\\n\"; lmsg != c.trans.lastmsg {\n\t\t\twriteLog(c.trans.log, \"%s\", lmsg)\n\t\t\tc.trans.lastmsg = lmsg\n\t\t}\n")]),
 ("C09", "d09-msgid", [(S, "\t\tif transid != \"\" {\n\t\t\tmsg += \"\\nAccepted with ID \" + transid\n\t\t}\n", "\t\tif transid != \"\" && !strings.Contains(msg, \"\\n\") {\n\t\t\tmsg += \"\\nAccepted with ID \" + transid\n\t\t}\n")]),
 ("C09", "d09-fmt", [(S, "\t\tconvo.AcceptMsg(\"%s\", msg)\n", "\t\tconvo.AcceptMsg(strings.Replace(msg, \"%\", \"%%\", 1))\n")]),
 ("C09", "d09-fmtstall", [(S, "\t\t\tconvo.TempfailMsg(\"%s\", msg)\n", "\t\t\tconvo.TempfailMsg(msg)\n")]),
 # ---- C10
 ("C10", "d10-incl2", [(P, "\trules, err := loadRules(fname)\n\tif err != nil {\n\t\treturn rules,", "\trules, err := loadRules(fname)\n\tif os.IsNotExist(err) && len(p.currule.clauses) > 0 {\n\t\terr = nil\n\t}\n\tif err != nil {\n\t\treturn rules,"), (P, "import (\n", "import (\n\t\"os\"\n")]),
 ("C10", "d10-emptyfile", [(S, "\tif err != nil {\n\t\treturn nil, err\n\t}\n\trl, err := Parse(string(b))\n", "\tif err != nil {\n\t\treturn nil, err\n\t}\n\tif len(b) == 0 {\n\t\treturn nil, io.ErrUnexpectedEOF\n\t}\n\trl, err := Parse(string(b))\n")]),
 ("C10", "d10-warnlast", [(S, "\t\tif nmsg != lastmsg {\n", "\t\tif nmsg != lastmsg && !strings.HasPrefix(nmsg, lastmsg+\" \") || lastmsg == \"\" {\n")]),
 ("C10", "d10-first", [(S, "\t\tif err != nil {\n\t\t\tbreak\n\t\t}\n\t}\n\tif err == nil {\n\t\treturn rules, true", "\t\tif err != nil && (len(rulefiles) == 1 || !os.IsNotExist(err)) {\n\t\t\tbreak\n\t\t}\n\t}\n\tif err == nil {\n\t\treturn rules, true")]),
 ("C10", "d10-stallok", [(R, "\tif c.files[fname] != nil {\n\t\treturn c.files[fname]\n\t}\n", "\tif len(c.files[fname]) > 0 {\n\t\treturn c.files[fname]\n\t}\n")]),
 # ---- C11
 ("C11", "d11-tabcont", [(L, "\tcase r == '\\\\' && strings.HasPrefix(l.input[l.pos:], \"\\\\\\n\"):\n\t\tl.pos += 2\n\t\tl.swallow()\n\t\treturn lexLineRunning", "\tcase r == '\\\\' && strings.HasPrefix(l.input[l.pos:], \"\\\\\\n\"):\n\t\tl.pos += 2\n\t\tl.swallow()\n\t\treturn lexLineStart")]),
 ("C11", "d11-crlf", [(L, "\t\tif !(r == ' ' || r == '\\t') {", "\t\tif !(r == ' ' || r == '\\t' || r == '\\r') {")]),
 ("C11", "d11-dupmsg", [(P, "\t\t\tif rc.withs[cv] != \"\" {", "\t\t\tif rc.withs[cv] != \"\" && ct != itemSavedir {")]),
 ("C11", "d11-cidrhost", [(P, "err != nil && net.ParseIP(arg) == nil {", "err != nil && net.ParseIP(strings.TrimSuffix(arg, \".\")) == nil {")]),
 ("C11", "d11-secondclause", [(P, "\t\tif p.currule.result == aNoresult && len(rc.withs) == 0 {", "\t\tif p.currule.result == aNoresult && len(p.currule.clauses[0].withs) == 0 {")]),
 ("C11", "d11-deferlate", [(P, "if p.currule.deferto != pAny && p.currule.deferto < p.currule.requires {", "if p.currule.deferto != pAny && p.currule.deferto < p.currule.requires && len(p.currule.clauses) == 1 {")]),
 ("C11", "d11-parenor", [(P, "\t\tif p.isERule() || p.curtok.typ == itemRparen {\n\t\t\treturn nil, p.posError(\"empty right side of an OR\")\n\t\t}\n\t\treturn nil, p.genError(\"expecting match operation\")\n", "\t\tif p.isERule() || p.curtok.typ == itemRparen {\n\t\t\treturn nil, p.posError(\"empty right side of an OR\")\n\t\t}\n\t\tif p.curtok.typ == itemWith {\n\t\t\treturn exp.left, nil\n\t\t}\n\t\treturn nil, p.genError(\"expecting match operation\")\n")]),
 ("C11", "d11-lineq", [(L, "\tl.items <- item{itemValue, s, l.start}\n", "\tl.items <- item{itemValue, s, l.pos - 1}\n")]),
]
