S, R, N, P, L, X, D, G, T = "sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "mxresolve.go", "rdns.go", "conncfg.go", "tlsnames.go"
M = [
 # ---- C07
 ("C07", "c07-servfail", [(X, "if e.Temporary() || e.Err == serverrstr {", "if e.Temporary() {")]),
 ("C07", "c07-timeout", [(X, "if e.Temporary() || e.Err == serverrstr {", "if e.Err == serverrstr {")]),
 ("C07", "c07-bestres", [(X, "if v > valid {", "if v > valid || v == dnsTempfail {")]),
 ("C07", "c07-anyip", [(X, "\tfor _, i := range addrs {\n\t\tif !i.IsGlobalUnicast() {", "\tfor _, i := range addrs[:1] {\n\t\tif !i.IsGlobalUnicast() {")]),
 ("C07", "c07-172", [(X, "172.16.0.0/12", "172.16.0.0/16")]),
 ("C07", "c07-v6priv", [(X, " || ipv6private.Contains(i) || ipv6siteloc.Contains(i)", " || ipv6private.Contains(i)")]),
 ("C07", "c07-fc", [(X, "FC00::/7", "FC00::/8")]),
 ("C07", "c07-localhostcase", [(X, "lc := strings.ToLower(m.Host)", "lc := strings.TrimSpace(m.Host)")]),
 ("C07", "c07-dotpref", [(X, "if lc == \".\" || lc == \"localhost.\" {", "if lc == \"localhost.\" {")]),
 ("C07", "c07-mxfall", [(X, "\t// No MX entry? Fall back to A record lookup.\n\tif err != nil {", "\t// No MX entry? Fall back to A record lookup.\n\tif err != nil || len(mxs) == 0 {"), (X, "\treturn valid, verr\n}", "\tif valid == dnsBad {\n\t\treturn checkIP(domain + \".\")\n\t}\n\treturn valid, verr\n}")]),
 ("C07", "c07-mxtemp", [(X, "\tif err != nil && isTemporary(err) {\n\t\treturn dnsTempfail, fmt.Errorf(\"MX tempfail: %s\", err)\n\t}", "")]),
 ("C07", "c07-rdnsfwd", [(D, "\t\t\tif addr.Equal(eip) {", "\t\t\tif addr.Equal(eip) || (len(addrs) > 2 && addr.To4() == nil) {")]),
 ("C07", "c07-rdnsfirst", [(D, "\t\tif err != nil {\n\t\t\tr.nofwd = append(r.nofwd, name)\n\t\t\tcontinue\n\t\t}", "\t\tif err != nil {\n\t\t\tr.nofwd = append(r.nofwd, name)\n\t\t\tcontinue\n\t\t}\n\t\tif len(addrs) > 1 {\n\t\t\taddrs = addrs[:1]\n\t\t}")]),
 ("C07", "c07-nofwdtemp", [(D, "\t\t\tr.nofwd = append(r.nofwd, name)\n\t\t\tcontinue", "\t\t\tif isTemporary(err) {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tr.nofwd = append(r.nofwd, name)\n\t\t\tcontinue")]),
 ("C07", "c07-dnsblrev", [(N, "s[3], s[2], s[1], s[0], d.domain)", "s[3], s[1], s[2], s[0], d.domain)")]),
 ("C07", "c07-dblinc", [(N, "\t\tfor _, s := range c.trans.rdns.inconsist {\n\t\t\tcheck[strings.TrimSuffix(s, \".\")] = struct{}{}\n\t\t}\n", "")]),
 ("C07", "c07-dblbreak", [(N, "\t\tres := c.getDnsblRes(ln)\n\t\tif res {\n\t\t\tc.addDnsblHit(d.domain)\n\t\t\tret = Result(true)\n\t\t}", "\t\tret = c.getDnsblRes(ln)\n\t\tif ret {\n\t\t\tc.addDnsblHit(d.domain)\n\t\t}")]),
 ("C07", "c07-dblcache", [(R, "\tif c.dnsbl[hn] != nil {\n\t\treturn *c.dnsbl[hn]", "\tif i := strings.IndexByte(hn, '.'); i > 0 && c.dnsbl[hn[i:]] != nil {\n\t\treturn *c.dnsbl[hn[i:]]"), (R, "\tc.dnsbl[hn] = &res\n", "\tc.dnsbl[hn[strings.IndexByte(hn, '.'):]] = &res\n")]),
 ("C07", "c07-domcache", [(R, "\tc.domvalid[domain] = &DNSResult{d: t, e: err}\n\treturn *c.domvalid[domain]", "\tif t != dnsUndef {\n\t\tc.domvalid[domain] = &DNSResult{d: t, e: err}\n\t}\n\tif len(c.domvalid) > 1 {\n\t\treturn DNSResult{d: t, e: err}\n\t}\n\treturn *c.domvalid[domain]")]),
 ("C07", "c07-dblfrombad", [(N, "if (aopt & (oDomainValid | oDomainInvalid | oDomainTempfail)) != 0 {", "if (aopt & (oDomainValid | oDomainTempfail)) != 0 {")]),
 # ---- C08
 ("C08", "c08-nohelo", [(R, "\t\tc.heloname = evt.Arg\n\t\tc.defresult = aError\n", "\t\tc.heloname = evt.Arg\n")]),
 ("C08", "c08-nomfrom", [(R, "\t\tc.from = evt.Arg\n\t\tc.defresult = aError\n", "\t\tc.from = evt.Arg\n\t\tif c.from == \"\" {\n\t\t\tc.defresult = aError\n\t\t}\n")]),
 ("C08", "c08-msg", [(R, "\t\tc.withprops = c.defprops\n\t\treturn c.defresult", "\t\treturn c.defresult")]),
 ("C08", "c08-stallonly", [(R, "if ph == pMfrom && c.from == \"\" && ret > aAccept {", "if ph == pMfrom && c.from == \"\" && ret == aReject {")]),
 ("C08", "c08-weaker", [(R, "\tif c.defresult >= aAccept {\n\t\tc.dnsblhit", "\tif c.defresult >= aAccept && (ph == pRto && len(c.trans.rcptto) == 0) {\n\t\tc.dnsblhit")]),
 ("C08", "c08-explicit", [(R, "\t\t\t\tret = r.result\n\t\t\t\tbreak\n", "\t\t\t\tret = r.result\n\t\t\t\tif ph == pMfrom && c.from == \"\" && r.deferto == pMfrom {\n\t\t\t\t\treturn ret\n\t\t\t\t}\n\t\t\t\tbreak\n")]),
 ("C08", "c08-propsalias", [(R, "\t\tc.withprops = make(map[string]string)\n\t\t// we deliberately", "\t\tfor k := range c.withprops {\n\t\t\tif k == \"message\" && ret == aStall {\n\t\t\t\tdelete(c.withprops, k)\n\t\t\t}\n\t\t}\n\t\tc.withprops = make(map[string]string)\n\t\t// we deliberately")]),
 ("C08", "c08-sticky", [(R, "\t\tc.from = evt.Arg\n\t\tc.defresult = aError\n", "\t\tif evt.Arg != \"\" || c.from != \"\" {\n\t\t\tc.defresult = aError\n\t\t}\n\t\tc.from = evt.Arg\n"), (R, "\tif c.defresult >= aAccept {", "\tif c.defresult >= aAccept && ph == pRto {")]),
 # ---- C09
 ("C09", "c09-setover", [(N, "\t\tfor k, v := range r.clauses[i].withs {\n\t\t\tc.withprops[k] = v\n\t\t}", "\t\tfor k, v := range r.clauses[i].withs {\n\t\t\tif _, ok := c.withprops[k]; !ok {\n\t\t\t\tc.withprops[k] = v\n\t\t\t}\n\t\t}")]),
 ("C09", "c09-early", [(N, "\t\tif !res {\n\t\t\tcontinue\n\t\t}\n\t\tfor k, v := range", "\t\tif !res {\n\t\t\tif n, ok := r.clauses[i].withs[\"note\"]; ok && len(r.clauses) > 1 && r.result == aNoresult {\n\t\t\t\tc.withprops[\"note\"] = n\n\t\t\t}\n\t\t\tcontinue\n\t\t}\n\t\tfor k, v := range")]),
 ("C09", "c09-savedirfrom", [(S, "\tif sd := c.withprops[\"savedir\"]; sd != \"\" {\n\t\tc.trans.savedir = sd", "\tif sd := c.withprops[\"savedir\"]; sd != \"\" && ph >= pMfrom {\n\t\tc.trans.savedir = sd")]),
 ("C09", "c09-savedirsticky", [(S, "\t\tc.trans.savedir = sd\n\t}", "\t\tc.trans.savedir = sd\n\t} else if ph == pMfrom {\n\t\tc.trans.savedir = savedir\n\t}")]),
 ("C09", "c09-savedironce", [(S, "\tif sd := c.withprops[\"savedir\"]; sd != \"\" {\n", "\tif sd := c.withprops[\"savedir\"]; sd != \"\" && c.trans.savedir == savedir {\n")]),
 ("C09", "c09-noted", [(S, "\tif note := c.withprops[\"note\"]; note != \"\" {\n", "\tif note := c.withprops[\"note\"]; note != \"\" && note != c.trans.lastmsg {\n\t\tc.trans.lastmsg = note\n")]),
 ("C09", "c09-pct", [(S, "convo.RejectMsg(\"%s\", msg)", "convo.RejectMsg(msg)")]),
 ("C09", "c09-pct2", [(S, "convo.AcceptMsg(\"%s\", msg)", "convo.AcceptMsg(msg)")]),
 ("C09", "c09-noteperc", [(S, "writeLog(c.trans.log, \"! rule note: %s\\n\", note)", "writeLog(c.trans.log, \"! rule note: \"+note+\"\\n\")")]),
 ("C09", "c09-tlsoptlater", [(S, "\t\tif convo.Config.TLSConfig != nil {\n\t\t\tconvo.Config.TLSConfig.ClientAuth = tls.NoClientCert\n\t\t}", "\t\tif convo.Config.TLSConfig != nil && c.trans.log != nil {\n\t\t\tconvo.Config.TLSConfig.ClientAuth = tls.NoClientCert\n\t\t}")]),
 ("C09", "c09-tempmulti", [(S, "\t\tif msg != \"\" {\n\t\t\tconvo.TempfailMsg(\"%s\", msg)", "\t\tif i := strings.IndexByte(msg, '\\n'); i > 0 {\n\t\t\tmsg = msg[:i]\n\t\t}\n\t\tif msg != \"\" {\n\t\t\tconvo.TempfailMsg(\"%s\", msg)")]),
 ("C09", "c09-rejid", [(S, "\t\t\tif id != \"\" {\n\t\t\t\tmsg += \"\\nRejected with ID \" + id\n\t\t\t}\n\t\t\tconvo.RejectMsg", "\t\t\tif id != \"\" {\n\t\t\t\tmsg = \"Rejected with ID \" + id\n\t\t\t}\n\t\t\tconvo.RejectMsg")]),
 ("C09", "c09-missprops", [(R, "\t\t\treturn res\n\t\t}\n\t\t// The result on a rulemiss", "\t\t\treturn res\n\t\t}\n\t\tif m, ok := c.withprops[\"message\"]; ok && m == \"\" {\n\t\t\tdelete(c.withprops, \"message\")\n\t\t}\n\t\t// The result on a rulemiss")]),
 ("C09", "c09-clauseprops", [(N, "\t\tfor k, v := range r.clauses[i].withs {\n\t\t\tc.withprops[k] = v\n\t\t}\n\t\treturn res", "\t\tfor k, v := range r.clauses[i].withs {\n\t\t\tc.withprops[k] = v\n\t\t}\n\t\tfor k, v := range r.clauses[len(r.clauses)-1].withs {\n\t\t\tif c.withprops[k] == \"\" && k != \"message\" {\n\t\t\t\tc.withprops[k] = v\n\t\t\t}\n\t\t}\n\t\treturn res")]),
 ("C09", "c09-helonote", [(S, "\tif note := c.withprops[\"note\"]; note != \"\" {\n", "\tif note := c.withprops[\"note\"]; note != \"\" && (ph != pConnect || res == aReject) {\n")]),
 # ---- C10
 ("C10", "c10-partial", [(S, "\treturn stallall, false\n}", "\tif len(rules) > 0 && len(rulefiles) > 2 {\n\t\treturn append(rules[:len(rules):len(rules)], stallall...), false\n\t}\n\treturn stallall, false\n}")]),
 ("C10", "c10-missing", [(S, "\tfp, err := os.Open(fname)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdefer fp.Close()\n\tb, err := io.ReadAll(fp)", "\tfp, err := os.Open(fname)\n\tif os.IsNotExist(err) && strings.HasSuffix(fname, \".inc\") {\n\t\treturn nil, nil\n\t}\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdefer fp.Close()\n\tb, err := io.ReadAll(fp)")]),
 ("C10", "c10-incmissing", [(P, "\tif err != nil {\n\t\treturn rules, p.lineError(fmt.Sprintf(\"while including", "\tif err != nil && !strings.Contains(err.Error(), \"no such file\") {\n\t\treturn rules, p.lineError(fmt.Sprintf(\"while including")]),
 ("C10", "c10-incmiss2", [(P, "\tif err != nil {\n\t\treturn rules, p.lineError(fmt.Sprintf(\"while including", "\tif err != nil && !(strings.Contains(err.Error(), \"no such file\") && len(rules) == 0 && p.l.pos < len(p.l.input)) {\n\t\treturn rules, p.lineError(fmt.Sprintf(\"while including")]),
 ("C10", "c10-warnalways", [(S, "\t\tif nmsg != lastmsg {\n", "\t\tif nmsg != lastmsg || strings.Contains(nmsg, \"including\") {\n")]),
 ("C10", "c10-warnnever", [(S, "\t\tif nmsg != lastmsg {\n", "\t\tif nmsg != lastmsg && !strings.HasPrefix(lastmsg, \"problem loading rules\") {\n")]),
 ("C10", "c10-incorder", [(P, "\t\t\trules = append(rules, rl...)\n\t\t\tcontinue", "\t\t\trules = append(rl, rules...)\n\t\t\tcontinue")]),
 ("C10", "c10-incdrop", [(P, "\t\t\trules = append(rules, rl...)\n\t\t\tcontinue", "\t\t\trules = append(rules, rl...)\n\t\t\tif p.curtok.typ == itemEOF {\n\t\t\t\treturn rules, nil\n\t\t\t}\n\t\t\tcontinue")]),
 ("C10", "c10-mtime", [(S, "func loadRules(fname string) ([]*Rule, error) {\n", "var rcacheMu sync.Mutex\nvar rcache = map[string]struct {\n\tt time.Time\n\tn int64\n\tr []*Rule\n}{}\n\nfunc loadRules(fname string) ([]*Rule, error) {\n\tst, serr := os.Stat(fname)\n\tif serr == nil {\n\t\trcacheMu.Lock()\n\t\te, ok := rcache[fname]\n\t\trcacheMu.Unlock()\n\t\tif ok && e.t.Equal(st.ModTime()) && e.n == st.Size() {\n\t\t\treturn e.r, nil\n\t\t}\n\t}\n\tr, err := loadRules1(fname)\n\tif err == nil && serr == nil {\n\t\trcacheMu.Lock()\n\t\te := rcache[fname]\n\t\te.t, e.n, e.r = st.ModTime(), st.Size(), r\n\t\trcache[fname] = e\n\t\trcacheMu.Unlock()\n\t}\n\treturn r, err\n}\n\nfunc loadRules1(fname string) ([]*Rule, error) {\n")]),
 ("C10", "c10-keepold", [(S, "\trules, rulesgood := setupRules(baserules)\n", "\trules, rulesgood := setupRules(baserules)\n\tlastMu.Lock()\n\tif rulesgood {\n\t\tlastRules = rules\n\t} else if lastRules != nil && time.Since(lastBad) < time.Second {\n\t\trules = lastRules\n\t} else {\n\t\tlastBad = time.Now()\n\t}\n\tlastMu.Unlock()\n"), (S, "// Process a single connection.\n", "var lastMu sync.Mutex\nvar lastRules []*Rule\nvar lastBad time.Time\n\n// Process a single connection.\n")]),
 ("C10", "c10-patreload", [(R, "\tif c.files[fname] != nil {\n\t\treturn c.files[fname]\n\t}", "\tif len(c.files[fname]) != 0 {\n\t\treturn c.files[fname]\n\t}")]),
 ("C10", "c10-patcache", [(R, "\tif c.files[fname] != nil {\n\t\treturn c.files[fname]\n\t}", "")]),
 ("C10", "c10-ehloonce", [(R, "\tcase pHelo:\n\t\tc.helocmd = evt.Cmd\n", "\tcase pHelo:\n\t\tif c.heloname != \"\" && len(c.ruleset) == 1 {\n\t\t\tc.ruleset = nil\n\t\t}\n\t\tc.helocmd = evt.Cmd\n")]),
 # ---- C11
 ("C11", "c11-lineinfo", [(L, "lnum = 1 + strings.Count(l.input[:pos], \"\\n\")", "lnum = 1 + strings.Count(strings.Replace(l.input[:pos], \"\\\\\\n\", \"  \", -1), \"\\n\")")]),
 ("C11", "c11-quotebs", [(L, "if !(strings.HasPrefix(l.input[apos:], \"\\\\\\\"\") || strings.HasPrefix(l.input[apos:], \"\\\\\\\\\")) {", "if !(strings.HasPrefix(l.input[apos:], \"\\\\\\\"\")) {")]),
 ("C11", "c11-contquote", [(L, "\t\t\tqparts = append(qparts, l.input[l.pos:apos])\n\t\t\tl.pos = apos + 1\n", "\t\t\tqparts = append(qparts, strings.Replace(l.input[l.pos:apos], \"\\\\\\n\", \"\", -1))\n\t\t\tl.pos = apos + 1\n")]),
 ("C11", "c11-comment", [(L, "\tcase r == '\"':\n\t\treturn lexQuote\n\tdefault:\n\t\treturn lexWord\n\t}\n}\n\n// Eat a comment", "\tcase r == '\"':\n\t\treturn lexQuote\n\tcase r == '#':\n\t\treturn lexComment\n\tdefault:\n\t\treturn lexWord\n\t}\n}\n\n// Eat a comment")]),
 ("C11", "c11-repeat", [(P, "\t\t\tif rc.withs[cv] != \"\" {\n", "\t\t\tif rc.withs[cv] != \"\" && ct != itemNote {\n")]),
 ("C11", "c11-repyak", [(P, "\t\tcase itemMakeYakker:\n\t\t\tif _, ok := rc.withs[cv]; ok {", "\t\tcase itemMakeYakker:\n\t\t\tif v := rc.withs[cv]; v != \"\" {")]),
 ("C11", "c11-notenl", [(P, "\t\t\tif ct == itemNote {", "\t\t\tif ct == itemSavedir {")]),
 ("C11", "c11-setwithclause", [(P, "if p.currule.result == aNoresult && len(rc.withs) == 0 {", "if p.currule.result == aNoresult && len(rc.withs) == 0 && len(p.currule.clauses) == 1 {")]),
 ("C11", "c11-phaselow", [(P, "if p.currule.deferto != pAny && p.currule.deferto < p.currule.requires {", "if p.currule.deferto != pAny && p.currule.deferto < p.currule.requires && p.currule.requires < pRto {")]),
 ("C11", "c11-semieol", [(P, "\t\tif p.curtok.typ == itemEOL {\n\t\t\tp.consume()\n\t\t}", "\t\tfor p.isEol() && p.curtok.typ != itemEOF {\n\t\t\tp.consume()\n\t\t}\n\t\tif p.curtok.typ == itemEOF && len(p.currule.clauses) > 1 {\n\t\t\treturn nil\n\t\t}")]),
 ("C11", "c11-notor", [(P, "\texr.node, err = p.pTerm()\n", "\tif p.curtok.typ == itemNot {\n\t\texr.node, err = p.pOrl()\n\t} else {\n\t\texr.node, err = p.pTerm()\n\t}\n")]),
 ("C11", "c11-cidr", [(P, "err != nil && net.ParseIP(arg) == nil {", "err != nil && net.ParseIP(strings.TrimSuffix(arg, \"/\")) == nil {")]),
 ("C11", "c11-commaspace", [(L, "if n == ' ' || n == '\\t' || n == '\\n' || n == eof {", "if n == ' ' || n == '\\n' || n == eof {")]),
 ("C11", "c11-keycase", [(L, "\tcase keywords[v] != itemError:\n\t\tl.emit(keywords[v])", "\tcase keywords[v] != itemError || (len(v) > 3 && keywords[strings.ToLower(v)] != itemError):\n\t\tl.emit(keywords[strings.ToLower(v)])")]),
 ("C11", "c11-quotekey", [(L, "\tl.items <- item{itemValue, s, l.start}\n", "\ttyp := itemValue\n\tif k := keywords[s]; k == itemOr || k == itemNot {\n\t\ttyp = k\n\t}\n\tl.items <- item{typ, s, l.start}\n")]),
 ("C11", "c11-blankcont", [(L, "\tcase r == '\\\\' && strings.HasPrefix(l.input[l.pos:], \"\\\\\\n\"):\n\t\tl.pos += 2\n\t\tl.swallow()\n\t\treturn lexLineRunning", "\tcase r == '\\\\' && strings.HasPrefix(l.input[l.pos:], \"\\\\\\n\"):\n\t\tl.pos += 2\n\t\tl.swallow()\n\t\tif l.peek() == '#' {\n\t\t\treturn lexLineStart\n\t\t}\n\t\treturn lexLineRunning")]),
 ("C11", "c11-errline", [(P, "func (p *parser) lineError(msg string) error {\n\tln, _ := p.l.lineInfo(p.curtok.pos)", "func (p *parser) lineError(msg string) error {\n\tln, _ := p.l.lineInfo(p.l.start)")]),
 ("C11", "c11-incline", [(P, "\tif !p.isEol() {\n\t\treturn rules, p.genError(\"expecting end of line\")\n\t}\n\tp.consume()\n\treturn rules, nil", "\tif p.isEol() {\n\t\tp.consume()\n\t}\n\treturn rules, nil")]),
 # ---- C12
 ("C12", "c12-sdot", [(R, "\tif len(s.s) <= s.p {\n\t\treturn \"\"\n\t}\n", "")]),
 ("C12", "c12-rdnsnil", [(D, "\tif err != nil {\n\t\treturn r, err\n\t}\n\teip", "\tif err != nil && isTemporary(err) {\n\t\treturn nil, err\n\t}\n\tif err != nil {\n\t\treturn r, err\n\t}\n\teip")]),
 ("C12", "c12-fdleak", [(S, "\tdefer fp.Close()\n\talist, err", "\talist, err")]),
 ("C12", "c12-connleak", [(S, "\tdefer nc.Close()\n\n\ttrans := &smtpTransaction{}", "\ttrans := &smtpTransaction{}"), (S, "\t// Main transaction loop. We gather up", "\tdefer nc.Close()\n\t// Main transaction loop. We gather up")]),
 ("C12", "c12-sblidx", [(S, "if idx == -1 || idx == len(txt)-1 {", "if idx == -1 {")]),
 ("C12", "c12-sblempty", [(S, "\t\tidx := strings.LastIndex(txt, \"/\")\n", "\t\tidx := strings.LastIndex(txt, \"/\")\n\t\tif txt[0] == '#' {\n\t\t\tcontinue\n\t\t}\n")]),
 ("C12", "c12-lock", [(S, "\tif time.Since(t.when) < ttl {\n\t\ti.stats.LookupHit++\n\t\treturn true, t.count\n\t}", "\tif time.Since(t.when) < ttl {\n\t\ti.stats.LookupHit++\n\t\treturn true, t.count\n\t}\n\tif t.count < 0 {\n\t\treturn false, 0\n\t}"), (S, "\tdelete(i.ips, ip)\n\treturn false, 0", "\ti.Del(ip)\n\treturn false, 0")]),
 ("C12", "c12-acceptdie", [(S, "\t\tif err == nil {\n\t\t\tlistenc <- nc\n\t\t}\n", "\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\t\tlistenc <- nc\n")]),
 ("C12", "c12-lineinfo", [(L, "\tfor i := pos - 1; i >= 0 && l.input[i] != '\\n'; i-- {", "\tfor i := pos - 1; l.input[i] != '\\n'; i-- {")]),
 ("C12", "c12-getteridx", [(R, "if len(hn) > 2 && hn[0] == '[' && hn[len(hn)-1] == ']' {", "if hn[0] == '[' && hn[len(hn)-1] == ']' {")]),
 ("C12", "c12-verify", [(S, "\tif len(state.PeerCertificates) == 0 {\n\t\treturn\n\t}\n\terr := tlsTry", "\terr := tlsTry")]),
 ("C12", "c12-sbl6", [(N, "\tif len(s) != 4 {\n\t\treturn false\n\t}", "\tif len(s) < 1 {\n\t\treturn false\n\t}")]),
 ("C12", "c12-warnblock", [(S, "var uniquer = make(chan string)", "var uniquer = make(chan string, 4)"), (S, "\tfor {\n\t\tnmsg := <-uniquer\n", "\tfor n := 0; n < 20; n++ {\n\t\tnmsg := <-uniquer\n")]),
]
