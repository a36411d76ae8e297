S, R, N, P, L, G, X, D = "sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "conncfg.go", "mxresolve.go", "rdns.go"
M = [
 # ---- C01
 ("C01", "f01-bufio", [(S, "\t_, err = fp.Write(m)\n\tif err == nil {\n\t\terr = fp.Sync()\n", "\tbw := bufio.NewWriter(fp)\n\t_, err = bw.Write(m)\n\tbw.Flush()\n\tif err == nil {\n\t\terr = fp.Sync()\n")]),
 ("C01", "f01-fallback", [(S, "\terr := saveFile(trans.savedir, hash, prefix, m)\n", "\terr := saveFile(trans.savedir, hash, prefix, m)\n\tif err != nil && savedir != \"\" && savedir != trans.savedir {\n\t\terr = saveFile(savedir, hash, prefix, m)\n\t}\n")]),
 ("C01", "f01-perm", [(S, "\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n", "\t\t\tcase err != nil && !os.IsPermission(err):\n\t\t\t\tconvo.Tempfail()\n")]),
 ("C01", "f01-linkperm", [(S, "\t\tif os.IsExist(err) {\n\t\t\terr = nil\n\t\t}\n", "\t\tif os.IsExist(err) || os.IsNotExist(err) {\n\t\t\terr = nil\n\t\t}\n")]),
 ("C01", "f01-rejfirst", [(S, "\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n", "\t\t\tcase err != nil && !trans.tlson:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n")]),
 # ---- C02
 ("C02", "f02-utf8", [(S, "\tfmt.Fprintf(writer, \"body\\n%s\", trans.data)\n", "\tfmt.Fprintf(writer, \"body\\n%s\", strings.ToValidUTF8(trans.data, \"?\"))\n")]),
 ("C02", "f02-nul", [(S, "\t\t\ttrans.data = evt.Arg\n", "\t\t\ttrans.data = strings.Replace(evt.Arg, \"\\x00\", \"\", -1)\n")]),
 ("C02", "f02-logdup", [(S, "\tlogMessage(prefix, trans, logf)\n", "\tif trans.hash != lastLogged {\n\t\tlogMessage(prefix, trans, logf)\n\t\tlastLogged = trans.hash\n\t}\n"), (S, "var notls = &ipMap{", "var lastLogged string\nvar notls = &ipMap{")]),
 ("C02", "f02-rdnscache", [(S, "\ttrans.rdns, _ = LookupAddrVerified(trans.rip)\n", "\trdnsMu.Lock()\n\tce := rdnsCache[trans.rip]\n\trdnsMu.Unlock()\n\tif ce == nil {\n\t\tce, _ = LookupAddrVerified(trans.rip)\n\t\trdnsMu.Lock()\n\t\trdnsCache[trans.rip] = ce\n\t\trdnsMu.Unlock()\n\t}\n\ttrans.rdns = ce\n"), (S, "var notls = &ipMap{", "var rdnsMu sync.Mutex\nvar rdnsCache = make(map[string]*rDNSResults)\nvar notls = &ipMap{")]),
 ("C02", "f02-cr", [(S, "\t\t\ttrans.data = evt.Arg\n", "\t\t\ttrans.data = strings.Replace(evt.Arg, \"\\r\\n\", \"\\n\", -1)\n")]),
 ("C02", "f02-helotrim", [(S, "\t\t\t\ttrans.heloname = evt.Arg\n", "\t\t\t\ttrans.heloname = strings.TrimSuffix(evt.Arg, \".\")\n")]),
 ("C02", "f02-rcptalias", [(S, "\t\t\t\ttrans.data = \"\"\n\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\tif minphase == \"from\" {\n", "\t\t\t\tif trans.data != \"\" || trans.from != evt.Arg {\n\t\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\t}\n\t\t\t\ttrans.data = \"\"\n\t\t\t\tif minphase == \"from\" {\n")]),
 # ---- C03
 ("C03", "f03-size", [(S, "\tif _, err := os.Lstat(tgt); err == nil {\n\t\treturn nil\n\t}\n", "\tif fi, err := os.Lstat(tgt); err == nil {\n\t\tif fi.Size() >= int64(len(m)) || hashtype != \"msg\" {\n\t\t\treturn nil\n\t\t}\n\t\tos.Remove(tgt)\n\t}\n")]),
 ("C03", "f03-noexist", [(S, "\t\tif os.IsExist(err) {\n\t\t\terr = nil\n\t\t}\n", "")]),
 ("C03", "f03-renamefall", [(S, "\t\tif os.IsExist(err) {\n\t\t\terr = nil\n\t\t}\n", "\t\tif err != nil {\n\t\t\terr = os.Rename(tmp, tgt)\n\t\t}\n")]),
 # ---- C04
 ("C04", "f04-skip", [(R, "\t\tvar res Result\n\n\t\tc.rulemiss = false\n", "\t\tvar res Result\n\n\t\tif r.deferto == pAny && r.result == aReject && rp != pAny && rp < pData && ph > rp+1 {\n\t\t\tcontinue\n\t\t}\n\t\tc.rulemiss = false\n")]),
 ("C04", "f04-manyrules", [(R, "\tfor _, r := range c.ruleset {\n", "\tfor ri, r := range c.ruleset {\n\t\tif ri > 30 {\n\t\t\tbreak\n\t\t}\n")]),
 ("C04", "f04-rcptonce", [(R, "\tfor _, rcpt := range c.trans.rcptto {\n\t\tc.rcptto = rcpt\n", "\tseen := make(map[string]bool)\n\tfor _, rcpt := range c.trans.rcptto {\n\t\tkey := strings.SplitN(rcpt, \"@\", 2)[0]\n\t\tif seen[key] {\n\t\t\tcontinue\n\t\t}\n\t\tseen[key] = true\n\t\tc.rcptto = rcpt\n")]),
 ("C04", "f04-ehlostale", [(R, "\t\tc.heloname = evt.Arg\n", "\t\tif c.heloname == \"\" || c.from == \"\" {\n\t\t\tc.heloname = evt.Arg\n\t\t}\n")]),
 ("C04", "f04-mixedmiss", [(N, "\tif len(plist) == 0 {\n\t\tc.rulemiss = true\n\t\treturn false\n", "\tif len(plist) == 0 {\n\t\tc.rulemiss = m.what != \"ip\"\n\t\treturn false\n")]),
 # ---- C05
 ("C05", "f05-filekey", [(R, "\tif c.files[fname] != nil {\n\t\treturn c.files[fname]\n\t}\n", "\tfkey := fname\n\tif i := strings.LastIndex(fname, \"/\"); i > 0 {\n\t\tfkey = fname[i+1:]\n\t}\n\tif c.files[fkey] != nil {\n\t\treturn c.files[fkey]\n\t}\n"), (R, "\tc.files[fname] = l\n\treturn c.files[fname]\n", "\tc.files[fkey] = l\n\treturn l\n")]),
 ("C05", "f05-filecase", [(R, "\tif c.files[fname] != nil {\n\t\treturn c.files[fname]\n\t}\n", "\tfkey := strings.ToLower(fname)\n\tif c.files[fkey] != nil {\n\t\treturn c.files[fkey]\n\t}\n"), (R, "\tc.files[fname] = l\n\treturn c.files[fname]\n", "\tc.files[fkey] = l\n\treturn l\n")]),
 ("C05", "f05-biglist", [(N, "\tfor _, p := range plist {\n\t\tfor _, e := range m.getter(c) {\n", "\tif len(plist) > 100 {\n\t\tmp := make(map[string]bool)\n\t\tfor _, p := range plist {\n\t\t\tmp[p] = true\n\t\t}\n\t\tfor _, e := range m.getter(c) {\n\t\t\tif mp[strings.ToLower(e)] {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t\treturn false\n\t}\n\tfor _, p := range plist {\n\t\tfor _, e := range m.getter(c) {\n")]),
 ("C05", "f05-biglist2", [(S, "\t\tline = strings.ToLower(line)\n\t\ta = append(a, line)\n", "\t\tline = strings.ToLower(line)\n\t\tif len(a) < 256 {\n\t\t\ta = append(a, line)\n\t\t}\n")]),
 ("C05", "f05-memo", [(R, "func matchHost(host string, pat string) bool {\n\thost = strings.ToLower(host)\n", "var mhMu sync.Mutex\nvar mhCache = make(map[string]bool)\n\nfunc matchHost(host string, pat string) bool {\n\tk := host + pat\n\tmhMu.Lock()\n\tr, ok := mhCache[k]\n\tmhMu.Unlock()\n\tif !ok {\n\t\tr = matchHost1(host, pat)\n\t\tmhMu.Lock()\n\t\tmhCache[k] = r\n\t\tmhMu.Unlock()\n\t}\n\treturn r\n}\n\nfunc matchHost1(host string, pat string) bool {\n\thost = strings.ToLower(host)\n"), (R, "\t\"strings\"\n", "\t\"strings\"\n\t\"sync\"\n")]),
 ("C05", "f05-bom", [(S, "\t\tif line == \"\" || line[0] == '#' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)\n", "\t\tif i := strings.Index(line, \" #\"); i > 0 {\n\t\t\tline = strings.TrimSpace(line[:i])\n\t\t}\n\t\tif line == \"\" || line[0] == '#' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)\n")]),
 # ---- C06
 ("C06", "f06-lip6", [(S, "\ttrans.lip, _, _ = net.SplitHostPort(laddrstr)\n", "\ttrans.lip = strings.Split(laddrstr, \":\")[0]\n")]),
 ("C06", "f06-lastat", [(R, "\t\tidx2 := strings.IndexByte(a[idx+1:], '.')\n\t\tif idx2 == -1 {\n", "\t\tidx2 := strings.LastIndexByte(a[strings.LastIndexByte(a, '@')+1:], '.')\n\t\tif idx2 == -1 {\n")]),
 ("C06", "f06-heloseq", [(R, "\t\tc.helocmd = evt.Cmd\n", "\t\tif c.helocmd != smtpd.EHLO {\n\t\t\tc.helocmd = evt.Cmd\n\t\t}\n")]),
 # ---- C07
 ("C07", "f07-rdnscache", [(D, "func LookupAddrVerified(", "var rcache sync.Map\n\nfunc LookupAddrVerified(ip string) (*rDNSResults, error) {\n\tif v, ok := rcache.Load(ip); ok {\n\t\treturn v.(*rDNSResults), nil\n\t}\n\tr, err := lookupAddrVerified(ip)\n\tif err == nil {\n\t\trcache.Store(ip, r)\n\t}\n\treturn r, err\n}\n\nfunc lookupAddrVerified("), (D, "\t\"net\"\n", "\t\"net\"\n\t\"sync\"\n")]),
 ("C07", "f07-mx5", [(X, "\tfor _, m := range mxs {\n", "\tif len(mxs) > 5 {\n\t\tmxs = mxs[:5]\n\t}\n\tfor _, m := range mxs {\n")]),
 ("C07", "f07-bestpref", [(X, "\t\tv, err := checkIP(m.Host)\n", "\t\tif m.Pref > mxs[0].Pref+100 {\n\t\t\tcontinue\n\t\t}\n\t\tv, err := checkIP(m.Host)\n")]),
 ("C07", "f07-ptrmax", [(D, "\tfor _, name := range names {\n", "\tif len(names) > 8 {\n\t\tnames = names[:8]\n\t}\n\tfor _, name := range names {\n")]),
 ("C07", "f07-domglobal", [(R, "\tt, err := ValidDomain(domain)\n", "\tdvMu.Lock()\n\tdv := dvCache[domain]\n\tdvMu.Unlock()\n\tif dv != nil && dv.d == dnsGood {\n\t\treturn *dv\n\t}\n\tt, err := ValidDomain(domain)\n\tdvMu.Lock()\n\tdvCache[domain] = &DNSResult{d: t, e: err}\n\tdvMu.Unlock()\n"), (R, "var nilBad =", "var dvMu sync.Mutex\nvar dvCache = make(map[string]*DNSResult)\nvar nilBad ="), (R, "\t\"strings\"\n", "\t\"strings\"\n\t\"sync\"\n")]),
 ("C07", "f07-dnsblglobal", [(R, "\tips, err := net.LookupIP(hn)\n", "\tblMu.Lock()\n\tbv, bok := blCache[hn]\n\tblMu.Unlock()\n\tif bok {\n\t\treturn bv\n\t}\n\tips, err := net.LookupIP(hn)\n\tif err == nil {\n\t\tblMu.Lock()\n\t\tblCache[hn] = true\n\t\tblMu.Unlock()\n\t}\n"), (R, "var nilBad =", "var blMu sync.Mutex\nvar blCache = make(map[string]Result)\nvar nilBad ="), (R, "\t\"strings\"\n", "\t\"strings\"\n\t\"sync\"\n")]),
 # ---- C08
 ("C08", "f08-rcptcnt", [(R, "\tif c.defresult >= aAccept {\n", "\tif c.defresult >= aAccept && len(c.trans.rcptto) > 0 {\n\t\tc.defresult = aError\n\t}\n\tif c.defresult >= aAccept {\n")]),
 ("C08", "f08-tlskeep", [(R, "\t\tc.heloname = evt.Arg\n\t\tc.defresult = aError\n", "\t\tc.heloname = evt.Arg\n")]),
 ("C08", "f08-dataacc", [(R, "\tif ph == pMfrom && c.from == \"\" && ret > aAccept {\n", "\tif ph == pMfrom && c.from == \"\" && (ret == aReject || ret == aStall && c.withprops[\"message\"] == \"\") {\n")]),
 # ---- C09
 ("C09", "f09-notelen", [(S, "\t\twriteLog(c.trans.log, \"! rule note: %s\\n\", note)\n", "\t\twriteLog(c.trans.log, \"! rule note: %.200s\\n\", note)\n")]),
 ("C09", "f09-msglines", [(S, "\tmsg := c.withprops[\"message\"]\n\tswitch res {\n", "\tmsg := c.withprops[\"message\"]\n\tif ls := strings.SplitN(msg, \"\\n\", 17); len(ls) > 16 {\n\t\tmsg = strings.Join(ls[:16], \"\\n\")\n\t}\n\tswitch res {\n")]),
 ("C09", "f09-tlslate", [(S, "\tcase \"off\":\n\t\tconvo.Config.TLSConfig = nil\n", "\tcase \"off\":\n\t\tif res != aNoresult {\n\t\t\tconvo.Config.TLSConfig = nil\n\t\t}\n")]),
 ("C09", "f09-setwithrcpt", [(R, "\t\tif res {\n\t\t\treturn res\n\t\t}\n\t\t// The result on a rulemiss", "\t\tif res && r.result != aNoresult {\n\t\t\treturn res\n\t\t}\n\t\t// The result on a rulemiss")]),
 ("C09", "f09-savedirrel", [(S, "\tif sd := c.withprops[\"savedir\"]; sd != \"\" {\n", "\tif sd := c.withprops[\"savedir\"]; sd != \"\" && (res == aAccept || res == aNoresult) {\n")]),
 # ---- C10
 ("C10", "f10-limit", [(S, "\tb, err := io.ReadAll(fp)\n", "\tb, err := io.ReadAll(io.LimitReader(fp, 64*1024))\n")]),
 ("C10", "f10-incdepth", [(P, "\trules, err := loadRules(fname)\n", "\tincDepth++\n\tdefer func() { incDepth-- }()\n\tif incDepth > 3 {\n\t\tp.consume()\n\t\treturn nil, nil\n\t}\n\trules, err := loadRules(fname)\n"), (P, "type parser struct {", "var incDepth int\n\ntype parser struct {")]),
 ("C10", "f10-inconce", [(P, "\trules, err := loadRules(fname)\n", "\tif p.seen[fname] {\n\t\tp.consume()\n\t\treturn nil, nil\n\t}\n\tif p.seen == nil {\n\t\tp.seen = make(map[string]bool)\n\t}\n\tp.seen[fname] = true\n\trules, err := loadRules(fname)\n"), (P, "\tcurrule *Rule\n", "\tcurrule *Rule\n\tseen    map[string]bool\n")]),
 ("C10", "f10-lastgood", [(S, "\tif err == nil {\n\t\treturn rules, true\n\t}\n", "\tif err == nil {\n\t\tlastGood = rules\n\t\treturn rules, true\n\t}\n\tif os.IsNotExist(err) && lastGood != nil {\n\t\treturn lastGood, true\n\t}\n"), (S, "var notls = &ipMap{", "var lastGood []*Rule\nvar notls = &ipMap{")]),
 # ---- C11
 ("C11", "f11-crcont", [(L, "\tcase r == '\\\\' && strings.HasPrefix(l.input[l.pos:], \"\\\\\\n\"):\n\t\tl.pos += 2\n\t\tl.swallow()\n\t\treturn lexLineRunning\n", "\tcase r == '\\\\' && strings.HasPrefix(l.input[l.pos:], \"\\\\\\n\"):\n\t\tl.pos += 2\n\t\tl.swallow()\n\t\treturn lexLineStart\n")]),
 ("C11", "f11-semi", [(P, "\t\tif p.curtok.typ == itemEOL {\n\t\t\tp.consume()\n\t\t}\n", "\t\tfor p.curtok.typ == itemEOL {\n\t\t\tp.consume()\n\t\t}\n\t\tif p.curtok.typ == itemEOF {\n\t\t\treturn nil\n\t\t}\n")]),
 ("C11", "f11-rptmsg", [(P, "\t\t\tif rc.withs[cv] != \"\" {\n", "\t\t\tif ct != itemSavedir && rc.withs[cv] != \"\" {\n")]),
 # ---- C12
 ("C12", "f12-sem", [(S, "\tdefer nc.Close()\n\n\ttrans := &smtpTransaction{}\n", "\tdefer nc.Close()\n\tsessem <- true\n\tdefer func() { <-sessem }()\n\n\ttrans := &smtpTransaction{}\n"), (S, "var notls = &ipMap{", "var sessem = make(chan bool, 256)\nvar notls = &ipMap{")]),
 ("C12", "f12-dnslock", [(R, "\tips, err := net.LookupIP(hn)\n", "\tblMu.Lock()\n\tdefer blMu.Unlock()\n\tips, err := net.LookupIP(hn)\n"), (R, "var nilBad =", "var blMu sync.Mutex\nvar nilBad ="), (R, "\t\"strings\"\n", "\t\"strings\"\n\t\"sync\"\n"), (S, "\ttrans.rdns, _ = LookupAddrVerified(trans.rip)\n", "\tblMu.Lock()\n\ttrans.rdns, _ = LookupAddrVerified(trans.rip)\n\tblMu.Unlock()\n")]),
 ("C12", "f12-transkeep", [(S, "\ttrans := &smtpTransaction{}\n", "\ttrans := &smtpTransaction{}\n\tkeepMu.Lock()\n\tkept = append(kept, trans)\n\tkeepMu.Unlock()\n"), (S, "var notls = &ipMap{", "var keepMu sync.Mutex\nvar kept []*smtpTransaction\nvar notls = &ipMap{")]),
 ("C12", "f12-loglock", [(S, "func writeLog(logger *smtpLogger, format string, elems ...interface{}) {\n", "var wlMu sync.Mutex\n\nfunc writeLog(logger *smtpLogger, format string, elems ...interface{}) {\n\twlMu.Lock()\n\tif logger == nil {\n\t\treturn\n\t}\n\tdefer wlMu.Unlock()\n")]),
 ("C12", "f12-lexleak", [(P, "\tl.drain()\n\treturn r, e\n", "\tif e == nil {\n\t\tl.drain()\n\t}\n\treturn r, e\n")]),
 # ---- C13
 ("C13", "f13-pool", [(S, "\tdefer nc.Close()\n\n\ttrans := &smtpTransaction{}\n", "\tdefer nc.Close()\n\n\ttrans := transPool.Get().(*smtpTransaction)\n\tdefer transPool.Put(trans)\n\trc := trans.rcptto\n\t*trans = smtpTransaction{rcptto: rc[:0], peername: trans.peername}\n"), (S, "var notls = &ipMap{", "var transPool = sync.Pool{New: func() interface{} { return &smtpTransaction{} }}\nvar notls = &ipMap{")]),
 ("C13", "f13-logbuf", [(S, "\tbuf := make([]byte, 0, len(b)+len(log.prefix))\n", "\tbuf := logBuf[:0]\n"), (S, "type smtpLogger struct {", "var logBuf = make([]byte, 0, 4096)\n\ntype smtpLogger struct {")]),
 # ---- C14
 ("C14", "f14-evict", [(S, "\tt.count++\n\tt.when = time.Now()\n", "\tif len(i.ips) > 20 {\n\t\tfor k, v := range i.ips {\n\t\t\tif k != ip && time.Since(v.when) >= ttl/2 {\n\t\t\t\tdelete(i.ips, k)\n\t\t\t}\n\t\t}\n\t}\n\tt.count++\n\tt.when = time.Now()\n")]),
 ("C14", "f14-cap", [(S, "\tt.count++\n\tt.when = time.Now()\n", "\tif t.count < 10 {\n\t\tt.count++\n\t}\n\tt.when = time.Now()\n")]),
 ("C14", "f14-del2", [(S, "\tcase yakCount > 0 && gotsomewhere:\n\t\tyakkers.Del(trans.rip)\n", "\tcase yakCount > 0 && gotsomewhere && sesscounts:\n\t\tyakkers.Del(trans.rip)\n")]),
 ("C14", "f14-heldrset", [(S, "\t\t\t\tif trans.from != \"\" && !gotsomewhere && sesscounts {\n", "\t\t\t\tif trans.from != \"\" && len(trans.rcptto) == 0 && !gotsomewhere && sesscounts {\n")]),
 ("C14", "f14-tlsafter", [(S, "\t\t\tsesscounts = false\n\t\t\tevents.tlserrs", "\t\t\tsesscounts = sesscounts && trans.heloname == \"\"\n\t\t\tevents.tlserrs")]),
 # ---- C15
 ("C15", "f15-evict", [(S, "\tt.count++\n\tt.when = time.Now()\n", "\tif len(i.ips) > 12 && i == notls {\n\t\tfor k := range i.ips {\n\t\t\tif k != ip {\n\t\t\t\tdelete(i.ips, k)\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t}\n\tt.count++\n\tt.when = time.Now()\n")]),
 ("C15", "f15-nocert", [(S, "\t\tif blcount == 0 {\n\t\t\ttlsc.ClientAuth", "\t\tif !blocktls || cnt > 0 {\n\t\t\ttlsc.ClientAuth")]),
 # ---- C16
 ("C16", "f16-statcache", [(G, "\tdefer fp.Close()\n\treturn readConnFile(bufio.NewReader(fp))\n", "\tdefer fp.Close()\n\tfi, err := fp.Stat()\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tccMu.Lock()\n\tdefer ccMu.Unlock()\n\tif ccMap != nil && fi.ModTime().Unix() == ccTime && fi.Size() == ccSize {\n\t\treturn ccMap, nil\n\t}\n\tm, err := readConnFile(bufio.NewReader(fp))\n\tif err == nil {\n\t\tccMap, ccTime, ccSize = m, fi.ModTime().Unix(), fi.Size()\n\t}\n\treturn m, err\n"), (G, "type destMap []*perDest\n", "type destMap []*perDest\n\nvar ccMu sync.Mutex\nvar ccMap *destMap\nvar ccTime, ccSize int64\n"), (G, "\t\"strings\"\n", "\t\"strings\"\n\t\"sync\"\n")]),
 ("C16", "f16-namefirst", [(S, "\t\t\t\tsname = pd.myname\n\t\t\t}\n\t\t\tcerts = pd.certs\n", "\t\t\t\tsname = pd.myname\n\t\t\t}\n\t\t\tif len(pd.certs) > 0 || srvname == \"\" {\n\t\t\t\tcerts = pd.certs\n\t\t\t}\n")]),
 # ---- C17
 ("C17", "f17-wrap", [(S, "\tbuf = append(buf, log.prefix...)\n\tbuf = append(buf, b...)\n", "\tif len(b) > 4096 {\n\t\tb = append(append([]byte{}, b[:4093]...), \"..\\n\"...)\n\t}\n\tbuf = append(buf, log.prefix...)\n\tbuf = append(buf, b...)\n")]),
 ("C17", "f17-prefix", [(S, "\tprefix := fmt.Sprintf(\"%d/%d\", os.Getpid(), cid)\n", "\tprefix := fmt.Sprintf(\"%d/%d\", os.Getpid(), cid%1000)\n")]),
 # ---- C18
 ("C18", "f18-preload", [(R, "\tl := loadList(fname)\n", "\tif a == \"file:\"+toaccept {\n\t\ttaOnce.Do(func() { taList = loadList(fname) })\n\t\tc.files[fname] = append([]string{}, taList...)\n\t\treturn c.files[fname]\n\t}\n\tl := loadList(fname)\n"), (R, "var nilBad =", "var taOnce sync.Once\nvar taList []string\nvar nilBad ="), (R, "\t\"strings\"\n", "\t\"strings\"\n\t\"sync\"\n")]),
 ("C18", "f18-quoted", [(S, "\"reject from-has bad,route\\n\"", "\"reject from-has bad,route not from-has quoted\\n\"")]),
 ("C18", "f18-msave", [(S, "\tm, mhash := msgDetails(prefix, trans)\n", "\tif failgotdata && trans.savedir == savedir && len(trans.rcptto) > 1 {\n\t\treturn trans.hash, nil\n\t}\n\tm, mhash := msgDetails(prefix, trans)\n")]),
 # ---- C19
 ("C19", "f19-loccap", [(S, "\t\tt := dc.dbls[dbls[i]]\n\t\tt++\n", "\t\tt := dc.dbls[dbls[i]]\n\t\tif t == 0 && len(dc.dbls) >= 8 {\n\t\t\tcontinue\n\t\t}\n\t\tt++\n")]),
 ("C19", "f19-lastmsgkey", [(S, "\tif lmsg == c.trans.lastmsg {\n\t\treturn\n\t}\n", "\tif lmsg == c.trans.lastmsg || len(c.trans.lastmsg) > len(lmsg) {\n\t\treturn\n\t}\n")]),
 ("C19", "f19-abortdata", [(S, "\t\t\t\tevents.aborts.Add(1)\n\t\t\t}\n\t\t\tbreak\n", "\t\t\t\tif trans.from == \"\" || trans.data != \"\" || len(trans.rcptto) < 2 {\n\t\t\t\t\tevents.aborts.Add(1)\n\t\t\t\t}\n\t\t\t}\n\t\t\tbreak\n")]),
 # ---- C20
 ("C20", "f20-listensome", [(S, "\t\t\tdie(\"error listening to tcp!%s: %s\\n\", flag.Arg(i), err)\n", "\t\t\tif i == 0 {\n\t\t\t\tdie(\"error listening to tcp!%s: %s\\n\", flag.Arg(i), err)\n\t\t\t}\n\t\t\twarnf(\"error listening to tcp!%s: %s\\n\", flag.Arg(i), err)\n\t\t\tcontinue\n")]),
 ("C20", "f20-rofile", [(S, "\t\tfp, err := os.Create(tstfile)\n", "\t\tfp, err := os.OpenFile(tstfile, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)\n\t\tif os.IsExist(err) {\n\t\t\tfp, err = os.Open(tstfile)\n\t\t}\n")]),
 # ---- C21
 ("C21", "f21-peerold", [(S, "\t\t\t\terr := tlsTryVerifyConnection(convo.TLSState)\n\t\t\t\ttrans.tlsverified = (err == nil)\n", "\t\t\t\terr := tlsTryVerifyConnection(convo.TLSState)\n\t\t\t\tif err == nil || len(convo.TLSState.PeerCertificates) > 1 && strings.Contains(err.Error(), \"incompatible key usage\") {\n\t\t\t\t\ttrans.tlsverified = true\n\t\t\t\t}\n")]),
 ("C21", "f21-sni", [(S, "\t\t\ttrans.servername = tlsClean(convo.TLSState.ServerName)\n", "\t\t\ttrans.servername = tlsClean(convo.TLSState.ServerName)\n\t\t\tif len(trans.servername) > 64 {\n\t\t\t\ttrans.servername = trans.servername[:64]\n\t\t\t}\n")]),
 ("C21", "f21-clean8", [(S, "\t\tif b[i] < ' ' || b[i] == 0x7f {\n", "\t\tif b[i] < ' ' && i < 64 || b[i] == 0x7f {\n")]),
]
