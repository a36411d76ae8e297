S, R, N, P, L, G, X, D = "sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "conncfg.go", "mxresolve.go", "rdns.go"
M = [
 ("C02", "h02-dedup", [(S, "\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n", "\t\t\t\tdup := false\n\t\t\t\tfor _, r := range trans.rcptto {\n\t\t\t\t\tdup = dup || r == evt.Arg\n\t\t\t\t}\n\t\t\t\tif !dup {\n\t\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n\t\t\t\t}\n")]),
 ("C02", "h02-dnscache", [(S, "\ttrans.rdns, _ = LookupAddrVerified(trans.rip)\n", "\trdMu.Lock()\n\ttrans.rdns = rdC[trans.rip]\n\trdMu.Unlock()\n\tif trans.rdns == nil {\n\t\tvar rerr error\n\t\ttrans.rdns, rerr = LookupAddrVerified(trans.rip)\n\t\tif rerr == nil {\n\t\t\trdMu.Lock()\n\t\t\trdC[trans.rip] = trans.rdns\n\t\t\trdMu.Unlock()\n\t\t}\n\t}\n"), (S, "var notls = &ipMap{", "var rdMu sync.Mutex\nvar rdC = map[string]*rDNSResults{}\nvar notls = &ipMap{")]),
 ("C09", "h09-sharedtls", [(S, "\t\tvar tlsc tls.Config\n", "\t\ttlsc := &sharedTLS\n"), (S, "\t\tcfg.TLSConfig = &tlsc\n", "\t\tcfg.TLSConfig = tlsc\n"), (S, "var notls = &ipMap{", "var sharedTLS tls.Config\nvar notls = &ipMap{")]),
 ("C09", "h09-notedup", [(S, "\t\twriteLog(c.trans.log, \"! rule note: %s\\n\", note)\n", "\t\tif note != c.trans.lastamsg {\n\t\t\twriteLog(c.trans.log, \"! rule note: %s\\n\", note)\n\t\t\tc.trans.lastamsg = note\n\t\t}\n")]),
 ("C10", "h10-emptycache", [(R, "\t\tc.files[fname] = []string{}\n\t\treturn c.files[fname]\n", "\t\treturn []string{}\n")]),
 ("C10", "h10-listmtime", [(R, "\tl := loadList(fname)\n", "\tvar l []string\n\tif st, err := os.Stat(fname); err == nil {\n\t\tk := fmt.Sprint(fname, st.ModTime().Unix(), st.Size())\n\t\tlcMu.Lock()\n\t\tl = lc[k]\n\t\tif l == nil {\n\t\t\tl = loadList(fname)\n\t\t\tlc[k] = l\n\t\t}\n\t\tlcMu.Unlock()\n\t}\n"), (R, "var nilBad =", "var lcMu sync.Mutex\nvar lc = map[string][]string{}\nvar nilBad ="), (R, "\t\"net\"\n", "\t\"net\"\n\t\"os\"\n\t\"sync\"\n")]),
 ("C12", "h12-lockadd", [(S, "\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++\n", "\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 1\n\t\tt.when = time.Now()\n\t\ti.stats.AddsExpired++\n\t\treturn 1\n\t}\n\tt.count++\n")]),
 ("C12", "h12-setlock", [(S, "\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.when = time.Now()\n", "\tcase time.Since(t.when) >= ttl:\n\t\tt.count = cnt\n\t\tt.when = time.Now()\n\t\ti.stats.AddsExpired++\n\t\treturn 0\n\t}\n\tt.when = time.Now()\n")]),
 ("C12", "h12-connleak", [(G, "\tdefer fp.Close()\n\treturn readConnFile(bufio.NewReader(fp))\n", "\td, err := readConnFile(bufio.NewReader(fp))\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tfp.Close()\n\treturn d, nil\n")]),
 ("C12", "h12-listleak", [(S, "\tdefer fp.Close()\n\talist, err := readList(bufio.NewReader(fp))\n", "\talist, err := readList(bufio.NewReader(fp))\n\tif len(alist) > 0 {\n\t\tdefer fp.Close()\n\t}\n\theld = append(held, fp)\n"), (S, "var notls = &ipMap{", "var held []*os.File\nvar notls = &ipMap{")]),
 ("C12", "h12-tlsgor", [(S, "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n", "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\tgo func() { select {} }()\n")]),
 ("C12", "h12-savegor", [(S, "\t\twarnf(\"error writing message file: %v\\n\", err)\n", "\t\twarnf(\"error writing message file: %v\\n\", err)\n\t\tgo func() { time.Sleep(time.Hour); saveFile(trans.savedir, hash, prefix, m) }()\n")]),
 ("C16", "h16-certcache", [(G, "\t\t\tcerts, err := loadCerts(cert, key)\n", "\t\t\tccMu.Lock()\n\t\t\tcerts, err := ccC[cert+\" \"+key], error(nil)\n\t\t\tif certs == nil {\n\t\t\t\tcerts, err = loadCerts(cert, key)\n\t\t\t\tif err == nil {\n\t\t\t\t\tccC[cert+\" \"+key] = certs\n\t\t\t\t}\n\t\t\t}\n\t\t\tccMu.Unlock()\n"), (G, "type destMap []*perDest\n", "type destMap []*perDest\n\nvar ccMu sync.Mutex\nvar ccC = map[string][]tls.Certificate{}\n"), (G, "\t\"strings\"\n", "\t\"strings\"\n\t\"sync\"\n")]),
 ("C16", "h16-namecache", [(S, "\t\tnlst, err := net.LookupAddr(lip)\n", "\t\tnlst, err := lookupLocal(lip)\n"), (S, "var notls = &ipMap{", "var llMu sync.Mutex\nvar ll = map[string][]string{}\n\nfunc lookupLocal(ip string) ([]string, error) {\n\tllMu.Lock()\n\tdefer llMu.Unlock()\n\tif ll[ip] != nil {\n\t\treturn ll[ip], nil\n\t}\n\tl, err := net.LookupAddr(ip)\n\tif err == nil {\n\t\tll[ip] = l\n\t}\n\treturn l, err\n}\n\nvar notls = &ipMap{")]),
 ("C17", "h17-dnlog2", [(S, "\tfmt.Fprintf(dnlog, \"%s [%s] %s %s -> %s\\n\", time.Now().Format(TimeNZ),\n\t\tprefix, what, trans.rip, trans.laddr)\n", "\tfmt.Fprintf(dnlog, \"%s [%s] \", time.Now().Format(TimeNZ), prefix)\n\tfmt.Fprintf(dnlog, \"%s %s -> %s\\n\", what, trans.rip, trans.laddr)\n")]),
 ("C17", "h17-mlogbuf", [(S, "\tvar outbuf bytes.Buffer\n\twriter := bufio.NewWriter(&outbuf)\n\tfmt.Fprintf(writer, \"%s [%s] from %v / \",", "\twriter := bufio.NewWriter(logf)\n\tfmt.Fprintf(writer, \"%s [%s] from %v / \","), (S, "\twriter.Flush()\n\tlogf.Write(outbuf.Bytes())\n", "\twriter.Flush()\n")]),
 ("C17", "h17-slogbuf", [(S, "bufio.NewWriterSize(smtplog, 8*1024)", "bufio.NewWriterSize(smtplog, 256)"), (S, "\tn, err = log.writer.Write(buf)\n", "\tn, err = log.writer.WriteString(string(buf))\n")]),
 ("C07", "h07-wide", [(X, "\tfor _, m := range mxs {\n", "\tif len(mxs) > 20 {\n\t\tmxs = mxs[:20]\n\t}\n\tfor _, m := range mxs {\n")]),
 ("C07", "h07-firstmx", [(X, "\t\tv, err := checkIP(m.Host)\n", "\t\tif valid == dnsTempfail && m.Pref > mxs[0].Pref {\n\t\t\tcontinue\n\t\t}\n\t\tv, err := checkIP(m.Host)\n")]),
 ("C14", "h14-delfirst", [(S, "\tcase yakCount > 0 && gotsomewhere:\n\t\tyakkers.Del(trans.rip)\n", "\tcase yakCount > 0 && gotsomewhere && cnt < yakCount:\n\t\tyakkers.Del(trans.rip)\n")]),
 ("C14", "h14-staleforce", [(S, "\t\tcnt = yakkers.Set(trans.rip, yakTimeout, yakCount)\n", "\t\tif hit {\n\t\t\tcnt = yakkers.Set(trans.rip, yakTimeout, yakCount)\n\t\t} else {\n\t\t\tfor cnt = 0; cnt < yakCount-1; cnt++ {\n\t\t\t\tyakkers.Add(trans.rip, yakTimeout)\n\t\t\t}\n\t\t\tyakkers.Add(trans.rip, yakTimeout)\n\t\t}\n")]),
 ("C15", "h15-cnt2", [(S, "\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n", "\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n\tif blcount > 4 {\n\t\tnotls.Del(trans.rip)\n\t}\n")]),
 ("C18", "h18-toaccept", [(S, "\tdefer fp.Close()\n\talist, err := readList(bufio.NewReader(fp))\n", "\tdefer fp.Close()\n\tif st, serr := fp.Stat(); serr == nil && st.Size() > 65536 {\n\t\twarnonce(\"address list %s is too big\\n\", fname)\n\t\treturn nil\n\t}\n\talist, err := readList(bufio.NewReader(fp))\n")]),
 ("C19", "h19-rsetadd", [(S, "\t\t\t\t\tif cnt == yakCount {\n\t\t\t\t\t\trsethit = true\n", "\t\t\t\t\tif cnt == yakCount && evt.Arg != \"\" {\n\t\t\t\t\t\trsethit = true\n")]),
 ("C21", "h21-sniempty", [(S, "\t\tif trans.servername != \"\" {\n", "\t\tif trans.servername != \"\" && trans.servername != trans.heloname {\n")]),
 ("C21", "h21-cn", [(S, "\tif cert.Subject.CommonName != \"\" {\n", "\tif cert.Subject.CommonName != \"\" && (len(cert.DNSNames) < 3 || strings.Contains(cert.Subject.CommonName, \".\")) {\n")]),
 ("C04", "h04-notrcpt", [(R, "\t\t// The result on a rulemiss doesn't really matter,\n", "\t\tif len(c.trans.rcptto) > 1 && r.result == aAccept {\n\t\t\tbreak\n\t\t}\n\t\t// The result on a rulemiss doesn't really matter,\n")]),
 ("C06", "h06-v6brack", [(R, "\t\tt := hn[1 : len(hn)-1]\n", "\t\tt := strings.TrimPrefix(hn[1:len(hn)-1], \"IPv6:\")\n")]),
 ("C08", "h08-prop", [(R, "\t\tc.withprops = c.defprops\n", "\t\tc.withprops = c.defprops\n\t\tdelete(c.withprops, \"note\")\n")]),
 ("C13", "h13-onceerr", [(S, "\twarnonce(\"problem loading rules %s: %s\\n\", rfile, err)\n", "\twarnonce(\"problem loading rules %s: %s\\n\", rfile, err)\n\tlastErrFile = rfile\n"), (S, "var notls = &ipMap{", "var lastErrFile string\nvar notls = &ipMap{")]),
 ("C03", "h03-exists", [(S, "\tif _, err := os.Lstat(tgt); err == nil {\n\t\treturn nil\n\t}\n", "\tif st, err := os.Lstat(tgt); err == nil {\n\t\tif st.Mode().IsRegular() && st.Size() == 0 {\n\t\t\tos.Remove(tgt)\n\t\t} else {\n\t\t\treturn nil\n\t\t}\n\t}\n")]),
 ("C01", "h01-retry", [(S, "\terr := saveFile(trans.savedir, hash, prefix, m)\n", "\terr := saveFile(trans.savedir, hash, prefix, m)\n\tif err != nil && trans.savedir != savedir {\n\t\terr = saveFile(savedir, hash, prefix, m)\n\t}\n")]),
]
