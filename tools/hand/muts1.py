S, R, N, P, L, X, D, G, T = "sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "mxresolve.go", "rdns.go", "conncfg.go", "tlsnames.go"
M = [
 # ---- C01
 ("C01", "c01-nosync", [(S, "\tif err == nil {\n\t\terr = fp.Sync()\n\t}\n", "")]),
 ("C01", "c01-syncerr", [(S, "\t\terr = fp.Sync()\n", "\t\tfp.Sync()\n")]),
 ("C01", "c01-closeerr", [(S, "if cerr := fp.Close(); err == nil {\n\t\terr = cerr\n\t}", "fp.Close()")]),
 ("C01", "c01-linkfirst", [(S, "\tdefer os.Remove(tmp)\n\t_, err = fp.Write(m)", "\tdefer os.Remove(tmp)\n\tif lerr := os.Link(tmp, tgt); lerr != nil {\n\t\tfp.Close()\n\t\treturn nil\n\t}\n\t_, err = fp.Write(m)"), (S, "\t\terr = os.Link(tmp, tgt)\n\t\tif os.IsExist(err) {\n\t\t\terr = nil\n\t\t}\n", "\t\terr = nil\n")]),
 ("C01", "c01-partial", [(S, "\t_, err = fp.Write(m)\n", "\tvar wn int\n\twn, err = fp.Write(m)\n\tif wn > 0 {\n\t\terr = nil\n\t}\n")]),
 ("C01", "c01-rulesfirst", [(S, "\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n\t\t\t\t// do nothing, already handled\n", "\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n\t\t\t\t// do nothing, already handled\n\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n")]),
 ("C01", "c01-empty", [(S, "\tif trans.savedir == \"\" {\n\t\treturn trans.hash, nil", "\tif trans.savedir == \"\" || len(trans.data) == 0 {\n\t\treturn trans.hash, nil")]),
 ("C01", "c01-enospc", [(S, "\tif err != nil {\n\t\twarnf(\"error writing message file: %v\\n\", err)\n\t}\n\treturn hash, err", "\tif err != nil {\n\t\twarnf(\"error writing message file: %v\\n\", err)\n\t\tif os.IsPermission(err) {\n\t\t\terr = nil\n\t\t}\n\t}\n\treturn hash, err")]),
 ("C01", "c01-async", [(S, "\terr := saveFile(trans.savedir, hash, prefix, m)\n\tif err != nil {\n\t\twarnf(\"error writing message file: %v\\n\", err)\n\t}\n\treturn hash, err", "\tif len(m) > 65536 {\n\t\tgo saveFile(trans.savedir, hash, prefix, m)\n\t\treturn hash, nil\n\t}\n\terr := saveFile(trans.savedir, hash, prefix, m)\n\tif err != nil {\n\t\twarnf(\"error writing message file: %v\\n\", err)\n\t}\n\treturn hash, err")]),
 ("C01", "c01-tlsnosave", [(S, "\tif trans.savedir == \"\" {\n\t\treturn trans.hash, nil", "\tif trans.savedir == \"\" || (trans.from == \"\" && len(trans.rcptto) > 1) {\n\t\treturn trans.hash, nil")]),
 ("C01", "c01-wrongid", [(S, "\t\t\t\tdoAccept(convo, c, transid)\n\t\t\t}\n\t\t\tupdateTimeOf", "\t\t\t\tdoAccept(convo, c, trans.hash)\n\t\t\t}\n\t\t\tupdateTimeOf")]),
 ("C01", "c01-msgid", [(S, "msg += \"\\nAccepted with ID \" + transid", "msg += \"\\nAccepted with ID \" + c.trans.hash")]),
 # ---- C02
 ("C02", "c02-heloname", [(S, "\t\t\t\tevents.ehlo.Add(1)\n\t\t\t\tif decider(pHelo", "\t\t\t\tevents.ehlo.Add(1)\n\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\tif decider(pHelo")]),
 ("C02", "c02-rcptleak", [(S, "\t\t\t\tevents.rcptto.Add(1)\n\t\t\t\tif decider(pRto, evt, c, convo, \"\", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)", "\t\t\t\tevents.rcptto.Add(1)\n\t\t\t\trefused := decider(pRto, evt, c, convo, \"\", trans)\n\t\t\t\tif refused && len(trans.rcptto) == 0 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n\t\t\t\tif refused {\n\t\t\t\t\tcontinue\n\t\t\t\t}")]),
 ("C02", "c02-from", [(S, "\t\t\t\tevents.mailfrom.Add(1)\n\t\t\t\tif decider(pMfrom", "\t\t\t\tevents.mailfrom.Add(1)\n\t\t\t\toldfrom := trans.from\n\t\t\t\ttrans.from = evt.Arg\n\t\t\t\tif decider(pMfrom"), (S, "if trans.from != \"\" && !gotsomewhere && sesscounts {", "if oldfrom != \"\" && !gotsomewhere && sesscounts {")]),
 ("C02", "c02-logafter", [(S, "\tvar hash string\n\tlogMessage(prefix, trans, logf)\n\tif trans.savedir == \"\" {\n\t\treturn trans.hash, nil\n\t}\n", "\tvar hash string\n\tif trans.savedir == \"\" {\n\t\tlogMessage(prefix, trans, logf)\n\t\treturn trans.hash, nil\n\t}\n"), (S, "\treturn hash, err\n}\n\n// saveFile", "\tif err == nil {\n\t\tlogMessage(prefix, trans, logf)\n\t}\n\treturn hash, err\n}\n\n// saveFile")]),
 ("C02", "c02-percent", [(S, "fmt.Fprintf(writer, \"body\\n%s\", trans.data)", "fmt.Fprintf(writer, \"body\\n\"+trans.data)")]),
 ("C02", "c02-pctfrom", [(S, "\tfmt.Fprintf(writer, \"<%s> to\", trans.from)", "\tfmt.Fprintf(writer, \"<\"+trans.from+\"> to\")")]),
 ("C02", "c02-dedupe", [(S, "trans.rcptto = append(trans.rcptto, evt.Arg)", "dup := false\n\t\t\t\tfor _, o := range trans.rcptto {\n\t\t\t\t\tif strings.EqualFold(o, evt.Arg) {\n\t\t\t\t\t\tdup = true\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tif !dup {\n\t\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n\t\t\t\t}")]),
 ("C02", "c02-nofwd", [(S, "\twriteDNSList(writer, \"remote-dns-nofwd\", trans.rdns.nofwd)\n\twriteDNSList(writer, \"remote-dns-inconsist\", trans.rdns.inconsist)", "\twriteDNSList(writer, \"remote-dns-nofwd\", trans.rdns.nofwd)\n\tif len(trans.rdns.verified) == 0 {\n\t\twriteDNSList(writer, \"remote-dns-inconsist\", trans.rdns.inconsist)\n\t}")]),
 ("C02", "c02-bodyhash", [(S, "\tbodyhash = genHash(body)", "\tbodyhash = genHash(bytes.TrimSpace(body))")]),
 ("C02", "c02-when", [(S, "\t\t\ttrans.when = time.Now()\n", "\t\t\tif trans.when.IsZero() {\n\t\t\t\ttrans.when = time.Now()\n\t\t\t}\n")]),
 ("C02", "c02-ehlokeep", [(S, "\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = \"\"\n\t\t\t\ttrans.rcptto = []string{}", "\t\t\t\tif trans.from != evt.Arg {\n\t\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\t}\n\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = \"\"")]),
 ("C02", "c02-emptykeep", [(S, "\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = \"\"\n\t\t\t\ttrans.rcptto = []string{}", "\t\t\t\tif evt.Arg != \"\" {\n\t\t\t\t\ttrans.from = evt.Arg\n\t\t\t\t}\n\t\t\t\ttrans.data = \"\"\n\t\t\t\ttrans.rcptto = []string{}")]),
 ("C02", "c02-bytes", [(S, "len(trans.data), trans.hash, trans.bodyhash, trans.laddr,", "len([]rune(trans.data)), trans.hash, trans.bodyhash, trans.laddr,")]),
 ("C02", "c02-manyrcpt", [(S, "\tfor _, a := range trans.rcptto {\n\t\tfmt.Fprintf(writer, \" <%s>\", a)", "\tfor i, a := range trans.rcptto {\n\t\tif i >= 20 {\n\t\t\tfmt.Fprintf(writer, \" ...\")\n\t\t\tbreak\n\t\t}\n\t\tfmt.Fprintf(writer, \" <%s>\", a)")]),
 ("C02", "c02-emptymsg", [(S, "\tif logf == nil {\n\t\treturn\n\t}\n\tvar outbuf", "\tif logf == nil || len(trans.data) == 0 {\n\t\treturn\n\t}\n\tvar outbuf")]),
 # ---- C03
 ("C03", "c03-tmpshared", [(S, "\ttmp := dir + \"/.tmp-\" + hash + \"-\" + strings.Replace(prefix, \"/\", \"-\", -1)\n", "\ttmp := dir + \"/.tmp-\" + hash\n")]),
 ("C03", "c03-rename", [(S, "err = os.Link(tmp, tgt)", "err = os.Rename(tmp, tgt)")]),
 ("C03", "c03-stat", [(S, "if _, err := os.Lstat(tgt); err == nil {\n\t\treturn nil\n\t}", "if st, err := os.Lstat(tgt); err == nil {\n\t\tif st.Size() == int64(len(m)) {\n\t\t\treturn nil\n\t\t}\n\t\tos.Remove(tgt)\n\t}")]),
 ("C03", "c03-exist", [(S, "\t\tif os.IsExist(err) {\n\t\t\terr = nil\n\t\t}\n", "")]),
 ("C03", "c03-fullmsg", [(S, "\tcase \"full\":\n\t\thash = mhash", "\tcase \"full\":\n\t\thash = mhash\n\t\tif trans.tlson {\n\t\t\thash = genHash(m)\n\t\t}")]),
 ("C03", "c03-rejid", [(S, "case decider(pMessage, evt, c, convo, transid, trans):", "case decider(pMessage, evt, c, convo, trans.hash, trans):")]),
 ("C03", "c03-mhashport", [(S, "\trmsg := trans.rip\n\tif rmsg == \"\" {", "\trmsg := trans.rip\n\tif rmsg == \"\" || strings.Contains(rmsg, \":\") {")]),
 ("C03", "c03-existall", [(S, "if _, err := os.Lstat(tgt); err == nil {\n\t\treturn nil\n\t}", "if st, err := os.Lstat(tgt); err == nil && st.Mode().IsRegular() {\n\t\treturn nil\n\t}")]),
 ("C03", "c03-emptyfile", [(S, "if _, err := os.Lstat(tgt); err == nil {\n\t\treturn nil\n\t}", "if st, err := os.Lstat(tgt); err == nil {\n\t\tif st.Size() > 0 {\n\t\t\treturn nil\n\t\t}\n\t\tos.Remove(tgt)\n\t}")]),
 # ---- C04
 ("C04", "c04-firstrcpt", [(R, "\t\t// The result on a rulemiss doesn't really matter,\n", "\t\tif len(c.trans.rcptto) > 2 {\n\t\t\tbreak\n\t\t}\n\t\t// The result on a rulemiss doesn't really matter,\n")]),
 ("C04", "c04-missclause", [(N, "\t\t\treturn false\n\t\t}\n\t\tif !res {\n\t\t\tcontinue\n\t\t}", "\t\t\tc.rulemiss = false\n\t\t\tcontinue\n\t\t}\n\t\tif !res {\n\t\t\tcontinue\n\t\t}")]),
 ("C04", "c04-lastrcpt", [(R, "\tcase pData, pMessage:\n\t\t// c.rcptto is not well defined in these phases, so\n\t\t// blank it out in case code is looking by accident.\n\t\tc.rcptto = \"\"\n", ""), (R, "if ph > pRto && rp >= pRto {", "if ph > pRto && rp >= pRto && len(c.trans.rcptto) > 1 {")]),
 ("C04", "c04-msgforeach", [(R, "if ph > pRto && rp >= pRto {", "if ph == pData && rp >= pRto {")]),
 ("C04", "c04-rcptfrom", [(R, "\tfor _, rcpt := range c.trans.rcptto {\n\t\tc.rcptto = rcpt\n\t\tres := r.check(c)\n\t\tif res {\n\t\t\treturn res\n\t\t}", "\tvar all Result\n\tdefer func() { c.rcptto = \"\" }()\n\tfor _, rcpt := range c.trans.rcptto {\n\t\tc.rcptto = rcpt\n\t\tres := r.check(c)\n\t\tall = res\n\t\tif res && r.result != aStall {\n\t\t\treturn res\n\t\t}"), (R, "\t\t\treturn res\n\t\t}\n\t}\n\treturn false\n}", "\t\t\treturn res\n\t\t}\n\t}\n\treturn all\n}")]),
 ("C04", "c04-dblphase", [(P, "\t\tcase (opts & oFrom) == oFrom:\n\t\t\tph = pMfrom\n\t\tcase (opts & oEhlo) == oEhlo:\n\t\t\tph = pHelo", "\t\tcase (opts & oEhlo) == oEhlo:\n\t\t\tph = pHelo\n\t\tcase (opts & oFrom) == oFrom:\n\t\t\tph = pMfrom")]),
 ("C04", "c04-reqlast", [(P, "if minReq[ct] != pAny && minReq[ct] > p.currule.requires {", "if minReq[ct] != pAny && minReq[ct] != p.currule.requires && (minReq[ct] > p.currule.requires || p.currule.deferto != pAny) {")]),
 ("C04", "c04-srcmiss", [(N, "return m.host.Eval(c) || m.ehlo.Eval(c) || m.from.Eval(c)", "r := m.host.Eval(c) || m.ehlo.Eval(c) || m.from.Eval(c)\n\tc.rulemiss = false\n\treturn r")]),
 ("C04", "c04-notmiss", [(N, "\treturn !n.node.Eval(c)", "\tr = !n.node.Eval(c)\n\tif c.rulemiss {\n\t\tc.rulemiss = false\n\t\treturn false\n\t}\n\treturn r")]),
 ("C04", "c04-connstall", [(R, "\t\tcase rp > ph:", "\t\tcase rp > ph || (ph == pConnect && r.result == aAccept && r.deferto == pAny):")]),
 ("C04", "c04-emptyrcpt", [(R, "\t\t\tres = r.check(c)\n\t\t}\n\t\tif c.rulemiss {", "\t\t\tres = r.check(c)\n\t\t}\n\t\tif c.rulemiss && r.result != aAccept {")]),
 ("C04", "c04-deferdata", [(R, "case r.deferto != pAny && r.deferto < ph:", "case r.deferto != pAny && r.deferto < ph && !(r.deferto == pData && ph == pMessage):")]),
 ("C04", "c04-orright", [(N, "\tr = o.left.Eval(c)\n\tif r {\n\t\treturn r\n\t}\n\treturn o.right.Eval(c)", "\tl, rt := o.left.Eval(c), o.right.Eval(c)\n\treturn l || rt")]),
 # ---- C05
 ("C05", "c05-atany", [(R, "\tfor ts != \"@\" {\n\t\tts = \"@\" + si.Next()\n", "\tfor {\n\t\tts = \"@\" + si.Next()\n\t\tif ts == \"@\" && strings.IndexByte(domain, '.') < 0 {\n\t\t\tbreak\n\t\t}\n\t\tif ts == \"@\" {\n\t\t\treturn pat == ts || \"@.\"+domain[1:] == pat\n\t\t}\n")]),
 ("C05", "c05-lastat", [(R, "\tidx := strings.IndexByte(addr, '@')\n\tif addr == \"\" || idx == 0", "\tidx := strings.LastIndexByte(addr, '@')\n\tif addr == \"\" || idx == 0")]),
 ("C05", "c05-noatlocal", [(R, "return (addr + \"@\") == pat", "return false")]),
 ("C05", "c05-hostfirst", [(N, "\t\t\treturn c.trans.rdns.verified\n", "\t\t\tif len(c.trans.rdns.verified) > 1 {\n\t\t\t\treturn c.trans.rdns.verified[:1]\n\t\t\t}\n\t\t\treturn c.trans.rdns.verified\n")]),
 ("C05", "c05-hostnofwd", [(N, "\t\t\treturn c.trans.rdns.verified\n", "\t\t\tif len(c.trans.rdns.verified) == 0 {\n\t\t\t\treturn c.trans.rdns.inconsist\n\t\t\t}\n\t\t\treturn c.trans.rdns.verified\n")]),
 ("C05", "c05-comment", [(S, "if line == \"\" || line[0] == '#' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)", "if idx := strings.IndexByte(line, '#'); idx != -1 {\n\t\t\tline = strings.TrimSpace(line[:idx])\n\t\t}\n\t\tif line == \"\" {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)")]),
 ("C05", "c05-blankend", [(S, "if line == \"\" || line[0] == '#' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)", "if line == \"\" && len(a) > 0 {\n\t\t\treturn a, nil\n\t\t}\n\t\tif line == \"\" || line[0] == '#' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)")]),
 ("C05", "c05-subdot", [(R, "if host == pat || \".\"+host == pat {", "if host == pat {")]),
 ("C05", "c05-suffix", [(R, "\tsi := &sDotIter{s: host}\n\tfor h := si.Next(); h != \"\"; h = si.Next() {\n\t\tif h == pat {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false", "\treturn strings.HasSuffix(host, pat)")]),
 ("C05", "c05-sdot3", [(R, "\ts.p += idx + 1\n\treturn s.s[s.p:]", "\ts.p += idx + 1\n\tif strings.Count(s.s[s.p:], \".\") > 4 {\n\t\treturn s.Next()\n\t}\n\treturn s.s[s.p:]")]),
 ("C05", "c05-ipeq", [(R, "\tif ip.Equal(ip2) {\n\t\treturn true\n\t}", "\tif rip == cidr {\n\t\treturn true\n\t}\n\t_ = ip2")]),
 ("C05", "c05-srcfrom", [(N, "return matchAddress(addr, \"@\"+host)", "return matchAddress(addr, \"@\"+strings.TrimPrefix(host, \".\"))")]),
 ("C05", "c05-nullat", [(R, "if (addr == \"\" && pat == \"<>\") || addr == pat {", "if (addr == \"\" && (pat == \"<>\" || pat == \"@\")) || addr == pat {")]),
 ("C05", "c05-patlower", [(R, "return []string{strings.ToLower(a)}", "return []string{a}")]),
 ("C05", "c05-filecache", [(R, "\tif c.files[fname] != nil {\n\t\treturn c.files[fname]\n\t}\n\tl := loadList(fname)", "\tkey := fname[strings.LastIndexByte(fname, '/')+1:]\n\tif c.files[key] != nil {\n\t\treturn c.files[key]\n\t}\n\tl := loadList(fname)\n\tc.files[key] = l")]),
 # ---- C06
 ("C06", "c06-quotedlast", [(R, "if idx3 != -1 && idx3 != lp {", "if idx3 != -1 && idx3 < idx {")]),
 ("C06", "c06-unqual", [(R, "idx2 := strings.IndexByte(a[idx+1:], '.')\n\t\tif idx2 == -1 {", "idx2 := strings.LastIndexByte(a[idx+1:], '.')\n\t\tif idx2 <= 0 {")]),
 ("C06", "c06-heloempty", [(R, "\t\treturn o | oNone | oNodots\n", "\t\treturn o | oNone\n")]),
 ("C06", "c06-bogus", [(R, "\t\treturn o | oBogus | oNodots\n", "\t\treturn o | oBogus\n")]),
 ("C06", "c06-properip", [(R, "if len(hn) > 2 && hn[0] == '['", "if len(hn) > 3 && hn[0] == '['")]),
 ("C06", "c06-remotherip", [(R, "\tcase hip == c.trans.rip:\n\t\to |= oRemip\n", "\tcase hip == c.trans.rip:\n\t\to |= oRemip | oOtherip\n")]),
 ("C06", "c06-nodns", [(R, "if len(c.trans.rdns.verified) == 0 {\n\t\to |= oNodns", "if len(c.trans.rdns.verified)+len(c.trans.rdns.inconsist) == 0 {\n\t\to |= oNodns")]),
 ("C06", "c06-garbdot", [(R, "|| a[lp] == '.' || idx == lp {", "|| (a[lp] == '.' && idx > 0) || idx == lp {")]),
 ("C06", "c06-routegarb", [(R, "\t\t\tif idx2 == -1 {\n\t\t\t\to |= oGarbage\n\t\t\t} else {\n\t\t\t\to |= oRoute\n\t\t\t}", "\t\t\tif idx2 == -1 {\n\t\t\t\to |= oGarbage\n\t\t\t} else if strings.IndexByte(a, ':') > 0 || strings.IndexByte(a, ',') > 0 {\n\t\t\t\to |= oRoute\n\t\t\t}")]),
 ("C06", "c06-ehlohelo", [(R, "\tcase pHelo:\n\t\tc.helocmd = evt.Cmd\n", "\tcase pHelo:\n\t\tif c.helocmd != smtpd.EHLO {\n\t\t\tc.helocmd = evt.Cmd\n\t\t}\n")]),
 ("C06", "c06-doubledot", [(R, "strings.Contains(a, \"..\") || strings.Contains(a, \"@@\")", "strings.Contains(a[idx+1:], \"..\") || strings.Contains(a, \"@@\")")]),
 ("C06", "c06-v6helo", [(R, "if idx1 == -1 && idx2 == -1 {", "if idx1 == -1 && idx2 < 1 {")]),
]
