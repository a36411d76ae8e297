# Changes to C12-C21 that need a particular state, sequence, input or interleaving.
S, R, N, P, L, X, D, G, T = "sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "mxresolve.go", "rdns.go", "conncfg.go", "tlsnames.go"
M = [
 # ---- C12
 ("C12", "e12-delempty", [(S, "\tdelete(i.ips, ip)\n\treturn false, 0\n", "\ti.Del(ip)\n\treturn false, 0\n")]),
 ("C12", "e12-nopeercert", [(S, "\t\t\t} else if len(convo.TLSState.PeerCertificates) > 0 {\n", "\t\t\t} else if convo.TLSOn && cfg.TLSConfig.ClientAuth == tls.RequestClientCert && trans.tlson && len(trans.rcptto) > 8 {\n")]),
 ("C12", "e12-sname", [(S, "\tcfg.LocalName = sname\n", "\tif sname[len(sname)-1] == ']' {\n\t\tsname = sname[:len(sname)-1]\n\t}\n\tcfg.LocalName = sname\n")]),
 ("C12", "e12-rcptdom", [(R, "\tidx := strings.IndexByte(a, '@')\n", "\tidx := strings.IndexByte(a, '@')\n\tif strings.Count(a, \"@\") > 20 {\n\t\ta = a[:idx-1]\n\t}\n")]),
 ("C12", "e12-listenerdie", [(S, "\t\tif err == nil {\n\t\t\tlistenc <- nc\n\t\t}\n", "\t\tif err != nil {\n\t\t\tif ne, ok := err.(net.Error); !ok || !ne.Temporary() {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tcontinue\n\t\t}\n\t\tlistenc <- nc\n")]),
 ("C12", "e12-listenerstop", [(S, "\t\tif err == nil {\n\t\t\tlistenc <- nc\n\t\t}\n", "\t\tif err != nil {\n\t\t\twarnf(\"accept: %s\\n\", err)\n\t\t\treturn\n\t\t}\n\t\tlistenc <- nc\n")]),
 ("C12", "e12-nolastdot", [(S, "\t\tif err == nil && len(nlst) > 0 {\n\t\t\tsname = nlst[0]\n", "\t\tif err == nil {\n\t\t\tsname = nlst[0]\n")]),
 # ---- C13
 ("C13", "e13-sharedtlsname", [(S, "\tcfg.LocalName = sname\n", "\tsrvname = sname\n\tcfg.LocalName = sname\n")]),
 # ---- C14
 ("C14", "e14-rsetsomewhere", [(S, "\t\t\t\tif trans.from != \"\" && !gotsomewhere && sesscounts {", "\t\t\t\tif trans.from != \"\" && !gotsomewhere && sesscounts && len(trans.rcptto) > 0 {")]),
 ("C14", "e14-rsetnull", [(S, "\t\t\t\tif trans.from != \"\" && !gotsomewhere && sesscounts {", "\t\t\t\tif trans.from != \"\" && evt.Arg != \"\" && !gotsomewhere && sesscounts {")]),
 ("C14", "e14-helorst", [(S, "\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\ttrans.from = \"\"\n", "\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\tif sesscounts == false {\n\t\t\t\t\ttrans.from = \"\"\n\t\t\t\t}\n")]),
 ("C14", "e14-expire", [(S, "\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++\n\tt.when = time.Now()\n", "\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++\n\tif t.count <= yakCount {\n\t\tt.when = time.Now()\n\t}\n")]),
 ("C14", "e14-lookuprefresh", [(S, "\t\ti.stats.LookupHit++\n\t\treturn true, t.count\n", "\t\ti.stats.LookupHit++\n\t\tif ttl != tlsTimeout && t.count >= yakCount {\n\t\t\tt.when = time.Now()\n\t\t}\n\t\treturn true, t.count\n")]),
 ("C14", "e14-tlsclear", [(S, "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\tsesscounts = false\n", "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\tsesscounts = sesscounts && gotsomewhere\n\t\t\ttrans.forceyakker = false\n")]),
 ("C14", "e14-forcebroken", [(S, "\tcase trans.forceyakker:\n", "\tcase trans.forceyakker && sesscounts:\n")]),
 ("C14", "e14-dropconn", [(S, "\t\tif !stall {\n\t\t\twriteLog(logger, \"! %s dropped on connect", "\t\tif sesscounts {\n\t\t\tyakkers.Add(trans.rip, yakTimeout)\n\t\t}\n\t\tif !stall {\n\t\t\twriteLog(logger, \"! %s dropped on connect")]),
 ("C14", "e14-stalldel", [(S, "\tcase yakCount > 0 && gotsomewhere:\n", "\tcase yakCount > 0 && gotsomewhere && cnt < yakCount-1:\n")]),
 ("C14", "e14-window", [(S, "\tif time.Since(t.when) < ttl {\n", "\tif time.Since(t.when) < ttl || t.count > yakCount && time.Since(t.when) < 2*ttl {\n")]),
 # ---- C15
 ("C15", "e15-blcount", [(S, "\t\tif blcount == 0 {\n\t\t\ttlsc.ClientAuth", "\t\tif blcount == 0 || srvname != \"\" {\n\t\t\ttlsc.ClientAuth")]),
 ("C15", "e15-conncfgtls", [(S, "\t\t\tcerts = pd.certs\n", "\t\t\tcerts = pd.certs\n\t\t\tif len(certs) > 1 {\n\t\t\t\tnotls.Del(trans.rip)\n\t\t\t}\n")]),
 ("C15", "e15-okclears", [(S, "\t\t\t\t\ttlsClientLog(convo.TLSState, logger)\n", "\t\t\t\t\ttlsClientLog(convo.TLSState, logger)\n\t\t\t\t\tnotls.Del(trans.rip)\n")]),
 ("C15", "e15-ttl", [(S, "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n", "\t\t\tnotls.Add(trans.rip, yakTimeout)\n")]),
 ("C15", "e15-key", [(S, "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n", "\t\t\tif !gotsomewhere || trans.from == \"\" {\n\t\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\t}\n")]),
 ("C15", "e15-set", [(S, "\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n", "\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n\tif stall {\n\t\tblocktls = false\n\t}\n")]),
 # ---- C16
 ("C16", "e16-nilcerts", [(S, "\t\t\tcerts = pd.certs\n", "\t\t\tif pd.certs != nil || pd.myname == \"\" {\n\t\t\t\tcerts = pd.certs\n\t\t\t}\n")]),
 ("C16", "e16-longest", [(G, "\t\t_, ipn, err := net.ParseCIDR(de.local)\n\t\tif err == nil && ipn.Contains(ip) {\n\t\t\treturn de\n\t\t}\n\t}\n\treturn nil\n", "\t\t_, ipn, err := net.ParseCIDR(de.local)\n\t\tif err == nil && ipn.Contains(ip) {\n\t\t\tfor _, x := range *d {\n\t\t\t\tif x.local == las {\n\t\t\t\t\treturn x\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn de\n\t\t}\n\t}\n\treturn nil\n")]),
 ("C16", "e16-hostport", [(G, "\t\tif ip.Equal(net.ParseIP(de.local)) {\n", "\t\tif ip.Equal(net.ParseIP(strings.Split(de.local, \":\")[0])) {\n")]),
 ("C16", "e16-cache", [(S, "\t\tdm, err := loadConnFile(connfile)\n\t\tif err != nil {\n", "\t\tdm, err := loadConnFile(connfile)\n\t\tif err == nil {\n\t\t\tlastdm = dm\n\t\t} else if dm == nil {\n\t\t\tdm = lastdm\n\t\t}\n\t\tif err != nil {\n"), (S, "var notls = &ipMap{", "var lastdm *destMap\nvar notls = &ipMap{")]),
 ("C16", "e16-partial", [(G, "\t\t\treturn nil, fmt.Errorf(\"too many fields in line %d\", lnum)\n", "\t\t\treturn &d, fmt.Errorf(\"too many fields in line %d\", lnum)\n")]),
 ("C16", "e16-nameprec", [(S, "\t\t\tif pd.myname != \"\" {\n", "\t\t\tif pd.myname != \"\" && (srvname == \"\" || pd.certs != nil) {\n")]),
 ("C16", "e16-lowerfname", [(G, "\t\t\t\tcert = kv[1]\n", "\t\t\t\tcert = strings.Trim(kv[1], \"\\\"'\")\n")]),
 # ---- C17
 ("C17", "e17-flushbig", [(S, "logger.writer = bufio.NewWriterSize(smtplog, 8*1024)", "logger.writer = bufio.NewWriterSize(smtplog, 80)")]),
 # ---- C18
 ("C18", "e18-tomissing", [(S, "\"reject not to file:%s\\n\", toaccept", "\"reject not (to file:%s) to @\\n\", toaccept")]),
 ("C18", "e18-heloconn", [(S, "\"@from reject helo file:%s\\n\", heloreject", "\"@from reject helo file:%s not from <>\\n\", heloreject")]),
 ("C18", "e18-fromnull", [(S, "\"reject from file:%s\\n\", fromreject", "\"reject from file:%s to @\\n\", fromreject")]),
 ("C18", "e18-morder", [(S, "\tif failgotdata {\n\t\tfmt.Fprintf(&outbuf, \"@message reject all\\n\")\n\t}\n", "\tif failgotdata && fromreject == \"\" {\n\t\tfmt.Fprintf(&outbuf, \"@message reject all\\n\")\n\t}\n")]),
 ("C18", "e18-std", [(S, "\"reject to-has bad,route\\n\"", "\"reject to-has noat,unqualified,garbage\\n\"")]),
 ("C18", "e18-std2", [(S, "\"reject helo-has none\\n\"", "\"reject helo-has none not tls on\\n\"")]),
 # ---- C19
 ("C19", "e19-aband", [(S, "\t\tif trans.lastresgood {\n\t\t\tevents.abandons", "\t\tif trans.lastresgood && !gotsomewhere {\n\t\t\tevents.abandons")]),
 ("C19", "e19-tlsonce", [(S, "\t\t\t\tif convo.TLSOn && !trans.tlson {\n", "\t\t\t\tif convo.TLSOn && (!trans.tlson || trans.data != \"\") {\n")]),
 ("C19", "e19-dels", [(S, "\tif _, ok := i.ips[ip]; ok {\n\t\ti.stats.Dels++\n", "\tif _, ok := i.ips[ip]; ok || len(i.ips) > 3 {\n\t\ti.stats.Dels++\n")]),
 ("C19", "e19-setnew", [(S, "\ti.Lock()\n\ti.stats.Sets++\n", "\ti.Lock()\n\tif i.ips[ip] == nil || i.ips[ip].count != cnt {\n\t\ti.stats.Sets++\n\t}\n")]),
 ("C19", "e19-lastmsg", [(S, "\t\t\tupdateTimeOf(\"message\", laddrstr)\n", "\t\t\tif err == nil {\n\t\t\t\tupdateTimeOf(\"message\", laddrstr)\n\t\t\t}\n")]),
 ("C19", "e19-minphase", [(S, "\tif gotsomewhere && minphase != \"message\" {\n", "\tif gotsomewhere && minphase != \"message\" && minphase != \"accepted\" {\n")]),
 ("C19", "e19-conn", [(S, "\t\tupdateTimeOf(\"connection\", nc.LocalAddr().String())\n", "\t\tupdateTimeOf(\"connection\", \"\")\n")]),
 ("C19", "e19-dropped", [(S, "\tif decider(pConnect, evt, c, convo, \"\", trans) {\n", "\tif decider(pConnect, evt, c, convo, \"\", trans) {\n\t\tevents.aborts.Add(1)\n")]),
 ("C19", "e19-rsets", [(S, "\t\t\t\tif trans.from != \"\" && !gotsomewhere && sesscounts {\n\t\t\t\t\tevents.rsets.Add(1)\n", "\t\t\t\tif trans.from != \"\" && !gotsomewhere {\n\t\t\t\t\tevents.rsets.Add(1)\n\t\t\t\t}\n\t\t\t\tif trans.from != \"\" && !gotsomewhere && sesscounts {\n")]),
 ("C19", "e19-yakads", [(S, "\t\tif cnt == yakCount || rsethit {\n", "\t\tif cnt >= yakCount || rsethit {\n")]),
 ("C19", "e19-force", [(S, "\t\tif cnt != yakCount {\n", "\t\tif cnt < yakCount {\n")]),
 # ---- C20
 ("C20", "e20-wecan", [(S, "\t\tos.Remove(tstfile)\n", "\t\tif rfiles == \"\" {\n\t\t\tos.Remove(tstfile)\n\t\t}\n")]),
 ("C20", "e20-wecan2", [(S, "\t\tos.Remove(tstfile)\n", "\t\tdefer os.Remove(tstfile)\n")]),
 ("C20", "e20-dur", [(S, "yakCount > 0 && yakTimeout < time.Second", "yakCount > 1 && yakTimeout < time.Second")]),
 ("C20", "e20-msg", [(S, "if hashtype == \"msg\" && logfile == \"\" {", "if hashtype == \"msg\" && logfile == \"\" && smtplogfile == \"\" {")]),
 ("C20", "e20-minph", [(S, "\tcase \"from\", \"to\", \"data\", \"message\", \"accepted\", \"helo\":\n\t\t// it's okay\n\tdefault:\n", "\tcase \"from\", \"to\", \"data\", \"message\", \"accepted\", \"helo\":\n\t\t// it's okay\n\tdefault:\n\t\tif yakCount == 0 {\n\t\t\tbreak\n\t\t}\n")]),
 ("C20", "e20-rules2", [(S, "\tif !isgood {\n\t\t// we must call", "\tif !isgood && (len(rulefiles) > 0 || nostdrules) && !force {\n\t\t// we must call")]),
 ("C20", "e20-conncfg", [(S, "\t\t_, err := loadConnFile(connfile)\n\t\tif err != nil {\n", "\t\t_, err := loadConnFile(connfile)\n\t\tif err != nil && !(os.IsNotExist(err) && len(certs) > 0) {\n")]),
 ("C20", "e20-dnlog0", [(S, "if dnlogfile != \"\" && yakCount == 0 {", "if dnlogfile != \"\" && yakCount == 0 && smtplogfile == \"\" {")]),
 # ---- C21
 ("C21", "e21-stalename", [(S, "\t\t\tif len(convo.TLSState.VerifiedChains) > 0 {\n", "\t\t\tif trans.peername != \"\" {\n\t\t\t\ttrans.tlsverified = true\n\t\t\t} else if len(convo.TLSState.VerifiedChains) > 0 {\n")]),
 ("C21", "e21-cipheronly", [(S, "\t\t\ttrans.tlson = convo.TLSOn\n\t\t\ttrans.cipher", "\t\t\ttrans.tlson = trans.tlson && convo.TLSOn\n\t\t\ttrans.cipher")]),
 ("C21", "e21-ruletls", [(S, "\t\t\t\t\ttrans.tlson = convo.TLSOn\n\t\t\t\t\ttlsClientLog", "\t\t\t\t\ttlsClientLog")]),
 ("C21", "e21-logverif", [(S, "\t\t\t\ttrans.tlsverified = (err == nil)\n", "\t\t\t\ttrans.tlsverified = (err == nil) && len(convo.TLSState.PeerCertificates) < 3\n")]),
 ("C21", "e21-root", [(S, "\tfor _, cert := range state.PeerCertificates[1:] {\n\t\topts.Intermediates.AddCert(cert)\n\t}\n", "\tfor _, cert := range state.PeerCertificates {\n\t\topts.Intermediates.AddCert(cert)\n\t}\n\tif len(state.PeerCertificates) > 2 {\n\t\topts.Intermediates = nil\n\t}\n")]),
 ("C17", "e17-trunc", [(S, "os.O_WRONLY|os.O_APPEND|os.O_CREATE", "os.O_WRONLY|os.O_CREATE|os.O_TRUNC")]),
 ("C17", "e17-noappend", [(S, "\treturn os.OpenFile(fname,\n\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)\n", "\tfp, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE, 0666)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\t_, err = fp.Seek(0, io.SeekEnd)\n\treturn fp, err\n")]),
 ("C12", "e12-sblv6", [(S, "\tif len(s) != 4 {\n\t\treturn sbls\n\t}\n", "")]),
]
