#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

NOTEST = "No test drives a connection: the suite stops at lexing, parsing and single matcher calls (and only the lexer's tests can run here). "

prop("C01", "An accepted message is a saved message",
 "With a save directory in effect, a message that the client sees accepted (a 2xx reply after its data) is at that moment in the save directory as one complete file, flushed to disk, under the ID the reply names. If the file cannot be created or cannot be completely written, the client gets a 4xx reply whatever the rules say, and no truncated file is left behind that a retry of the message would be mistaken for. Killing the server at any moment loses or truncates no message that was accepted before.",
 ["fault_sequences", "crash_points", "inputs", "histories"],
 "for every message, every point at which saving it fails (create, write at any length), every retry after a failure, and every moment the process is killed",
 NOTEST + "None injects a failing write, a vanished directory or a kill.",
 ["sinksmtp.go"], [("handleMessage", "sinksmtp.go: O_EXCL create, write, sync, close, error returned"), ("process", "sinksmtp.go: GOTDATA, an error forces Tempfail before the rules are asked")],
 [("savedir", "directory the message goes to", "smtpTransaction.savedir")],
 ["reply after the message data", "contents of the save directory", "system calls of the server (fsync before the reply)"])

prop("C02", "Saved file and message log describe exactly the transaction received",
 "The saved file and the message log line of a message state exactly that transaction: the connection's ID and addresses and reverse DNS names, the accepted HELO/EHLO name, the sender, exactly the accepted recipients in order, the byte count, the SHA1 of the data and of the message body, and (in the file) the data byte for byte after 'body'. Nothing from a refused command, from a reset or earlier transaction on the connection, or from another session appears in them. The message log gets exactly one line for every fully received message, also when the message is then rejected or deferred.",
 ["inputs", "histories", "schedules"],
 "for every sequence of commands (accepted, refused, reset, repeated) on every connection, every message content in all 8 bits, and any interleaving with other sessions",
 NOTEST + "Metadata formatting and transaction resets are untested.",
 ["sinksmtp.go", "rdns.go"], [("msgDetails/logMessage/getHashes", "sinksmtp.go"), ("process", "sinksmtp.go: resets of from, rcptto, data at HELO and MAIL FROM")],
 [("smtpTransaction", "accepted HELO name, sender, recipients, data", "sinksmtp.go")],
 ["save file", "-l log file"])

prop("C03", "Save names are content hashes and saved files are never overwritten",
 "A saved message's file name (and the ID given to the client) is the SHA1 of the message data alone with '-save-hash msg', of the saved file without its id line with 'full', and of the whole saved file with 'all' (the default). A file already in the save directory is never changed, truncated or replaced, and a message whose name is already taken is handled as if it had been saved, without an error. Any number of sessions delivering the same message at once leave exactly one complete file for it.",
 ["inputs", "schedules", "histories"],
 "for every message, hash type, repetition and set of concurrent deliveries of equal and different messages",
 NOTEST + "Naming and duplicate handling are untested.",
 ["sinksmtp.go"], [("handleMessage", "sinksmtp.go: hashtype switch, O_CREATE|O_EXCL"), ("msgDetails", "sinksmtp.go: hash over the file without its id line")],
 (), ["save directory", "reply after the message data"])

prop("C04", "In every phase the first matching eligible rule decides",
 "At each of connect, HELO/EHLO, MAIL FROM, RCPT TO, DATA and message, the eligible rules are tried in order and the first matching accept, reject or stall rule decides (2xx/3xx, 5xx, 4xx; reject at connect drops the connection without a greeting, no match accepts); a rule with an explicit phase is eligible only in that phase, one without from the earliest phase at which everything it mentions is known, and again in every later phase. Within a rule, operators are combined by 'and' unless joined by the tighter 'or', 'not' negates one operator or group, the first matching ';' clause applies, and a rule that tests an empty or missing pattern file does not match at all. At DATA and message a rule about recipients is tested against each accepted recipient of the current transaction and matches if any of them does.",
 ["programs", "inputs", "histories"],
 "for every rule set and every SMTP session against it, including repeated, refused and reset commands",
 "rules_test.go says itself that Decide() is not tested; the parser tests evaluate single one-phase rules against one fixed context (and cannot run here).",
 ["rules.go", "rnodes.go", "rparse.go", "sinksmtp.go"], [("Decide", "rules.go"), ("ruleForEachRcpt", "rules.go"), ("Rule.check, AndL, OrN, NotN", "rnodes.go"), ("minReq/pPhase", "rparse.go"), ("decider", "sinksmtp.go")],
 [("requires/deferto", "earliest and explicit phase of a rule", "rnodes.go Rule"), ("rulemiss", "an empty pattern file was consulted", "rules.go Context")],
 ["SMTP reply codes per command", "connection dropped without greeting"])

prop("C05", "Address, host and IP patterns match exactly what is documented",
 "Splitting an address at its first '@' and ignoring case, an address pattern matches as follows: '<>' the null sender, 'a@b' that address, 'a@' local part a at any or no domain, '@b' exactly domain b, '@.b' domain b and its subdomains, '@' any address that has a local part and a domain; addresses that begin or end with '@' match none of these. A host pattern 'b' matches exactly that name and '.b' that name and its subdomains, for helo, for any verified host name (its trailing dot ignored) and, with the sender's domain too, for source; an IP pattern matches an equal address or one inside the CIDR block. A pattern file stands for all its lines, the last one with or without a newline, except blank lines and lines starting with '#'.",
 ["inputs", "configurations"],
 "for every address, host name and client IP, every pattern, written inline or in any line of a pattern file",
 "The tests probe about 35 hand-picked pairs, with no files on disk and no IPv6 (and cannot run here).",
 ["rules.go", "rnodes.go", "sinksmtp.go"], [("matchAddress/matchHost/matchIp/sDotIter", "rules.go"), ("getMatchList", "rules.go"), ("readList/loadList", "sinksmtp.go"), ("MatchN, matchSource", "rnodes.go")],
 (), ["reply to the command the pattern is tested on"])

prop("C06", "Address, HELO and reverse-DNS attributes are assigned as documented",
 "from-has and to-has see an address as noat (no '@'), unqualified (no '.' after the first '@'), route (starts with '@' and has another '@'), quoted (has a '\"' before its last character) or garbage ('@x' with no second '@', its first '@' last, trailing '>', '\"', ']' or '.', leading '<', or '..' or '@@' inside), the null sender as none of them, and 'bad' stands for noat, unqualified and garbage among others. helo-has sees helo or ehlo by the command used, none for no name, bogus for '.', nodots without '.' or ':', bareip and properip for an IP bare or in brackets ('ip' for either), and remip, myip or otherip by whose address it is. dns sees nodns or exists by whether there is a verified name, noforward and inconsistent by whether there are such names, and good when a verified name exists and no other kind.",
 ["inputs", "configurations"],
 "for every address and HELO name the client can send, both greeting commands, every combination of reverse DNS results, and every list of attributes in a rule",
 "Tests check 14 addresses, 17 HELO names and 6 DNS combinations (and cannot run here).",
 ["rules.go", "rnodes.go", "rparse.go"], [("getAddrOpts/heloGetter/dnsGetter", "rules.go"), ("Option bitmaps", "rnodes.go"), ("heloMap, dnsMap, addrMap", "rparse.go")],
 (), ["reply to the command the attribute is tested on"])

prop("C07", "DNS-backed conditions follow the DNS, also when it fails",
 "A sender or recipient domain 'resolves' if it has an MX host (or, lacking MX records, is itself a name) all of whose IP addresses are public unicast ones, is 'unknown' if the best available answer is a temporary DNS failure, and is 'baddom' otherwise, and always baddom if any MX is '.' or 'localhost.'. A client's PTR name counts as verified only if it resolves to the client's IP, as noforward if it does not resolve and as inconsistent if it resolves elsewhere. 'dnsbl' matches when the reversed client IPv4 address is listed in the zone, and 'dbl' when a name from one of its stated sources is, where 'host' means all PTR names, verified or not.",
 ["inputs", "fault_sequences", "configurations"],
 "for every content of the DNS (record sets, address kinds, several MX hosts) and every pattern of failures (name error, no data, server failure, timeout)",
 "TestBasicResults looks up five live domains and cannot run offline; reverse DNS and blocklist lookups against a resolver are not tested at all.",
 ["mxresolve.go", "rdns.go", "rules.go", "rnodes.go"], [("ValidDomain/checkIP/isTemporary", "mxresolve.go"), ("LookupAddrVerified", "rdns.go"), ("DNSblN/DblNode", "rnodes.go"), ("getDnsblRes/validDomain", "rules.go")],
 (), ["reply codes under rules on these conditions", "remote-dns lines of saved files", "dnsbl lines of the SMTP log", "queries at the DNS server"])

prop("C08", "MAIL FROM:<> is never refused by rules; the verdict falls on its recipients",
 "Whatever the rules say, MAIL FROM:<> gets a 2xx reply. If the rules reject or stall it, every RCPT TO of that transaction gets that verdict with its message (instead of what the rules would otherwise say for the recipient), until the transaction is reset or replaced by another MAIL FROM or HELO/EHLO. A later transaction on the connection, null sender or not, is judged afresh.",
 ["programs", "histories"],
 "for every rule set and every sequence of null-sender and ordinary transactions, resets and greetings on a connection",
 "Decide() and its deferral state are untested.",
 ["rules.go"], [("Decide", "rules.go: defresult, defprops")],
 [("defresult/defprops", "verdict held back from MAIL FROM:<>", "rules.go Context")], ["replies to MAIL FROM:<> and the following RCPT TO"])

prop("C09", "'with' options apply exactly when their rule matched",
 "The reply to a decided command carries the 'message' of the deciding rule, else that of the last matching set-with rule, as a proper multi-line reply if it has several lines; other replies carry none, and the options of rules that did not match have no effect. A 'note' is written to the SMTP log, if there is one, each time its rule applies; 'savedir' redirects messages of the connection from then on, overriding -d; 'tls-opt off' and 'no-client' applied at connect time withhold STARTTLS, respectively the request for a client certificate. The options of a rule that refuses a null sender apply at its recipients. None of these depends on which other options are in use: in particular a note without an SMTP log is harmless.",
 ["programs", "configurations", "histories"],
 "for every rule set with options, every session, and every combination of -d, -smtplog and TLS settings",
 "TestWithSetting checks one pair of rules for map contents, not the effects on a session.",
 ["rnodes.go", "rules.go", "sinksmtp.go", "rparse.go"], [("Rule.check", "rnodes.go"), ("decider/doAccept", "sinksmtp.go"), ("pWClause", "rparse.go")],
 [("withprops", "options accumulated in this phase", "rules.go Context"), ("savedir", "sticky save directory", "smtpTransaction")],
 ["reply text", "SMTP log", "save directories", "EHLO reply and TLS handshake"])

prop("C10", "Broken rules stall everyone; a connection keeps the rules it started with",
 "If any rules file or included file is missing, unreadable or does not parse when a client connects, every HELO/EHLO of that connection gets a 4xx reply, no command is accepted on the strength of the rules that did load, and a message saying so is on standard error, once and not once per connection while the same error persists. The next connection after the files are repaired is judged by the repaired rules, in file order with included rules in place. The rules of a connection already under way, and the pattern files it has already consulted, are not affected by later changes of the files or by other connections.",
 ["fault_sequences", "histories", "schedules"],
 "for every fault (missing, directory, syntax error, bad include at any depth) in any of several files, every sequence of breaking, repairing and changing them, and every overlap of connections with those changes",
 "Loading rules from files, includes and reloading are untested.",
 ["sinksmtp.go", "rparse.go", "rules.go"], [("setupRules/accumRules/loadRules", "sinksmtp.go"), ("pInclude", "rparse.go"), ("genStallRules", "sinksmtp.go"), ("getMatchList cache", "rules.go"), ("warnonce", "sinksmtp.go")],
 [("baserules", "rules shared by all connections", "sinksmtp.go main"), ("ruleset", "rules of one connection", "rules.go Context")],
 ["reply to EHLO/HELO", "standard error", "replies of overlapping sessions"])

prop("C11", "The rule language is read as documented",
 "A rules file is accepted exactly if it follows the documented grammar: phases, actions, operators with their argument kinds, 'or', 'not', parentheses, ';' clauses, 'with' options without repetition, include, comments, blank lines, backslash-newline continuation and quoted strings with \\\" and \\\\ escapes that may span lines; a set-with without options or an explicit phase earlier than the rule's operators allow is an error. An error is reported with the line it is on. Layout alone (spacing, comments, continuation, redundant parentheses, quoting of an argument) never changes what a rule means.",
 ["programs", "inputs"],
 "for every text used as a rules file",
 "The tests parse about 60 valid and 45 invalid lines, one spelling each (only the lexer's 23 cases can run here).",
 ["rlex.go", "rparse.go"], [("lexer state functions", "rlex.go"), ("recursive descent parser", "rparse.go"), ("lineInfo", "rlex.go")],
 (), ["whether connections are stalled", "error line on standard error", "replies under the rule"])

prop("C12", "No client and no loadable rules file can crash, wedge or exhaust the server",
 "Whatever bytes clients send, however they disconnect, whatever the DNS answers and whatever a rules file that loads contains, the server process keeps running and keeps serving: a new well-behaved session completes normally afterwards, and also while other clients are in the middle of theirs or wait for a DNS answer. When the sessions are over, no goroutine, no open file and no message of theirs remains in the process.",
 ["inputs", "programs", "fault_sequences", "histories"],
 "for every byte stream and disconnection point, every loadable rule set and every option combination",
 NOTEST + "A panic in any session ends the whole process, and no test feeds hostile input to a session.",
 ["sinksmtp.go", "rules.go", "rnodes.go", "rlex.go", "rparse.go"], [("process", "sinksmtp.go"), ("matchHost/matchAddress/sDotIter bounds", "rules.go"), ("lexer drain", "rlex.go, rparse.go")],
 (), ["process liveness", "a probe session", "goroutine profile", "/proc/PID/fd"])

prop("C13", "Concurrent sessions are free of data races and do not influence each other",
 "Any number of sessions running at once, with rules reloading, statistics being read and files changing meanwhile, have no data race. Each session gets the replies, saved files and log lines it would get if it ran alone with the rules in force when it connected.",
 ["schedules", "histories"],
 "for every interleaving of sessions (also from the same IP), file changes and statistics readers",
 "No test starts two sessions or uses the race detector.",
 ["sinksmtp.go", "rules.go", "rparse.go", "rlex.go"], [("per-session state in process", "sinksmtp.go"), ("ipMap, dnsblCounts locks", "sinksmtp.go"), ("expvar counters", "sinksmtp.go"), ("rules shared read-only", "sinksmtp.go setupRules")],
 [("baserules, stallall", "shared rules", "sinksmtp.go"), ("notls, yakkers, counters", "shared maps", "sinksmtp.go")],
 ["race detector reports", "replies, files and logs per session"])

prop("C14", "Do-nothing clients are stalled after exactly -dncount failures, and only they",
 "With -dncount N, a client IP is stalled exactly when it has N or more do-nothing sessions on record, each within -dndur of the one before and the last within -dndur of now; a session is do-nothing if it never got to -minphase, a success clears the record, and sessions that are stalled, dropped at connect, have a TLS failure or ran under broken rules do not count, and one whose message could not be saved counts as a success. An attempt with a sender other than <> that got nowhere, abandoned for another accepted MAIL FROM on the same connection, counts like a session; one that takes the record beyond N is answered 4xx and disconnected. A stalled session gets 4xx to every HELO/EHLO at slow speed and leaves nothing in the SMTP log, only a line in -dnlog. A rule with make-yakker that matches at any time in a session makes its client stalled from the next connection on, whatever else the session achieves; other IPs are never affected.",
 ["histories", "configurations", "schedules"],
 "for every history of sessions from several IPs, with any waits between them, for every -dncount, -dndur and -minphase",
 "Untested, and it takes sequences of sessions and hours of waiting.",
 ["sinksmtp.go"], [("ipMap Add/Set/Del/Lookup", "sinksmtp.go"), ("process: sesscounts, gotsomewhere, make-yakker", "sinksmtp.go")],
 [("yakkers", "per-IP count and time of last failure", "sinksmtp.go")],
 ["reply to EHLO", "SMTP log", "output delay asked of smtpd"])

prop("C15", "TLS is withheld from an IP after two TLS failures, for 72 hours",
 "With certificates configured, STARTTLS is offered to a client unless its IP has two or more failed TLS setups on record, each within 72 hours of the one before and the last less than 72 hours ago; failures of other IPs, plain sessions and successful TLS sessions never change that. A client certificate is asked for only if the IP has no TLS failure on record. Without certificates STARTTLS is never offered.",
 ["histories", "configurations"],
 "for every history of failed, successful and plain sessions from several IPs with any waits between them",
 "Untested, and it takes days of waiting.",
 ["sinksmtp.go"], [("notls Lookup/Add", "sinksmtp.go process"), ("tlsTimeout", "sinksmtp.go")],
 [("notls", "per-IP count and time of TLS failures", "sinksmtp.go")],
 ["EHLO reply", "TLS handshake (certificate request)"])

prop("C16", "Greeting name and TLS identity come from the first matching -conncfg line",
 "Each connection uses the first -conncfg line, in the file as it is at that moment, whose local IP, IP:port, CIDR or '*' matches the local end: its hostname if it gives one, and its certificates as their files then are; a matching line without certificates means no TLS. With no matching line, no file or a file with an error, the command line's -helo and -c/-k apply, and without a -helo the name is the local IP's DNS name or else its IP:port. Replies are slowed exactly if -S was given or the client is stalled.",
 ["configurations", "histories", "inputs"],
 "for every -conncfg file (also its last line without a newline), local address and port, every change of the file between connections, and every set of command line settings",
 "conncfg.go has no tests.",
 ["conncfg.go", "sinksmtp.go"], [("destMap.find/readConnFile", "conncfg.go"), ("process: sname, certs, Delay", "sinksmtp.go"), ("loadCerts", "sinksmtp.go")],
 (), ["greeting banner", "EHLO reply", "certificate presented", "output delay asked of smtpd"])

prop("C17", "The SMTP log attributes every line to its session, whole and in order",
 "Every line of the SMTP log starts with the ID 'PID/N' of its session, where N is unique to the connection and numbers connections in order; no line is torn, merged or mixed with another session's, however many sessions write at once. The lines of one session, in order, are exactly the commands it sent, the replies it got and the server's remarks about it. Do-nothing log and message log lines are likewise whole and carry the ID of their session. Log files are only ever added to at their end: what they held at start-up, and what other servers write to them, is kept.",
 ["schedules", "histories", "inputs"],
 "for every number of concurrent sessions, every length of line, every restart and every set of servers sharing a log",
 NOTEST,
 ["sinksmtp.go"], [("smtpLogger.Write", "sinksmtp.go: prefix and line in one write"), ("logMessage, yakLog", "sinksmtp.go"), ("main: cid", "sinksmtp.go")],
 (), ["-smtplog, -l and -dnlog files compared with client-side transcripts"])

prop("C18", "Command-line filters and standard rules come before the rules files",
 "Unless -nostdrules is given, senders and recipients with bad or route addresses and a HELO/EHLO without a name are refused, whatever the rules files say. -fromreject refuses MAIL FROM addresses matching its file, -toaccept refuses RCPT TO addresses not matching its file, -heloreject refuses at MAIL FROM the clients whose HELO name matches its file, and -M refuses every message after it has been received, saved and logged; each takes effect whatever the rules files say, and an option whose file is missing or empty changes nothing. Where none of them refuses, the rules files decide, earlier files first.",
 ["configurations", "inputs", "histories"],
 "for every combination of the options, contents of their files and rules files, and every session",
 "The generated rules are untested.",
 ["sinksmtp.go", "rules.go"], [("buildRules", "sinksmtp.go"), ("setupRules", "sinksmtp.go")],
 (), ["SMTP reply codes", "save directory and message log"])

prop("C19", "The published statistics add up to what happened",
 "Once sessions have finished, the published counters equal what clients did and got: connections, EHLO/HELO, MAIL FROM, RCPT TO and DATA commands seen and accepted, messages received, TLS starts and failures, connections not offered TLS for past failures, QUITs and aborted sessions, connections met by broken rules, stalled sessions, stalled-client additions (each once, however the record was filled) and abandoned attempts, sessions that ended after an accepted and after a refused command ('abandons' and 'refuseds', of those that count), the sizes of the records of do-nothing and TLS-failing clients, blocklist hits, and the per-local-address connection counts; the time given for the last event of each kind is when it happened. No increment is lost or doubled under any interleaving.",
 ["schedules", "histories"],
 "for every mix of concurrent sessions and every way they end",
 NOTEST,
 ["sinksmtp.go"], [("events counters, updateTimeOf, dnsblCounts, setupExpvars", "sinksmtp.go")],
 (), ["/debug/vars"])

prop("C20", "Unsafe or contradictory start-up settings are refused",
 "The server exits with an error, without serving any connection, if it would receive mail with neither a save directory nor -force-receive or -M, if the save directory is not writable, if -save-hash or -minphase is not a documented value, if -save-hash msg lacks -l, if -c or -k lacks the other or they do not load or differ in number, if -dncount lacks -smtplog or has a -dndur under a second, if -dnlog lacks -dncount, if a rules or -conncfg file is missing or has an error, or if a log cannot be opened or an address cannot be listened on. Otherwise it starts, and the start-up test of the save directory leaves nothing in it.",
 ["configurations"],
 "for every combination of options",
 "main() is untested.",
 ["sinksmtp.go", "conncfg.go"], [("main", "sinksmtp.go"), ("loadCerts", "sinksmtp.go")],
 (), ["exit status, standard error, listening socket"])

prop("C21", "TLS state is recorded and matched truthfully",
 "A saved message has a 'tls' line, and its log line TLS fields, exactly if it came over TLS, with the cipher suite, its right name, the protocol version, the server name the client asked for and the name of the client's certificate; it says the certificate is verified only if it chains to a trusted root, and no name a client supplies adds a line of its own to a file or log. 'tls on' and 'tls off' in rules reflect whether the current transaction is over TLS, also for commands before and after STARTTLS on one connection. STARTTLS discards nothing of the rules' verdicts: clients must greet again and are judged again.",
 ["inputs", "configurations", "histories"],
 "for every protocol version and cipher suite that can be negotiated, every client certificate and server name, and every place of STARTTLS in a session",
 "No test uses TLS; the cipher name table is unchecked.",
 ["sinksmtp.go", "tlsnames.go", "rnodes.go"], [("msgDetails, tlsProtoVersion, tlsName, tlsTryVerifyConnection", "sinksmtp.go"), ("cipherNames", "tlsnames.go"), ("TlsN", "rnodes.go")],
 [("trans.tlson", "TLS state as the rules see it", "sinksmtp.go")],
 ["tls line of saved files, message log, replies under tls rules"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
