property = "C17"
needs = "log lines longer than the 8 KB buffer (a long rule note) written by several sessions at once"
breaks = "a long line is written in several pieces, between which other sessions' lines land"
edits = [("sinksmtp.go", "\t// we might as well create the buffer at the right size.\n\tbuf := make([]byte, 0, len(b)+len(log.prefix))\n\n\tbuf = append(buf, log.prefix...)\n\tbuf = append(buf, b...)\n\tn, err = log.writer.Write(buf)\n", "\t// the writer has a buffer, so there is no need for another.\n\t_, err = log.writer.Write(log.prefix)\n\tif err == nil {\n\t\tn, err = log.writer.Write(b)\n\t}\n")]
demo = '''
from demolib import *
build()
write("rules", '@from accept all with note "%s"\\n' % ("n" * 20000))
d = Daemon("-force-receive", "-smtplog", "slog", "-r", "rules")
def run():
    c = Client(d)
    c.cmd("EHLO a.example")
    for i in range(60):
        c.cmd("MAIL FROM:<a%d@b.example>" % i)
        c.cmd("RSET")
    c.quit()
ts = [threading.Thread(target=run) for _ in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
bad = [l[:60] for l in read("slog").splitlines() if not l.startswith("%d/" % d.p.pid) or ("note: " in l and len(l) < 20000) or l.count("%d/" % d.p.pid) != 1]
check(not bad, "torn lines: %s" % bad[:3])
done()
'''
