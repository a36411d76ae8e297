property = 'C13'
needs = 'two sessions delivering messages at the same time'
breaks = "the buffer with a message to be saved is given back to a pool before it is written, so another session's message can end up in the file"
edits = [('sinksmtp.go', '\tvar outbuf, outbuf2 bytes.Buffer\n\n\tfwrite := bufio.NewWriter(&outbuf)\n', '\tvar outbuf2 bytes.Buffer\n\n\toutbuf := detailBufs.Get().(*bytes.Buffer)\n\toutbuf.Reset()\n\tdefer detailBufs.Put(outbuf)\n\tfwrite := bufio.NewWriter(outbuf)\n'), ('sinksmtp.go', 'func msgDetails(', 'var detailBufs = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc msgDetails(')]
demo = '''
from demolib import *
build(race=True)
import hashlib
os.mkdir(path("save"))
d = Daemon("-d", "save", "-l", "mlog", "-save-hash", "all")
def sess(i):
    c = Client(d)
    c.cmd("EHLO a.example")
    for k in range(30):
        c.cmds("MAIL FROM:<a%d@b.example>" % i, "RCPT TO:<c@d.example>", "DATA")
        c.body("Subject: s\\n\\n" + ("%d-%d " % (i, k) * 10 + "\\n") * (50 + 37 * i))
    c.quit()
ts = [threading.Thread(target=sess, args=(i,)) for i in range(24)]
[t.start() for t in ts]
[t.join() for t in ts]
bad = sum(hashlib.sha1(open(path("save", f), "rb").read()).hexdigest() != f for f in os.listdir(path("save")))
check(bad == 0, "%d of %d files differ from what was hashed" % (bad, len(os.listdir(path("save")))))
err = read("stderr")
check("DATA RACE" not in err, "the race detector reports a data race")
done()
'''
