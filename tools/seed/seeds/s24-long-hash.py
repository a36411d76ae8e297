property = 'C03'
needs = 'two messages of more than 1 MB that differ only after the first megabyte, and -save-hash msg'
breaks = 'names are hashes of the first megabyte only, so the second message is not saved'
edits = [('sinksmtp.go', '\th := sha1.New()\n\th.Write(b)\n', '\th := sha1.New()\n\tif len(b) > 1<<20 {\n\t\tb = b[:1<<20]\n\t}\n\th.Write(b)\n')]
demo = '''
from demolib import *
build()
import hashlib
os.mkdir(path("save"))
d = Daemon("-d", "save", "-l", "mlog", "-save-hash", "msg")
c = Client(d)
c.cmd("EHLO a.example")
want = set()
for i in range(2):
    c.cmds("MAIL FROM:<a@b.example>", "RCPT TO:<c@d.example>", "DATA")
    t = "Subject: big\\n\\n" + ("0123456789" * 7 + "\\n") * 20000 + "number %d\\n" % i
    check(c.body(t)[0] == 250, "message %d" % i)
    want.add(hashlib.sha1(t.encode()).hexdigest())
c.quit()
check(set(os.listdir(path("save"))) == want, "files %s, expected %s" % (os.listdir(path("save")), want))
done()
'''
