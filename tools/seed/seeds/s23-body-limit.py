property = 'C02'
needs = 'a message body of more than 1 MB'
breaks = 'the body hash in file and log is that of the first megabyte'
edits = [('sinksmtp.go', '\tbody, err := io.ReadAll(msg.Body)\n', '\tbody, err := io.ReadAll(io.LimitReader(msg.Body, 1<<20))\n')]
demo = '''
from demolib import *
build()
import hashlib
os.mkdir(path("save"))
d = Daemon("-d", "save", "-l", "mlog")
body = ("0123456789" * 7 + "\\n") * 20000
c = Client(d)
c.cmds("EHLO a.example", "MAIL FROM:<a@b.example>", "RCPT TO:<c@d.example>", "DATA")
r = c.body("Subject: big\\n\\n" + body)
check(r[0] == 250, "reply %s" % (r,))
c.quit()
h = hashlib.sha1(body.encode()).hexdigest()
check(("body " + h) in read("mlog"), "body hash in the log: " + read("mlog"))
for f in os.listdir(path("save")):
    check(h in read("save/" + f)[:2000], "body hash in the file")
done()
'''
