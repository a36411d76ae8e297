property = "C03"
needs = "-save-hash full and the same message sent twice over TLS from different source ports"
breaks = "the source port is part of the 'full' hash, so resent messages are stored again under other names"
edits = [("sinksmtp.go", '\trmsg := trans.rip\n\tif rmsg == "" {', '\trmsg := trans.rip\n\tif rmsg == "" || trans.tlson {')]
demo = '''
from demolib import *
import os, subprocess
build()
os.mkdir(path("save"))
subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", path("k"), "-out", path("c"), "-days", "30", "-subj", "/CN=x.example"], check=True, stderr=subprocess.DEVNULL)
d = Daemon("-d", "save", "-nostdrules", "-save-hash", "full", "-c", "c", "-k", "k")
for tls in (False, True):
    for n in range(2):
        c = Client(d)
        c.cmd("EHLO a.example")
        if tls:
            c.starttls()
            c.cmd("EHLO a.example")
        c.cmds("MAIL FROM:<x@y.example>", "RCPT TO:<new@b.example>", "DATA")
        r = c.body()
        check(r[0] == 250, "message refused")
        c.quit()
n = len(os.listdir(path("save")))
check(n == 2, "%d files for two messages sent twice" % n)
done()
'''
