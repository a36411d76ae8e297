property = "C02"
needs = "a transaction given up by RSET after its RCPT TO, then another one on the same connection"
breaks = "recipients of the abandoned transaction appear in the next message's saved file and log line"
edits = [("sinksmtp.go", '\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n\t\t\t\ttrans.rcptto = []string{}\n', '\t\t\t\tif trans.data != "" {\n\t\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\t}\n\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n')]
demo = '''
from demolib import *
import os
build()
os.mkdir(path("save"))
d = Daemon("-d", "save", "-nostdrules", "-l", "mlog")
c = Client(d)
c.cmds("EHLO a.example", "MAIL FROM:<x@y.example>", "RCPT TO:<old@b.example>", "RSET", "MAIL FROM:<x@y.example>", "RCPT TO:<new@b.example>", "DATA")
r = c.body()
check(r[0] == 250, "message refused")
c.quit()
t = "".join(read(os.path.join("save", f)) for f in os.listdir(path("save")))
check("to <new@b.example>" in t and "old@b.example" not in t, "recipients: " + t)
check("old@b" not in read("mlog"), "log line")
done()
'''
