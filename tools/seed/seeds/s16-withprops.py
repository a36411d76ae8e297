property = "C09"
needs = "two RCPT TOs in one transaction, the first matching a rule with a message and the second not"
breaks = "the 'with' options of an earlier recipient's rule are applied to later recipients"
edits = [("rules.go", "\tc.withprops = make(map[string]string)\n\tc.domerr = nil\n", "\tif ph != pRto || len(c.trans.rcptto) == 0 {\n\t\tc.withprops = make(map[string]string)\n\t}\n\tc.domerr = nil\n")]
demo = '''
from demolib import *
build()
write("rules", '@to accept to a@b.example with message "special message"\\n@to accept to c@b.example\\n')
d = Daemon("-force-receive", "-r", "rules")
c = Client(d)
c.cmds("EHLO a.example", "MAIL FROM:<x@y.example>")
r = c.cmd("RCPT TO:<a@b.example>")
check("special message" in r[1], "message missing")
r = c.cmd("RCPT TO:<c@b.example>")
check(r[0] == 250 and "special message" not in r[1], "message applied to another recipient: %s" % (r,))
c.quit()
done()
'''
