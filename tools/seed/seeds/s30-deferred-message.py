property = 'C08'
needs = 'a rejected null sender with a message and at least two recipients'
breaks = "only the first recipient gets the deferred verdict's message"
edits = [('rules.go', '\t\tc.withprops = c.defprops\n\t\treturn c.defresult\n', '\t\tc.withprops = c.defprops\n\t\tc.defprops = make(map[string]string)\n\t\treturn c.defresult\n')]
demo = '''
from demolib import *
build()
write("rules", "@from reject from <> with message \\"no bounces here\\"\\n")
d = Daemon("-force-receive", "-r", "rules")
c = Client(d)
c.cmds("EHLO a.example", "MAIL FROM:<>")
for i in range(3):
    r = c.cmd("RCPT TO:<a%d@b.example>" % i)
    check(r == (550, "no bounces here") or (r[0] // 100 == 5 and "no bounces here" in r[1]), "recipient %d: %s" % (i, r))
c.quit()
done()
'''
