property = "C08"
needs = "MAIL FROM:<> that a rule stalls, followed by two or more RCPT TOs in one transaction"
breaks = "only the first recipient of a null sender gets the deferred stall; later ones are accepted"
edits = [("rules.go", "\t\tc.dnsblhit = c.defdnsblhit\n\t\tc.withprops = c.defprops\n\t\treturn c.defresult\n", "\t\tc.dnsblhit = c.defdnsblhit\n\t\tc.withprops = c.defprops\n\t\tres := c.defresult\n\t\tif res == aStall {\n\t\t\t// the client will be back\n\t\t\tc.defresult = aError\n\t\t}\n\t\treturn res\n")]
demo = '''
from demolib import *
build()
write("rules", "@from stall from <>\\n")
d = Daemon("-force-receive", "-r", "rules")
c = Client(d)
check(c.cmds("EHLO a.example", "MAIL FROM:<>")[0] == 250, "MAIL FROM:<> refused")
for n in range(3):
    r = c.cmd("RCPT TO:<u%d@b.example>" % n)
    check(r[0] // 100 == 4, "RCPT %d got %s" % (n, r))
c.quit()
done()
'''
