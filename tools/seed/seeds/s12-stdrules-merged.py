property = "C18"
needs = "a bad or route address in MAIL FROM (with the standard rules on)"
breaks = "the two standard address rules are one rule that needs RCPT TO, so a bad sender is accepted at MAIL FROM"
edits = [("sinksmtp.go", '\t\tfmt.Fprintf(&outbuf, "reject from-has bad,route\\n")\n\t\tfmt.Fprintf(&outbuf, "reject to-has bad,route\\n")\n', '\t\tfmt.Fprintf(&outbuf, "reject from-has bad,route or to-has bad,route\\n")\n')]
demo = '''
from demolib import *
build()
write("rules", "accept all\\n")
d = Daemon("-force-receive", "-r", "rules")
c = Client(d)
r = c.cmds("EHLO a.example", "MAIL FROM:<nobody>")
check(r[0] // 100 == 5, "MAIL FROM:<nobody> got %s" % (r,))
c.quit()
done()
'''
