property = "C04"
needs = "an @phase reject rule that an earlier @phase accept rule masks in that phase"
breaks = "reject rules with a phase go on being checked in later phases"
edits = [("rules.go", "\t\tcase r.deferto != pAny && r.deferto < ph:\n", "\t\tcase r.deferto != pAny && r.deferto < ph && r.result != aReject:\n")]
demo = '''
from demolib import *
build()
write("rules", "@from accept from friend@x.example\\n@from reject helo a.example\\n")
d = Daemon("-force-receive", "-r", "rules")
c = Client(d)
c.cmd("EHLO a.example")
check(c.cmd("MAIL FROM:<friend@x.example>")[0] == 250, "MAIL FROM")
r = c.cmd("RCPT TO:<a@b.example>")
check(r[0] == 250, "an @from rule decided RCPT TO: %s" % (r,))
c.quit()
done()
'''
