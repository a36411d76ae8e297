property = "C11"
needs = "a rule clause list (';') whose later clause needs a later phase than its first"
breaks = "the phase a rule needs is taken from its first clauses only, so later clauses are judged before their data is known"
edits = [("rparse.go", "\tif minReq[ct] != pAny && minReq[ct] > p.currule.requires {\n\t\tp.currule.requires = minReq[ct]\n\t}\n", "\tif len(p.currule.clauses) == 0 && minReq[ct] > p.currule.requires {\n\t\tp.currule.requires = minReq[ct]\n\t}\n")]
demo = '''
from demolib import *
build()
write("rules", "reject helo bad.example ; not from good@x.example\\naccept all\\n")
d = Daemon("-force-receive", "-r", "rules")
c = Client(d)
r = c.cmd("EHLO fine.example")
check(r[0] == 250, "EHLO got %s" % (r,))
r = c.cmd("MAIL FROM:<good@x.example>")
check(r[0] == 250, "good sender got %s" % (r,))
c.quit()
done()
'''
