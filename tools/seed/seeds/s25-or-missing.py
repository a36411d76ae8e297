property = 'C04'
needs = "'or' whose left side tests a missing pattern file"
breaks = "a rule with a missing pattern file on the left of an 'or' can still match"
edits = [('rnodes.go', '\tr = o.left.Eval(c)\n\tif r {\n\t\treturn r\n\t}\n\treturn o.right.Eval(c)', '\tmiss := c.rulemiss\n\tr = o.left.Eval(c)\n\tif r {\n\t\treturn r\n\t}\n\tc.rulemiss = miss\n\treturn o.right.Eval(c)')]
demo = '''
from demolib import *
build()
write("rules", "@from reject from file:/nonexistent/list or helo a.example\\n@from stall from x@y.example\\n")
d = Daemon("-force-receive", "-r", "rules")
for ehlo, frm, want in (("a.example", "z@y.example", 2), ("b.example", "z@y.example", 2), ("b.example", "x@y.example", 4), ("a.example", "x@y.example", 4)):
    c = Client(d)
    c.cmd("EHLO " + ehlo)
    r = c.cmd("MAIL FROM:<%s>" % frm)
    check(r[0] // 100 == want, "%s %s: %s" % (ehlo, frm, r))
    c.quit()
done()
'''
