property = "C10"
needs = "two rules files, the first of which becomes broken while the second stays good"
breaks = "a broken earlier rules file is ignored when a later one loads, so that mail is judged without its rules"
edits = [("sinksmtp.go", "\t\trules, err = accumRules(rules, rfile)\n\t\tif err != nil {\n\t\t\tbreak\n", "\t\trules, err = accumRules(rules, rfile)\n\t\tif err != nil && len(rules) == 0 {\n\t\t\tbreak\n")]
demo = '''
from demolib import *
build()
write("r1", "reject from bad@x.example\\n")
write("r2", "accept all\\n")
d = Daemon("-force-receive", "-r", "r1,r2")
c = Client(d)
check(c.cmd("EHLO a.example")[0] == 250, "good rules")
c.quit()
write("r1", "reject from bad@x.example\\nrejekt all\\n")
c = Client(d)
r = c.cmd("EHLO a.example")
check(r[0] // 100 == 4, "with a broken rules file EHLO got %s" % (r,))
c.quit()
done()
'''
