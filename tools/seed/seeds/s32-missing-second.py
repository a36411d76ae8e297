property = 'C10'
needs = 'two rules files of which the first is missing when a client connects'
breaks = 'a missing rules file is passed over if another one follows it'
edits = [('sinksmtp.go', '\t\tif err != nil {\n\t\t\tbreak\n\t\t}\n\t}\n\tif err == nil {\n\t\treturn rules, true', '\t\tif err != nil && (len(rulefiles) == 1 || !os.IsNotExist(err)) {\n\t\t\tbreak\n\t\t}\n\t}\n\tif err == nil {\n\t\treturn rules, true')]
demo = '''
from demolib import *
build()
write("r1", "@from reject from @bad.example\\n")
write("r2", "accept all\\n")
d = Daemon("-force-receive", "-r", "r1,r2")
os.rename(path("r1"), path("r1.away"))
c = Client(d)
r = c.cmd("EHLO a.example")
check(r[0] // 100 == 4, "EHLO without one of the rules files: %s" % (r,))
c.quit()
os.rename(path("r1.away"), path("r1"))
c = Client(d)
check(c.cmd("EHLO a.example")[0] == 250, "EHLO after the repair")
check(c.cmd("MAIL FROM:<a@bad.example>")[0] // 100 == 5, "repaired rules")
c.quit()
done()
'''
