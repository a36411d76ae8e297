property = "C01"
needs = "a write error in a save directory that a rule chose, while the -d directory is fine"
breaks = "a message that could not be written to a rule's savedir is answered 250 although no file exists"
edits = [("sinksmtp.go", "\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()", "\t\t\tcase err != nil && trans.savedir == savedir:\n\t\t\t\tconvo.Tempfail()")]
demo = '''
from demolib import *
import os
build()
os.mkdir(path("save"))
write("rules", "@from accept from x@y.example with savedir ./gone\\n")
d = Daemon("-d", "save", "-r", "rules")
c = Client(d)
c.cmds("EHLO a.example", "MAIL FROM:<x@y.example>", "RCPT TO:<a@b.example>", "DATA")
r = c.body()
check(r[0] // 100 == 4, "message that cannot be saved got %s" % (r,))
c.quit()
done()
'''
