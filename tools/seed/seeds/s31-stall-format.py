property = 'C09'
needs = "a stall rule whose message has a '%'"
breaks = 'a stall message is used as a format string'
edits = [('sinksmtp.go', '\t\t\tconvo.TempfailMsg("%s", msg)\n', '\t\t\tconvo.TempfailMsg(msg)\n')]
demo = '''
from demolib import *
build()
m = "only 5% of mail, try later"
write("rules", "@from stall all with message \\"%s\\"\\n" % m)
d = Daemon("-force-receive", "-r", "rules")
c = Client(d)
c.cmd("EHLO a.example")
r = c.cmd("MAIL FROM:<a@b.example>")
check(r[0] // 100 == 4 and m in r[1], "reply %s" % (r,))
c.quit()
done()
'''
