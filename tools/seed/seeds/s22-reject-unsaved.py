property = 'C01'
needs = '-M (or a message rule that decides) and a save directory that fails'
breaks = "a message that could not be saved gets the rules' 5xx (or 2xx) instead of a 4xx"
edits = [('sinksmtp.go', '\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n\t\t\t\t// do nothing, already handled\n', '\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n\t\t\t\t// do nothing, already handled\n\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n')]
demo = '''
from demolib import *
build()
os.mkdir(path("save"))
d = Daemon("-d", "save", "-M")
os.rename(path("save"), path("gone"))
c = Client(d)
c.cmds("EHLO a.example", "MAIL FROM:<a@b.example>", "RCPT TO:<c@d.example>", "DATA")
r = c.body()
check(400 <= r[0] < 500, "reply to a message that was not saved: %s" % (r,))
c.quit()
done()
'''
