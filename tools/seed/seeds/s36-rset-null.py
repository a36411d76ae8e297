property = 'C14'
needs = 'abandoned attempts on one connection that are replaced by MAIL FROM:<>'
breaks = 'an attempt abandoned for a null sender does not count'
edits = [('sinksmtp.go', '\t\t\t\tif trans.from != "" && !gotsomewhere && sesscounts {', '\t\t\t\tif trans.from != "" && evt.Arg != "" && !gotsomewhere && sesscounts {')]
demo = '''
from demolib import *
build()
d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "2", "-dndur", "1h", "-minphase", "data")
c = Client(d)
c.cmds("EHLO a.example", "MAIL FROM:<a@b.example>", "RSET")
r = c.cmd("MAIL FROM:<>")
check(r[0] == 250, "MAIL FROM:<>: %s" % (r,))
c.quit()
c = Client(d)
r = c.cmd("EHLO a.example")
check(r[0] // 100 == 4, "not stalled with two failures on record: %s" % (r,))
c.quit()
done()
'''
