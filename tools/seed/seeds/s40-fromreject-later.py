property = 'C18'
needs = '-fromreject and a client that its file refuses, whose reply to MAIL FROM counts'
breaks = '-fromreject refuses recipients, not the sender'
edits = [('sinksmtp.go', '"reject from file:%s\\n", fromreject', '"reject from file:%s to @\\n", fromreject')]
demo = '''
from demolib import *
build()
write("bad", "@spam.example\\n")
d = Daemon("-force-receive", "-fromreject", "bad")
c = Client(d)
c.cmd("EHLO a.example")
r = c.cmd("MAIL FROM:<a@spam.example>")
check(r[0] // 100 == 5, "MAIL FROM of a rejected sender: %s" % (r,))
c.quit()
done()
'''
