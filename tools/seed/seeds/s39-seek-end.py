property = 'C17'
needs = 'two servers writing to one message log, or something else that adds to it'
breaks = 'logs are written at a remembered position instead of at the end'
edits = [('sinksmtp.go', '\treturn os.OpenFile(fname,\n\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)\n', '\tfp, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE, 0666)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\t_, err = fp.Seek(0, io.SeekEnd)\n\treturn fp, err\n')]
demo = '''
from demolib import *
build()
d1 = Daemon("-force-receive", "-l", "mlog")
d2 = Daemon("-force-receive", "-l", "mlog")
for i in range(4):
    c = Client((d1, d2)[i % 2])
    c.cmds("EHLO a.example", "MAIL FROM:<s%d@b.example>" % i, "RCPT TO:<c@d.example>", "DATA")
    check(c.body()[0] == 250, "message %d" % i)
    c.quit()
t = read("mlog")
for i in range(4):
    check("<s%d@b.example>" % i in t, "the line of message %d is gone" % i)
done()
'''
