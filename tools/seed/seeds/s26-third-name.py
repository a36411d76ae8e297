property = 'C05'
needs = 'a client with more than three verified host names'
breaks = 'host patterns only look at the first three verified names'
edits = [('rnodes.go', '\t\t\treturn c.trans.rdns.verified\n', '\t\t\tif len(c.trans.rdns.verified) > 3 {\n\t\t\t\treturn c.trans.rdns.verified[:3]\n\t\t\t}\n\t\t\treturn c.trans.rdns.verified\n')]
demo = '''
from demolib import *
build()
z = DNS()
names = ["n%d.example." % i for i in range(5)]
z.zone[("7.7.7.127.in-addr.arpa.", "PTR")] = names
for n in names:
    z.zone[(n, "A")] = ["127.7.7.7"]
write("rules", "accept all\\n")
d = Daemon("-force-receive", "-r", "rules", env=z.env())
for n in names:
    write("rules", "@helo reject host %s\\n" % n.rstrip("."))
    c = Client(d, src="127.7.7.7")
    r = c.cmd("EHLO a.example")
    check(r[0] // 100 == 5, "host %s: %s" % (n, r))
    c.quit()
done()
'''
