property = 'C06'
needs = 'an address with one quote at its end and others before'
breaks = 'an address with a \'"\' both inside and at its end is not seen as quoted'
edits = [('rules.go', '\tidx3 := strings.IndexByte(a, \'"\')\n', '\tidx3 := strings.LastIndexByte(a, \'"\')\n')]
demo = '''
from demolib import *
build()
write("rules", "@from reject from-has quoted\\n")
d = Daemon("-force-receive", "-r", "rules", "-nostdrules")
for a, q in (("\\"a b\\"@c.example", True), ("a@c.example", False), ("\\"a@c.example\\"", True)):
    c = Client(d)
    c.cmd("EHLO a.example")
    r = c.cmd("MAIL FROM:<%s>" % a)
    check((r[0] // 100 == 5) == q, "%s: %s" % (a, r))
    c.quit()
done()
'''
