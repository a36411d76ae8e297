property = 'C07'
needs = 'a sender whose subdomain does not exist, then one at the domain itself, on one connection'
breaks = 'after x.b.example failed, b.example is taken to be bad for the rest of the connection'
edits = [('rules.go', '\tt, err := ValidDomain(domain)\n\tc.domvalid[domain] = &DNSResult{d: t, e: err}\n', "\tt, err := ValidDomain(domain)\n\tif i := strings.IndexByte(domain, '.'); i > 0 && t == dnsBad {\n\t\tc.domvalid[domain[i+1:]] = &DNSResult{d: t, e: err}\n\t}\n\tc.domvalid[domain] = &DNSResult{d: t, e: err}\n")]
demo = '''
from demolib import *
build()
z = DNS()
z.zone[("b.example.", "MX")] = [(10, "mx.b.example.")]
z.zone[("mx.b.example.", "A")] = ["8.8.8.8"]
write("rules", "@from reject from-has baddom\\n")
d = Daemon("-force-receive", "-r", "rules", env=z.env())
c = Client(d)
c.cmd("EHLO a.example")
r = c.cmd("MAIL FROM:<a@none.b.example>")
check(r[0] // 100 == 5, "no such domain: %s" % (r,))
r = c.cmd("MAIL FROM:<a@b.example>")
check(r[0] == 250, "a good domain: %s" % (r,))
c.quit()
done()
'''
