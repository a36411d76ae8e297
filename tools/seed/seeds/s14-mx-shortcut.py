property = "C07"
needs = "a domain with a good MX and a second, less preferred one that is 'localhost.'"
breaks = "the check stops at the first good MX, so that a domain with a bogus MX counts as resolving"
edits = [("mxresolve.go", "\t\tif v > valid {\n\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n", "\t\tif v > valid {\n\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n\t\tif valid == dnsGood {\n\t\t\tbreak\n\t\t}\n")]
demo = '''
from demolib import *
build()
dns = DNS()
dns.zone[("two.example.", "MX")] = [(10, "mx.good.example."), (20, "localhost.")]
dns.zone[("one.example.", "MX")] = [(10, "mx.good.example.")]
dns.zone[("mx.good.example.", "A")] = ["8.8.8.8"]
write("rules", "reject from-has baddom\\naccept all\\n")
d = Daemon("-force-receive", "-r", "rules", env=dns.env())
c = Client(d)
c.cmd("EHLO a.example")
check(c.cmd("MAIL FROM:<a@one.example>")[0] == 250, "good domain")
c.cmd("RSET")
r = c.cmd("MAIL FROM:<a@two.example>")
check(r[0] // 100 == 5, "domain with an MX to localhost got %s" % (r,))
c.quit()
done()
'''
