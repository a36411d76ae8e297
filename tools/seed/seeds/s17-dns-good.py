property = "C06"
needs = "a client whose reverse DNS has a verified name and an inconsistent one"
breaks = "'dns good' matches although one of the names is inconsistent"
edits = [("rules.go", "\tif o == oExists {\n\t\to |= oGood\n", "\tif o&(oExists|oNofwd) == oExists {\n\t\to |= oGood\n")]
demo = '''
from demolib import *
build()
dns = DNS()
dns.zone[("9.9.9.127.in-addr.arpa.", "PTR")] = ["good.example.", "other.example."]
dns.zone[("good.example.", "A")] = ["127.9.9.9"]
dns.zone[("other.example.", "A")] = ["127.1.1.1"]
write("rules", "reject dns good\\naccept all\\n")
d = Daemon("-force-receive", "-r", "rules", env=dns.env())
c = Client(d, src="127.9.9.9")
check(c.greeting[0] == 220, "'dns good' matched a client with an inconsistent name")
c.quit()
done()
'''
