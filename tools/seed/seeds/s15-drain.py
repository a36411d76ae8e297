property = "C12"
needs = "a rules file that stays broken (error before its end) over many connections"
breaks = "each attempt to load the broken rules leaves a lexer goroutine behind for ever"
edits = [("rparse.go", "\tl.drain()\n\treturn r, e\n", "\tif e == nil {\n\t\tl.drain()\n\t}\n\treturn r, e\n")]
demo = '''
from demolib import *
import urllib.request
build()
write("rules", "accept all\\n")
d = Daemon("-force-receive", "-r", "rules", pprof=True)
def n():
    t = urllib.request.urlopen("http://%s/debug/pprof/goroutine?debug=1" % d.pprof).read().decode()
    return int(t.split("total ")[1].split()[0])
Client(d).quit()
n0 = n()
write("rules", "what is this\\n" + "accept all\\n" * 5)
for i in range(60):
    Client(d).quit()
time.sleep(0.5)
check(n() < n0 + 30, "goroutines went from %d to %d" % (n0, n()))
done()
'''
