property = 'C11'
needs = 'a set-with rule whose second clause has no options'
breaks = 'a set-with clause without options is accepted if an earlier clause has some'
edits = [('rparse.go', '\t\tif p.currule.result == aNoresult && len(rc.withs) == 0 {', '\t\tif p.currule.result == aNoresult && len(p.currule.clauses[0].withs) == 0 {')]
demo = '''
from demolib import *
build()
for t, ok in (("set-with all with note a\\n", True), ("set-with all with note a; tls on\\n", False), ("set-with tls on with note a; tls off with note b\\n", True), ("set-with tls on; tls off with note b\\n", False)):
    write("rules", t)
    d = Daemon("-force-receive", "-r", "rules", wait=False)
    b = time.time()
    while time.time() - b < 20 and d.p.poll() is None and not d.listening(d.addrs[0]):
        time.sleep(0.02)
    time.sleep(0.2)
    up = d.p.poll() is None
    check(up == ok, "%r: accepted is %s" % (t, up))
    d.stop()
done()
'''
