property = "C13"
needs = "two connections to one local address arriving at the same moment"
breaks = "the per-address connection counts are updated without the lock (data race, lost counts, fatal map errors)"
edits = [("sinksmtp.go", "\tif len(dbls) == 0 {\n\t\treturn\n\t}\n\tdc.Lock()\n\tfor i := range dbls {\n", "\tif len(dbls) == 0 {\n\t\treturn\n\t}\n\tif t, ok := dc.dbls[dbls[0]]; ok && len(dbls) == 1 {\n\t\t// common case, nothing new to add\n\t\tdc.dbls[dbls[0]] = t + 1\n\t\treturn\n\t}\n\tdc.Lock()\n\tfor i := range dbls {\n")]
demo = '''
from demolib import *
build(race=True)
d = Daemon("-force-receive", "-statsperip", pprof=True)
def run():
    for i in range(40):
        c = Client(d)
        c.quit()
ts = [threading.Thread(target=run) for _ in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
check("DATA RACE" not in read("stderr"), "data race")
check("fatal error" not in read("stderr"), "crash")
done()
'''
