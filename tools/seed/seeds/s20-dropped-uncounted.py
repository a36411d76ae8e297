property = "C19"
needs = "-statsperip and connections that a rule drops at connect time"
breaks = "dropped connections are missing from the per-local-address connection counts"
edits = [("sinksmtp.go", "\tloccounts.Add([]string{laddrstr})\n\n\tvar c *Context\n", "\tvar c *Context\n"),
         ("sinksmtp.go", "\t// Main transaction loop. We gather up email messages as they come\n", "\tloccounts.Add([]string{laddrstr})\n\n\t// Main transaction loop. We gather up email messages as they come\n")]
demo = '''
from demolib import *
import urllib.request, json
build()
write("rules", "@connect reject ip 127.9.9.0/24\\naccept all\\n")
d = Daemon("-force-receive", "-r", "rules", "-statsperip", pprof=True)
for i in range(3):
    Client(d).quit()
for i in range(2):
    Client(d, src="127.9.9.%d" % (i + 1)).eof()
time.sleep(0.3)
v = json.load(urllib.request.urlopen("http://%s/debug/vars" % d.pprof))["sinksmtp"]
check(v["events"]["connections"] == 5, "connections %s" % v["events"]["connections"])
check(v["connects_to"] == {d.addrs[0]: 5}, "connects_to %s" % v["connects_to"])
done()
'''
