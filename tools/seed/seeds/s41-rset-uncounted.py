property = 'C19'
needs = "an attempt without accepted recipients that is abandoned on a plain connection"
breaks = "abandoned attempts without recipients are missing from the rsets counter"
edits = [('sinksmtp.go', '\t\t\t\tif trans.from != "" && !gotsomewhere && sesscounts {\n\t\t\t\t\tevents.rsets.Add(1)\n', '\t\t\t\tif trans.from != "" && !gotsomewhere && sesscounts {\n\t\t\t\t\tif len(trans.rcptto) > 0 || trans.tlson {\n\t\t\t\t\t\tevents.rsets.Add(1)\n\t\t\t\t\t}\n')]
demo = '''
from demolib import *
build()
import urllib.request, json
write("rules", "@to reject all\\n")
d = Daemon("-force-receive", "-r", "rules", "-smtplog", "slog", "-dncount", "9", "-dndur", "1h", "-minphase", "to", pprof=True)
c = Client(d)
c.cmds("EHLO a.example", "MAIL FROM:<a@b.example>", "RCPT TO:<x@y.example>", "RSET", "MAIL FROM:<a@b.example>", "RSET", "MAIL FROM:<c@b.example>")
c.quit()
time.sleep(0.3)
v = json.load(urllib.request.urlopen("http://%s/debug/vars" % d.pprof))["sinksmtp"]
check(v["smtpcounts"]["rsets"] == 2, "rsets is %s" % v["smtpcounts"]["rsets"])
done()
'''
