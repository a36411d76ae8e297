property = "C14"
needs = "a do-nothing session that starts within -dndur of the one before and ends after it"
breaks = "a count that expired during a session is carried on, so that the client is stalled early"
edits = [("sinksmtp.go", "func (i *ipMap) Add(ip string, ttl time.Duration) int {\n\tif ip == \"\" {\n\t\treturn 0\n\t}\n\ti.Lock()\n\ti.stats.Adds++\n\tt := i.ips[ip]\n\tswitch {\n\tcase t == nil:\n\t\tt = &ipEnt{}\n\t\ti.ips[ip] = t\n\t\ti.stats.AddsNew++\n\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n", "func (i *ipMap) Add(ip string, ttl time.Duration) int {\n\tif ip == \"\" {\n\t\treturn 0\n\t}\n\ti.Lock()\n\ti.stats.Adds++\n\tt := i.ips[ip]\n\tswitch {\n\tcase t == nil:\n\t\tt = &ipEnt{}\n\t\ti.ips[ip] = t\n\t\ti.stats.AddsNew++\n\tcase time.Since(t.when) >= ttl:\n\t\t// Lookup() has dropped entries that are too old\n\t\ti.stats.AddsExpired++\n")]
demo = '''
from demolib import *
build()
d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "2", "-dndur", "3s")
Client(d).quit()
c = Client(d)
time.sleep(3.3)
c.quit()
c = Client(d)
r = c.cmd("EHLO a.example")
check(r[0] == 250, "stalled with one failure on record: %s" % (r,))
c.quit()
done()
'''
