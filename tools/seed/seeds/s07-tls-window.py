property = "C15"
needs = "two failed TLS setups of one IP that are further apart than -dndur but within 72 hours"
breaks = "TLS failures are counted over the -dndur window, so that TLS is still offered after two failures"
edits = [("sinksmtp.go", "\t\t\tnotls.Add(trans.rip, tlsTimeout)\n", "\t\t\tnotls.Add(trans.rip, yakTimeout)\n")]
demo = '''
from demolib import *
import subprocess
build()
subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", path("k"), "-out", path("c"), "-days", "30", "-subj", "/CN=x.example"], check=True, stderr=subprocess.DEVNULL)
d = Daemon("-force-receive", "-dndur", "1s", "-c", "c", "-k", "k")
for n in range(2):
    if n:
        time.sleep(1.3)
    c = Client(d)
    r = c.cmd("EHLO a.example")
    check("STARTTLS" in r[1], "not offered after %d failures" % n)
    c.cmd("STARTTLS")
    c.send("nonsense\\r\\n\\r\\n")
    c.drop()
c = Client(d)
r = c.cmd("EHLO a.example")
check("STARTTLS" not in r[1], "STARTTLS offered after two failures")
c.quit()
done()
'''
