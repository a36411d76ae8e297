property = 'C15'
needs = 'one failed and one successful TLS setup, then another failure'
breaks = 'a successful TLS setup clears the record of failures'
edits = [('sinksmtp.go', '\t\t\t\t\ttlsClientLog(convo.TLSState, logger)\n', '\t\t\t\t\ttlsClientLog(convo.TLSState, logger)\n\t\t\t\t\tnotls.Del(trans.rip)\n')]
demo = '''
from demolib import *
build()
subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", path("k"), "-out", path("c"), "-days", "30", "-subj", "/CN=x.example"], check=True, stderr=subprocess.DEVNULL)

d = Daemon("-force-receive", "-c", "c", "-k", "k")
def fail():
    c = Client(d)
    c.cmd("EHLO a.example")
    c.cmd("STARTTLS")
    c.send("nonsense\\r\\n\\r\\n")
    c.drop()
fail()
c = Client(d)
c.cmd("EHLO a.example")
check(c.starttls()[0] == 220, "STARTTLS after one failure")
check(c.cmd("EHLO a.example")[0] == 250, "EHLO over TLS")
c.quit()
fail()
c = Client(d)
r = c.cmd("EHLO a.example")
check("STARTTLS" not in r[1], "STARTTLS offered after two failures")
c.quit()
done()
'''
