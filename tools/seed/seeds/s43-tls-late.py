property = 'C21'
needs = "a rule with 'tls on' and the first transaction after STARTTLS"
breaks = "rules see 'tls off' over TLS until a message has been received"
edits = [('sinksmtp.go', '\t\t\t\t\ttrans.tlson = convo.TLSOn\n\t\t\t\t\ttlsClientLog', '\t\t\t\t\ttlsClientLog')]
demo = '''
from demolib import *
build()
subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", path("k"), "-out", path("c"), "-days", "30", "-subj", "/CN=x.example"], check=True, stderr=subprocess.DEVNULL)
write("rules", "@from reject tls on from @t.example\\n@from reject tls off from @p.example\\n")
d = Daemon("-force-receive", "-r", "rules", "-c", "c", "-k", "k")
c = Client(d)
c.cmd("EHLO a.example")
check(c.cmd("MAIL FROM:<a@p.example>")[0] // 100 == 5, "plain")
check(c.cmd("MAIL FROM:<a@t.example>")[0] == 250, "plain, TLS rule")
c.cmd("RSET")
check(c.starttls()[0] == 220, "STARTTLS")
c.cmd("EHLO a.example")
r = c.cmd("MAIL FROM:<a@t.example>")
check(r[0] // 100 == 5, "'tls on' over TLS: %s" % (r,))
r = c.cmd("MAIL FROM:<a@p.example>")
check(r[0] == 250, "'tls off' over TLS: %s" % (r,))
c.quit()
done()
'''
