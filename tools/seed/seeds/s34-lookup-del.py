property = 'C12'
needs = '-dncount and a client that returns after its record has expired'
breaks = 'the server deadlocks when an expired record is looked up'
edits = [('sinksmtp.go', '\tdelete(i.ips, ip)\n\treturn false, 0\n', '\ti.Del(ip)\n\treturn false, 0\n')]
demo = '''
from demolib import *
build()
d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "3", "-dndur", "1s")
Client(d).quit()
time.sleep(1.5)
s = socket.create_connection((d.ip, d.port), 10)
s.settimeout(15)
try:
    g = s.recv(100)
except OSError:
    g = b""
check(g.startswith(b"220"), "no greeting for a client with an expired record")
done()
'''
