property = "C05"
needs = "an upper-case local part in an address and a 'local@' pattern"
breaks = "local parts are compared with case, so POSTMASTER@x does not match postmaster@"
edits = [("rules.go", "func matchAddress(addr string, pat string) bool {\n\taddr = strings.ToLower(addr)\n", "func matchAddress(addr string, pat string) bool {\n\tif at := strings.IndexByte(addr, '@'); at > 0 && !strings.HasSuffix(pat, \"@\") {\n\t\taddr = strings.ToLower(addr)\n\t}\n")]
demo = '''
from demolib import *
build()
write("rules", "reject to abuse@\\naccept all\\n")
d = Daemon("-force-receive", "-r", "rules")
c = Client(d)
c.cmds("EHLO a.example", "MAIL FROM:<x@y.example>")
for a in ("abuse@b.example", "ABUSE@b.example", "Abuse@B.example"):
    r = c.cmd("RCPT TO:<%s>" % a)
    check(r[0] // 100 == 5, "%s got %s" % (a, r))
c.quit()
done()
'''
