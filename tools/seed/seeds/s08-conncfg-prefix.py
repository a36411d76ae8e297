property = "C16"
needs = "a -conncfg line for an IP that is a textual prefix of another local IP, before that one's line"
breaks = "connections to 127.x.y.12 get the name and certificates of the line for 127.x.y.1"
edits = [("conncfg.go", '\t\tif de.local == "*" || de.local == las {\n', '\t\tif de.local == "*" || strings.HasPrefix(las, de.local) {\n')]
demo = '''
from demolib import *
build()
a = "127.%d.%d." % (130 + os.getpid() % 100, 1 + os.getpid() // 100 % 250)
write("cc", a + "1 hostname=one.example\\n" + a + "12 hostname=twelve.example\\n")
d = Daemon("-force-receive", "-conncfg", "cc", listen=[a + "1:2525", a + "12:2525"])
for l, n in ((d.addrs[0], "one.example"), (d.addrs[1], "twelve.example")):
    c = Client(d, addr=l)
    check(c.greeting[1].startswith(n + " "), "%s greets with %s" % (l, c.greeting[1]))
    c.quit()
done()
'''
