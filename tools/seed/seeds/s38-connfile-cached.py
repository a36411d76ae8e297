property = 'C16'
needs = 'a -conncfg file that gets an error while the server runs'
breaks = 'a broken -conncfg file leaves the last good one in effect'
edits = [('sinksmtp.go', '\t\tdm, err := loadConnFile(connfile)\n\t\tif err != nil {\n', '\t\tdm, err := loadConnFile(connfile)\n\t\tif err == nil {\n\t\t\tlastdm = dm\n\t\t} else if dm == nil {\n\t\t\tdm = lastdm\n\t\t}\n\t\tif err != nil {\n'), ('sinksmtp.go', 'var notls = &ipMap{', 'var lastdm *destMap\nvar notls = &ipMap{')]
demo = '''
from demolib import *
build()
write("cc", "* hostname=one.example\\n")
d = Daemon("-force-receive", "-conncfg", "cc", "-helo", "cmdline.example")
def name():
    c = Client(d)
    c.quit()
    return c.greeting[1].split()[0]
check(name() == "one.example", "with the file: " + name())
write("cc", "* hostname=two.example\\n")
check(name() == "two.example", "after a change")
write("cc", "* hostname=three.example bogus=1\\n")
n = name()
check(n == "cmdline.example", "with a broken file: " + n)
done()
'''
