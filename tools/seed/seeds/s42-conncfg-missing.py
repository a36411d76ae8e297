property = 'C20'
needs = '-conncfg with a file that does not exist, together with -c and -k'
breaks = 'the server starts although the -conncfg file is missing'
edits = [('sinksmtp.go', '\t\t_, err := loadConnFile(connfile)\n\t\tif err != nil {\n', '\t\t_, err := loadConnFile(connfile)\n\t\tif err != nil && !(os.IsNotExist(err) && len(certs) > 0) {\n')]
demo = '''
from demolib import *
build()
subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", path("k"), "-out", path("c"), "-days", "30", "-subj", "/CN=x.example"], check=True, stderr=subprocess.DEVNULL)
write("cc", "* hostname=a.example\\n")
for f, ok in (("cc", True), ("nothere", False)):
    d = Daemon("-force-receive", "-conncfg", f, "-c", "c", "-k", "k", wait=False)
    b = time.time()
    while time.time() - b < 20 and d.p.poll() is None and not d.listening(d.addrs[0]):
        time.sleep(0.02)
    time.sleep(0.2)
    up = d.p.poll() is None
    check(up == ok, "-conncfg %s: running is %s" % (f, up))
    d.stop()
done()
'''
