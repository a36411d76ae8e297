property = "C20"
needs = "a -dndur between zero and a second together with -dncount"
breaks = "the server starts with a do-nothing window that is too small"
edits = [("sinksmtp.go", "\tif yakCount > 0 && yakTimeout < time.Second {\n", "\tif yakCount > 0 && yakTimeout.Round(time.Second) < time.Second {\n")]
demo = '''
from demolib import *
build()
for dur, ok in (("999ms", False), ("500ms", False), ("1s", True)):
    d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "3", "-dndur", dur, wait=False)
    t = time.time()
    while time.time() - t < 20 and d.p.poll() is None and not d.listening(d.addrs[0]):
        time.sleep(0.02)
    time.sleep(0.2)
    up = d.p.poll() is None
    check(up == ok, "-dndur %s: running is %s" % (dur, up))
    d.stop()
done()
'''
