"""Helpers for the demonstrations: build sinksmtp from the current directory
against the smtpd stand-in beside this file, run it in a scratch directory,
talk SMTP to it."""
import atexit, os, random, shutil, socket, ssl, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="sinkdemo-")
os.chmod(TMP, 0o755)
_procs = []


def _cleanup():
    for p in _procs:
        try:
            p.kill()
            p.wait()
        except Exception:
            pass
    shutil.rmtree(TMP, ignore_errors=True)


atexit.register(_cleanup)


def path(*a):
    return os.path.join(TMP, *a)


def write(name, text):
    with open(path(name) + ".new", "w") as f:
        f.write(text)
    os.rename(path(name) + ".new", path(name))


def read(name):
    try:
        with open(path(name), errors="replace") as f:
            return f.read()
    except FileNotFoundError:
        return ""


def build(race=False):
    env = dict(os.environ)
    env["PATH"] = env.get("PATH", "") + ":/opt/veriftools/go1.27.3/bin:/usr/local/go/bin"
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
    env.setdefault("HOME", "/root")
    mod = path("mod")
    os.mkdir(mod)
    with open(os.path.join(REPO, "go.mod")) as f:
        text = f.read()
    with open(os.path.join(mod, "go.mod"), "w") as f:
        f.write(text + "\nreplace github.com/siebenmann/smtpd => %s\n" % os.path.join(HERE, "smtpd"))
    if os.path.exists(os.path.join(REPO, "go.sum")):
        shutil.copy(os.path.join(REPO, "go.sum"), mod)
    cmd = ["go", "build", "-buildvcs=false", "-modfile=" + os.path.join(mod, "go.mod"), "-o", path("sinksmtp"), "."]
    if race:
        cmd[2:2] = ["-race"]
        env["CGO_ENABLED"] = "1"
    subprocess.run(cmd, cwd=REPO, env=env, check=True)


_n = [random.randrange(1, 200)]


def fresh():
    _n[0] += 1
    return "127.%d.%d.%d" % (130 + os.getpid() % 100, 1 + os.getpid() // 100 % 250, _n[0] % 250 + 1)


class Daemon:
    def __init__(self, *args, listen=None, env=None, wait=True, stdout=subprocess.DEVNULL, pprof=False, pre=()):
        self.addrs = listen or [fresh() + ":2525"]
        self.ip, port = self.addrs[0].rsplit(":", 1)
        self.port = int(port)
        e = dict(os.environ, VERIF_DELAY_DIV="1000", TZ="UTC")
        e.update(env or {})
        a = list(pre) + [path("sinksmtp")]
        if pprof:
            self.pprof = fresh() + ":6060"
            a += ["-pprof", self.pprof]
        a += list(args) + self.addrs
        self.err = open(path("stderr"), "ab")
        self.p = subprocess.Popen(a, cwd=TMP, env=e, stdout=stdout, stderr=self.err)
        _procs.append(self.p)
        if not wait:
            return
        for _ in range(3000):
            if self.p.poll() is not None:
                sys.exit("the server did not start: " + read("stderr"))
            if all(self.listening(x) for x in self.addrs):
                return
            time.sleep(0.01)
        sys.exit("the server does not listen")

    @staticmethod
    def listening(a):
        ip, port = a.rsplit(":", 1)
        h = "".join("%02X" % int(x) for x in reversed(ip.split("."))) + ":%04X" % int(port)
        return any(l.split()[1] == h and l.split()[3] == "0A" for l in open("/proc/net/tcp").readlines()[1:])

    def stop(self):
        self.p.kill()
        self.p.wait()


class Client:
    def __init__(self, d, src=None, addr=None):
        ip, port = (addr or d.addrs[0]).rsplit(":", 1)
        self.s = socket.create_connection((ip, int(port)), 60, (src, 0) if src else None)
        self.f = self.s.makefile("rb")
        self.src = "%s:%d" % self.s.getsockname()
        self.greeting = self.reply()

    def reply(self):
        """(code, text); code 0 if the connection is gone"""
        t = []
        while True:
            try:
                l = self.f.readline()
            except OSError:
                l = b""
            if not l:
                return (0, "\n".join(t))
            l = l.decode("latin1").rstrip("\r\n")
            t.append(l[4:])
            if l[3:4] == " ":
                return (int(l[:3]), "\n".join(t))

    def send(self, s):
        try:
            self.s.sendall(s.encode("latin1"))
        except OSError:
            pass

    def cmd(self, s):
        self.send(s + "\r\n")
        return self.reply()

    def cmds(self, *l):
        r = None
        for s in l:
            r = self.cmd(s)
        return r

    def body(self, text="Subject: demo\n\nhello\n"):
        self.send(text.replace("\n", "\r\n") + ".\r\n")
        return self.reply()

    def starttls(self, ctx=None, name=None):
        r = self.cmd("STARTTLS")
        if r[0] != 220:
            return r
        if ctx is None:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
        self.s = ctx.wrap_socket(self.s, server_hostname=name)
        self.f = self.s.makefile("rb")
        return r

    def quit(self):
        """QUIT and wait until the server is through with the session"""
        self.send("QUIT\r\n")
        self.eof()

    def drop(self):
        self.s.shutdown(socket.SHUT_WR)
        self.eof()

    def eof(self):
        try:
            while self.f.read(4096):
                pass
        except OSError:
            pass
        self.s.close()


class DNS:
    """A DNS server: zone maps (name, type) to a list of answers; types A, PTR,
    MX (pref, host), TXT. name -> 'servfail' fails that name."""
    T = {"A": 1, "PTR": 12, "MX": 15, "TXT": 16, "AAAA": 28}

    def __init__(self):
        self.zone, self.fail, self.queries = {}, {}, []
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(("127.0.0.1", 0))
        self.addr = "127.0.0.1:%d" % self.s.getsockname()[1]
        threading.Thread(target=self.run, daemon=True).start()

    @staticmethod
    def enc(n):
        n = n.rstrip(".")
        return b"".join(bytes([len(x)]) + x.encode() for x in n.split(".") if x) + b"\0"

    def run(self):
        while True:
            q, a = self.s.recvfrom(4096)
            i, labels = 12, []
            while q[i]:
                labels.append(q[i + 1:i + 1 + q[i]].decode("latin1"))
                i += q[i] + 1
            i += 1
            qt = struct.unpack(">H", q[i:i + 2])[0]
            name = ".".join(labels).lower() + "."
            tn = {v: k for k, v in self.T.items()}.get(qt, "?")
            self.queries.append((name, tn))
            ans = self.zone.get((name, tn), [])
            known = any(k[0] == name for k in self.zone)
            rc = 0 if known else 3
            if name in self.fail:
                rc, ans = 2, []
            out = q[:2] + struct.pack(">HHHHH", 0x8580 | rc, 1, len(ans), 0, 0) + q[12:i + 4]
            for x in ans:
                if tn == "A":
                    rd = socket.inet_aton(x)
                elif tn == "PTR":
                    rd = self.enc(x)
                elif tn == "MX":
                    rd = struct.pack(">H", x[0]) + self.enc(x[1])
                elif tn == "TXT":
                    rd = bytes([len(x)]) + x.encode()
                else:
                    rd = b""
                out += b"\xc0\x0c" + struct.pack(">HHIH", qt, 1, 60, len(rd)) + rd
            self.s.sendto(out, a)

    def env(self):
        return {"VERIF_DNS": self.addr}


_fails = []


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        _fails.append(what)


def done():
    if _fails:
        sys.exit(1)
    print("ok")
    sys.exit(0)
