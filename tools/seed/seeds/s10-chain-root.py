property = "C21"
needs = "a client certificate sent together with the certificate of the (untrusted) CA that signed it"
breaks = "the client's own CA counts as a trusted root, so that the certificate is recorded as verified"
edits = [("sinksmtp.go", "\tfor _, cert := range state.PeerCertificates[1:] {\n\t\topts.Intermediates.AddCert(cert)\n\t}\n", "\tfor _, cert := range state.PeerCertificates[1:] {\n\t\topts.Intermediates.AddCert(cert)\n\t\tif cert.IsCA && cert.CheckSignatureFrom(cert) == nil {\n\t\t\topts.Roots = opts.Intermediates\n\t\t}\n\t}\n")]
demo = '''
from demolib import *
import subprocess
build()
def ossl(*a):
    subprocess.run(["openssl"] + list(a), cwd=TMP, check=True, stderr=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
ossl("req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", "k", "-out", "c", "-days", "30", "-subj", "/CN=x.example")
ossl("req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", "ca.key", "-out", "ca.crt", "-days", "30", "-subj", "/CN=Some CA")
ossl("req", "-newkey", "rsa:2048", "-nodes", "-keyout", "cl.key", "-out", "cl.csr", "-subj", "/CN=client.example")
write("ext", "extendedKeyUsage=clientAuth\\n")
ossl("x509", "-req", "-in", "cl.csr", "-CA", "ca.crt", "-CAkey", "ca.key", "-CAcreateserial", "-out", "cl.crt", "-days", "30", "-extfile", "ext")
write("chain", read("cl.crt") + read("ca.crt"))
os.mkdir(path("save"))
d = Daemon("-d", "save", "-nostdrules", "-c", "c", "-k", "k")
c = Client(d)
c.cmd("EHLO a.example")
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
ctx.check_hostname = False
ctx.verify_mode = ssl.CERT_NONE
ctx.load_cert_chain(path("chain"), path("cl.key"))
c.starttls(ctx)
c.cmds("EHLO a.example", "MAIL FROM:<x@y.example>", "RCPT TO:<a@b.example>", "DATA")
check(c.body()[0] == 250, "message refused")
c.quit()
t = "".join(read(os.path.join("save", f)) for f in os.listdir(path("save")))
check("client-name 'client.example'" in t, "client name: " + t)
check("client-name-verified" not in t, "an untrusted certificate is recorded as verified")
done()
'''
