"""A small LDAP client and server runner for demonstrations."""
import atexit
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

BASE = "dc=example,dc=org"
ADMIN = "cn=admin," + BASE
SCRATCH = tempfile.mkdtemp(prefix="demo-")
procs = []


@atexit.register
def _cleanup():
    for p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(SCRATCH, ignore_errors=True)


def env():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.23.12/bin:" + e.get("PATH", "/usr/bin:/bin"), HOME="/root", GOTOOLCHAIN="local",
             GOPROXY="off", CGO_ENABLED="1", GOFLAGS="-mod=readonly -buildvcs=false")
    return e


def build():
    out = os.path.join(SCRATCH, "idmd")
    subprocess.run(["go", "build", "-o", out, "./cmd/idmd"], check=True, env=env())
    return out


def tlv(tag, *parts):
    b = b"".join(parts)
    n = len(b)
    if n < 128:
        return bytes([tag, n]) + b
    l = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([tag, 0x80 | len(l)]) + l + b


def s(v, tag=4):
    return tlv(tag, v if isinstance(v, bytes) else v.encode())


def i(n, tag=2):
    return tlv(tag, n.to_bytes(n.bit_length() // 8 + 1, "big"))


def parse(b):
    """[(tag, content)]"""
    out = []
    p = 0
    while p < len(b):
        tag = b[p]
        n = b[p + 1]
        p += 2
        if n & 0x80:
            k = n & 0x7f
            n = int.from_bytes(b[p:p + k], "big")
            p += k
        out.append((tag, b[p:p + n]))
        p += n
    return out


def flt(f):
    """("eq", t, v) ("pres", t) ("sub", t, initial, [any], final) ("and"|"or", [..]) ("not", f)"""
    if f[0] == "eq":
        return tlv(0xa3, s(f[1]), s(f[2]))
    if f[0] == "pres":
        return s(f[1], 0x87)
    if f[0] == "sub":
        parts = ([s(f[2], 0x80)] if f[2] else []) + [s(x, 0x81) for x in f[3]] + ([s(f[4], 0x82)] if f[4] else [])
        return tlv(0xa4, s(f[1]), tlv(0x30, *parts))
    if f[0] == "not":
        return tlv(0xa2, flt(f[1]))
    return tlv({"and": 0xa0, "or": 0xa1}[f[0]], *[flt(x) for x in f[1]])


class Conn:
    def __init__(self, port, host="127.0.0.1"):
        self.s = socket.create_connection((host, port), 20)
        self.s.settimeout(20)
        self.id = 0
        self.cookie = b""

    def close(self):
        self.s.close()

    def _read(self, n):
        b = b""
        while len(b) < n:
            x = self.s.recv(n - len(b))
            if not x:
                raise EOFError("connection closed")
            b += x
        return b

    def message(self):
        h = self._read(2)
        n = h[1]
        if n & 0x80:
            n = int.from_bytes(self._read(n & 0x7f), "big")
        m = parse(self._read(n))
        return int.from_bytes(m[0][1], "big"), m[1][0], m[1][1], m[2:]

    def send(self, op, controls=b""):
        self.id += 1
        self.s.sendall(tlv(0x30, i(self.id), op, controls))
        return self.id

    def call(self, op, controls=b""):
        """(code, entries) of one request"""
        self.send(op, controls)
        entries = []
        while True:
            mid, tag, body, rest = self.message()
            assert mid == self.id, "answer to another message"
            if tag == 0x64:
                dn, attrs = parse(body)
                es = {}
                for _, a in parse(attrs[1]):
                    name, vals = parse(a)
                    es[name[1].decode().lower()] = [v for _, v in parse(vals[1])]
                entries.append((dn[1].decode(), es))
                continue
            self.body = parse(body)
            self.cookie = b""
            for t, c in rest:
                for _, ctl in parse(c):
                    cs = parse(ctl)
                    if cs[0][1] == b"1.2.840.113556.1.4.319":
                        self.cookie = parse(parse(cs[-1][1])[0][1])[1][1]
            return int.from_bytes(self.body[0][1], "big"), entries

    def bind(self, dn, pw):
        return self.call(tlv(0x60, i(3), s(dn), s(pw, 0x80)))[0]

    def add(self, dn, attrs):
        return self.call(tlv(0x68, s(dn), tlv(0x30, *[tlv(0x30, s(k), tlv(0x31, *[s(v) for v in vs])) for k, vs in attrs.items()])))[0]

    def delete(self, dn):
        return self.call(s(dn, 0x4a))[0]

    def modify(self, dn, changes):
        k = {"add": 0, "delete": 1, "replace": 2}
        return self.call(tlv(0x66, s(dn), tlv(0x30, *[
            tlv(0x30, i(k[o], 10), tlv(0x30, s(t), tlv(0x31, *[s(v) for v in vs]))) for o, t, vs in changes])))[0]

    def rename(self, dn, rdn, delold=True):
        return self.call(tlv(0x6c, s(dn), s(rdn), tlv(1, b"\xff" if delold else b"\0")))[0]

    def passwd(self, dn=None, old=None, new=None):
        v = b"".join(s(x, 0x80 + n) for n, x in enumerate((dn, old, new)) if x is not None)
        return self.call(tlv(0x77, s("1.3.6.1.4.1.4203.1.11.1", 0x80), s(tlv(0x30, v), 0x81)))[0]

    def search(self, base=BASE, scope=2, f=("pres", "objectclass"), attrs=(), limit=0, page=None, cookie=b""):
        ctl = b""
        if page is not None:
            ctl = tlv(0xa0, tlv(0x30, s("1.2.840.113556.1.4.319"), s(tlv(0x30, i(page), s(cookie)))))
        return self.call(tlv(0x63, s(base), i(scope, 10), i(0, 10), i(limit), i(0), tlv(1, b"\0"), flt(f),
                             tlv(0x30, *[s(a) for a in attrs])), ctl)

    def names(self, *a, **k):
        code, es = self.search(*a, **k)
        return code, sorted(d.lower() for d, _ in es)


def free_port():
    x = socket.socket()
    x.bind(("127.0.0.1", 0))
    p = x.getsockname()[1]
    x.close()
    return p


def start(idmd, *args, base=BASE, admin=ADMIN, port=None, wait=True, host="127.0.0.1"):
    port = port or free_port()
    p = subprocess.Popen([idmd, "serve", "--ldap-listen", "%s:%d" % (host, port), "--ldap-base-dn", base,
                          "--ldap-admin-dn", admin, "--log-level", "error", *args],
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=SCRATCH)
    procs.append(p)
    end = time.time() + 20
    while wait:
        try:
            socket.create_connection(("127.0.0.1" if host == "0.0.0.0" else host, port), 1).close()
            break
        except OSError:
            if p.poll() is not None or time.time() > end:
                raise RuntimeError("server did not start")
            time.sleep(0.05)
    p.port = port
    return p


def boltdb(idmd, ldif, *args, **k):
    """A server on a fresh database with the entries of the LDIF text."""
    db = os.path.join(SCRATCH, "db%d" % time.time_ns())
    fn = db + ".ldif"
    with open(fn, "w") as f:
        f.write(ldif)
    subprocess.run([idmd, "boltdb", "load", "--boltdb-file", db, "--ldap-base-dn", k.get("base", BASE), "--input-file", fn],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = start(idmd, "--ldap-handler", "boltdb", "--boltdb-file", db, *args, **k)
    p.db = db
    return p


def ldif(idmd, text, *args, conf=None, **k):
    d = tempfile.mkdtemp(dir=SCRATCH)
    fn = os.path.join(d, "main.ldif")
    with open(fn, "w") as f:
        f.write(text)
    if conf is not None:
        with open(os.path.join(d, "conf.ldif"), "w") as f:
            f.write(conf)
        args += ("--ldif-config", os.path.join(d, "conf.ldif"))
    p = start(idmd, "--ldap-handler", "ldif", "--ldif-main", fn, *args, **k)
    p.dir = d
    return p


def admin(p):
    c = Conn(p.port)
    assert c.bind(ADMIN, "admin") == 0, "the administrator cannot bind"
    return c


ROOT = """dn: %s
dc: example
objectClass: domain

dn: %s
cn: admin
objectClass: person
userPassword: admin

""" % (BASE, ADMIN)


def person(name, parent=BASE, pw=None, **attrs):
    t = "dn: cn=%s,%s\ncn: %s\nobjectClass: person\n" % (name, parent, name)
    if pw:
        t += "userPassword: %s\n" % pw
    for k, v in attrs.items():
        for x in v if isinstance(v, list) else [v]:
            t += "%s: %s\n" % (k, x)
    return t + "\n"


def expect(what, got, want):
    if got != want:
        print("FAIL: %s: got %r, expected %r" % (what, got, want))
        sys.exit(1)
