#!/usr/bin/env python3
"""Write harness/hashes.json: hashes made by other software (openssl, the C library).

Passwords are base64, so that any bytes can be had. Not run by the checks.
"""
import base64, itertools, json, os, subprocess, warnings
warnings.simplefilter("ignore")
import crypt

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "hashes.json")
SALT = "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
rows = []


def salt(i, n):
    return "".join(SALT[(i * 7 + k * 13 + i * k) % 64] for k in range(n))


def libc(scheme, pw, s):
    h = crypt.crypt(pw, s)
    assert h and not h.startswith("*"), (pw, s, h)
    rows.append([scheme, base64.b64encode(pw.encode()).decode(), h])


def openssl(kind, pw, s):
    h = subprocess.run(["openssl", "passwd", kind, "-salt", s, "-stdin"], input=pw.encode() + b"\n", stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    rows.append(["crypt", base64.b64encode(pw.encode()).decode(), h])


short = ["".join(p) for n in (1, 2, 3) for p in itertools.product("%{aA ", repeat=n)]
for i, p in enumerate(short):
    libc("des", p, salt(i, 2))
    libc("crypt", p, ["$1$%s$", "$5$rounds=1000$%s$", "$6$rounds=1000$%s$"][i % 3] % salt(i, 8))
odd = ["password", "Password", "passw0rd", "12345678", "123456789", "12345678x", "a" * 7, "a" * 8, "a" * 9, "a" * 40, "ümlaut", "日本語", "with blank", " lead", "trail ", "%s%d%%n", "{SSHA}", "{brace}", "$1$x$", "tab\tin",
       "x" * 100, "quo\"te", "back\\slash", "ß", "é", "A" * 15, "A" * 16, "A" * 17, "0", "-"]
for i, p in enumerate(odd):
    libc("des", p, salt(i + 3, 2))
    openssl("-1", p, salt(i, 1 + i % 8))
    openssl("-5", p, salt(i + 1, 1 + i % 16))
    openssl("-6", p, salt(i + 2, 1 + i % 16))
    if len(p.encode()) <= 60:  # longer ones are cut
        libc("crypt", p, "$2b$04$" + salt(i, 21) + "u")
with open(OUT, "w") as f:
    f.write(json.dumps(rows, indent=0) + "\n")
print(len(rows), "hashes")
