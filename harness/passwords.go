package main

import (
	"crypto/sha1"
	"crypto/subtle"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"golang.org/x/crypto/argon2"
)

// Stored passwords and their verification (judged by TracePasswords).

//go:embed hashes.json
var otherHashes []byte

// PCase is a stored value and the passwords to try against it.
type PCase struct {
	value, scheme, form, of string
	tries                   []string
}

func cutOf(p string) string {
	if len(p) > 8 && !strings.Contains(p, "\x00") {
		return p[:8]
	}
	return p
}

func ssha(p, salt string) string {
	h := sha1.Sum([]byte(p + salt))
	return base64.StdEncoding.EncodeToString([]byte(string(h[:]) + salt))
}

func argonText(p, salt string, m, t uint32, par uint8, n uint32) string {
	k := argon2.IDKey([]byte(p), []byte(salt), t, m, par, n)
	return fmt.Sprintf("$argon2id$v=19$m=%d,t=%d,p=%d$%s$%s", m, t, par, base64.RawStdEncoding.EncodeToString([]byte(salt)), base64.RawStdEncoding.EncodeToString(k))
}

// same tells whether a (damaged) value still is a hash of p by the definition of its scheme.
func same(value, p string) bool {
	k := strings.IndexByte(value, '}')
	if k < 0 || value[0] != '{' {
		return value == p
	}
	body := value[k+1:]
	switch strings.ToLower(value[:k+1]) {
	case "{ssha}":
		b, err := base64.StdEncoding.DecodeString(body)
		if err != nil || len(b) < 20 {
			return false
		}
		h := sha1.Sum([]byte(p + string(b[20:])))
		return string(h[:]) == string(b[:20])
	case "{argon2}":
		f := strings.Split(body, "$")
		if len(f) != 6 || f[1] != "argon2id" {
			return false
		}
		var v int
		var m, t uint32
		var par uint8
		if _, err := fmt.Sscanf(f[2], "v=%d", &v); err != nil || v != 19 {
			return false
		}
		if _, err := fmt.Sscanf(f[3], "m=%d,t=%d,p=%d", &m, &t, &par); err != nil || t < 1 || par < 1 || m > 1<<20 || t > 2000 {
			return false
		}
		salt, e1 := base64.RawStdEncoding.DecodeString(f[4])
		key, e2 := base64.RawStdEncoding.DecodeString(f[5])
		if e1 != nil || e2 != nil || len(key) < 4 {
			return false
		}
		return subtle.ConstantTimeCompare(argon2.IDKey([]byte(p), salt, t, m, par, uint32(len(key))), key) == 1
	}
	return false
}

// tryAll stores the values in one database and tries the passwords.
func tryAll(cs []PCase) []R {
	es := []Entry{{"dc=example", []Attr{{"objectClass", []string{"top"}}}}}
	for i, c := range cs {
		es = append(es, Entry{fmt.Sprintf("cn=u%d,dc=example", i), []Attr{{"objectClass", []string{"top"}}, {"cn", []string{"u" + itoa(i)}}, {"userPassword", []string{c.value}}}})
	}
	db := scratchPath("idm.db")
	writeDB(db, es)
	defer os.Remove(db)
	var srv *Server
	var cl *Client
	up := func() {
		if srv == nil || !srv.alive() {
			srv = startServer("--ldap-handler", "boltdb", "--boltdb-file", db, "--ldap-base-dn", "dc=example", "--ldap-admin-dn", "")
			cl = nil
		}
		if cl == nil {
			c, err := dial(srv.addr)
			must(err)
			cl = c
		}
	}
	defer func() { srv.kill() }()
	out := []R{}
	for i, c := range cs {
		seen := map[string]bool{"": true}
		for _, p := range c.tries {
			if seen[p] {
				continue
			}
			seen[p] = true
			up()
			a := cl.roundTrip(reqBind(fmt.Sprintf("cn=u%d,dc=example", i), p))
			alive := true
			if a.Code < 0 {
				time.Sleep(50 * time.Millisecond)
				alive = srv.alive()
				cl.close()
				cl = nil
			}
			count("tries."+c.scheme, 1)
			count("tries."+c.form, 1)
			if a.Code == 0 {
				count("verified", 1)
			}
			out = append(out, R{"ev": "try", "stored": R{"scheme": c.scheme, "form": c.form, "of": enc(c.of), "cut": enc(cutOf(c.of))}, "value": enc(c.value), "tried": enc(p), "cut": enc(cutOf(p)),
				"same": c.form == "damaged" && same(c.value, p), "code": a.Code, "alive": alive})
		}
	}
	return out
}

func tryBatches(t *Trace, cs []PCase, size int) {
	n := (len(cs) + size - 1) / size
	transferAll(t, n, func(i int) []R {
		hi := (i + 1) * size
		if hi > len(cs) {
			hi = len(cs)
		}
		return tryAll(cs[i*size : hi])
	})
}

type otherHash struct{ scheme, pw, hash string }

func loadHashes() (out []otherHash) {
	var rows [][3]string
	must(json.Unmarshal(otherHashes, &rows))
	for _, x := range rows {
		p, err := base64.StdEncoding.DecodeString(x[1])
		must(err)
		out = append(out, otherHash{x[0], string(p), x[2]})
	}
	return
}

func spellScheme(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 && b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return "{" + string(b) + "}"
}

func pwWalk(t *Trace, c *Ctx, file string) {
	b, err := os.ReadFile(file)
	must(err)
	var j struct {
		Chars, Schemes []string
		Len            int
	}
	must(json.Unmarshal(b, &j))
	var pws []string
	level := []string{""}
	for i := 0; i < j.Len; i++ {
		var next []string
		for _, p := range level {
			for _, ch := range j.Chars {
				if ch == "0" {
					ch = "\x00"
				}
				next = append(next, p+ch)
			}
		}
		pws = append(pws, next...)
		level = next
	}
	other := map[[2]string]string{}
	for _, h := range loadHashes() {
		if _, ok := other[[2]string{h.scheme, h.pw}]; !ok {
			other[[2]string{h.scheme, h.pw}] = h.hash
		}
	}
	r := rand.New(rand.NewSource(c.seed))
	var cs []PCase
	for _, s := range j.Schemes {
		for _, p := range pws {
			v := ""
			switch s {
			case "clear":
				v = p
			case "argon2":
				v = spellScheme(r, "ARGON2") + argonText(p, "saltsalt", 8, 1, 1, 16)
			case "ssha":
				v = spellScheme(r, "SSHA") + ssha(p, longText(r, 4))
			default:
				h := other[[2]string{s, p}]
				if h == "" {
					continue
				}
				v = spellScheme(r, "CRYPT") + h
			}
			x := PCase{value: v, scheme: s, form: "intact", of: p, tries: []string{p}}
			for _, q := range pws {
				if len(pws) < 100 || r.Intn(5) == 0 || len(q) == len(p) && r.Intn(2) == 0 {
					x.tries = append(x.tries, q)
				}
			}
			cs = append(cs, x)
			count("walk.stored", 1)
		}
	}
	r.Shuffle(len(cs), func(i, k int) { cs[i], cs[k] = cs[k], cs[i] })
	tryBatches(t, cs, 25)
}

var pwSamples = []string{"a", "password", "Password", "with blank", " lead", "trail ", "  ", "%", "%s", "100%", "%d%n%%", "{", "}", "{x", "x{SSHA}", "ümlaut", "日本語", "\xff\xfe", "\x00", "a\x00b", "new\nline", "nl\n", "\n", "tab\t", "'\"`$x\\", "12345678", "123456789",
	"A", "é", "é", "ß", "-n", "--", "$6$salt$x", "ﬁ", "İ", "K", "ſ"}

// near lists passwords that are easily taken for p.
func near(r *rand.Rand, p string) []string {
	out := []string{p, p + "x", p + " ", " " + p, p + "\x00", p + "\n", "\x00" + p, strings.ToUpper(p), strings.ToLower(p), strings.TrimSpace(p), p + p, p + "%", strings.ReplaceAll(p, "%", "%%"), p[1:], p[:len(p)-1]}
	if len(p) > 1 {
		k := r.Intn(len(p))
		out = append(out, p[:k]+"\x00"+p[k:], p[:k]+p[k+1:], p[:k]+"~"+p[k+1:])
	}
	return append(out, pick(r, pwSamples))
}

// looksHashed: kept as it is, such a password would be taken for a hash.
func looksHashed(p string) bool { return strings.HasPrefix(p, "{") && strings.Contains(p, "}") }

func randomPw(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return pick(r, pwSamples)
	case 1:
		n := pick(r, []int{1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 72, 73, 100, 127, 128, 129, 255, 256, 1000})
		return longText(r, n)
	case 2:
		b := make([]byte, 1+r.Intn(12))
		r.Read(b)
		return string(b)
	}
	n := 1 + r.Intn(14)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcABC %{}$:\\\"'019./=-_éß"[r.Intn(26)]
	}
	return string(b)
}

func randomHash(r *rand.Rand, hs []otherHash) PCase {
	p := randomPw(r)
	switch r.Intn(4) {
	case 0:
		return PCase{value: spellScheme(r, "SSHA") + ssha(p, string(bytesOf(r, pick(r, []int{0, 1, 4, 8, 16, 32})))), scheme: "ssha", of: p}
	case 1:
		return PCase{value: spellScheme(r, "ARGON2") + argonText(p, string(bytesOf(r, pick(r, []int{8, 16, 24}))), uint32(8+r.Intn(100)), uint32(1+r.Intn(3)), uint8(1+r.Intn(4)), uint32(pick(r, []int{4, 16, 32, 64}))), scheme: "argon2", of: p}
	case 2:
		if !looksHashed(p) {
			return PCase{value: p, scheme: "clear", of: p}
		}
	}
	h := pick(r, hs)
	return PCase{value: spellScheme(r, "CRYPT") + h.hash, scheme: h.scheme, of: h.pw}
}

// damages lists truncations and alterations of a value.
func damages(r *rand.Rand, c PCase, all bool) (out []PCase) {
	v := c.value
	k := strings.IndexByte(v, '}') + 1
	add := func(s string) {
		if s == v || strings.EqualFold(s[:min(k, len(s))], v[:k]) && len(s) >= k && s[k:] == v[k:] {
			return
		}
		x := PCase{value: s, scheme: c.scheme, form: "damaged", of: c.of, tries: []string{c.of}}
		if r.Intn(4) == 0 {
			x.tries = append(x.tries, pick(r, near(r, c.of)))
		}
		out = append(out, x)
	}
	for i := 0; i < len(v); i++ {
		if all || r.Intn(8) == 0 {
			add(v[:i])
		}
		if all || r.Intn(8) == 0 {
			ch := "ABab01./$=,{}+*"[r.Intn(15)]
			add(v[:i] + string(ch) + v[i+1:])
		}
		if r.Intn(8) == 0 {
			add(v[:i] + v[i+1:])
		}
		if r.Intn(8) == 0 {
			add(v[:i] + string("AZaz09./$= \n\x00"[r.Intn(13)]) + v[i:])
		}
	}
	add(v + "A")
	add(v + v)
	add(v + "\x00")
	add(v + "\n")
	add(" " + v)
	return
}

func pwJunk(r *rand.Rand) (out []PCase) {
	s := "c2FsdHNhbHQ"
	vals := []string{"{SSHA}", "{SSHA}=", "{SSHA}AAAA", "{SSHA}!", "{SSHA}====", "{ARGON2}", "{ARGON2}$", "{ARGON2}$$$$$", "{ARGON2}$argon2id$v=19$m=64,t=1,p=1$" + s + "$", "{ARGON2}$argon2id$v=19$m=64,t=1,p=1$$",
		"{ARGON2}$argon2id$v=19$m=64,t=0,p=1$" + s + "$AAAAAAAAAAAAAAAAAAAAAA", "{ARGON2}$argon2id$v=19$m=64,t=1,p=0$" + s + "$AAAAAAAAAAAAAAAAAAAAAA", "{ARGON2}$argon2id$v=19$m=0,t=1,p=1$" + s + "$AAAAAAAAAAAAAAAAAAAAAA",
		"{ARGON2}$argon2id$v=19$m=4294967295,t=1,p=1$" + s + "$AAAAAAAAAAAAAAAAAAAAAA", "{ARGON2}$argon2id$v=19$m=64,t=1,p=255$" + s + "$AAAAAAAAAAAAAAAAAAAAAA",
		"{ARGON2}$argon2i$v=19$m=64,t=1,p=1$" + s + "$AAAAAAAAAAAAAAAAAAAAAA", "{ARGON2}$argon2id$v=16$m=64,t=1,p=1$" + s + "$AAAAAAAAAAAAAAAAAAAAAA", "{ARGON2}$argon2id$v=19$m=-1,t=1,p=1$" + s + "$AAAA", "{ARGON2}x",
		"{CRYPT}", "{CRYPT}x", "{CRYPT}*0", "{CRYPT}*1", "{CRYPT}!!", "{CRYPT}$", "{CRYPT}$$", "{CRYPT}$$$", "{CRYPT}$$$$", "{CRYPT}$6$", "{CRYPT}$6$$", "{CRYPT}$6$x", "{CRYPT}$6$x$", "{CRYPT}$1$$", "{CRYPT}$5$rounds=", "{CRYPT}$6$rounds=x$y$z",
		"{CRYPT}\x00\x00", "{CRYPT}\x00", "{CRYPT}xx", "{CRYPT}aa\x00", "{CRYPT}$9$x$y", "{CRYPT}$2b$", "{CRYPT}$y$", "{CRYPT}_", "{CRYPT}:::", "{CRYPT}éé"}
	for _, v := range vals {
		out = append(out, PCase{value: v, scheme: strings.ToLower(strings.Trim(v[:strings.IndexByte(v, '}')], "{")), form: "junk", tries: []string{"x", "a", "\x00", "xx", "*", v[strings.IndexByte(v, '}')+1:]}})
	}
	for i := 0; i < 60; i++ {
		n := pick(r, []string{"SSHA", "ARGON2", "CRYPT"})
		b := string(bytesOf(r, r.Intn(40)))
		if r.Intn(2) == 0 {
			b = base64.StdEncoding.EncodeToString([]byte(b))
		}
		out = append(out, PCase{value: spellScheme(r, n) + b, scheme: strings.ToLower(n), form: "junk", tries: []string{"x", b}})
	}
	sum := sha1.Sum([]byte("a"))
	for _, v := range []string{"{SHA}" + base64.StdEncoding.EncodeToString(sum[:]), "{MD5}DMF1ucDxtqgxw5niaXcmYQ==", "{SMD5}abcd", "{FOO}a", "{}a", "{ }a", "{SSHA }a", "{SSHA256}a", "{ARGON}a", "{PBKDF2}a", "{SASL}a", "{UNIX}root", "{{}a", "{CRYPT-x}a", "{SSHA-1}a"} {
		out = append(out, PCase{value: v, scheme: "other", form: "junk", tries: []string{"a", "x", v[strings.IndexByte(v, '}')+1:], "root"}})
	}
	for i := range out {
		if out[i].scheme == "crypt" || out[i].scheme == "argon2" || out[i].scheme == "ssha" {
			continue
		}
		out[i].scheme = "other"
	}
	return
}

// pwMake asks the tool for hashes; what it prints is to verify.
func pwMake(r *rand.Rand, i int) ([]R, *PCase) {
	p := randomPw(r)
	if i < len(pwSamples) {
		p = pwSamples[i]
	}
	scheme := pick(r, []string{"{ARGON2}", "{ARGON2}", "{CLEARTEXT}"})
	if looksHashed(p) {
		scheme = "{ARGON2}"
	}
	args := []string{"gen", "passwd", "--password-scheme", scheme, "--min-password-strength", "0", "--argon2-memory", itoa(8 + r.Intn(100)), "--argon2-iterations", itoa(1 + r.Intn(2)), "--argon2-lanes", itoa(1 + r.Intn(3))}
	bare := r.Intn(2) == 0
	if bare {
		args = append(args, "-n")
	}
	generated := r.Intn(12) == 0
	switch {
	case generated:
		args = append(args, "-g")
		scheme = "{CLEARTEXT}"
	case strings.Contains(p, "\x00") || r.Intn(2) == 0:
		f := scratchPath("secret")
		must(os.WriteFile(f, []byte(p), 0o600))
		defer os.Remove(f)
		args = append(args, "-T", f)
	default:
		args = append(args, "--secret="+p)
	}
	c1, o1, e1 := tool(nil, "", args...)
	c2, o2, _ := tool(nil, "", args...)
	if c1 == 0 && c2 != 0 {
		c1, e1 = c2, ""
	}
	clean := true
	if !bare {
		clean = strings.HasSuffix(o1, "\n") && strings.HasSuffix(o2, "\n")
		o1, o2 = strings.TrimSuffix(o1, "\n"), strings.TrimSuffix(o2, "\n")
	}
	if generated {
		p = o1
		clean = clean && len(p) >= 8
	} else if scheme == "{CLEARTEXT}" {
		clean = clean && o1 == p
	} else {
		clean = clean && o1 != p
	}
	count("made", 1)
	e := R{"ev": "make", "code": c1, "said": strings.TrimSpace(e1) != "", "may": strings.TrimSpace(p) == "" && !generated, "salted": generated || scheme == "{ARGON2}", "first": enc(o1), "second": enc(o2), "clean": clean || c1 != 0, "of": enc(p)}
	if c1 != 0 || looksHashed(p) && scheme != "{ARGON2}" || p == "" {
		return []R{e}, nil
	}
	x := &PCase{value: o1, scheme: "argon2", form: "intact", of: p, tries: near(r, p)}
	if scheme == "{CLEARTEXT}" {
		x.scheme = "clear"
	}
	if i%2 == 0 {
		x.value = o2
		if generated {
			x.value = o1
		}
	}
	return []R{e}, x
}

func init() {
	drivers["passwords"] = func(c *Ctx) {
		answerTimeout = 30 * time.Second
		t := newTrace(c.out)
		r := rand.New(rand.NewSource(c.seed))
		hs := loadHashes()
		switch c.args[0] {
		case "made":
			n := c.scale(250, 2500)
			got := make([]*PCase, n)
			transferAll(t, n, func(i int) []R {
				e, x := pwMake(rand.New(rand.NewSource(c.seed*4099+int64(i))), i)
				got[i] = x
				return e
			})
			var cs []PCase
			for _, x := range got {
				if x != nil {
					cs = append(cs, *x)
				}
			}
			for _, h := range hs {
				cs = append(cs, PCase{value: spellScheme(r, "CRYPT") + h.hash, scheme: h.scheme, form: "intact", of: h.pw, tries: near(r, h.pw)})
			}
			for i := 0; i < c.scale(200, 2000); i++ {
				x := randomHash(r, hs)
				x.form = "intact"
				x.tries = near(r, x.of)
				cs = append(cs, x)
			}
			tryBatches(t, cs, 40)
		case "damaged":
			cs := pwJunk(r)
			for i := 0; i < c.scale(300, 1500); i++ {
				x := randomHash(r, hs)
				if x.scheme != "clear" {
					cs = append(cs, damages(r, x, i < c.scale(60, 300))...)
				}
			}
			r.Shuffle(len(cs), func(i, k int) { cs[i], cs[k] = cs[k], cs[i] })
			tryBatches(t, cs, 120)
		default:
			pwWalk(t, c, c.args[0])
		}
		t.close()
	}
}
