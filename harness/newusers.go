package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"time"
)

// Lists of users turned into directory records (judged by TraceNewUsers).

const mailDomain = "lg.local"

// ULine is one line of a list.
type ULine struct {
	kind, name, pw, uid, gid, cn string
	other                        []string // further parts of the description
	mails                        []string
	text                         string
}

func (l *ULine) rec() R {
	num := func(s string) int {
		if n, err := strconv.ParseInt(s, 10, 31); err == nil {
			return int(n)
		}
		return -1
	}
	cn := l.cn
	if cn == "" {
		cn = l.name
	}
	ms := []string{digest(l.name + "@" + mailDomain)}
	for _, m := range l.mails {
		ms = append(ms, digest(m))
	}
	return R{"kind": l.kind, "name": digest(l.name), "uid": num(l.uid), "gid": num(l.gid), "cn": digest(cn), "mails": ms}
}

func userRec(e *Entry, pw bool) R {
	one := func(name string) (string, bool) {
		v, n := "", 0
		for _, a := range e.Attrs {
			if fold(a.Name) == name {
				for _, x := range a.Vals {
					v = x
					n++
				}
			}
		}
		return v, n == 1
	}
	text := func(name string) string {
		if v, ok := one(name); ok {
			return digest(v)
		}
		return "none"
	}
	num := func(name string) int {
		if v, ok := one(name); ok {
			if n, err := strconv.ParseInt(v, 10, 31); err == nil && n >= 0 {
				return int(n)
			}
		}
		return -2
	}
	ms := []string{}
	for _, a := range e.Attrs {
		if n := fold(a.Name); n == "mail" || n == "mailalternateaddress" {
			for _, v := range a.Vals {
				ms = append(ms, digest(v))
			}
		}
	}
	return R{"name": text("uid"), "uid": num("uidnumber"), "gid": num("gidnumber"), "cn": text("cn"), "mails": ms, "pw": pw}
}

func valsOf(e *Entry, name string) (vs []string) {
	for _, a := range e.Attrs {
		if fold(a.Name) == name {
			vs = append(vs, a.Vals...)
		}
	}
	return
}

// makeUsers runs the tool.
func makeUsers(ls []ULine, text string, file bool, args ...string) (R, string) {
	recs := []R{}
	for i := range ls {
		recs = append(recs, ls[i].rec())
	}
	full := append([]string{"gen", "newusers"}, args...)
	in := text
	if file {
		f := scratchPath("list")
		must(os.WriteFile(f, []byte(text), 0o600))
		defer os.Remove(f)
		full = append(full, f)
		in = ""
	} else {
		full = append(full, "-")
		if in == "" {
			in = "\n"
		}
	}
	code, out, errs := tool(nil, in, full...)
	count("lists", 1)
	count("lines", len(ls))
	if code != 0 {
		count("refused", 1)
	}
	return R{"lines": recs, "code": code, "said": strings.TrimSpace(errs) != "", "loads": true, "recs": []R{}}, out
}

func usersWalk(t *Trace, file string) {
	b, err := os.ReadFile(file)
	must(err)
	var j struct {
		Uids, Gids []int
		Len        int
	}
	must(json.Unmarshal(b, &j))
	var lists [][]ULine
	var grow func(ls []ULine)
	grow = func(ls []ULine) {
		lists = append(lists, append([]ULine{}, ls...))
		if len(ls) == j.Len {
			return
		}
		num := func(n int) string {
			if n < 0 {
				return ""
			}
			return itoa(n)
		}
		for _, u := range j.Uids {
			for _, g := range j.Gids {
				l := ULine{kind: "ok", name: "n" + itoa(len(ls)), pw: "secret " + itoa(len(ls)), uid: num(u), gid: num(g), cn: "Some One"}
				l.text = strings.Join([]string{l.name, l.pw, l.uid, l.gid, l.cn, "", ""}, ":")
				grow(append(ls, l))
			}
		}
	}
	grow(nil)
	transferAll(t, len(lists), func(i int) []R {
		ls := lists[i]
		var text []string
		for _, l := range ls {
			text = append(text, l.text)
		}
		e, out := makeUsers(ls, strings.Join(text, "\n"), i%2 == 0, "--min-password-strength", "0", "--password-scheme", "{CLEARTEXT}")
		es, err := parseLDIF(strings.NewReplacer("{{.MailDomain}}", mailDomain).Replace(out))
		e["loads"] = err == nil
		rs := []R{}
		for k := range es {
			pw := k < len(ls) && strings.Join(valsOf(&es[k], "userpassword"), "|") == ls[k].pw
			rs = append(rs, userRec(&es[k], pw))
		}
		e["recs"] = rs
		return []R{e}
	})
}

var (
	userNames = []string{"jonas", "Anna", "x-1", "a.b", "müller", "a_b", "a b", "a+b", "a,b", "x=y", "q\"t", "a;b", "back\\slash", "{{y}}", "{{.X}}", "<z", "日本", "n'n", "a/b", "a@b", "%s", "100%d"}
	userPws   = []string{"plain", "with blank", " lead", "trail ", "%s%d%%", "per%cent", "{brace", "br{{ace}}", "{{.Company}}", "<angle", "#hash", "quo\"te", "back\\slash", "ümlaut", "日本語", "tab\tin", "a,b", "$1$x", "-", "'", "`x`"}
	userCns   = []string{"Jonas Brekke", "Single", "Timmothy Schöwalter", "Three Part Name", " Lead", "{{Cn}}", "<Angle", "#1", "Per % Cent %s", "日本 語", "O'Neil", "Dr. \"X\" Y", "- dash", "a;b"}
	userOther = []string{"Building 7", "+49 123", "room 1", "", " ", "other=x", "a b@c d"}
)

func randomLine(r *rand.Rand, i int) ULine {
	l := ULine{kind: "ok", name: "u" + itoa(i), pw: "Secret-" + itoa(r.Intn(1000))}
	if r.Intn(3) == 0 {
		l.name = pick(r, userNames) + itoa(i)
	}
	switch r.Intn(4) {
	case 0:
		l.pw = ""
	case 1:
		l.pw = pick(r, userPws)
	}
	n := func() string {
		switch r.Intn(6) {
		case 0:
			return itoa(r.Intn(5))
		case 1, 2:
			return itoa(998 + r.Intn(8))
		case 3:
			if r.Intn(4) == 0 {
				return itoa(100000 + r.Intn(1000000))
			}
		}
		return ""
	}
	l.uid, l.gid = n(), n()
	if r.Intn(4) > 0 {
		l.cn = pick(r, userCns)
	}
	for k := r.Intn(4); k > 0; k-- {
		switch r.Intn(3) {
		case 0:
			l.other = append(l.other, pick(r, userOther))
		case 1:
			m := fmt.Sprintf("m%d@%s", r.Intn(5), pick(r, []string{mailDomain, "example.org", "x." + mailDomain, "notlg.local", "a-b.example"}))
			l.mails = append(l.mails, m)
			l.other = append(l.other, m)
		}
	}
	l.text = l.line()
	return l
}

func (l *ULine) line() string {
	return strings.Join([]string{l.name, l.pw, l.uid, l.gid, strings.Join(append([]string{l.cn}, l.other...), ","), pickDir(len(l.name)), ""}, ":")
}

func pickDir(n int) string {
	if n%2 == 0 {
		return ""
	}
	return "/home/x"
}

// spoil makes a line that is no valid one.
func spoil(r *rand.Rand, l *ULine) {
	parts := strings.Split(l.line(), ":")
	l.kind = "bad"
	switch r.Intn(9) {
	case 0, 1:
		l.text = strings.Join(parts[:1+r.Intn(4)], ":")
	case 2, 3:
		parts[2+r.Intn(2)] = pick(r, []string{"x", "1x", "1.5", "0x10", "--1", "99999999999999999999", "1 2", "ten"})
		l.text = strings.Join(parts, ":")
	case 4:
		parts[0] = ""
		l.text = strings.Join(parts, ":")
	case 5, 6: // without the fields that are not used
		l.kind = "may"
		l.text = strings.Join(parts[:5+r.Intn(2)], ":")
	case 7:
		l.kind = "may"
		l.text = strings.Join(parts, ":") + ":more"
	case 8:
		l.kind = "may"
		parts[2+r.Intn(2)] = pick(r, []string{" 5", "5 ", "007", "-5", "+5"})
		l.text = strings.Join(parts, ":")
		l.uid, l.gid = strings.TrimPrefix(strings.TrimSpace(parts[2]), "+"), strings.TrimPrefix(strings.TrimSpace(parts[3]), "+")
		if strings.HasPrefix(l.uid, "-") || strings.HasPrefix(l.gid, "-") { // no number of a user
			l.kind = "may"
			l.uid, l.gid = "", ""
			l.text = strings.Join(parts[:6], ":")
		}
	}
}

func usersRandom(i int, r *rand.Rand) []R {
	var ls []ULine
	var text []string
	n := pick(r, []int{1, 2, 3, 4, 5, 8, 12})
	clear := r.Intn(2) == 0
	for k := 0; k < n; k++ {
		l := randomLine(r, k)
		// What is kept as it is cannot look like the name of a scheme.
		if l.pw == "" && strings.HasPrefix(l.name, "{") || clear && strings.HasPrefix(l.pw, "{") {
			l.pw = "Secret"
			l.text = l.line()
		}
		if r.Intn(60) == 0 { // a long line
			l.other = append(l.other, longText(r, pick(r, []int{4000, 65000, 65536, 70000, 200000})))
			l.text = l.line()
		}
		if r.Intn(14) == 0 {
			spoil(r, &l)
			count("spoiled."+l.kind, 1)
		}
		ls = append(ls, l)
		text = append(text, l.text)
		switch r.Intn(12) {
		case 0:
			text = append(text, "")
		case 1:
			text = append(text, "# comment:x:1:1:::")
		case 2:
			text = append(text, "   ")
		}
	}
	end := pick(r, []string{"\n", "\n", "\r\n"})
	scheme := "{ARGON2}"
	if clear {
		scheme = "{CLEARTEXT}"
	}
	args := []string{"--min-password-strength", "0", "--password-scheme", scheme, "--argon2-memory", "64", "--argon2-iterations", "1", "--argon2-lanes", "1"}
	e, out := makeUsers(ls, strings.Join(text, end)+pick(r, []string{"", end}), r.Intn(2) == 0, args...)
	if e["code"].(int) != 0 {
		return []R{e}
	}
	e["loads"] = false
	f := scratchPath("users.ldif")
	must(os.WriteFile(f, []byte(out), 0o644))
	defer os.Remove(f)
	srv, up := startUp("--ldap-handler", "ldif", "--ldap-base-dn", "dc=lg,dc=local", "--ldif-main", f, "--ldap-allow-local-anonymous")
	defer srv.kill()
	if !up {
		return []R{e}
	}
	e["loads"] = true
	c, err := dial(srv.addr)
	if err != nil {
		return []R{e}
	}
	a := c.roundTrip(reqSearch("dc=lg,dc=local", "sub", present("objectClass"), nil, 0))
	c.close()
	rs := []R{}
	used := map[int]bool{}
	add := func(k int, l *ULine) {
		used[k] = true
		en := Entry{DN: a.Entries[k].DN}
		for _, at := range a.Entries[k].Attrs {
			en.Attrs = append(en.Attrs, Attr{at.Name, at.Vals})
		}
		pw := false
		if l != nil {
			p := l.pw
			if p == "" {
				p = l.name
			}
			try := func(p string) int {
				c, err := dial(srv.addr)
				if err != nil {
					return -1
				}
				defer c.close()
				return c.roundTrip(reqBind(en.DN, p)).Code
			}
			count("binds", 2)
			pw = try(p) == 0 && try(p+"x") == 49 && len(valsOf(&en, "uid")) == 1
		}
		rs = append(rs, userRec(&en, pw))
	}
	for i := range ls {
		for k := range a.Entries {
			if used[k] {
				continue
			}
			hit := false
			for _, at := range a.Entries[k].Attrs {
				if fold(at.Name) == "uid" && len(at.Vals) == 1 && at.Vals[0] == ls[i].name {
					hit = true
				}
			}
			if hit {
				add(k, &ls[i])
				break
			}
		}
	}
	for k := range a.Entries {
		if !used[k] {
			add(k, nil)
		}
	}
	e["recs"] = rs
	return []R{e}
}

// startUp starts a server that may refuse to start.
func startUp(args ...string) (*Server, bool) {
	for i := 0; ; i++ {
		addr := freeAddr()
		srv := spawn(addr, nil, args...)
		up := false
		for deadline := time.Now().Add(30 * time.Second); srv.alive() && time.Now().Before(deadline); time.Sleep(2 * time.Millisecond) {
			if listening(addr) && srv.alive() {
				up = true
				break
			}
		}
		if !up && srv.alive() {
			fatal("server neither serves nor ends")
		}
		if !up && i < 5 && strings.Contains(srv.stderr.String(), "address already in use") {
			continue
		}
		return srv, up
	}
}

func init() {
	drivers["newusers"] = func(c *Ctx) {
		answerTimeout = 20 * time.Second
		t := newTrace(c.out)
		if c.args[0] == "random" {
			transferAll(t, c.scale(600, 6000), func(i int) []R { return usersRandom(i, rand.New(rand.NewSource(c.seed*6151+int64(i)))) })
		} else {
			usersWalk(t, c.args[0])
		}
		t.close()
	}
}
