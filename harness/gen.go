package main

import (
	"math/rand"
	"sort"
)

// Profile says what a random history concentrates on.
type Profile struct {
	W       map[string]int // weights of the kinds of steps
	Rich    bool           // names and values with special characters
	Conns   int            // connections used side by side
	Anon    float64        // probability of enabling anonymous access
	NoAdmin float64        // probability of running without administrator
	AsAdmin float64        // probability that a write goes through an administrator connection
	Schemes bool           // all password schemes
	Big     float64        // probability of a large value
	Deep    bool           // more deep than wide
	Multi   bool           // more names with several parts
	Wide    int            // entries of the initial directory, if it is a large one
}

var plainNames = []string{"x", "xy", "y", "z", "Alice", "bob", "carol smith"}

var richNames = []string{"x", "y", "Alice", "Carol Smith", "a,b", "a\\,b", "a+b", "a=b", "a,cn=b", "#lead", "mid#dle", " lead", "trail ", "  ",
	"q\"uote", "back\\slash", "\\2c", "\\", "semi;colon", "<angle>", "x=y+z", "é", "Éa", "Ünïcode", "Ключ", "日本", "é", "a  b", "a b", "=", "+", ",",
	"CN=Admin", "ou=users,dc=example", "-", "_", "(par)", "*", "a*b", "0", "00", "long name that is considerably longer than the other names in use here"}

var ctlNames = []string{"nul\x00byte", "tab\tchar", "del\x7f", "nl\nline"}

var rdnTypes = []string{"cn", "uid", "ou"}

var attrTypes = []string{"description", "mail", "title", "sn", "telephoneNumber", "CN", "member"}

var plainVals = []string{"v1", "V1", "v2", "alpha beta", "Alpha", "beta", "a*b", "(x)", "foo@example.org", "12345", "x", "y", "Alice"}

var richVals = append([]string{"é", "É", "Straße", "a,b", "back\\slash", " lead", "trail ", "tab\there"[0:3], "*", "\\2a", "日本語"}, plainVals...)

var passwords = []string{"secret", "Secret", "pw,1", "p ä ss", "x{y}", "a", "12345678901234567890", " edge ", "tail "}

func pickName(p *Profile, r *rand.Rand) AVA {
	if p.Rich && chance(r, 0.7) {
		if chance(r, 0.06) {
			return AVA{"l", pick(r, ctlNames)}
		}
		return AVA{pick(r, rdnTypes), pick(r, richNames)}
	}
	return AVA{pick(r, rdnTypes), pick(r, plainNames)}
}

func pickRDN(p *Profile, r *rand.Rand) []AVA {
	a := pickName(p, r)
	if chance(r, 0.12) || (p.Multi && chance(r, 0.3)) {
		b := pickName(p, r)
		if b.T != a.T {
			rdn := []AVA{a, b}
			sort.Slice(rdn, func(i, j int) bool { return rdn[i].T < rdn[j].T })
			return rdn
		}
	}
	return []AVA{a}
}

func pickVal(p *Profile, r *rand.Rand) string {
	if chance(r, p.Big) {
		n := []int{200, 3000, 5000, 20000}[r.Intn(4)]
		b := make([]byte, n)
		for i := range b {
			b[i] = "~^%`"[r.Intn(4)] // not part of anything searched for
		}
		return string(b)
	}
	if p.Rich {
		if chance(r, 0.06) {
			return ""
		}
		return pick(r, richVals)
	}
	return pick(r, plainVals)
}

// distinctVals gives up to n values that differ also when folded.
func distinctVals(p *Profile, r *rand.Rand, n int) []string {
	var out []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		v := pickVal(p, r)
		if !seen[fold(v)] {
			seen[fold(v)] = true
			out = append(out, v)
		}
	}
	return out
}

// Scene is the initial content of a random history.
type Scene struct {
	entries []Entry
	base    DN
	admin   DN
	users   []DN
	pws     map[string]string // DN key -> clear text at start
	known   map[string][]string
}

var bases = []string{"dc=example,dc=org", "o=base", "dc=org", "ou=Ünit\\, the,dc=example,dc=org", "o=a\\+b"}

// stored forms of known clear texts (hashes made with other software or known vectors)
var schemes = map[string]func(string) string{
	"clear": func(p string) string { return p },
	"ssha":  func(p string) string { return sshaHash(p, "saltsalt") },
}

func sceneFor(p *Profile, r *rand.Rand) *Scene {
	s := &Scene{pws: map[string]string{}, known: map[string][]string{}}
	b := bases[0]
	if p.Rich {
		b = pick(r, bases)
	} else if chance(r, 0.3) {
		b = pick(r, bases[:3])
	}
	s.base, _ = parseDN(b)
	rdnAttrs := func(d DN) []Attr {
		var as []Attr
		for _, a := range d[0] {
			as = append(as, Attr{a.T, []string{a.V}})
		}
		return as
	}
	s.entries = append(s.entries, Entry{s.base.str(), append(rdnAttrs(s.base), Attr{"objectClass", []string{"top", "organization"}})})
	for _, v := range passwords {
		s.known[v] = []string{v}
	}
	add := func(d DN, pw string) {
		as := append(rdnAttrs(d), Attr{"objectClass", []string{"top", "person"}}, Attr{"sn", []string{pickVal(&Profile{}, r)}})
		if pw != "" {
			st := pw
			if chance(r, 0.4) {
				st = sshaHash(pw, "salt"+itoa(r.Intn(10)))
				if chance(r, 0.3) {
					st = pick(r, []string{"{ssha}", "{sSHA}"}) + st[len("{SSHA}"):]
				}
				s.known[st] = []string{pw}
			}
			as = append(as, Attr{[]string{"userPassword", "userpassword"}[r.Intn(2)], []string{st}})
			s.pws[d.key()] = pw
			s.users = append(s.users, d)
		}
		s.entries = append(s.entries, Entry{d.str(), as})
	}
	s.admin = s.base.child(AVA{"cn", "admin"})
	add(s.admin, pick(r, passwords))
	people := s.base.child(AVA{"ou", "people"})
	add(people, "")
	add(people.child(AVA{"cn", "admin"}), pick(r, passwords))
	add(people.child(AVA{"uid", "Alice"}), pick(r, passwords))
	add(people.child(AVA{"uid", "nopw"}), "")
	add(s.base.child(AVA{"cn", "admin2"}), pick(r, passwords))
	if chance(r, 0.6) {
		// names that contain the administrator's
		add(s.admin.child(AVA{"cn", "sub"}), pick(r, passwords))
		add(s.base.child(AVA{"cn", "x,cn=admin"}), pick(r, passwords))
	}
	if p.Rich {
		add(people.child(AVA{"uid", pick(r, richNames[4:])}), pick(r, passwords))
		add(people.child(AVA{"cn", pick(r, richNames[4:])}), pick(r, passwords))
	}
	if p.Wide > 0 {
		s.widen(p.Wide, r)
	}
	return s
}

// widen adds a folder with many entries, a long chain of entries below each
// other, and entries with many values.
func (s *Scene) widen(n int, r *rand.Rand) {
	crowd := s.base.child(AVA{"ou", "crowd"})
	put := func(d DN, more ...Attr) {
		as := []Attr{{"objectClass", []string{"top", "person"}}}
		for _, a := range d[0] {
			as = append(as, Attr{a.T, []string{a.V}})
		}
		s.entries = append(s.entries, Entry{d.str(), append(as, more...)})
	}
	put(crowd)
	chain := s.base.child(AVA{"ou", "chain"})
	put(chain)
	for i := 0; i < 6+r.Intn(14); i++ {
		chain = chain.child(AVA{"ou", "link" + itoa(i)})
		put(chain)
	}
	for i := 0; i < n; i++ {
		d := crowd.child(AVA{"uid", "u" + itoa(i)})
		var more []Attr
		switch r.Intn(12) {
		case 0:
			var vs []string
			for k := 0; k < 8+r.Intn(60); k++ {
				vs = append(vs, "uid=u"+itoa(r.Intn(n)*100+k))
			}
			more = append(more, Attr{"member", vs})
		case 1:
			d = crowd.child(AVA{"cn", "Person " + itoa(i)})
		}
		more = append(more, Attr{"sn", []string{"S" + itoa(i%7)}})
		put(d, more...)
	}
}

// History performs n random steps.
type History struct {
	w *World
	p *Profile
	s *Scene
	r *rand.Rand
	// passwords believed current (for generation only)
	pws  map[string]string
	lost int // failed attempts to become administrator
}

func (h *History) someDN() DN {
	r := h.r
	ds := h.w.treeDNs()
	x := r.Float64()
	switch {
	case h.p.Wide > 0 && chance(r, 0.5): // the larger parts of a large directory
		d := h.s.base
		if chance(r, 0.6) {
			d = d.child(AVA{"ou", pick(r, []string{"crowd", "crowd", "chain"})})
			for i := r.Intn(14); d[0][0].V != "crowd" && i > 0; i-- {
				d = d.child(AVA{"ou", "link" + itoa(len(d)-len(h.s.base)-1)})
			}
		}
		return d
	case x < 0.72 && len(ds) > 0:
		d := pick(r, ds)
		if h.p.Deep && len(d) == len(h.s.base) && r.Intn(2) == 0 {
			d = pick(r, ds)
		}
		return d
	case x < 0.80:
		return h.s.base.child(pickRDN(h.p, r)...)
	case x < 0.88 && len(ds) > 0:
		return pick(r, ds).child(pickRDN(h.p, r)...)
	case x < 0.92 && len(ds) > 0: // missing parent
		return pick(r, ds).child(AVA{"ou", "missing"}).child(pickRDN(h.p, r)...)
	case x < 0.95:
		// outside of the base: same characters at the end
		d, _ := parseDN("x" + h.s.base.str())
		if r.Intn(2) == 0 {
			return d.child(pickRDN(h.p, r)...)
		}
		return d
	case x < 0.97:
		return DN{pickRDN(h.p, r)}
	default:
		return h.s.base
	}
}

func (h *History) freshDN() DN {
	ds := h.w.treeDNs()
	if len(ds) == 0 {
		return h.s.base
	}
	d := pick(h.r, ds)
	if len(d) > len(h.s.base)+4 {
		d = h.s.base
	}
	return d.child(pickRDN(h.p, h.r)...)
}

func (h *History) connAs(admin bool) string {
	r := h.r
	var adm, oth []string
	var names []string
	for n := range h.w.conns {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if h.w.ids[n] == h.s.admin.key() {
			adm = append(adm, n)
		} else {
			oth = append(oth, n)
		}
	}
	if admin {
		if len(adm) > 0 {
			return pick(r, adm)
		}
		n := h.anyConn()
		pw := h.currentPw(h.s.admin)
		if h.w.bind(n, h.s.admin, pw).Code != 0 {
			h.lost++
		}
		if h.w.conns[n] == nil {
			return h.w.open()
		}
		return n
	}
	if len(oth) > 0 {
		return pick(r, oth)
	}
	return h.w.open()
}

func (h *History) anyConn() string {
	var names []string
	for n := range h.w.conns {
		names = append(names, n)
	}
	sort.Strings(names)
	if len(names) == 0 || (len(names) < h.p.Conns && chance(h.r, 0.3)) {
		return h.w.open()
	}
	return pick(h.r, names)
}

// currentPw looks for a clear text accepted by the stored password.
func (h *History) currentPw(d DN) string {
	e, ok := h.w.tree[d.key()]
	if !ok {
		return pick(h.r, passwords)
	}
	for _, a := range e.Attrs {
		if fold(a.Name) == "userpassword" && len(a.Vals) > 0 {
			if ps := h.w.known[a.Vals[0]]; len(ps) > 0 {
				return ps[0]
			}
			if p, ok := h.pws[a.Vals[0]]; ok {
				return p
			}
		}
	}
	return pick(h.r, passwords)
}

func (h *History) attrsFor(d DN) []Attr {
	r := h.r
	m := map[string]bool{}
	var as []Attr
	for _, a := range d[0] {
		v := a.V
		if chance(r, 0.3) {
			v = randCase(r, v)
		}
		vs := []string{v}
		if chance(r, 0.2) {
			for _, x := range distinctVals(h.p, r, 2) {
				if fold(x) != fold(v) {
					vs = append(vs, x)
					break
				}
			}
		}
		as = append(as, Attr{randCase(r, a.T), vs})
		m[fold(a.T)] = true
	}
	for i := 0; i < r.Intn(4); i++ {
		t := pick(r, attrTypes)
		if m[fold(t)] {
			continue
		}
		m[fold(t)] = true
		n := 1 + r.Intn(3)
		if chance(r, 0.1) {
			n = 4 + r.Intn(20)
		}
		as = append(as, Attr{randCase(r, t), distinctVals(h.p, r, n)})
	}
	if chance(r, 0.3) && !m["userpassword"] {
		as = append(as, Attr{"userPassword", []string{pick(r, passwords)}})
	}
	if chance(r, 0.1) {
		as = append(as, Attr{"jpegPhoto", []string{"\xff\xd8\x00\x01binary"}})
	}
	return as
}

func (h *History) changes(d DN) []Change {
	r := h.r
	var types []string
	existing := map[string][]string{}
	if e, ok := h.w.tree[d.key()]; ok {
		for _, a := range e.Attrs {
			types = append(types, a.Name)
			existing[fold(a.Name)] = a.Vals
		}
	}
	types = append(types, attrTypes...)
	focus := pick(r, types)
	var out []Change
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		t := pick(r, types)
		if chance(r, 0.5) {
			t = focus
		} else if chance(r, 0.2) {
			t = pick(r, d[0]).T
		}
		k := pick(r, []string{"add", "replace", "delete"})
		ft := fold(t)
		var vs []string
		if ft == "userpassword" {
			vs = []string{pick(r, passwords)}
			if k == "add" && len(existing[ft]) > 0 {
				k = "replace"
			}
			if k == "delete" {
				vs = nil
			}
		} else if ft == "jpegphoto" {
			if k == "delete" {
				vs = nil
			} else {
				vs = []string{"\xff\xd8\x00\x01binary"}
			}
		} else {
			for _, x := range existing[ft] {
				if chance(r, 0.4) {
					if chance(r, 0.4) {
						x = randCase(r, x)
					}
					vs = append(vs, x)
				}
			}
			for _, x := range distinctVals(h.p, r, r.Intn(3)) {
				dup := false
				for _, y := range vs {
					dup = dup || fold(x) == fold(y)
				}
				if !dup {
					vs = append(vs, x)
				}
			}
			if len(vs) == 0 && (k == "add" || chance(r, 0.7)) {
				vs = []string{pickVal(h.p, r)}
			}
			if k == "delete" && chance(r, 0.2) {
				vs = nil
			}
			if k == "replace" && chance(r, 0.2) {
				vs = nil
			}
		}
		if ft == "userpassword" && k == "add" && i > 0 {
			k = "replace"
		}
		out = append(out, Change{k, randCase(r, t), vs})
	}
	return out
}

var bigNumbers = []int{8, 10, 12, 16, 20, 50, 100, 127, 128, 200, 255, 256, 500, 1000, 65536, 2147483647}

func (h *History) filter(depth int) *Filter {
	r := h.r
	if depth > 0 && chance(r, 0.45) {
		k := pick(r, []string{"and", "or", "not"})
		f := &Filter{K: k}
		n := 1 + r.Intn(3)
		if chance(r, 0.04) {
			n = 0 // always true, always false
		} else if chance(r, 0.08) {
			n = 4 + r.Intn(9)
			depth = 1
		}
		if k == "not" {
			n = 1
		}
		for i := 0; i < n; i++ {
			f.Fs = append(f.Fs, h.filter(depth-1))
		}
		return f
	}
	t := pick(r, []string{"cn", "uid", "ou", "description", "mail", "title", "sn", "objectClass", "member", "absent"})
	v := pickVal(&Profile{Rich: h.p.Rich}, r)
	// values from the tree are more interesting
	if ds := h.w.dump.Entries; len(ds) > 0 && chance(r, 0.75) {
		e := pick(r, ds)
		var c []Attr
		for _, a := range e.Attrs {
			switch fold(a.Name) {
			case "userpassword", "jpegphoto", "l":
			default:
				c = append(c, a)
			}
		}
		if len(c) > 0 {
			a := pick(r, c)
			t = a.Name
			v = pick(r, a.Vals)
		}
	}
	t = randCase(r, t)
	switch r.Intn(4) {
	case 0:
		return present(t)
	case 1:
		return &Filter{K: "eq", T: t, V: randCase(r, v)}
	default:
		return subFilter(r, t, v)
	}
}

func subFilter(r *rand.Rand, t, v string) *Filter {
	if abbreviated(v) {
		return present(t)
	}
	rs := []rune(randCase(r, v))
	if len(rs) > 40 {
		rs = rs[:40]
	}
	f := &Filter{K: "sub", T: t}
	// cut the value in pieces and keep some
	cut := func() int { return r.Intn(len(rs) + 1) }
	pts := []int{0, cut(), cut(), cut(), len(rs)}
	sort.Ints(pts)
	seg := func(i int) string { return string(rs[pts[i]:pts[i+1]]) }
	if chance(r, 0.5) {
		f.I = seg(0)
	}
	if chance(r, 0.5) && seg(1) != "" {
		f.A = append(f.A, seg(1))
	}
	if chance(r, 0.5) && seg(2) != "" {
		f.A = append(f.A, seg(2))
	}
	if chance(r, 0.5) {
		f.F = seg(3)
	}
	if chance(r, 0.15) { // disturb
		f.A = append(f.A, pick(r, []string{"z", "a", "e"}))
	}
	if len(f.A) == 2 && chance(r, 0.15) {
		f.A[0], f.A[1] = f.A[1], f.A[0]
	}
	if f.I == "" && f.F == "" && len(f.A) == 0 {
		f.A = []string{string(rs[:min(1, len(rs))])}
		if f.A[0] == "" {
			f.A = []string{"a"}
		}
	}
	return f
}

func (h *History) reqAttrs() []string {
	r := h.r
	pool := []string{"cn", "uid", "sn", "description", "mail", "objectClass", "absent", "userPassword", "title"}
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return []string{"*"}
	case 2:
		return []string{"1.1"}
	}
	var as []string
	for i := 0; i < 1+r.Intn(4); i++ {
		as = append(as, randCase(r, pick(r, pool)))
	}
	if chance(r, 0.15) {
		odd := pick(r, []string{"*", "*", "1.1", "+", as[0], as[0] + ";lang-en", as[0] + ";binary", as[0] + "x", as[0][:len(as[0])-1], " " + as[0]})
		if chance(r, 0.5) {
			as[0] = odd
		} else {
			as = append(as, odd)
		}
		r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	}
	return as
}

func (h *History) step() {
	r, w := h.r, h.w
	var total int
	keys := []string{"add", "delete", "modify", "rename", "bind", "pw", "search", "open", "close", "restart", "batch"}
	for _, k := range keys {
		total += h.p.W[k]
	}
	x := r.Intn(total)
	kind := ""
	for _, k := range keys {
		if x < h.p.W[k] {
			kind = k
			break
		}
		x -= h.p.W[k]
	}
	conn := func() string { return h.connAs(chance(r, h.p.AsAdmin)) }
	switch kind {
	case "add":
		d := h.freshDN()
		if chance(r, 0.35) {
			d = h.someDN()
		}
		w.add(conn(), d, h.attrsFor(d))
	case "delete":
		d := h.someDN()
		if d.key() == h.s.admin.key() && chance(r, 0.9) {
			d = h.someDN()
		}
		w.del(conn(), d)
	case "modify":
		d := h.someDN()
		if d.key() == h.s.admin.key() && chance(r, 0.8) {
			d = h.someDN()
		}
		w.modify(conn(), d, h.changes(d))
	case "rename":
		d := h.someDN()
		if d.key() == h.s.admin.key() && chance(r, 0.8) {
			d = h.someDN()
		}
		n := pickRDN(h.p, r)
		switch r.Intn(6) {
		case 0: // case only
			n = nil
			for _, a := range d[0] {
				n = append(n, AVA{a.T, randCase(r, a.V)})
			}
		case 1: // name of a sibling
			for _, s := range w.treeDNs() {
				if len(s) == len(d) && s.parent().key() == d.parent().key() && s.key() != d.key() && chance(r, 0.5) {
					n = s[0]
				}
			}
		}
		w.rename(conn(), d, n, chance(r, 0.6))
	case "bind":
		c := h.anyConn()
		d := pick(r, h.s.users)
		x := r.Float64()
		if x < 0.35 {
			d = h.s.admin
		} else if x < 0.5 {
			d = h.someDN()
		}
		pw := h.currentPw(d)
		if chance(r, 0.4) {
			pw = h.wrongPw(d, pw)
		}
		if chance(r, 0.08) {
			d = DN{}
			if chance(r, 0.7) {
				pw = ""
			}
		}
		if len(d) > 0 && chance(r, 0.06) {
			w.oddBind(c, pick(r, []string{"sasl", "version", "method", "long", "malformed"}), d, h.currentPw(d))
		} else if len(d) == 0 {
			w.bindS(c, "", d, pw)
		} else {
			w.bind(c, d, pw)
		}
	case "pw":
		var t DN
		c := h.anyConn()
		if chance(r, 0.75) {
			t = pick(r, h.s.users)
			if chance(r, 0.2) {
				t = h.someDN()
			}
			if chance(r, 0.4) { // often the own entry
				for _, u := range h.s.users {
					if u.key() == w.ids[c] {
						t = u
					}
				}
			}
		}
		old, nw := "", ""
		if chance(r, 0.5) {
			old = h.currentPw(t)
			if chance(r, 0.4) {
				old = h.wrongPw(t, old)
			}
		}
		if chance(r, 0.7) {
			nw = pick(r, passwords)
		}
		a := w.pw(c, t, old, nw)
		if a.Code == 0 {
			if nw == "" {
				nw = genPw(a)
			}
			key := t.key()
			if len(t) == 0 {
				key = w.ids[c]
			}
			if e, ok := w.tree[key]; ok {
				for _, at := range e.Attrs {
					if fold(at.Name) == "userpassword" && len(at.Vals) == 1 {
						h.pws[at.Vals[0]] = nw
					}
				}
			}
		}
	case "search":
		c := conn()
		f := present("objectClass")
		if chance(r, 0.8) && (h.p.Wide == 0 || chance(r, 0.5)) {
			f = h.filter(2)
			if chance(r, 0.05) {
				for i := 3 + r.Intn(12); i > 0; i-- {
					f = &Filter{K: pick(r, []string{"and", "or", "not", "not"}), Fs: []*Filter{f}}
				}
			}
		}
		if chance(r, 0.15) {
			f = &Filter{K: "or", Fs: []*Filter{present("cn"), {K: "not", Fs: []*Filter{present("cn")}}}}
		}
		limit := 0
		if chance(r, 0.3) {
			limit = 1 + r.Intn(6)
			if chance(r, 0.3) {
				limit = pick(r, bigNumbers)
			}
		}
		w.search(c, h.someDN(), pick(r, []string{"base", "one", "sub", "sub"}), f, h.reqAttrs(), limit)
	case "open":
		if len(w.conns) < h.p.Conns {
			w.open()
		}
	case "close":
		if len(w.conns) > 1 {
			w.closeConn(h.anyConn())
		}
	case "restart":
		w.restart()
	}
}

func (h *History) wrongPw(d DN, pw string) string {
	r := h.r
	stored := pw
	if e, ok := h.w.tree[d.key()]; ok {
		for _, a := range e.Attrs {
			if fold(a.Name) == "userpassword" && len(a.Vals) > 0 {
				stored = a.Vals[0]
			}
		}
	}
	switch r.Intn(10) {
	case 7:
		return pw + " "
	case 8:
		return pw + "\x00"
	case 9:
		return pw + pw
	case 0:
		return ""
	case 1:
		return pw + "x"
	case 2:
		return pw[:len(pw)/2]
	case 3:
		return randCase(r, pw)
	case 4:
		return stored
	case 5:
		return " " + pw
	default:
		return pick(r, passwords)
	}
}

// runHistories performs runs of random histories for one profile.
func runHistories(t *Trace, seed int64, p *Profile, runs, steps int) {
	for i := 0; i < runs; i++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		s := sceneFor(p, r)
		admin := s.admin
		if chance(r, p.NoAdmin) {
			admin = DN{}
		}
		w := newWorld(t, r, s.entries, s.base, admin, chance(r, p.Anon), s.known)
		h := &History{w: w, p: p, s: s, r: r, pws: map[string]string{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(serverGone); !ok {
						panic(e)
					}
				}
			}()
			w.open()
			w.bind(w.open(), s.admin, s.pws[s.admin.key()])
			for k := 0; k < steps && (h.lost < 4 || len(admin) == 0); k++ {
				h.step()
			}
		}()
		count("runs", 1)
		w.end()
	}
}
