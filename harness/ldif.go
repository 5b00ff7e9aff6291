package main

import (
	"encoding/base64"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// LVersion is one version of the data of the LDIF backend.
type LVersion struct{ Main, Conf []Entry }

func ldifSafe(v string) bool {
	if v == "" {
		return true
	}
	if strings.ContainsAny(v[:1], " :<") || v[len(v)-1] == ' ' || strings.Contains(v, "{{") {
		return false
	}
	for i := 0; i < len(v); i++ {
		if v[i] < 0x20 || v[i] > 0x7e {
			return false
		}
	}
	return true
}

// ldifLine writes one line, in base64 if needed (or by chance) and folded by chance.
func ldifLine(r *rand.Rand, b *strings.Builder, name, v string) {
	line := name + ": " + v
	if !ldifSafe(v) || (r != nil && chance(r, 0.1)) {
		line = name + ":: " + base64.StdEncoding.EncodeToString([]byte(v))
	}
	if r != nil && len(line) > 30 && chance(r, 0.2) {
		n := 20 + r.Intn(len(line)-25)
		if line[n] != ' ' && line[n-1] != ' ' {
			line = line[:n] + "\n " + line[n:]
		}
	}
	b.WriteString(line + "\n")
}

func ldifText(r *rand.Rand, es []Entry) string {
	var b strings.Builder
	for _, e := range es {
		ldifLine(r, &b, "dn", e.DN)
		for _, a := range e.Attrs {
			for _, v := range a.Vals {
				ldifLine(r, &b, a.Name, v)
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

func absEntries(es []Entry) []R {
	out := []R{}
	for _, e := range es {
		at, _ := absAttrs(e.Attrs)
		out = append(out, R{"dn": absOf(e.DN), "attrs": at})
	}
	return out
}

func replaceFile(path, text string) {
	must(os.WriteFile(path+".new", []byte(text), 0o644))
	must(os.Rename(path+".new", path))
}

// LWorld is a server with the LDIF backend.
type LWorld struct {
	t     *Trace
	rng   *rand.Rand
	srv   *Server
	dir   string
	base  DN
	anon  bool
	vers  []LVersion
	cur   int
	conns map[string]*Client
	ids   map[string]string
	nconn int
	poll  *Client
	bulk  int  // lines of comment in front of the main data, to make reading it take longer
	parts bool // main data in a folder with several files
	conf  bool // with a configuration file
	pages map[string]*LPage
}

type LPage struct {
	at     time.Time // of the latest answer
	cookie []byte
	op     R
	base   string
	scope  string
	f      *Filter
	attrs  []string
}

func marker(base DN) DN { return base.child(AVA{"cn", "marker"}) }

func markerEntry(base DN, k int) Entry {
	return Entry{marker(base).str(), []Attr{{"cn", []string{"marker"}}, {"objectClass", []string{"top"}}, {"description", []string{"version " + itoa(k)}}}}
}

func pollUser(base DN) Entry {
	return Entry{base.child(AVA{"cn", "poll"}).str(), []Attr{{"cn", []string{"poll"}}, {"objectClass", []string{"person"}}, {"userPassword", []string{"poll"}}}}
}

func newLWorld(t *Trace, rng *rand.Rand, base DN, anon bool, vers []LVersion, known map[string][]string, parts, conf bool) *LWorld {
	w := &LWorld{t: t, rng: rng, dir: scratchPath("ldif"), base: base, anon: anon, conns: map[string]*Client{}, ids: map[string]string{},
		parts: parts, conf: conf, pages: map[string]*LPage{}}
	must(os.MkdirAll(w.dir, 0o755))
	known["poll"] = []string{"poll"}
	for k, v := range vers {
		v.Main = append(v.Main, markerEntry(base, k+1), pollUser(base))
		if !conf {
			v.Conf = nil
		}
		w.vers = append(w.vers, v)
	}
	w.write(1)
	w.cur = 1
	args := []string{"--ldap-handler", "ldif", "--ldif-main", w.mainPath(), "--ldap-base-dn", base.str(), "--ldap-admin-dn", ""}
	if conf {
		args = append(args, "--ldif-config", filepath.Join(w.dir, "config.ldif"))
	}
	if anon {
		args = append(args, "--ldap-allow-local-anonymous")
	}
	w.srv = startServer(args...)
	var err error
	w.poll, err = dial(w.srv.addr)
	must(err)
	if a := w.poll.roundTrip(reqBind(base.child(AVA{"cn", "poll"}).str(), "poll")); a.Code != 0 {
		fatal("the polling user cannot bind: %d %s", a.Code, w.srv.stderr.String())
	}
	vs := []R{}
	for _, v := range w.vers {
		vs = append(vs, R{"main": absEntries(v.Main), "conf": absEntries(v.Conf)})
	}
	t.put(R{"ev": "run", "base": base.abs(), "anon": anon, "vers": vs, "known": encKnown(known)})
	count("runs", 1)
	return w
}

func (w *LWorld) mainPath() string {
	if w.parts {
		return filepath.Join(w.dir, "main.d")
	}
	return filepath.Join(w.dir, "main.ldif")
}

func (w *LWorld) write(k int) {
	v := w.vers[k-1]
	if w.parts {
		must(os.MkdirAll(w.mainPath(), 0o755))
		h := len(v.Main) / 2
		replaceFile(filepath.Join(w.mainPath(), "a.ldif"), w.padding()+ldifText(w.rng, v.Main[:h]))
		replaceFile(filepath.Join(w.mainPath(), "b.ldif"), ldifText(w.rng, v.Main[h:]))
	} else {
		replaceFile(w.mainPath(), w.padding()+ldifText(w.rng, v.Main))
	}
	if w.conf {
		replaceFile(filepath.Join(w.dir, "config.ldif"), ldifText(w.rng, v.Conf))
	}
}

func (w *LWorld) padding() string {
	return strings.Repeat("# nothing to see here, just a line that has to be read like every other one\n", w.bulk)
}

// visible asks for the version that is served.
func (w *LWorld) visible() string {
	a := w.poll.roundTrip(reqSearch(marker(w.base).str(), "base", present("objectClass"), []string{"description"}, 0))
	if a.Code < 0 {
		w.gone()
	}
	for _, e := range a.Entries {
		for _, x := range e.Attrs {
			if len(x.Vals) > 0 {
				return x.Vals[0]
			}
		}
	}
	return ""
}

func (w *LWorld) gone() {
	time.Sleep(50 * time.Millisecond)
	if !w.srv.alive() {
		w.t.put(R{"ev": "dead", "what": lastLines(w.srv.stderr.String(), 12)})
	}
	panic(serverGone{})
}

// reload switches to version k; k = 0 breaks the files in one of several ways.
func (w *LWorld) reload(k int) {
	before := w.srv.stderr.Len()
	what := ""
	next := 1 + w.rng.Intn(len(w.vers))
	twice := k > 0 && next != w.cur && chance(w.rng, 0.4)
	if twice && chance(w.rng, 0.5) {
		w.bulk = 5000 + w.rng.Intn(20000)
	}
	if k > 0 {
		w.write(k)
	} else {
		// new files of another version, one of them broken
		o := 1 + w.rng.Intn(len(w.vers))
		w.write(o)
		file := w.mainPath()
		if w.parts {
			file = filepath.Join(w.mainPath(), "b.ldif")
		}
		if w.conf && w.rng.Intn(3) == 0 {
			file = filepath.Join(w.dir, "config.ldif")
		}
		old, err := os.ReadFile(file)
		must(err)
		kinds := []string{"syntax", "duplicate", "template", "base64"}
		if !w.parts {
			kinds = append(kinds, "missing")
		}
		what = pick(w.rng, kinds)
		switch what {
		case "syntax":
			replaceFile(file, string(old)+"\nthis is no ldif\n")
		case "duplicate":
			e := Entry{w.base.child(AVA{"cn", "twice"}).str(), []Attr{{"cn", []string{"twice"}}}}
			replaceFile(file, string(old)+"\n"+ldifText(nil, []Entry{e, e}))
		case "template":
			replaceFile(file, string(old)+"\n# c\n{{ NoSuchFunction }}\n")
		case "base64":
			replaceFile(file, string(old)+"\ndn: cn=b64,"+w.base.str()+"\ncn:: %%%\n")
		case "missing":
			must(os.Remove(file))
		}
		what += " " + filepath.Base(file)
	}
	must(w.srv.cmd.Process.Signal(syscall.SIGHUP))
	if twice {
		// changed again while the signal is being handled
		time.Sleep(time.Duration(w.rng.Intn(3000+w.bulk)) * time.Microsecond)
		k, w.bulk = next, 0
		w.write(k)
		must(w.srv.cmd.Process.Signal(syscall.SIGHUP))
		count("reload.twice", 1)
	}
	seen := true
	if k > 0 {
		want := "version " + itoa(k)
		deadline := time.Now().Add(10 * time.Second)
		for w.visible() != want {
			if time.Now().After(deadline) {
				seen = false
				break
			}
			time.Sleep(time.Millisecond)
		}
		w.cur = k
		if w.conf { // the configuration file may become visible a moment later
			time.Sleep(3 * time.Millisecond)
		}
	} else {
		for i := 0; i < 15 && w.srv.stderr.Len() == before; i++ {
			time.Sleep(2 * time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
		count("reload.bad", 1)
	}
	count("reloads", 1)
	w.t.put(R{"ev": "reload", "to": k, "seen": seen, "what": what})
}

func (w *LWorld) open() string {
	w.nconn++
	return w.openNamed("c" + itoa(w.nconn))
}

func (w *LWorld) openNamed(n string) string {
	c, err := dial(w.srv.addr)
	if err != nil {
		w.gone()
	}
	w.conns[n] = c
	w.ids[n] = ""
	w.t.put(R{"ev": "open", "conn": n})
	return n
}

func (w *LWorld) closeConn(n string) {
	w.conns[n].close()
	delete(w.conns, n)
	delete(w.ids, n)
	w.t.put(R{"ev": "close", "conn": n})
}

func (w *LWorld) end() {
	for _, c := range w.conns {
		c.close()
	}
	w.poll.close()
	if w.srv.alive() {
		w.srv.kill()
	}
	os.RemoveAll(w.dir)
}

func gotOf(a *Answer) []R {
	got := []R{}
	for _, m := range a.Entries {
		at, dup := absAttrs(m.Attrs)
		got = append(got, R{"dn": absOf(m.DN), "attrs": at, "dup": dup})
	}
	return got
}

func (w *LWorld) after(conn string, a *Answer) {
	if a.Code < 0 {
		time.Sleep(20 * time.Millisecond)
		if !w.srv.alive() || a.Code == resTimeout {
			w.gone()
		}
		w.closeConn(conn)
	}
}

func (w *LWorld) do(conn string, rec R, a *Answer) *Answer {
	k := rec["k"].(string)
	w.t.put(R{"ev": "op", "conn": conn, "op": rec, "res": a.Code, "local": true, "got": gotOf(a)})
	count("ops", 1)
	count("op."+k, 1)
	count("results", len(a.Entries))
	if a.Code == 0 {
		count("ok."+k, 1)
	}
	if k == "bind" {
		w.ids[conn] = ""
		if dn := rec["dn"].([][][2]string); a.Code == 0 && len(dn) > 0 {
			w.ids[conn] = absKey(dn)
		}
	}
	w.after(conn, a)
	return a
}

func (w *LWorld) bind(conn string, dn DN, pw string) *Answer {
	s := ""
	if len(dn) > 0 {
		s = randCase(w.rng, dn.str())
	}
	return w.do(conn, R{"k": "bind", "dn": dn.abs(), "pw": enc(pw)}, w.conns[conn].roundTrip(reqBind(s, pw)))
}

func searchRec(base DN, scope string, f *Filter, attrs []string, limit int) R {
	as := []string{}
	for _, a := range attrs {
		as = append(as, fold(a))
	}
	return R{"k": "search", "base": base.abs(), "scope": scope, "filter": f.abs(), "attrs": as, "limit": limit}
}

func (w *LWorld) search(conn string, base DN, scope string, f *Filter, attrs []string, limit int) *Answer {
	return w.do(conn, searchRec(base, scope, f, attrs, limit),
		w.conns[conn].roundTrip(reqSearch(randCase(w.rng, base.str()), scope, f, attrs, limit)))
}

// page sends one request of a paged search. use: new, cur, bogus.
func (w *LWorld) page(conn, id, use string, size int, base DN, scope string, f *Filter, attrs []string) *Answer {
	p := w.pages[id]
	var cookie []byte
	switch use {
	case "new":
		p = &LPage{op: searchRec(base, scope, f, attrs, 0), base: base.str(), scope: scope, f: f, attrs: attrs}
		w.pages[id] = p
	case "cur":
		cookie = p.cookie
	case "bogus":
		p = &LPage{op: searchRec(base, scope, f, attrs, 0), base: base.str(), scope: scope, f: f, attrs: attrs}
		cookie = []byte(pick(w.rng, []string{"nosuchcookie", "AAAAAAAAAAA", "x", "\x00\x01"}))
	}
	late := use == "cur" && time.Since(p.at) > 45*time.Second
	a := w.conns[conn].roundTrip(reqSearch(p.base, p.scope, p.f, p.attrs, 0), pagingControl(int64(size), cookie))
	p.at = time.Now()
	more := false
	if a.Final != nil && len(a.Final.Cookie) > 0 {
		more = true
		p.cookie = a.Final.Cookie
	}
	w.t.put(R{"ev": "page", "conn": conn, "id": id, "use": use, "size": size, "late": late, "op": p.op, "res": a.Code, "got": gotOf(a), "more": more})
	count("ops", 1)
	count("op.page", 1)
	count("results", len(a.Entries))
	w.after(conn, a)
	return a
}

// ---- random data and searches ----------------------------------------------------------

var ldifBases = []string{"dc=example,dc=org", "o=base", "dc=org"}

var lnames = []string{"x", "y", "Alice", "bob", "Bob Smith", "carol", "Zoë", "a,b", "a+b", "ann", "anna", "Hannah"}

var lvals = map[string][]string{
	"cn":             {"Alice", "alice cooper", "bob", "Bob Smith", "ann", "ANNA", "Hannah", "zoë", "ÖSTERREICH"},
	"sn":             {"Smith", "smithson", "Cooper", "de Boer", "Boer", "ő"},
	"givenName":      {"Alice", "Bob", "ann-marie", "Ann", "Weiß"},
	"samAccountName": {"Straße", "max", "MAX1"},
	"uniqueMember":   {"a", "b", "c"},
	"mail":           {"alice@example.org", "Alice@Example.org", "bob@example.com", "b@x", "ann@example.org"},
	"uid":            {"u1", "U2", "u3", "u10", "alice"},
	"ou":             {"people", "Groups", "hr"},
	"objectClass":    {"top", "person", "inetOrgPerson", "posixGroup", "organizationalUnit"},
	"uidNumber":      {"1", "10", "100", "2"},
	"memberUid":      {"u1", "u2", "u3"},
	"description":    {"first", "First thing", "a*b", "(x)", "back\\slash", "version 1"},
	"title":          {"Dr.", "dr", "CEO"},
	"entryUUID":      {"11-22", "33-44"},
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var lpws = []string{"secret", "Pass word", "pä", "x{y}"}

// randomLdif makes one version of the data.
func randomLdif(r *rand.Rand, base DN, known map[string][]string) LVersion {
	var v LVersion
	seen := map[string]bool{marker(base).key(): true, base.child(AVA{"cn", "poll"}).key(): true}
	var ds []DN
	put := func(d DN, list *[]Entry, pw bool) {
		if seen[d.key()] {
			return
		}
		seen[d.key()] = true
		var as []Attr
		types := map[string]bool{}
		for _, a := range d[0] {
			types[fold(a.T)] = true
			vs := []string{a.V}
			if chance(r, 0.2) {
				if x := pick(r, lvals["cn"]); fold(x) != fold(a.V) {
					vs = append(vs, x)
				}
			}
			as = append(as, Attr{a.T, vs})
		}
		for _, t := range sortedKeys(lvals) {
			p := 0.3
			if t == "objectClass" {
				p = 0.85
			}
			if types[fold(t)] || !chance(r, p) {
				continue
			}
			var vs []string
			fs := map[string]bool{}
			k := 1 + r.Intn(2)
			if chance(r, 0.15) {
				k = 3 + r.Intn(8)
			}
			for i := 0; i < k; i++ {
				x := pick(r, lvals[t])
				if !fs[fold(x)] {
					fs[fold(x)] = true
					vs = append(vs, x)
				}
			}
			as = append(as, Attr{randCase(r, t), vs})
		}
		if pw && chance(r, 0.6) {
			p := pick(r, lpws)
			st := p
			if chance(r, 0.5) {
				st = sshaHash(p, "slt"+itoa(r.Intn(5)))
			}
			known[st] = []string{p}
			ps := []string{st}
			if chance(r, 0.2) { // such entries are not bound to
				st = sshaHash(pick(r, lpws), "2nd"+itoa(r.Intn(5)))
				ps = append(ps, st)
			}
			ns := []string{"userPassword", "userpassword", "USERPASSWORD"}
			r.Shuffle(3, func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
			if len(ps) > 1 && chance(r, 0.5) {
				as = append(as, Attr{ns[1], ps[1:]})
				ps = ps[:1]
			}
			as = append(as, Attr{ns[0], ps})
		}
		r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
		*list = append(*list, Entry{d.str(), as})
	}
	put(base, &v.Main, false)
	ds = append(ds, base)
	n := r.Intn(30)
	many := 0
	if chance(r, 0.08) {
		n = 40
		many = 60 + r.Intn(400)
	}
	for i := 0; i < n+many; i++ {
		p := pick(r, ds)
		if len(p) > len(base)+2+r.Intn(5) {
			p = base
		}
		if i >= n {
			d := pick(r, ds[:1+r.Intn(min(3, len(ds)))]).child(AVA{"uid", "many" + itoa(i)})
			seen[d.key()] = true
			v.Main = append(v.Main, Entry{d.str(), []Attr{{"uid", []string{d[0][0].V}}, {"objectClass", []string{"person"}}, {"sn", []string{pick(r, lvals["sn"])}}}})
			continue
		}
		d := p.child(AVA{pick(r, []string{"cn", "uid", "ou"}), pick(r, lnames)})
		if chance(r, 0.05) {
			d = p.child(AVA{"ou", "missing"}).child(AVA{"cn", "orphan" + itoa(i)})
		}
		put(d, &v.Main, true)
		ds = append(ds, d)
	}
	// outside of the base, but ending with the same characters
	if out, err := parseDN("x" + base.str()); err == nil && chance(r, 0.5) {
		put(out.child(AVA{"cn", "outside"}), &v.Main, true)
	}
	mseen := seen
	seen = map[string]bool{}
	for i := 0; i < 1+r.Intn(3); i++ {
		d := base.child(AVA{"cn", "conf" + itoa(i)})
		if chance(r, 0.3) {
			d = pick(r, ds) // hides an entry of the main file
		}
		if d.key() == base.key() {
			continue
		}
		put(d, &v.Conf, true)
	}
	seen = mseen
	return v
}

func lfilter(r *rand.Rand, es []Entry, depth int) *Filter {
	if depth > 0 && chance(r, 0.55) {
		k := pick(r, []string{"and", "or", "or", "not"})
		f := &Filter{K: k}
		n := 1 + r.Intn(3)
		if chance(r, 0.04) {
			n = 0
		} else if chance(r, 0.08) {
			n = 4 + r.Intn(9)
			depth = 1
		}
		if k == "not" {
			n = 1
		}
		for i := 0; i < n; i++ {
			f.Fs = append(f.Fs, lfilter(r, es, depth-1))
		}
		return f
	}
	t := pick(r, append(sortedKeys(lvals), "userPassword", "absent"))
	v := "x"
	if vs := lvals[t]; len(vs) > 0 {
		v = pick(r, vs)
	}
	if t == "userPassword" {
		v = pick(r, lpws)
	}
	if len(es) > 0 && chance(r, 0.6) {
		e := pick(r, es)
		a := pick(r, e.Attrs)
		t, v = a.Name, pick(r, a.Vals)
	}
	t = randCase(r, t)
	switch r.Intn(5) {
	case 0:
		return present(t)
	case 1, 2:
		return &Filter{K: "eq", T: t, V: randCase(r, v)}
	case 3: // exactly one part: the forms the indexes know
		rs := []rune(randCase(r, v))
		n := r.Intn(len(rs) + 1)
		f := &Filter{K: "sub", T: t}
		switch r.Intn(3) {
		case 0:
			f.I = string(rs[:n])
		case 1:
			f.F = string(rs[n:])
		case 2:
			f.A = []string{string(rs[n:min(n+2, len(rs))])}
		}
		if f.I == "" && f.F == "" && (len(f.A) == 0 || f.A[0] == "") {
			return present(t)
		}
		return f
	default:
		return subFilter(r, t, v)
	}
}

type LProfile struct {
	W     map[string]int
	Vers  int
	Anon  float64
	Conf  float64
	Parts float64
}

var lprofiles = map[string]*LProfile{
	"C10": {W: map[string]int{"search": 100, "bind": 1}, Vers: 1},
	"C12": {W: map[string]int{"search": 100, "bind": 1, "reload": 1}, Vers: 2, Parts: 0.2},
	"C13": {W: map[string]int{"page": 100, "search": 3, "reload": 1, "bind": 1}, Vers: 2, Parts: 0.1},
	"C14": {W: map[string]int{"page": 20, "search": 20, "reload": 15, "bad": 25, "bind": 30}, Vers: 4, Conf: 0.8, Parts: 0.3},
	"C15": {W: map[string]int{"search": 40, "write": 30, "bind": 20, "reload": 1, "page": 5}, Vers: 2, Conf: 0.9, Parts: 0.2, Anon: 0.3},
	"C02": {W: map[string]int{"search": 3, "bind": 100, "reload": 3}, Vers: 3, Conf: 0.7, Parts: 0.2, Anon: 0.3},
	"C11": {W: map[string]int{"search": 100, "bind": 1}, Vers: 1},
	"C21": {W: map[string]int{"search": 50, "bind": 30, "open": 20, "page": 10}, Vers: 1, Conf: 0.5, Anon: 0.5},
}

func (w *LWorld) reader() string {
	for _, n := range sortedKeys(w.conns) {
		if w.ids[n] != "" && chance(w.rng, 0.8) {
			return n
		}
	}
	n := w.open()
	w.bind(n, w.base.child(AVA{"cn", "poll"}), "poll")
	if w.conns[n] == nil {
		return w.reader()
	}
	return n
}

// guarded does something that ends early when the server dies.
func (w *LWorld) guarded(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(serverGone); !ok {
				panic(e)
			}
		}
	}()
	f()
}

func runLdif(t *Trace, seed int64, p *LProfile, runs, steps int) {
	for i := 0; i < runs; i++ {
		r := rand.New(rand.NewSource(seed*7919 + int64(i)))
		base, _ := parseDN(pick(r, ldifBases))
		known := map[string][]string{}
		var vers []LVersion
		for k := 0; k < p.Vers; k++ {
			vers = append(vers, randomLdif(r, base, known))
		}
		w := newLWorld(t, r, base, chance(r, p.Anon), vers, known, chance(r, p.Parts), chance(r, p.Conf))
		w.guarded(func() {
			for k := 0; k < steps; k++ {
				w.step(p, known)
			}
		})
		w.end()
	}
}

func (w *LWorld) somePw(known map[string][]string, stored string) string {
	r := w.rng
	if ps := known[stored]; len(ps) > 0 && chance(r, 0.6) {
		return ps[0]
	}
	return pick(r, append([]string{"", stored, stored + "x"}, lpws...))
}

func (w *LWorld) step(p *LProfile, known map[string][]string) {
	r := w.rng
	v := w.vers[w.cur-1]
	total := 0
	for _, k := range sortedKeys(p.W) {
		total += p.W[k]
	}
	x := r.Intn(total)
	kind := ""
	for _, k := range sortedKeys(p.W) {
		if x < p.W[k] {
			kind = k
			break
		}
		x -= p.W[k]
	}
	randomBase := func() DN {
		y := r.Float64()
		switch {
		case y < 0.45:
			return w.base
		case y < 0.9:
			d, _ := parseDN(pick(r, v.Main).DN)
			return d
		case y < 0.95:
			return w.base.child(AVA{"cn", "nobody"})
		default:
			d, _ := parseDN("x" + w.base.str())
			return d
		}
	}
	attrs := func() []string {
		switch r.Intn(4) {
		case 0, 1:
			return nil
		case 2:
			return []string{pick(r, []string{"*", "1.1", "userPassword"})}
		}
		var as []string
		for i := 0; i < 1+r.Intn(3); i++ {
			as = append(as, randCase(r, pick(r, append(sortedKeys(lvals), "userPassword"))))
		}
		if chance(r, 0.2) {
			odd := pick(r, []string{"*", "*", "1.1", "+", as[0], as[0] + ";lang-en", as[0] + ";binary", as[0] + "x", as[0][:len(as[0])-1], " " + as[0]})
			if chance(r, 0.5) {
				as[0] = odd
			} else {
				as = append(as, odd)
			}
			r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
		}
		return as
	}
	scope := pick(r, []string{"base", "one", "sub", "sub", "sub"})
	conn := func() string {
		if chance(r, 0.05) || (p.W["open"] > 0 && chance(r, 0.5)) {
			if ns := sortedKeys(w.conns); len(ns) > 0 {
				return pick(r, ns)
			}
			return w.open()
		}
		return w.reader()
	}
	switch kind {
	case "search":
		limit := 0
		if chance(r, 0.15) {
			limit = 1 + r.Intn(6)
			if chance(r, 0.3) {
				limit = pick(r, bigNumbers)
			}
		}
		f := lfilter(r, v.Main, 2)
		if chance(r, 0.05) {
			for i := 3 + r.Intn(12); i > 0; i-- {
				f = &Filter{K: pick(r, []string{"and", "or", "not", "not"}), Fs: []*Filter{f}}
			}
		}
		w.search(conn(), randomBase(), scope, f, attrs(), limit)
	case "page":
		ids := sortedKeys(w.pages)
		y := r.Float64()
		size := 1 + r.Intn(6)
		if len(v.Main) > 60 {
			size += r.Intn(50)
		}
		if chance(r, 0.05) {
			size = pick(r, bigNumbers)
		}
		switch {
		case len(ids) == 0 || y < 0.22:
			c := w.reader()
			if w.pages["p0"] != nil && len(ids) > 40 {
				return
			}
			f := present("objectClass")
			if chance(r, 0.6) {
				f = lfilter(r, v.Main, 1)
			}
			b, sc := w.base, "sub"
			if chance(r, 0.25) {
				if d := randomBase(); len(d) >= len(w.base) && d[len(d)-len(w.base):].key() == w.base.key() {
					b, sc = d, scope
				}
			}
			var as []string
			if chance(r, 0.2) {
				as = attrs()
			}
			w.page(c, "p"+itoa(len(ids)), "new", size, b, sc, f, as)
		case y < 0.25:
			w.page(w.reader(), "bogus", "bogus", r.Intn(4), w.base, "sub", present("objectClass"), nil)
		default:
			id := pick(r, ids)
			if len(ids) > 3 && chance(r, 0.7) {
				id = ids[len(ids)-1-r.Intn(3)]
			}
			if len(w.pages[id].cookie) == 0 {
				return
			}
			if chance(r, 0.06) {
				size = 0
			}
			w.page(w.reader(), id, "cur", size, nil, "", nil, nil)
		}
	case "reload":
		w.reload(1 + r.Intn(len(w.vers)))
	case "bad":
		w.reload(0)
	case "open":
		if len(w.conns) < 5 {
			w.open()
		}
	case "bind":
		ns := sortedKeys(w.conns)
		if len(ns) == 0 || (len(ns) < 4 && chance(r, 0.3)) {
			ns = []string{w.open()}
		}
		c := pick(r, ns)
		es := append(append([]Entry{}, v.Main...), v.Conf...)
		if len(v.Conf) > 0 && chance(r, 0.3) {
			es = v.Conf
		}
		if chance(r, 0.1) {
			w.bind(c, DN{}, pick(r, []string{"", "", "x"}))
			return
		}
		e := pick(r, es)
		stored := ""
		for _, a := range e.Attrs {
			if fold(a.Name) == "userpassword" {
				if len(a.Vals) > 1 || stored != "" {
					return
				}
				stored = a.Vals[0]
			}
		}
		d, _ := parseDN(e.DN)
		w.bind(c, d, w.somePw(known, stored))
	case "write":
		c := w.reader()
		d, _ := parseDN(pick(r, v.Main).DN)
		send := func(k string, a *Answer) { w.do(c, R{"k": k, "dn": d.abs()}, a) }
		cl := w.conns[c]
		switch r.Intn(5) {
		case 0:
			n := d.child(AVA{"cn", "new"})
			send("add", cl.roundTrip(reqAdd(n.str(), []Attr{{"cn", []string{"new"}}, {"objectClass", []string{"top"}}})))
		case 1:
			send("delete", cl.roundTrip(reqDelete(d.str())))
		case 2:
			send("modify", cl.roundTrip(reqModify(d.str(), []Change{{"replace", "description", []string{"changed"}}})))
		case 3:
			send("rename", cl.roundTrip(reqRename(d.str(), "cn=renamed", true, nil)))
		case 4:
			s, n := d.str(), "changed"
			if chance(r, 0.5) {
				send("pw", cl.roundTrip(reqPw(&s, nil, &n)))
			} else {
				send("pw", cl.roundTrip(reqPw(nil, nil, &n)))
			}
		}
	}
}

// runPauses reads several result lists page by page, with longer and longer pauses.
func runPauses(t *Trace, seed int64, runs int) {
	for i := 0; i < runs; i++ {
		r := rand.New(rand.NewSource(seed*37 + int64(i)))
		base, _ := parseDN(pick(r, ldifBases))
		known := map[string][]string{}
		vers := []LVersion{randomLdif(r, base, known), randomLdif(r, base, known)}
		for k := range vers {
			for j := 0; j < 40; j++ {
				n := "page" + itoa(j)
				vers[k].Main = append(vers[k].Main, Entry{base.child(AVA{"cn", n}).str(), []Attr{{"cn", []string{n}}, {"objectClass", []string{"person"}}, {"description", []string{"in " + itoa(k)}}}})
			}
		}
		w := newLWorld(t, r, base, false, vers, known, false, false)
		w.guarded(func() {
			ids := []string{}
			for j := 0; j < 8; j++ {
				id := "p" + itoa(j)
				w.page(w.reader(), id, "new", 1+r.Intn(5), base, "sub", present(pick(r, []string{"objectClass", "description", "cn"})), nil)
				ids = append(ids, id)
			}
			next := func(id string) {
				if a := w.page(w.reader(), id, "cur", 1+r.Intn(5), nil, "", nil, nil); a.Final == nil || len(a.Final.Cookie) == 0 {
					w.pages[id].cookie = nil
				}
			}
			for _, pause := range []int{1, 3, 7, 14, 28, 61 + r.Intn(20)} {
				time.Sleep(time.Duration(pause)*time.Second + time.Duration(r.Intn(1000))*time.Millisecond)
				for _, j := range r.Perm(len(ids)) {
					if len(w.pages[ids[j]].cookie) > 0 {
						next(ids[j])
						count("paused", 1)
					}
				}
				if pause == 3 {
					w.reload(2)
				}
				// Some are read to the end early.
				for k := 0; k < 100 && len(w.pages[ids[pause%2]].cookie) > 0; k++ {
					next(ids[pause%2])
				}
			}
			for _, id := range ids {
				for k := 0; k < 200 && len(w.pages[id].cookie) > 0; k++ {
					next(id)
				}
			}
		})
		w.end()
	}
}

func init() {
	drivers["pauses"] = func(c *Ctx) {
		answerTimeout = 8 * time.Second
		t := newTrace(c.out)
		runPauses(t, c.seed, c.scale(1, 3))
		t.close()
	}
	drivers["ldif"] = func(c *Ctx) {
		answerTimeout = 8 * time.Second
		t := newTrace(c.out)
		runLdif(t, c.seed, lprofiles[c.args[0]], c.scale(30, 300), 80)
		t.close()
	}
}
