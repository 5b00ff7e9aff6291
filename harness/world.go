package main

import (
	"math/rand"
	"os"
	"sync"

	ber "github.com/go-asn1-ber/asn1-ber"
)

// World is one server instance on the database backend together with the
// trace of everything done to it.
type World struct {
	t      *Trace
	rng    *rand.Rand
	srv    *Server
	db     string
	base   DN
	admin  DN // empty: none configured
	anon   bool
	known  map[string][]string
	conns  map[string]*Client
	nconn  int
	states map[string]int
	cur    int // line of the current stored state
	dump   *Dump
	tree   map[string]Entry
	args   []string
	ids    map[string]string // what the harness believes a connection is bound as (for generation only)
	seq    uint64
	mu     sync.Mutex

	starter func() (*Server, error)                             // starts the server again (nil: plainly)
	watch   func(conn string, rec R, a *Answer, prev, post int) // sees every request before it enters the trace
	faulted func() bool                                         // did the disk fail during the request?
}

func newWorld(t *Trace, rng *rand.Rand, entries []Entry, base, admin DN, anon bool, known map[string][]string, args ...string) *World {
	w := &World{t: t, rng: rng, db: scratchPath("idm.db"), base: base, admin: admin, anon: anon, known: known,
		conns: map[string]*Client{}, states: map[string]int{}, ids: map[string]string{}}
	writeDB(w.db, entries)
	w.args = append([]string{"--ldap-handler", "boltdb", "--boltdb-file", w.db, "--ldap-base-dn", base.spell(rng)}, args...)
	if len(admin) > 0 {
		w.args = append(w.args, "--ldap-admin-dn", admin.spell(rng))
	} else {
		w.args = append(w.args, "--ldap-admin-dn", "")
	}
	if anon {
		w.args = append(w.args, "--ldap-allow-local-anonymous")
	}
	w.srv = startServer(w.args...)
	line, _ := w.observe()
	t.put(R{"ev": "run", "base": base.abs(), "admin": admin.abs(), "anon": anon, "known": encKnown(known), "state": line})
	return w
}

func encKnown(k map[string][]string) map[string][]string {
	r := map[string][]string{}
	for s, ps := range k {
		es := []string{}
		for _, p := range ps {
			es = append(es, enc(p))
		}
		r[enc(s)] = es
	}
	return r
}

// observe reads the stored state; it returns its line in the trace and whether it changed.
func (w *World) observe() (int, bool) {
	d, err := readDB(w.db)
	if err != nil {
		// an unreadable database file is an observation: a state without any index
		d = &Dump{DN2ID: map[string]uint64{}, Kids: map[uint64][]uint64{}, Undec: 1}
	}
	line := w.stateLine(d)
	changed := line != w.cur
	w.cur = line
	w.dump = d
	w.tree = map[string]Entry{}
	for _, e := range d.Entries {
		w.tree[absKey(absOf(e.DN))] = e
	}
	return line, changed
}

// stateLine is the line of the trace that holds a stored state.
func (w *World) stateLine(d *Dump) int {
	rec := d.record()
	key := jsonStr(rec)
	w.mu.Lock()
	defer w.mu.Unlock()
	line, ok := w.states[key]
	if !ok {
		line = w.t.put(rec)
		w.states[key] = line
	}
	return line
}

func (w *World) open() string {
	w.nconn++
	return w.openNamed("c" + itoa(w.nconn))
}

func (w *World) openNamed(name string) string {
	c, err := dial(w.srv.addr)
	if err != nil {
		fatalServer(w, "cannot connect: %v", err)
	}
	w.conns[name] = c
	w.ids[name] = ""
	w.t.put(R{"ev": "open", "conn": name})
	return name
}

// fatalServer: the server under test is gone. That is an observation (clause
// "alive"), recorded in the trace; the run ends.
type serverGone struct{}

func fatalServer(w *World, format string, a ...interface{}) {
	panic(serverGone{})
}

func (w *World) closeConn(name string) {
	if c := w.conns[name]; c != nil {
		c.close()
	}
	delete(w.conns, name)
	delete(w.ids, name)
	w.t.put(R{"ev": "close", "conn": name})
}

func (w *World) restart() {
	for n := range w.conns {
		w.conns[n].close()
		delete(w.conns, n)
		delete(w.ids, n)
	}
	if chance(w.rng, 0.5) {
		w.srv.stop()
	} else {
		w.srv.kill()
	}
	start := w.starter
	if start == nil {
		start = func() (*Server, error) { return tryStart("", w.args...) }
	}
	s, err := start()
	if err != nil {
		w.t.put(R{"ev": "dead", "what": "does not start again: " + err.Error()})
		panic(serverGone{})
	}
	w.srv = s
	line, _ := w.observe()
	w.t.put(R{"ev": "restart", "state": line})
	count("restarts", 1)
}

func (w *World) end() {
	for _, c := range w.conns {
		c.close()
	}
	if w.srv.alive() {
		w.srv.kill()
	}
	os.Remove(w.db)
}

// do performs one request (already encoded as op with abstract form rec) on a connection.
func (w *World) do(conn string, rec R, send func(c *Client) *Answer) *Answer {
	c := w.conns[conn]
	prev := w.cur
	a := send(c)
	line, changed := w.observe()
	ev := R{"ev": "op", "conn": conn, "op": rec, "res": a.Code, "prev": prev, "local": true, "state": 0}
	if changed {
		ev["state"] = line
	}
	k := rec["k"].(string)
	switch k {
	case "search":
		got := []R{}
		for _, m := range a.Entries {
			at, dup := absAttrs(m.Attrs)
			got = append(got, R{"dn": absOf(m.DN), "attrs": at, "dup": dup})
		}
		ev["got"] = got
		count("results", len(got))
	case "pw":
		ev["gen"] = enc(genPw(a))
	}
	if w.watch != nil {
		w.watch(conn, rec, a, prev, line)
	}
	if w.faulted != nil && w.faulted() {
		ev["ev"] = "fault"
		count("faults", 1)
	}
	w.t.put(ev)
	count("ops", 1)
	count("op."+k, 1)
	if a.Code == 0 {
		count("ok."+k, 1)
	}
	if a.Code < 0 {
		if !w.srv.alive() {
			w.t.put(R{"ev": "dead", "what": lastLines(w.srv.stderr.String(), 12)})
			panic(serverGone{})
		}
		w.closeConn(conn)
	}
	if k == "oddbind" && w.conns[conn] != nil {
		w.ids[conn] = ""
	}
	if k == "bind" {
		if a.Code == 0 {
			w.ids[conn] = ""
			if dn := rec["dn"].([][][2]string); len(dn) > 0 {
				w.ids[conn] = absKey(dn)
			}
		} else if w.conns[conn] != nil {
			w.ids[conn] = ""
		}
	}
	return a
}

func (w *World) bind(conn string, dn DN, pw string) *Answer {
	return w.bindS(conn, dn.spell(w.rng), dn, pw)
}

func (w *World) bindS(conn, s string, dn DN, pw string) *Answer {
	return w.do(conn, R{"k": "bind", "dn": dn.abs(), "pw": enc(pw)}, func(c *Client) *Answer { return c.roundTrip(reqBind(s, pw)) })
}

// oddBind sends a bind that cannot succeed because of its form, with the right password.
func (w *World) oddBind(conn, how string, dn DN, pw string) *Answer {
	s := dn.spell(w.rng)
	var p *ber.Packet
	switch how {
	case "sasl":
		p = app(0, true)
		p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, 3, ""))
		p.AppendChild(octet(s))
		sasl := ber.Encode(ber.ClassContext, ber.TypeConstructed, 3, nil, "")
		mech := pick(w.rng, []string{"PLAIN", "EXTERNAL", "ANONYMOUS", "DIGEST-MD5", ""})
		sasl.AppendChild(octet(mech))
		if mech == "PLAIN" {
			sasl.AppendChild(octet("\x00" + s + "\x00" + pw))
		}
		p.AppendChild(sasl)
	case "version":
		p = app(0, true)
		p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, pick(w.rng, []int64{1, 2, 4, 127, 0}), ""))
		p.AppendChild(octet(s))
		p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pw, ""))
	case "method":
		p = app(0, true)
		p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, 3, ""))
		p.AppendChild(octet(s))
		p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, pick(w.rng, []ber.Tag{1, 2, 4, 9}), pw, ""))
	case "long":
		p = reqBind(s, pw)
		p.AppendChild(octet("more"))
	case "malformed":
		p = reqBind(pick(w.rng, []string{"nonsense", "admin", s + ",nonsense", "nonsense," + s, "cn=a\\zz," + s}), pw)
	default:
		fatal("odd bind %q", how)
	}
	return w.do(conn, R{"k": "oddbind", "how": how}, func(c *Client) *Answer { return c.roundTrip(p) })
}

func (w *World) add(conn string, dn DN, attrs []Attr) *Answer {
	at, _ := absAttrs(attrs)
	return w.do(conn, R{"k": "add", "dn": dn.abs(), "attrs": at}, func(c *Client) *Answer { return c.roundTrip(reqAdd(dn.spell(w.rng), attrs)) })
}

func (w *World) del(conn string, dn DN) *Answer {
	return w.do(conn, R{"k": "delete", "dn": dn.abs()}, func(c *Client) *Answer { return c.roundTrip(reqDelete(dn.spell(w.rng))) })
}

func absChanges(chs []Change) []R {
	r := []R{}
	for _, c := range chs {
		r = append(r, R{"k": c.K, "t": enc(fold(c.Name)), "vs": vals(c.Vals)})
	}
	return r
}

func (w *World) modify(conn string, dn DN, chs []Change) *Answer {
	return w.do(conn, R{"k": "modify", "dn": dn.abs(), "chs": absChanges(chs)}, func(c *Client) *Answer { return c.roundTrip(reqModify(dn.spell(w.rng), chs)) })
}

func absNewRDN(avas []AVA) []R {
	r := []R{}
	for _, a := range avas {
		r = append(r, R{"t": enc(fold(a.T)), "v": val(a.V)})
	}
	return r
}

// spellKeepCase spells a relative name without changing the letter case of values
// (they become attribute values).
func spellRDN(r *rand.Rand, avas []AVA) string {
	out := ""
	for i, a := range avas {
		if i > 0 {
			out += "+"
		}
		if r.Intn(2) == 0 {
			out += a.T + "=" + escValue(nil, a.V)
		} else {
			out += randCase(r, a.T) + "=" + escValue(r, a.V)
		}
	}
	return out
}

func (w *World) rename(conn string, dn DN, newrdn []AVA, delold bool) *Answer {
	return w.do(conn, R{"k": "rename", "dn": dn.abs(), "newrdn": absNewRDN(newrdn), "delold": delold}, func(c *Client) *Answer {
		return c.roundTrip(reqRename(dn.spell(w.rng), spellRDN(w.rng, newrdn), delold, nil))
	})
}

// pw sends a password modify request; empty strings are absent parts.
func (w *World) pw(conn string, target DN, old, new string) *Answer {
	return w.do(conn, R{"k": "pw", "target": target.abs(), "old": enc(old), "new": enc(new)}, func(c *Client) *Answer {
		var t, o, n *string
		if len(target) > 0 {
			s := target.spell(w.rng)
			t = &s
		}
		if old != "" {
			o = &old
		}
		if new != "" {
			n = &new
		}
		return c.roundTrip(reqPw(t, o, n))
	})
}

func foldAttrs(as []string) []string {
	r := []string{}
	for _, a := range as {
		r = append(r, fold(a))
	}
	return r
}

func (w *World) search(conn string, base DN, scope string, f *Filter, attrs []string, limit int) *Answer {
	return w.do(conn, R{"k": "search", "base": base.abs(), "scope": scope, "filter": f.abs(), "attrs": foldAttrs(attrs), "limit": limit},
		func(c *Client) *Answer { return c.roundTrip(reqSearch(base.spell(w.rng), scope, f, attrs, limit)) })
}

// treeDNs are the names currently stored, in a fixed order.
func (w *World) treeDNs() []DN {
	var r []DN
	for _, e := range w.dump.Entries {
		if d, err := parseDN(e.DN); err == nil && len(d) > 0 {
			r = append(r, d)
		}
	}
	return r
}
