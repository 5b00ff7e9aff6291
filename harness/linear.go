package main

import (
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Windows of concurrent requests on the database backend. Before and after
// each window nothing is under way, and the stored directory is read.

// lop is one request of a window, with its answer and the times around it.
type lop struct {
	client   int
	id       DN
	rec      R
	inv, ret int64
	a        *Answer
	sv       string // clear text of a new password
	lost     bool   // not answered, the server was killed
}

type linRun struct {
	t      *Trace
	r      *rand.Rand
	srv    *Server
	db     string
	base   DN
	admin  DN
	users  []DN
	pws    []string          // all clear texts in use
	stored map[string]string // stored hash -> its clear text
	known  map[string][]string
	clock  int64
	token  int64
	args   []string
	crowd  int // entries nobody asks for or changes, between the others
}

// pwForm stands for any stored form of a new password.
func pwForm(clear string) string { return "pw:" + clear }

// describe is the abstract directory; hashes made by the server are replaced
// by the clear text they stand for.
func (x *linRun) describe(d *Dump) (entries interface{}, raw interface{}) {
	for i := range d.Entries {
		for j, a := range d.Entries[i].Attrs {
			if fold(a.Name) != "userpassword" {
				continue
			}
			var vs []string
			for _, v := range a.Vals {
				if strings.HasPrefix(v, "{ARGON2}") {
					c, ok := x.stored[v]
					if !ok {
						c = "?" + v
						for _, p := range x.pws {
							if same(v, p) {
								c = p
							}
						}
						x.stored[v] = c
					}
					v = pwForm(c)
				}
				vs = append(vs, v)
			}
			d.Entries[i].Attrs[j].Vals = vs
		}
	}
	if x.crowd > 0 {
		// the crowd is left out as long as it is complete
		var rest []Entry
		for _, e := range d.Entries {
			if !strings.HasPrefix(e.DN, "cn=crowd") {
				rest = append(rest, e)
			}
		}
		if len(d.Entries)-len(rest) == x.crowd {
			raw := d.record()["raw"]
			c := *d
			c.Entries = rest
			return c.record()["entries"], raw
		}
	}
	rec := d.record()
	return rec["entries"], rec["raw"]
}

func (x *linRun) start(wrapper []string, env ...string) {
	x.base, _ = parseDN("dc=example,dc=org")
	x.admin = x.base.child(AVA{"cn", "admin"})
	ou := func(n string) DN { return x.base.child(AVA{"ou", n}) }
	x.users = []DN{x.admin, ou("a").child(AVA{"uid", "u1"}), ou("a").child(AVA{"uid", "u2"})}
	x.pws = []string{"p0", "p1", "p2"}
	x.stored = map[string]string{}
	x.known = map[string][]string{}
	es := []Entry{{x.base.str(), []Attr{{"dc", []string{"example"}}, {"objectClass", []string{"top"}}}}}
	for _, n := range []string{"a", "b"} {
		for i := 0; n == "b" && i < x.crowd; i++ {
			es = append(es, Entry{x.base.child(AVA{"cn", "crowd" + itoa(i)}).str(), []Attr{{"cn", []string{"crowd" + itoa(i)}}, {"objectClass", []string{"top"}}, {"title", []string{"one of many"}}}})
		}
		es = append(es, Entry{ou(n).str(), []Attr{{"ou", []string{n}}, {"objectClass", []string{"top"}}}})
	}
	for i, u := range x.users {
		es = append(es, Entry{u.str(), []Attr{{u[0][0].T, []string{u[0][0].V}}, {"objectClass", []string{"person"}}, {"userPassword", []string{x.pws[i]}}, {"description", []string{"d"}}}})
	}
	for _, p := range x.pws {
		x.known[p] = []string{p}
	}
	writeDB(x.db, es)
	x.args = []string{"--ldap-handler", "boltdb", "--boltdb-file", x.db, "--ldap-base-dn", x.base.str(), "--ldap-admin-dn", x.admin.str()}
	x.srv = startWrapped(wrapper, env, x.args...)
}

// hot is a name of the few that everybody works on.
func (x *linRun) hot(r *rand.Rand, kind string) DN {
	a, b := x.base.child(AVA{"ou", "a"}), x.base.child(AVA{"ou", "b"})
	leaf := func(p DN) DN { return p.child(AVA{"cn", pick(r, []string{"x", "y", "z"})}) }
	switch kind {
	case "crowd":
		return pick(r, []DN{a, b})
	case "values":
		return pick(r, []DN{x.users[1], b})
	case "pw":
		return x.users[1+r.Intn(2)]
	case "tree":
		switch r.Intn(8) {
		case 0:
			return b
		case 1:
			return a
		case 2:
			return leaf(a)
		case 3:
			return leaf(leaf(b))
		default:
			return leaf(b)
		}
	}
	return pick(r, []DN{x.users[1], x.users[2], a, b, leaf(a), leaf(b), leaf(leaf(b))})
}

// step is one request of a client working in a window of the given kind.
func (x *linRun) step(c *Client, r *rand.Rand, kind string, id DN, me int) *lop {
	o := &lop{client: me, id: id}
	do := func(send func() *Answer) *lop {
		o.inv = atomic.AddInt64(&x.clock, 1)
		o.a = send()
		o.ret = atomic.AddInt64(&x.clock, 1)
		return o
	}
	weights := map[string][]int{ // add delete modify rename search bind pw
		"values": {0, 0, 12, 0, 4, 0, 0},
		"tree":   {8, 7, 1, 7, 5, 0, 0},
		"pw":     {0, 0, 3, 0, 1, 4, 4},
		"mix":    {4, 4, 5, 4, 4, 2, 1},
		"crowd":  {0, 0, 1, 0, 1, 0, 0},
	}[kind]
	n := 0
	for _, w := range weights {
		n += w
	}
	n = r.Intn(n)
	k := 0
	for n >= weights[k] {
		n -= weights[k]
		k++
	}
	if kind == "crowd" {
		// some look, the others change
		k = []int{2, 4}[me%2]
	}
	d := x.hot(r, kind)
	tok := func() string {
		if chance(r, 0.5) {
			return pick(r, []string{"v1", "v2"})
		}
		return "t" + itoa(int(atomic.AddInt64(&x.token, 1)))
	}
	switch k {
	case 0:
		at := []Attr{{d[0][0].T, []string{d[0][0].V}}, {"objectClass", []string{"top"}}, {"description", []string{tok()}}}
		m, _ := absAttrs(at)
		o.rec = R{"k": "add", "dn": d.abs(), "attrs": m}
		return do(func() *Answer { return c.roundTrip(reqAdd(d.spell(r), at)) })
	case 1:
		o.rec = R{"k": "delete", "dn": d.abs()}
		return do(func() *Answer { return c.roundTrip(reqDelete(d.spell(r))) })
	case 2:
		var chs []Change
		for i := 1 + r.Intn(2); i > 0; i-- {
			ch := Change{K: pick(r, []string{"add", "add", "add", "delete", "replace"}), Name: pick(r, []string{"description", "sn"}), Vals: []string{tok()}}
			if ch.K == "delete" && chance(r, 0.3) {
				ch.Vals = nil
			}
			chs = append(chs, ch)
		}
		o.rec = R{"k": "modify", "dn": d.abs(), "chs": absChanges(chs)}
		return do(func() *Answer { return c.roundTrip(reqModify(d.spell(r), chs)) })
	case 3:
		for i := 0; i < 5 && len(d) < 4; i++ {
			d = x.hot(r, kind)
		}
		rdn := []AVA{{"cn", pick(r, []string{"x", "y", "z"})}}
		del := chance(r, 0.7)
		o.rec = R{"k": "rename", "dn": d.abs(), "newrdn": absNewRDN(rdn), "delold": del}
		return do(func() *Answer { return c.roundTrip(reqRename(d.spell(r), spellRDN(r, rdn), del, nil)) })
	case 4:
		base, scope, f := x.base, "sub", present("objectClass")
		look := r.Intn(4)
		if kind == "crowd" {
			f, look = present("description"), 3
		}
		switch look {
		case 0:
			base, scope = d, "base"
		case 1:
			base, scope = d[1:], "one"
		case 2:
			f = &Filter{K: "eq", T: "description", V: pick(r, []string{"v1", "v2"})}
		}
		attrs := []string{"objectclass", "description", "sn", "cn", "ou", "uid", "dc"}
		o.rec = R{"k": "search", "base": base.abs(), "scope": scope, "filter": f.abs(), "attrs": attrs}
		return do(func() *Answer { return c.roundTrip(reqSearch(base.spell(r), scope, f, attrs, 0)) })
	case 5:
		u, p := pick(r, x.users), pick(r, x.pws)
		if chance(r, 0.4) {
			u, p = x.admin, "p0"
		}
		o.rec = R{"k": "bind", "dn": u.abs(), "pw": enc(p)}
		return do(func() *Answer { return c.roundTrip(reqBind(u.spell(r), p)) })
	}
	u := x.users[1+r.Intn(2)]
	old, new := "", pick(r, x.pws)
	if chance(r, 0.4) {
		old = pick(r, x.pws)
	}
	o.sv = new
	o.rec = R{"k": "pw", "target": u.abs(), "old": enc(old), "new": enc(new)}
	return do(func() *Answer {
		s := u.spell(r)
		var op *string
		if old != "" {
			op = &old
		}
		return c.roundTrip(reqPw(&s, op, &new))
	})
}

// window lets some clients work at the same time and records what they saw.
func (x *linRun) window(kill bool) bool {
	r := x.r
	kind := pick(r, []string{"values", "values", "tree", "tree", "tree", "mix", "mix", "pw"})
	n := 2 + r.Intn(4)
	per := []int{0, 0, 12, 7, 5, 4}[n]
	if x.crowd > 0 {
		kind = "crowd"
		n = 2 + r.Intn(2)
		per = 24 / n
	}
	d, err := readDB(x.db)
	must(err)
	start, _ := x.describe(d)
	conns := make([]*Client, n)
	ids := make([]DN, n)
	for i := range conns {
		c, err := dial(x.srv.addr)
		if err != nil {
			return false
		}
		defer c.close()
		conns[i] = c
		if chance(r, 0.9) {
			if a := c.roundTrip(reqBind(x.admin.str(), "p0")); a.Code == 0 {
				ids[i] = x.admin
			}
		}
	}
	ops := make([][]*lop, n)
	var wg, gate sync.WaitGroup
	gate.Add(1)
	for i := range conns {
		wg.Add(1)
		go func(i int, r *rand.Rand) {
			defer wg.Done()
			id := ids[i]
			gate.Wait()
			for k := 0; k < per; k++ {
				if kind == "crowd" && i%2 == 0 {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				} else if kind == "crowd" && k >= 4 {
					break
				}
				o := x.step(conns[i], r, kind, id, i)
				ops[i] = append(ops[i], o)
				if o.a.Code < 0 {
					return
				}
				if o.rec["k"] == "bind" {
					id = nil
					if o.a.Code == 0 {
						for _, u := range x.users {
							if u.key() == absKey(o.rec["dn"].([][][2]string)) {
								id = u
							}
						}
					}
				}
			}
		}(i, rand.New(rand.NewSource(r.Int63())))
	}
	gate.Done()
	alive := true
	if kill {
		// by surprise, and a new one on the same database
		most := 8 + r.Intn(7)
		if kind == "pw" {
			most += 4
		}
		time.Sleep(time.Duration(r.Intn(1<<uint(most))) * time.Microsecond)
		x.srv.kill()
		wg.Wait()
		for i := range ops {
			for _, o := range ops[i] {
				if o.a.Code < 0 {
					o.lost, o.ret = true, 1<<30
					count("lost", 1)
				}
			}
		}
		s, err := tryStart("", x.args...)
		if err != nil {
			alive = false
		} else {
			x.srv = s
		}
	} else {
		wg.Wait()
		alive = x.srv.alive()
	}
	d, err = readDB(x.db)
	if err != nil {
		d = &Dump{DN2ID: map[string]uint64{}, Kids: map[uint64][]uint64{}, Undec: 1}
	}
	final, raw := x.describe(d)
	known := encKnown(x.known)
	for _, p := range x.pws {
		known[enc(pwForm(p))] = []string{enc(p)}
	}
	recs := []R{}
	overlaps := 0
	for i := range ops {
		for _, o := range ops[i] {
			got := []R{}
			for _, m := range o.a.Entries {
				at, _ := absAttrs(m.Attrs)
				got = append(got, R{"dn": absOf(m.DN), "attrs": at})
			}
			recs = append(recs, R{"c": i, "id": o.id.abs(), "op": o.rec, "inv": o.inv, "ret": o.ret, "res": o.a.Code, "got": got, "gen": "", "sv": val(pwForm(o.sv)), "lost": o.lost})
			count("op."+o.rec["k"].(string), 1)
			count("ops", 1)
			if o.a.Code == 0 {
				count("ok."+o.rec["k"].(string), 1)
			}
			for j := range ops {
				if j == i {
					continue
				}
				for _, p := range ops[j] {
					if p.inv < o.ret && o.inv < p.ret {
						overlaps++
					}
				}
			}
		}
	}
	count("overlaps", overlaps/2)
	count("windows."+kind, 1)
	x.t.put(R{"ev": "window", "kind": kind, "base": x.base.abs(), "admin": x.admin.abs(), "known": known, "start": start, "ops": recs, "final": final, "raw": raw, "alive": alive})
	return alive
}

// startWrapped starts the server under a wrapper (if any) that has to end with it.
func startWrapped(wrapper, env []string, args ...string) *Server {
	for i := 0; i < 5; i++ {
		s := spawnEnv(freeAddr(), wrapper, env, args...)
		if s.await(30 * time.Second) {
			return s
		}
		s.kill()
	}
	fatal("cannot start the server")
	return nil
}

func init() {
	drivers["killed"] = func(c *Ctx) {
		t := newTrace(c.out)
		r := rand.New(rand.NewSource(c.seed))
		for i := c.scale(6, 40); i > 0; i-- {
			x := &linRun{t: t, r: r, db: scratchPath("idm.db")}
			x.start(nil)
			for k := 0; k < 25; k++ {
				if !x.window(true) {
					break
				}
			}
			x.srv.kill()
			os.Remove(x.db)
			count("runs", 1)
		}
		t.close()
	}
	drivers["linear"] = func(c *Ctx) {
		t := newTrace(c.out)
		r := rand.New(rand.NewSource(c.seed))
		disk, err := os.MkdirTemp(filepath.Dir(c.out), "disk")
		must(err)
		defer os.RemoveAll(disk)
		for i := c.scale(8, 60); i > 0; i-- {
			x := &linRun{t: t, r: r, db: scratchPath("idm.db")}
			if i%8 == 3 {
				x.crowd = 1200
			}
			var wrapper, env []string
			// Writers that take their time make the others meet while they wait.
			switch i % 4 {
			case 0:
				x.db = filepath.Join(disk, itoa(i)+".db")
			case 1:
				if w := slowSync(200 + r.Intn(2000)); w != nil {
					wrapper = w
					count("slowed", 1)
				}
			case 2:
				env = []string{"GOMAXPROCS=1"}
			}
			x.start(wrapper, env...)
			for k := 0; k < 25; k++ {
				if !x.window(false) {
					break
				}
			}
			x.srv.kill()
			os.Remove(x.db)
			count("runs", 1)
		}
		t.close()
	}
}
