package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"sort"
	"strings"
)

// The walk leads the real server through every (state, request) pair that is
// reachable with the alphabet of a model: from the current state it sends a
// request not yet tried there, or the requests leading to the nearest state
// that still has one.

type jVal struct{ C, S string }

type jChange struct {
	K, T string
	Vs   []jVal
}

type jFilter struct {
	K, T, V, I, F string
	A             []string
	Fs            []*jFilter
}

type jOp struct {
	How    string
	K      string
	Dn     [][][2]string
	Attrs  json.RawMessage
	Chs    []jChange
	Newrdn []struct {
		T string
		V jVal
	}
	Delold   bool
	Pw       string
	Target   [][][2]string
	Old, New string
	Base     [][][2]string
	Scope    string
	Filter   *jFilter
	Limit    int
}

type jWalk struct {
	Ops []struct {
		Conn string
		Op   jOp
	}
	Init []struct {
		Dn    [][][2]string
		Attrs map[string][]jVal
	}
	Base, Admin [][][2]string
	Anon        bool
	Known       map[string][]string
	Sess        map[string][][][2]string
	Pws         []struct {
		Dn [][][2]string
		Pw string
	}
}

func dnOf(a [][][2]string) DN {
	var d DN
	for _, rdn := range a {
		var r []AVA
		for _, p := range rdn {
			r = append(r, AVA{p[0], p[1]})
		}
		d = append(d, r)
	}
	return d
}

func attrsOf(m map[string][]jVal) []Attr {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var as []Attr
	for _, k := range ks {
		var vs []string
		for _, v := range m[k] {
			vs = append(vs, v.S)
		}
		sort.Strings(vs)
		as = append(as, Attr{k, vs})
	}
	return as
}

func filterOf(f *jFilter) *Filter {
	r := &Filter{K: f.K, T: f.T, V: f.V, I: f.I, F: f.F, A: f.A}
	for _, x := range f.Fs {
		r.Fs = append(r.Fs, filterOf(x))
	}
	return r
}

type walker struct {
	j      *jWalk
	w      *World
	t      *Trace
	r      *rand.Rand
	states map[string]*wstate
	hashed map[string]string // stored password -> clear text
	pws    map[string]string // DN key -> initial clear text
	steps  int
	limit  int
}

type wstate struct {
	todo []int
	succ map[int]string
}

// plain stored passwords in the model are "h:<clear text>"; here they are salted hashes.
func (k *walker) storedForm(s string) string {
	if strings.HasPrefix(s, "h:") {
		return sshaHash(s[2:], "walk")
	}
	return s
}

func (k *walker) start() {
	var es []Entry
	known := map[string][]string{}
	for s, ps := range k.j.Known {
		known[k.storedForm(s)] = ps
		if len(ps) > 0 {
			k.hashed[k.storedForm(s)] = ps[0]
		}
	}
	init := k.j.Init
	sort.SliceStable(init, func(a, b int) bool { return len(init[a].Dn) < len(init[b].Dn) })
	for _, e := range init {
		as := attrsOf(e.Attrs)
		for i := range as {
			for x := range as[i].Vals {
				if fold(as[i].Name) == "userpassword" {
					as[i].Vals[x] = k.storedForm(as[i].Vals[x])
				}
			}
		}
		es = append(es, Entry{dnOf(e.Dn).str(), as})
	}
	k.w = newWorld(k.t, k.r, es, dnOf(k.j.Base), dnOf(k.j.Admin), k.j.Anon, known)
	var cs []string
	for c := range k.j.Sess {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		k.openAs(c)
	}
	count("runs", 1)
}

func (k *walker) openAs(c string) {
	k.w.openNamed(c)
	if id := dnOf(k.j.Sess[c]); len(id) > 0 {
		k.w.bind(c, id, k.pws[id.key()])
	}
}

// key identifies the state: the tree with stored passwords replaced by their clear text, and the identities.
func (k *walker) key() string {
	var parts []string
	for _, e := range k.w.dump.Entries {
		at, dup := absAttrs(e.Attrs)
		for _, v := range at["userpassword"] {
			if p, ok := k.hashed[v.S]; ok {
				at["userpassword"] = []Val{val("clear:" + p)}
			}
		}
		parts = append(parts, jsonStr([]interface{}{absOf(e.DN), at, dup}))
	}
	sort.Strings(parts)
	var cs []string
	for c, id := range k.w.ids {
		cs = append(cs, c+"="+id)
	}
	sort.Strings(cs)
	return strings.Join(parts, ";") + "|" + strings.Join(cs, ";")
}

func (k *walker) here() (string, *wstate) {
	key := k.key()
	s := k.states[key]
	if s == nil {
		s = &wstate{succ: map[int]string{}}
		s.todo = k.r.Perm(len(k.j.Ops))
		k.states[key] = s
	}
	return key, s
}

func (k *walker) perform(i int) {
	o := k.j.Ops[i]
	w, c, op := k.w, o.Conn, o.Op
	if w.conns[c] == nil { // the server closed it (a deviation already on record)
		k.openAs(c)
	}
	switch op.K {
	case "add":
		var m map[string][]jVal
		must(json.Unmarshal(op.Attrs, &m))
		w.add(c, dnOf(op.Dn), attrsOf(m))
	case "delete":
		w.del(c, dnOf(op.Dn))
	case "modify":
		var chs []Change
		for _, x := range op.Chs {
			var vs []string
			for _, v := range x.Vs {
				vs = append(vs, v.S)
			}
			chs = append(chs, Change{x.K, x.T, vs})
		}
		w.modify(c, dnOf(op.Dn), chs)
	case "rename":
		var avas []AVA
		for _, x := range op.Newrdn {
			avas = append(avas, AVA{x.T, x.V.S})
		}
		w.rename(c, dnOf(op.Dn), avas, op.Delold)
	case "bind":
		if len(op.Dn) == 0 {
			w.bindS(c, "", DN{}, op.Pw)
		} else {
			w.bind(c, dnOf(op.Dn), op.Pw)
		}
	case "oddbind":
		w.oddBind(c, op.How, dnOf(k.j.Admin), k.pws[dnOf(k.j.Admin).key()])
	case "pw":
		a := w.pw(c, dnOf(op.Target), op.Old, op.New)
		if a.Code == 0 {
			key := dnOf(op.Target).key()
			if len(op.Target) == 0 {
				key = w.ids[c]
			}
			for _, at := range w.tree[key].Attrs {
				if fold(at.Name) == "userpassword" {
					for _, v := range at.Vals {
						k.hashed[v] = op.New
					}
				}
			}
		}
	case "search":
		w.search(c, dnOf(op.Base), op.Scope, filterOf(op.Filter), nil, op.Limit)
	default:
		fatal("walk: operation %q", op.K)
	}
	k.steps++
}

// path finds the requests leading to the nearest state with untried requests.
func (k *walker) path(from string) []int {
	type node struct {
		key  string
		prev *node
		op   int
	}
	seen := map[string]bool{from: true}
	queue := []*node{{key: from}}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if len(k.states[n.key].todo) > 0 {
			var p []int
			for ; n.prev != nil; n = n.prev {
				p = append([]int{n.op}, p...)
			}
			return p
		}
		var ops []int
		for o := range k.states[n.key].succ {
			ops = append(ops, o)
		}
		sort.Ints(ops)
		for _, o := range ops {
			t := k.states[n.key].succ[o]
			if !seen[t] && k.states[t] != nil {
				seen[t] = true
				queue = append(queue, &node{t, n, o})
			}
		}
	}
	return nil
}

func runWalk(t *Trace, seed int64, file string, limit int) {
	b, err := os.ReadFile(file)
	must(err)
	k := &walker{j: &jWalk{}, t: t, r: rand.New(rand.NewSource(seed)), states: map[string]*wstate{}, hashed: map[string]string{}, pws: map[string]string{}, limit: limit}
	must(json.Unmarshal(b, k.j))
	for _, p := range k.j.Pws {
		k.pws[dnOf(p.Dn).key()] = p.Pw
	}
	resets := 0
	covered := 0
	strays := 0 // more than a few: what was recorded so far tells enough
	session := func() (done bool) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(serverGone); !ok {
					panic(e)
				}
				k.w.end()
			}
		}()
		k.start()
		for k.steps < k.limit && strays < 20 {
			key, s := k.here()
			if len(s.todo) > 0 {
				op := s.todo[0]
				s.todo = s.todo[1:]
				covered++
				k.perform(op)
				nk, _ := k.here()
				s.succ[op] = nk
				continue
			}
			p := k.path(key)
			if p == nil {
				left := 0
				for _, s := range k.states {
					left += len(s.todo)
				}
				k.w.end()
				return left == 0
			}
			for _, op := range p {
				at := k.key()
				want := k.states[at].succ[op]
				k.perform(op)
				from := k.states[at]
				if nk, _ := k.here(); nk != want {
					// not deterministic: remember the new outcome and plan again
					from.succ[op] = nk
					strays++
					break
				}
			}
		}
		k.w.end()
		return true
	}
	for !session() && resets < 50 {
		resets++
	}
	left := 0
	for _, s := range k.states {
		left += len(s.todo)
	}
	count("walk.states", len(k.states))
	count("walk.pairs", covered)
	count("walk.left", left)
	count("walk.steps", k.steps)
	count("walk.ops", len(k.j.Ops))
}

func init() {
	drivers["walk"] = func(c *Ctx) {
		t := newTrace(c.out)
		runWalk(t, c.seed, c.args[0], c.scale(25000, 200000))
		t.close()
	}
}
