package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

// The walk of the LDIF model, see walk.go.

type jLOp struct {
	K, Id, Use string
	Size, To   int
	Dn         [][][2]string
	Pw         string
}

type jLEntry struct {
	Dn    [][][2]string
	Attrs map[string][]jVal
}

type jLWalk struct {
	Ops   []jLOp
	Base  [][][2]string
	Known map[string][]string
	Vers  []struct{ Main, Conf []jLEntry }
}

func entriesOf(js []jLEntry) []Entry {
	var es []Entry
	for _, e := range js {
		es = append(es, Entry{dnOf(e.Dn).str(), attrsOf(e.Attrs)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].DN < es[j].DN })
	return es
}

func runLWalk(t *Trace, seed int64, file string, limit int) {
	b, err := os.ReadFile(file)
	must(err)
	j := &jLWalk{}
	must(json.Unmarshal(b, j))
	r := rand.New(rand.NewSource(seed))
	base := dnOf(j.Base)
	var vers []LVersion
	for _, v := range j.Vers {
		vers = append(vers, LVersion{entriesOf(v.Main), entriesOf(v.Conf)})
	}
	things := &Filter{K: "eq", T: "objectClass", V: "thing"}
	type st struct {
		todo []int
		succ map[int]string
	}
	states := map[string]*st{}
	steps, covered, strays := 0, 0, 0
	session := func() (done bool) {
		w := newLWorld(t, r, base, false, vers, map[string][]string{"p1": {"p1"}, "p2": {"p2"}, "p3": {"p3"}, "r1": {"r1"}}, false, true)
		defer w.end()
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(serverGone); !ok {
					panic(e)
				}
			}
		}()
		type slot struct {
			open bool
			ver  int
			sent []string
		}
		slots := map[string]*slot{}
		who := ""
		search := func() string {
			n := w.openNamed("s")
			w.bind(n, base.child(AVA{"cn", "poll"}), "poll")
			return n
		}
		w.openNamed("b")
		search()
		key := func() string {
			var p []string
			for _, k := range sortedKeys(slots) {
				s := slots[k]
				sort.Strings(s.sent)
				p = append(p, k+jsonStr(R{"o": s.open, "v": s.ver, "s": s.sent}))
			}
			return itoa(w.cur) + "|" + strings.Join(p, ";") + "|" + who
		}
		here := func() (string, *st) {
			k := key()
			s := states[k]
			if s == nil {
				s = &st{succ: map[int]string{}, todo: r.Perm(len(j.Ops))}
				states[k] = s
			}
			return k, s
		}
		perform := func(i int) {
			op := j.Ops[i]
			steps++
			if w.conns["s"] == nil {
				search()
			}
			if w.conns["b"] == nil {
				w.openNamed("b")
			}
			switch op.K {
			case "search":
				w.search("s", base, "sub", present("cn"), nil, 0)
			case "bind":
				who = ""
				if w.bind("b", dnOf(op.Dn), op.Pw).Code == 0 {
					who = dnOf(op.Dn).key()
				}
			case "reload":
				w.reload(op.To)
			case "page":
				s := slots[op.Id]
				if op.Use == "cur" && (s == nil || len(w.pages[op.Id].cookie) == 0) {
					return // there never was a cookie
				}
				if op.Use == "new" {
					s = &slot{ver: w.cur, open: true}
					slots[op.Id] = s
				}
				a := w.page("s", op.Id, op.Use, op.Size, base, "sub", things, nil)
				if op.Use != "bogus" {
					for _, e := range a.Entries {
						s.sent = append(s.sent, absKey(absOf(e.DN)))
					}
					if a.Final == nil || len(a.Final.Cookie) == 0 {
						s.open = false
					}
				}
			}
		}
		for steps < limit && strays < 300 {
			k, s := here()
			if len(s.todo) > 0 {
				op := s.todo[0]
				s.todo = s.todo[1:]
				covered++
				perform(op)
				nk, _ := here()
				s.succ[op] = nk
				continue
			}
			// nearest state with something left to try
			type node struct {
				key  string
				prev *node
				op   int
			}
			seen := map[string]bool{k: true}
			queue := []*node{{key: k}}
			var path []int
			for len(queue) > 0 && path == nil {
				n := queue[0]
				queue = queue[1:]
				if len(states[n.key].todo) > 0 {
					for ; n.prev != nil; n = n.prev {
						path = append([]int{n.op}, path...)
					}
					break
				}
				var ops []int
				for o := range states[n.key].succ {
					ops = append(ops, o)
				}
				sort.Ints(ops)
				for _, o := range ops {
					if x := states[n.key].succ[o]; !seen[x] {
						seen[x] = true
						queue = append(queue, &node{x, n, o})
					}
				}
			}
			if path == nil {
				for _, s := range states {
					if len(s.todo) > 0 {
						return false
					}
				}
				return true
			}
			for _, op := range path {
				from := states[key()]
				want := from.succ[op]
				perform(op)
				if nk, _ := here(); nk != want {
					from.succ[op] = nk
					strays++
					break
				}
			}
		}
		return true
	}
	for i := 0; !session() && i < 500; i++ {
	}
	left := 0
	for _, s := range states {
		left += len(s.todo)
	}
	count("walk.states", len(states))
	count("walk.pairs", covered)
	count("walk.left", left)
	count("walk.steps", steps)
	count("walk.ops", len(j.Ops))
}

func init() {
	drivers["lwalk"] = func(c *Ctx) {
		answerTimeout = 8 * time.Second
		t := newTrace(c.out)
		runLWalk(t, c.seed, c.args[0], c.scale(60000, 200000))
		t.close()
	}
}
