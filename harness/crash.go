package main

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"syscall"
	"time"
)

// Power failures and failing disks. The server runs supervised; what it
// writes to the database file is recorded, and for every point between two of
// its disk operations the files are built that a power failure may leave.

type crashRun struct {
	w       *World
	r       *rand.Rand
	sup     *Supervisor
	durable []byte
	pend    []DiskOp
	restart float64 // share of the files a real server is started on
	sem     chan bool
	wg      sync.WaitGroup
	seen    map[string]bool
	reader  fileReader
	bad     int // files that are certainly not what they should be
}

func (x *crashRun) start() (*Server, error) {
	s, v, err := superviseServer(x.w.db, x.w.args...)
	if err != nil {
		return nil, err
	}
	x.sup = v
	v.take()
	x.durable, err = os.ReadFile(x.w.db)
	must(err)
	x.pend = nil
	return s, nil
}

// apply performs one write on a copy of a file.
func apply(img []byte, op DiskOp) []byte {
	switch op.Kind {
	case "size":
		n := make([]byte, op.Off)
		copy(n, img)
		return n
	case "write":
		if end := int(op.Off) + len(op.Data); end > len(img) {
			n := make([]byte, end)
			copy(n, img)
			img = n
		}
		copy(img[op.Off:], op.Data)
	}
	return img
}

// images are the files that a power failure may leave now: every subset of
// the pending writes if they are few, some of the subsets otherwise; and some
// with a write that got only half way.
func (x *crashRun) images(f func(img []byte, what string)) {
	n := len(x.pend)
	make1 := func(has func(i int) bool, torn int, what string) {
		img := append([]byte{}, x.durable...)
		for i, op := range x.pend {
			if !has(i) {
				continue
			}
			if i == torn {
				// sectors of 512 bytes, some of them old
				for s := 0; s < len(op.Data); s += 512 {
					if x.r.Intn(2) == 0 {
						e := min(s+512, len(op.Data))
						img = apply(img, DiskOp{Kind: "write", Off: op.Off + int64(s), Data: op.Data[s:e]})
					}
				}
				continue
			}
			img = apply(img, op)
		}
		f(img, what)
	}
	if n <= 5 {
		for m := 0; m < 1<<uint(n); m++ {
			make1(func(i int) bool { return m>>uint(i)&1 == 1 }, -1, fmt.Sprintf("subset %b of %d", m, n))
		}
	} else {
		for k := 0; k <= n; k++ {
			make1(func(i int) bool { return i < k }, -1, fmt.Sprintf("first %d of %d", k, n))
		}
		for k := 0; k < 24; k++ {
			m := x.r.Uint64()
			make1(func(i int) bool { return m>>uint(i%64)&1 == 1 }, -1, fmt.Sprintf("subset %b of %d", m, n))
		}
	}
	for k := 0; n > 0 && k < 4; k++ {
		m, t := x.r.Uint64(), x.r.Intn(n)
		make1(func(i int) bool { return i == t || m>>uint(i%64)&1 == 1 }, t, fmt.Sprintf("torn %d of %d", t, n))
	}
}

// look judges every file that a failure at this point may leave.
func (x *crashRun) look(point int, acked bool, post int) {
	count("points", 1)
	if x.bad > 20 {
		panic(serverGone{}) // enough seen
	}
	x.images(func(img []byte, what string) {
		count("images", 1)
		f := scratchPath("image.db")
		must(os.WriteFile(f, img, 0o600))
		d, err := x.reader.read(f)
		ev := R{"ev": "image", "acked": acked, "opens": err == nil, "post": post, "state": 0, "point": point, "what": what}
		if err == nil {
			ev["state"] = x.w.stateLine(d)
		}
		if err != nil || (acked && post != 0 && ev["state"] != post) {
			x.bad++
		}
		key := fmt.Sprintf("%v %v %v", acked, ev["state"], post)
		if x.seen[key] && !chance(x.r, x.restart) {
			os.Remove(f)
			return
		}
		if err == nil {
			x.serve(f, d, ev["state"].(int))
		} else {
			os.Remove(f)
		}
		if !x.seen[key] {
			x.seen[key] = true
			x.w.t.put(ev)
			count("images.judged", 1)
			if acked {
				count("images.acked", 1)
			}
		}
	})
}

// serve starts a real server on the file, reads everything and writes something.
func (x *crashRun) serve(f string, d *Dump, state int) {
	w := x.w
	known := map[string][]string{}
	w.mu.Lock()
	for k, v := range w.known {
		known[k] = v
	}
	w.mu.Unlock()
	x.wg.Add(1)
	x.sem <- true
	go func() {
		defer func() { <-x.sem; x.wg.Done(); os.Remove(f) }()
		count("restarted", 1)
		ev := R{"ev": "served", "state": state, "starts": false, "code": -1, "got": []R{}, "tried": false, "write": -1, "after": state, "probe": w.base.abs(), "attrs": R{}}
		defer func() { w.t.put(ev) }()
		s := spawn(freeAddr(), limited(4<<20, 1024), append(append([]string{}, w.args...), "--boltdb-file", f)...)
		defer s.kill()
		if !s.await(20 * time.Second) {
			return
		}
		c, err := dial(s.addr)
		if err != nil {
			return
		}
		defer c.close()
		ev["starts"] = true
		a := c.roundTrip(reqSearch(w.base.str(), "sub", present("objectClass"), nil, 0))
		ev["code"] = a.Code
		got := []R{}
		for _, m := range a.Entries {
			at, _ := absAttrs(m.Attrs)
			got = append(got, R{"dn": absOf(m.DN), "attrs": at})
		}
		ev["got"] = got
		for _, e := range d.Entries {
			if absKey(absOf(e.DN)) != w.admin.key() {
				continue
			}
			for _, at := range e.Attrs {
				if fold(at.Name) != "userpassword" || len(at.Vals) != 1 || len(known[at.Vals[0]]) == 0 {
					continue
				}
				if c.roundTrip(reqBind(w.admin.str(), known[at.Vals[0]][0])).Code != 0 {
					continue
				}
				probe := w.base.child(AVA{"cn", "after the failure"})
				attrs := []Attr{{"cn", []string{"after the failure"}}, {"objectClass", []string{"top"}}}
				a := c.roundTrip(reqAdd(probe.str(), attrs))
				at, _ := absAttrs(attrs)
				ev["tried"], ev["write"], ev["probe"], ev["attrs"] = true, a.Code, probe.abs(), at
				cp := scratchPath("copy.db")
				must(copyFile(f, cp))
				if d, err := x.reader.read(cp); err == nil {
					ev["after"] = w.stateLine(d)
				}
				os.Remove(cp)
				count("restarted.written", 1)
			}
		}
	}()
}

// watch follows the disk operations of one request.
func (x *crashRun) watch(conn string, rec R, a *Answer, prev, post int) {
	if post == prev {
		post = 0
	}
	ops := x.sup.take()
	disk := 0
	for _, op := range ops {
		if op.Kind != "answer" {
			disk++
		}
	}
	if disk == 0 {
		return
	}
	count("requests.writing", 1)
	count("diskops", disk)
	x.seen = map[string]bool{}
	acked := false
	for i, op := range ops {
		x.look(i, acked, post)
		switch op.Kind {
		case "answer":
			acked = true
		case "sync":
			for _, p := range x.pend {
				x.durable = apply(x.durable, p)
			}
			x.pend = nil
		case "other":
			fatal("the server writes to its database in a way that is not followed (system call %d)", op.Nr)
		default:
			x.pend = append(x.pend, op)
		}
	}
	x.look(len(ops), acked, post)
}

var crashProfile = &Profile{W: map[string]int{"add": 30, "delete": 14, "modify": 25, "rename": 16, "bind": 1, "pw": 5, "restart": 1}, Conns: 2, AsAdmin: 0.97, Big: 0.04}

// crashWorld is a world with a supervised server.
func crashWorld(t *Trace, r *rand.Rand) (*crashRun, *History) {
	s := sceneFor(crashProfile, r)
	w := newWorld(t, r, s.entries, s.base, s.admin, true, s.known)
	w.srv.kill()
	x := &crashRun{w: w, r: r, restart: 0.01, sem: make(chan bool, 6)}
	srv, err := x.start()
	if err != nil {
		fatal("%v", err)
	}
	w.srv = srv
	w.starter = x.start
	return x, &History{w: w, p: crashProfile, s: s, r: r, pws: map[string]string{}}
}

func (h *History) run(steps int, each func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(serverGone); !ok {
				panic(e)
			}
		}
	}()
	h.w.bind(h.w.open(), h.s.admin, h.s.pws[h.s.admin.key()])
	for k := 0; k < steps && h.lost < 4; k++ {
		each()
	}
}

func init() {
	drivers["crash"] = func(c *Ctx) {
		t := newTrace(c.out)
		for i := c.scale(10, 80); i > 0; i-- {
			x, h := crashWorld(t, rand.New(rand.NewSource(c.seed*1000+int64(i))))
			x.w.watch = x.watch
			h.run(40, h.step)
			x.wg.Wait()
			x.reader.close()
			x.w.end()
			<-x.sup.closed
			count("runs", 1)
		}
		t.close()
	}
	drivers["fault"] = func(c *Ctx) {
		t := newTrace(c.out)
		errs := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
		for i := c.scale(20, 150); i > 0; i-- {
			r := rand.New(rand.NewSource(c.seed*1000 + int64(i)))
			x, h := crashWorld(t, r)
			faulty := false
			x.w.faulted = func() bool {
				x.sup.mu.Lock()
				defer x.sup.mu.Unlock()
				n := x.sup.failed
				x.sup.failed = 0
				return n > 0
			}
			h.run(60, func() {
				if chance(r, 0.5) {
					n, e, lasting := 1+r.Intn(10), pick(r, errs), chance(r, 0.3)
					if lasting {
						n = 1 + r.Intn(4)
					}
					x.sup.failing(func(k int, op *DiskOp) syscall.Errno {
						if k == n || (lasting && k > n) {
							count("failed."+op.Kind, 1)
							return e
						}
						return 0
					})
					faulty = lasting
				} else if !faulty || chance(r, 0.3) {
					x.sup.failing(nil)
					faulty = false
				}
				if x.w.srv.alive() && chance(r, 0.3) && len(x.w.conns) > 0 {
					for _, cn := range []string{"c1"} {
						if x.w.conns[cn] != nil {
							x.w.search(cn, x.w.base, "sub", present("objectClass"), nil, 0)
						}
					}
				}
				h.step()
			})
			x.w.end()
			<-x.sup.closed
			count("runs", 1)
		}
		t.close()
	}
}
