package main

import (
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Clients at work while the LDIF data is reloaded (judged by TraceReload).

type timed struct {
	at  int64
	rec R
}

func reloadVersion(base DN, k, fill int) LVersion {
	var v LVersion
	b := Entry{base.str(), []Attr{{base[0][0].T, []string{base[0][0].V}}, {"objectClass", []string{"top"}}}}
	v.Main = append(v.Main, b)
	for i := 0; i < fill; i++ {
		v.Main = append(v.Main, Entry{base.child(AVA{"uid", "fill" + itoa(i)}).str(), []Attr{{"uid", []string{"fill" + itoa(i)}}, {"objectClass", []string{"filler"}}}})
	}
	for i := 0; i < 3+k; i++ {
		n := "t" + itoa((i*7+k)%9)
		v.Main = append(v.Main, Entry{base.child(AVA{"cn", n}).str(), []Attr{{"cn", []string{n}}, {"objectClass", []string{"thing"}}, {"description", []string{"v" + itoa(k)}}}})
	}
	user := func(n, pw string) Entry {
		return Entry{base.child(AVA{"cn", n}).str(), []Attr{{"cn", []string{n}}, {"objectClass", []string{"person"}}, {"userPassword", []string{pw}}}}
	}
	// u moves between the files and keeps its password, r changes its password
	if k%2 == 1 {
		v.Main = append(v.Main, user("u", "pu"))
		v.Conf = append(v.Conf, user("r", "p"+itoa(k)))
	} else {
		v.Conf = append(v.Conf, user("u", "pu"))
		v.Main = append(v.Main, user("r", "p"+itoa(k)))
	}
	v.Conf = append(v.Conf, user("always", "pw"))
	return v
}

func runReload(t *Trace, seed int64, runs, reloads, fill int) {
	for i := 0; i < runs; i++ {
		r := rand.New(rand.NewSource(seed*31 + int64(i)))
		base, _ := parseDN(pick(r, ldifBases))
		known := map[string][]string{"pu": {"pu"}, "pw": {"pw"}}
		var vers []LVersion
		for k := 1; k <= 4; k++ {
			vers = append(vers, reloadVersion(base, k, fill))
			known["p"+itoa(k)] = []string{"p" + itoa(k)}
		}
		// the fillers are of no interest to the judge
		w := newLWorld(newNullTrace(), r, base, false, vers, known, chance(r, 0.3), true)
		func() {
			vs := []R{}
			for _, v := range w.vers {
				var keep []Entry
				for _, e := range v.Main {
					if e.Attrs[len(e.Attrs)-1].Vals[0] != "filler" {
						keep = append(keep, e)
					}
				}
				vs = append(vs, R{"main": absEntries(keep), "conf": absEntries(v.Conf)})
			}
			t.put(R{"ev": "run", "base": base.abs(), "vers": vs, "known": encKnown(known)})
		}()
		var clock, ids int64
		var mu sync.Mutex
		var log []timed
		emit := func(rec R) {
			mu.Lock()
			clock++
			log = append(log, timed{clock, rec})
			mu.Unlock()
		}
		var stop atomic.Bool
		var wg sync.WaitGroup
		client := func(kind int, r *rand.Rand) {
			defer wg.Done()
			c, err := dial(w.srv.addr)
			if err != nil {
				emit(R{"ev": "dead", "what": err.Error()})
				return
			}
			defer c.close()
			if kind != 1 {
				c.roundTrip(reqBind(base.child(AVA{"cn", "always"}).str(), "pw"))
			}
			f := &Filter{K: "or", Fs: []*Filter{{K: "eq", T: "objectClass", V: "thing"}, {K: "eq", T: "cn", V: "marker"}}}
			for !stop.Load() {
				id := "o" + itoa(int(atomic.AddInt64(&ids, 1)))
				switch kind {
				case 0:
					op := searchRec(base, "sub", f, nil, 0)
					emit(R{"ev": "begin", "id": id})
					a := c.roundTrip(reqSearch(base.str(), "sub", f, nil, 0))
					emit(R{"ev": "end", "id": id, "op": op, "res": a.Code, "got": gotOf(a)})
					count("op.search", 1)
				case 1:
					u, p := "u", pick(r, []string{"pu", "pu", "pu", "wrong"})
					if r.Intn(2) == 0 {
						u, p = "r", "p"+itoa(1+r.Intn(4))
					}
					d := base.child(AVA{"cn", u})
					emit(R{"ev": "begin", "id": id})
					a := c.roundTrip(reqBind(d.str(), p))
					emit(R{"ev": "end", "id": id, "op": R{"k": "bind", "dn": d.abs(), "pw": p}, "res": a.Code, "got": []R{}})
					count("op.bind", 1)
					if a.Code == 0 {
						count("ok.bind", 1)
					}
				case 2: // paged: belongs to the version current during its first request
					op := searchRec(base, "sub", f, nil, 0)
					emit(R{"ev": "begin", "id": id})
					end := R{"ev": "end", "id": id, "op": op}
					a := c.roundTrip(reqSearch(base.str(), "sub", f, nil, 0), pagingControl(2, nil))
					emit(end)
					got, res := gotOf(a), a.Code
					for n := 0; n < 30 && a.Final != nil && a.Code == 0 && len(a.Final.Cookie) > 0; n++ {
						time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
						a = c.roundTrip(reqSearch(base.str(), "sub", f, nil, 0), pagingControl(2, a.Final.Cookie))
						got = append(got, gotOf(a)...)
						res = a.Code
					}
					mu.Lock()
					end["res"], end["got"] = res, got
					mu.Unlock()
					count("op.paged", 1)
				}
				count("ops", 1)
				time.Sleep(time.Duration(r.Intn(600)) * time.Microsecond)
			}
		}
		for n := 0; n < 6; n++ {
			wg.Add(1)
			go client(n%3, rand.New(rand.NewSource(r.Int63())))
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(serverGone); !ok {
						panic(e)
					}
					if !w.srv.alive() {
						emit(R{"ev": "dead", "what": lastLines(w.srv.stderr.String(), 12)})
					}
				}
			}()
			for n := 0; n < reloads; n++ {
				time.Sleep(time.Duration(1+r.Intn(6)) * time.Millisecond)
				if chance(r, 0.3) {
					emit(R{"ev": "signal", "to": 0})
					w.reload(0)
					continue
				}
				k := 1 + r.Intn(4)
				for k == w.cur && len(w.vers) > 1 {
					k = 1 + r.Intn(4)
				}
				w.write(k)
				emit(R{"ev": "signal", "to": k})
				must(w.srv.cmd.Process.Signal(syscall.SIGHUP))
				want := "version " + itoa(k)
				seen := false
				for deadline := time.Now().Add(10 * time.Second); !seen && time.Now().Before(deadline); {
					if seen = w.visible() == want; !seen {
						time.Sleep(300 * time.Microsecond)
					}
				}
				w.cur = k
				// the search of the polling client has seen it; binds are served from the same version
				emit(R{"ev": "settled", "seen": seen})
				count("reloads", 1)
			}
		}()
		stop.Store(true)
		wg.Wait()
		w.end()
		sort.SliceStable(log, func(a, b int) bool { return log[a].at < log[b].at })
		for _, x := range log {
			t.put(x.rec)
		}
	}
}

func init() {
	drivers["reload"] = func(c *Ctx) {
		answerTimeout = 15 * time.Second
		t := newTrace(c.out)
		runReload(t, c.seed, c.scale(4, 20), c.scale(25, 60), 1500)
		t.close()
	}
}
