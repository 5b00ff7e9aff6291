package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"regexp"
	"strconv"
	"sync"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
)

// Usage counters (judged by TraceCounters).

type CWorld struct {
	p       *PWorld
	t       *Trace
	r       *rand.Rand
	look    func() (R, error)
	open    int
	mu      sync.Mutex
	blocked int
}

var metricRe = regexp.MustCompile(`(?m)^kidm_ldapserver_(\w+) (\S+)$`)

// scrape reads the published metrics.
func scrape(addr string) (R, error) {
	h := http.Client{Timeout: answerTimeout, Transport: &http.Transport{DisableKeepAlives: true}}
	resp, err := h.Get("http://" + addr + "/metrics")
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
	n := map[string]int64{}
	for _, m := range metricRe.FindAllStringSubmatch(string(b), -1) {
		f, err := strconv.ParseFloat(m[2], 64)
		if err != nil {
			return nil, err
		}
		n[m[1]] = clamp(f)
	}
	for _, k := range []string{"binds_total", "unbinds_total", "searches_total", "connections_total", "connections_current", "connections_max"} {
		if _, ok := n[k]; !ok {
			return nil, fmt.Errorf("no metric %s", k)
		}
	}
	return R{"n": R{"bind": n["binds_total"], "unbind": n["unbinds_total"], "search": n["searches_total"]},
		"conns": n["connections_total"], "cur": n["connections_current"], "max": n["connections_max"]}, nil
}

// clamp keeps numbers within what TLC can compute with.
func clamp(f float64) int64 {
	if f < 0 || f > 1e9 {
		return 1e9
	}
	return int64(f)
}

// ask reads the statistics of the library.
func ask(socket string) (R, error) {
	c, err := net.DialTimeout("unix", socket, answerTimeout)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(answerTimeout))
	c.Write([]byte("\n"))
	line, err := bufio.NewReader(c).ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var s map[string]float64
	if err := json.Unmarshal(line, &s); err != nil {
		return nil, err
	}
	n := R{}
	for k, f := range map[string]string{"bind": "Binds", "unbind": "Unbinds", "search": "Searches", "add": "Adds", "delete": "Deletes", "modify": "Modifies", "rename": "ModifyDNs"} {
		if v, ok := s[f]; ok {
			n[k] = clamp(v)
		}
	}
	return R{"n": n, "conns": clamp(s["Conns"]), "cur": clamp(s["ConnsCurrent"]), "max": clamp(s["ConnsMax"])}, nil
}

func (w *CWorld) block(what string) {
	w.t.put(R{"ev": "blocked", "what": what})
	w.mu.Lock()
	w.blocked++
	w.mu.Unlock()
}

type cconn struct {
	name string
	c    *Client
}

func (w *CWorld) dial(name string) *cconn {
	w.t.put(R{"ev": "dial", "conn": name})
	c, err := w.p.dial(name[len(name)-1] < '3')
	if err != nil {
		w.block("dial: " + err.Error())
		return nil
	}
	count("conns", 1)
	cc := &cconn{name, c}
	// The connection is open for certain once something was answered.
	if !w.do(cc, rand.New(rand.NewSource(int64(len(name)))), "bind") {
		return nil
	}
	return cc
}

// do sends one request; the result tells whether the connection is still usable.
func (w *CWorld) do(c *cconn, r *rand.Rand, kind string) bool {
	b := w.p.base.str()
	q := w.p.request(r, false)
	for i := 0; i < 60 && q.kind != kind; i++ {
		q = w.p.request(r, false)
	}
	switch {
	case kind == "unbind":
		q = preq{kind: "unbind", op: reqUnbind()}
	case kind == "compare":
		q = preq{kind: "compare", op: reqCompare("cn=e1,"+b, "cn", "x")}
	case kind == "junk":
		q = preq{kind: "junk"}
	case q.kind != kind:
		return true
	}
	w.t.put(R{"ev": "send", "conn": c.name, "kind": q.kind})
	count("op."+q.kind, 1)
	count("ops", 1)
	switch q.kind {
	case "unbind", "compare", "junk":
		w.t.put(R{"ev": "closing", "conn": c.name})
		if q.kind == "junk" {
			c.c.c.Write([]byte{0x30, 0x03, 0x01, 0x01, 0x00})
		} else {
			c.c.send(q.op)
		}
		for {
			if _, err := c.c.read(answerTimeout); err != nil {
				if err == errTimeout {
					w.block(q.kind)
				}
				break
			}
		}
		c.c.close()
		return false
	}
	a := c.c.roundTrip(q.op, q.ctl...)
	if a.Code < 0 {
		w.t.put(R{"ev": "closing", "conn": c.name})
		w.block(fmt.Sprint(q.kind, a.Code))
		c.c.close()
		return false
	}
	w.t.put(R{"ev": "answer", "conn": c.name})
	return true
}

func (w *CWorld) snapshot() R {
	v, err := w.look()
	if err != nil {
		w.block("looking at the counters: " + err.Error())
		return nil
	}
	count("looks", 1)
	w.t.put(R{"ev": "look", "v": v})
	return v
}

// settle waits until the number of open connections is right, or it is clear that it will not be.
func (w *CWorld) settle(open int) {
	var v R
	var err error
	for deadline := time.Now().Add(4 * time.Second); ; time.Sleep(2 * time.Millisecond) {
		if v, err = w.look(); err != nil {
			w.block("looking at the counters: " + err.Error())
			return
		}
		if v["cur"].(int64) == int64(open) || time.Now().After(deadline) {
			break
		}
	}
	// Late effects of the last request.
	time.Sleep(2 * time.Millisecond)
	if v, err = w.look(); err != nil {
		w.block("looking at the counters: " + err.Error())
		return
	}
	count("settled", 1)
	w.t.put(R{"ev": "settled", "v": v})
}

var counterKinds = []string{"bind", "bind", "search", "search", "add", "delete", "modify", "rename", "extended", "unbind", "compare", "junk"}

func (w *CWorld) session(prefix string, r *rand.Rand, n int, conns map[string]*cconn, watch bool) {
	for i := 0; i < n; i++ {
		w.mu.Lock()
		stop := w.blocked > 3
		w.mu.Unlock()
		if stop {
			return
		}
		switch k := r.Intn(20); {
		case k < 4 && len(conns) < 6 || len(conns) == 0:
			name := fmt.Sprintf("%s%d", prefix, i)
			if c := w.dial(name); c != nil {
				conns[name] = c
			}
		case k == 5:
			name := pick(r, sortedKeys(conns))
			w.t.put(R{"ev": "closing", "conn": name})
			conns[name].c.close()
			delete(conns, name)
		default:
			name := pick(r, sortedKeys(conns))
			if !w.do(conns[name], r, pick(r, counterKinds)) {
				delete(conns, name)
			}
		}
		if watch && r.Intn(6) == 0 {
			w.settle(len(conns))
		}
	}
}

// burst lets several clients send many requests of one kind at once, without waiting for answers.
func (w *CWorld) burst(r *rand.Rand, open int) {
	b := w.p.base.str()
	ops := map[string]func() *ber.Packet{
		"bind":   func() *ber.Packet { return reqBind("cn=nobody,"+b, "x") },
		"search": func() *ber.Packet { return reqSearch(b, "base", present("objectClass"), []string{"cn"}, 0) },
		"add":    func() *ber.Packet { return reqAdd("cn=new,"+b, []Attr{{"cn", []string{"new"}}}) },
		"delete": func() *ber.Packet { return reqDelete("cn=none," + b) },
		"modify": func() *ber.Packet { return reqModify("cn=none,"+b, []Change{{"add", "sn", []string{"x"}}}) },
		"rename": func() *ber.Packet { return reqRename("cn=none,"+b, "cn=none2", true, nil) },
	}
	for i, kind := range append(sortedKeys(ops), "search", "bind") {
		clients, each := 6+r.Intn(6), 60+r.Intn(120)
		cs := []*cconn{}
		for k := 0; k < clients; k++ {
			if c := w.dial(fmt.Sprintf("b%d.%d", i, k)); c != nil {
				cs = append(cs, c)
			}
		}
		w.t.put(R{"ev": "burst", "kind": kind, "count": len(cs) * each})
		count("op."+kind, len(cs)*each)
		count("burst", len(cs)*each)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, c := range cs {
			var buf []byte
			for k := 0; k < each; k++ {
				c.c.msgID++
				buf = append(buf, envelope(c.c.msgID, ops[kind]()).Bytes()...)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				c.c.c.SetWriteDeadline(time.Now().Add(answerTimeout))
				if _, err := c.c.c.Write(buf); err != nil {
					w.block("burst: " + err.Error())
					return
				}
				for k := 0; k < each; k++ {
					if a := c.c.collect(0); a.Code < 0 {
						w.block(fmt.Sprint("burst ", kind, a.Code))
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		w.settle(open + len(cs))
		for _, c := range cs {
			w.t.put(R{"ev": "closing", "conn": c.name})
		}
		// All leave at once.
		for _, c := range cs {
			wg.Add(1)
			go func() { defer wg.Done(); c.c.close() }()
		}
		wg.Wait()
		w.settle(open)
	}
	// Many connections come and go.
	var wg sync.WaitGroup
	for k := 0; k < 12; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 25; i++ {
				name := fmt.Sprintf("q%d.%d", k, i)
				w.t.put(R{"ev": "dial", "conn": name})
				c, err := w.p.dial(k%3 == 0)
				if err != nil {
					w.block("dial: " + err.Error())
					return
				}
				count("conns", 1)
				w.t.put(R{"ev": "closing", "conn": name})
				c.close()
			}
		}()
	}
	wg.Wait()
	w.settleAll(open)
}

// settleAll is settle after connections were closed that need not have been accepted yet.
func (w *CWorld) settleAll(open int) {
	for deadline := time.Now().Add(4 * time.Second); time.Now().Before(deadline); time.Sleep(20 * time.Millisecond) {
		a, err := w.look()
		if err != nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
		if b, err := w.look(); err != nil || a["conns"] == b["conns"] && b["cur"].(int64) == int64(open) {
			break
		}
	}
	w.settle(open)
}

func runCounters(t *Trace, seed int64, lib string, runs, steps int) {
	for i := 0; i < runs; i++ {
		r := rand.New(rand.NewSource(seed*77 + int64(i)))
		w := newCWorld(t, r, []string{"boltdb", "ldif"}[i%2], lib)
		// One client after the other, with a look at settled counters.
		conns := map[string]*cconn{}
		w.session("s", r, steps, conns, true)
		w.settle(len(conns))
		// Simultaneous clients and permanent looks.
		all := []map[string]*cconn{}
		var wg sync.WaitGroup
		for k := 0; k < 5; k++ {
			m := map[string]*cconn{}
			all = append(all, m)
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.session(fmt.Sprintf("p%d.", k), rr, steps, m, false)
			}()
		}
		stop := make(chan struct{})
		var lw sync.WaitGroup
		for k := 0; k < 2; k++ {
			lw.Add(1)
			go func() {
				defer lw.Done()
				for {
					select {
					case <-stop:
						return
					default:
						// Not recorded: looks of two collectors may arrive in any order.
						if _, err := w.look(); err != nil {
							w.block("looking at the counters: " + err.Error())
							return
						}
						count("looks", 1)
						if k == 1 {
							time.Sleep(time.Millisecond)
						}
					}
				}
			}()
		}
		for done := make(chan struct{}); ; {
			go func() { wg.Wait(); close(done) }()
			for fin := false; !fin; {
				select {
				case <-done:
					fin = true
				default:
					w.snapshot()
					if w.blocked > 3 {
						fin = true
						<-done
					}
				}
			}
			break
		}
		close(stop)
		lw.Wait()
		n := len(conns)
		for _, m := range all {
			n += len(m)
		}
		w.settle(n)
		if w.blocked == 0 {
			w.burst(r, n)
		}
		for _, m := range append(all, conns) {
			for _, k := range sortedKeys(m) {
				w.t.put(R{"ev": "closing", "conn": k})
				m[k].c.close()
			}
		}
		w.settle(0)
		w.p.srv.kill()
		count("runs", 1)
	}
}

func newCWorld(t *Trace, r *rand.Rand, backend, lib string) *CWorld {
	base, _ := parseDN("dc=example,dc=org")
	p := &PWorld{t: t, rng: r, backend: backend, base: base, admin: base.child(AVA{"cn", "admin"})}
	w := &CWorld{p: p, t: t, r: r}
	es := protoEntries(base)
	dbf, mainf := scratchPath("idm.db"), scratchPath("main.ldif")
	if backend == "boltdb" {
		writeDB(dbf, es)
	} else {
		must(os.WriteFile(mainf, []byte(ldifText(nil, es)), 0o644))
	}
	for i := 0; ; i++ {
		addr := freeAddr()
		if lib != "" {
			sock := scratchPath("ctl")
			p.srv = spawnLib(lib, addr, "-handler", backend, "-base", base.str(), "-admin", p.admin.str(), "-db", dbf, "-main", mainf, "-control", sock)
			w.look = func() (R, error) { return ask(sock) }
		} else {
			m := freeAddr()
			c, k := makeCert()
			p.tlsAddr = freeAddr()
			p.srv = spawn(addr, nil, "--ldap-handler", backend, "--ldap-base-dn", base.str(), "--ldap-admin-dn", p.admin.str(), "--boltdb-file", dbf, "--ldif-main", mainf,
				"--with-metrics", "--metrics-listen", m, "--ldaps-listen", p.tlsAddr, "--tls-cert-file", c, "--tls-key-file", k)
			w.look = func() (R, error) { return scrape(m) }
		}
		if w.ready(addr) && (p.tlsAddr == "" || w.ready(p.tlsAddr)) {
			break
		}
		if i > 5 {
			fatal("cannot start server: %s", p.srv.stderr.String())
		}
		p.srv.kill()
	}
	t.put(R{"ev": "run"})
	return w
}

// ready waits for a listener without connecting to it, for connections are counted.
func (w *CWorld) ready(addr string) bool {
	for deadline := time.Now().Add(20 * time.Second); time.Now().Before(deadline) && w.p.srv.alive(); time.Sleep(3 * time.Millisecond) {
		if listening(addr) {
			if _, err := w.look(); err == nil {
				return true
			}
		}
	}
	return false
}

func init() {
	drivers["counters"] = func(c *Ctx) {
		answerTimeout = 10 * time.Second
		t := newTrace(c.out)
		lib := ""
		if len(c.args) > 1 {
			lib = c.args[1]
		}
		runCounters(t, c.seed, lib, c.scale(4, 16), c.scale(150, 400))
		t.close()
	}
}
