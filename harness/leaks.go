package main

import (
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// What clients leave behind in a server (judged by TraceResources).

type XWorld struct {
	p       *PWorld
	r       *rand.Rand
	metrics string
	main    string
	base    R
	open    []*Client // connections kept open all the time
}

var goMetricRe = regexp.MustCompile(`(?m)^kidm_(go_goroutines|go_memstats_heap_alloc_bytes) (\S+)$|^(go_goroutines|go_memstats_heap_alloc_bytes) (\S+)$`)

// measure looks at the server from outside.
func (w *XWorld) measure() (R, error) {
	h := http.Client{Timeout: answerTimeout, Transport: &http.Transport{DisableKeepAlives: true}}
	resp, err := h.Get("http://" + w.metrics + "/metrics")
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		return nil, err
	}
	n := map[string]int{}
	for _, m := range goMetricRe.FindAllStringSubmatch(string(b), -1) {
		f, err := strconv.ParseFloat(m[2]+m[4], 64)
		if err != nil {
			return nil, err
		}
		if m[1]+m[3] == "go_goroutines" {
			n["tasks"] = int(f)
		} else {
			n["memory"] = int(f / 1e6)
		}
	}
	if len(n) != 2 {
		return nil, fmt.Errorf("unexpected metrics: %v", n)
	}
	fs, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", w.p.srv.cmd.Process.Pid))
	if err != nil {
		return nil, err
	}
	return R{"files": len(fs), "tasks": n["tasks"], "memory": n["memory"]}, nil
}

// low measures until nothing seems to be left, at most for the given time.
func (w *XWorld) low(most time.Duration, all bool) R {
	var best R
	for deadline := time.Now().Add(most); ; time.Sleep(20 * time.Millisecond) {
		v, err := w.measure()
		if err != nil {
			w.dead(err)
		}
		if best == nil {
			best = v
		}
		for k, x := range v {
			if x.(int) < best[k].(int) {
				best[k] = x
			}
		}
		ok := best["files"].(int) <= w.base["files"].(int)+len(w.open)+1
		if all {
			ok = ok && best["tasks"].(int) <= w.base["tasks"].(int)+len(w.open)+1 && best["memory"].(int) <= w.base["memory"].(int)+100
			if best["memory"].(int) > w.base["memory"].(int)+100 {
				// Give the server a reason to tidy up.
				w.use("large")
			}
		}
		if ok || time.Now().After(deadline) {
			return best
		}
		if all {
			time.Sleep(300 * time.Millisecond)
		}
	}
}

func (w *XWorld) dead(err error) {
	time.Sleep(50 * time.Millisecond)
	w.p.t.put(R{"ev": "dead", "what": err.Error() + "\n" + lastLines(w.p.srv.stderr.String(), 12)})
	panic(serverGone{})
}

func newXWorld(t *Trace, r *rand.Rand, backend string) *XWorld {
	base, _ := parseDN("dc=example,dc=org")
	p := &PWorld{t: t, rng: r, backend: backend, base: base, admin: base.child(AVA{"cn", "admin"})}
	w := &XWorld{p: p, r: r}
	es := protoEntries(base)
	p.db, w.main = scratchPath("idm.db"), scratchPath("main.ldif")
	if backend == "boltdb" {
		writeDB(p.db, es)
	} else {
		must(os.WriteFile(w.main, []byte(ldifText(nil, es)), 0o644))
	}
	for i := 0; ; i++ {
		c, k := makeCert()
		p.tlsAddr, w.metrics = freeAddr(), freeAddr()
		p.srv = spawn(freeAddr(), nil, "--ldap-handler", backend, "--ldap-base-dn", base.str(), "--ldap-admin-dn", p.admin.str(), "--boltdb-file", p.db, "--ldif-main", w.main,
			"--with-metrics", "--metrics-listen", w.metrics, "--ldaps-listen", p.tlsAddr, "--tls-cert-file", c, "--tls-key-file", k)
		if p.up() && w.settle() {
			break
		}
		if i > 5 {
			fatal("cannot start server: %s", p.srv.stderr.String())
		}
		p.srv.kill()
	}
	t.put(R{"ev": "run", "v": w.base})
	count("runs", 1)
	return w
}

// settle waits until two measurements are alike.
func (w *XWorld) settle() bool {
	for i := 0; i < 100; i++ {
		time.Sleep(50 * time.Millisecond)
		v, err := w.measure()
		if err == nil && w.base != nil && fmt.Sprint(v) == fmt.Sprint(w.base) {
			return true
		}
		if err == nil {
			w.base = v
		}
	}
	return false
}

var leakKinds = []string{"hello", "unbind", "reset", "half", "unread", "tlsplain", "tlshalf", "tlsopen", "paged", "pagedsome", "pagedone", "abandoned", "limited",
	"badfilter", "outside", "compare", "junk", "strange", "failedbind", "failedwrite", "write", "rebind", "large", "many", "cutanswer", "extended"}

// use lets one client come, do something and leave.
func (w *XWorld) use(kind string) {
	p, r := w.p, w.r
	b := p.base.str()
	dial := func(useTLS bool) *Client {
		c, err := p.dial(useTLS)
		if err != nil {
			w.dead(err)
		}
		return c
	}
	raw := func(addr string) net.Conn {
		c, err := net.DialTimeout("tcp", addr, answerTimeout)
		if err != nil {
			w.dead(err)
		}
		return c
	}
	in := func() *Client {
		c := dial(r.Intn(4) == 0)
		if a := c.roundTrip(reqBind(p.admin.str(), "adminpw")); a.Code < 0 {
			w.dead(fmt.Errorf("bind: %d", a.Code))
		}
		return c
	}
	whole := func() []byte { return envelope(3, reqSearch(b, "sub", present("objectClass"), nil, 0)).Bytes() }
	rst := func(c *Client) {
		if tc, ok := c.c.(*net.TCPConn); ok {
			tc.SetLinger(0)
		} else if tc, ok := c.c.(*tls.Conn); ok {
			if nc, ok := tc.NetConn().(*net.TCPConn); ok {
				nc.SetLinger(0)
				nc.Close()
			}
		}
		c.close()
	}
	// The end of the connection is awaited where the server ends it.
	ended := func(c *Client) {
		for {
			if _, err := c.read(answerTimeout); err != nil {
				break
			}
		}
		c.close()
	}
	switch kind {
	case "hello":
		raw(pick(r, []string{p.srv.addr, p.tlsAddr})).Close()
	case "unbind":
		c := in()
		c.send(reqUnbind())
		ended(c)
	case "reset":
		c := in()
		c.send(reqSearch(b, "sub", present("objectClass"), nil, 0))
		rst(c)
	case "half":
		c := in()
		m := whole()
		c.c.Write(m[:1+r.Intn(len(m)-1)])
		if r.Intn(2) == 0 {
			rst(c)
		} else {
			c.close()
		}
	case "unread":
		c := in()
		for i := 0; i < 30; i++ {
			c.c.Write(whole())
		}
		rst(c)
	case "cutanswer":
		c := in()
		c.c.Write(whole())
		c.read(answerTimeout)
		rst(c)
	case "tlsplain":
		c := raw(p.tlsAddr)
		c.Write(whole())
		c.SetReadDeadline(time.Now().Add(time.Second))
		io.ReadAll(c)
		c.Close()
	case "tlshalf":
		c := raw(p.tlsAddr)
		c.Write([]byte{0x16, 0x03, 0x01, 0x02}[:1+r.Intn(4)])
		c.Close()
	case "tlsopen":
		rst(dial(true))
	case "paged", "pagedsome", "pagedone", "abandoned":
		c := in()
		var cookie []byte
		for i := 0; ; i++ {
			size := int64(1 + r.Intn(4))
			if kind == "pagedone" {
				size = 50
			}
			if kind == "abandoned" && i == 1 {
				size = 0
			}
			a := c.roundTrip(reqSearch(b, "sub", present(pick(r, []string{"objectClass", "sn", "none"})), nil, 0), pagingControl(size, cookie))
			if a.Final == nil || len(a.Final.Cookie) == 0 || kind == "paged" || kind == "pagedsome" && i > 2 || size == 0 {
				break
			}
			cookie = a.Final.Cookie
		}
		if r.Intn(2) == 0 {
			rst(c)
		} else {
			c.close()
		}
	case "limited":
		c := in()
		c.roundTrip(reqSearch(b, "sub", present("objectClass"), nil, 1+r.Intn(3)))
		c.roundTrip(reqSearch(b, "sub", &Filter{K: "eq", T: "sn", V: "S1"}, nil, 1))
		c.close()
	case "badfilter":
		c := in()
		c.roundTrip(reqSearchRaw(b, 2, reqUnbind(), nil, 0))
		c.close()
	case "outside":
		c := in()
		c.roundTrip(reqSearch("dc=elsewhere", "sub", present("objectClass"), nil, 0))
		c.roundTrip(reqSearch("not a name", "sub", present("objectClass"), nil, 0))
		c.close()
	case "compare":
		c := in()
		c.send(reqCompare("cn=e1,"+b, "cn", "e1"))
		ended(c)
	case "junk":
		c := dial(false)
		c.c.Write([]byte{0x30, 0x03, 0x01, 0x01, 0x00})
		ended(c)
	case "strange":
		in := p.strange(r)
		k := pick(r, sortedKeys(in))
		if len(in[k]) > 1<<16 {
			return
		}
		c := dial(false)
		c.c.SetDeadline(time.Now().Add(answerTimeout))
		c.c.Write(in[k])
		c.close()
	case "failedbind":
		c := dial(r.Intn(4) == 0)
		c.roundTrip(reqBind(p.admin.str(), "wrong"))
		c.roundTrip(reqBind("cn=none,"+b, "x"))
		c.roundTrip(reqBind("garbage", "x"))
		c.close()
	case "failedwrite":
		c := in()
		c.roundTrip(reqAdd("cn=e1,"+b, []Attr{{"cn", []string{"e1"}}}))
		c.roundTrip(reqAdd("cn=x,ou=none,"+b, []Attr{{"cn", []string{"x"}}}))
		c.roundTrip(reqDelete("cn=none," + b))
		c.roundTrip(reqDelete(b))
		c.roundTrip(reqModify("cn=none,"+b, []Change{{"add", "sn", []string{"x"}}}))
		c.roundTrip(reqModify("cn=e1,"+b, []Change{{"replace", "cn", []string{"x"}}}))
		c.roundTrip(reqRename("cn=e1,"+b, "cn=e2", true, nil))
		c.roundTrip(reqRename(b, "dc=x", true, nil))
		t, n := "cn=none,"+b, "x"
		c.roundTrip(reqPw(&t, nil, &n))
		c.close()
	case "write":
		c := in()
		c.roundTrip(reqAdd("cn=new,"+b, []Attr{{"cn", []string{"new"}}, {"objectClass", []string{"person"}}}))
		c.roundTrip(reqModify("cn=new,"+b, []Change{{"replace", "sn", []string{"x"}}}))
		c.roundTrip(reqRename("cn=new,"+b, "cn=new2", true, nil))
		c.roundTrip(reqDelete("cn=new2," + b))
		c.close()
	case "rebind":
		c := in()
		for i := 0; i < 5; i++ {
			c.roundTrip(reqBind("cn=user,"+b, "userpw"))
			c.roundTrip(reqSearch(b, "base", present("objectClass"), nil, 0))
		}
		c.close()
	case "large":
		c := in()
		v := strings.Repeat("0123456789", 40000)
		c.roundTrip(reqModify("cn=none,"+b, []Change{{"add", "description", []string{v}}}))
		c.roundTrip(reqSearch(b, "sub", &Filter{K: "eq", T: "description", V: v}, nil, 0))
		c.close()
	case "many":
		var wg sync.WaitGroup
		for i := 0; i < 12; i++ {
			c := dial(i%3 == 0)
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.roundTrip(reqBind("cn=user,"+b, "userpw"))
				c.roundTrip(reqSearch(b, "sub", present("sn"), nil, 0))
				c.close()
			}()
		}
		wg.Wait()
	case "extended":
		c := in()
		t, n := "cn=none,"+b, "x"
		c.roundTrip(reqPw(&t, nil, &n))
		c.roundTrip(extended("1.2.3.4.5", nil))
		c.close()
	case "reload", "badreload":
		text := ldifText(nil, protoEntries(p.base))
		if kind == "badreload" {
			text += "\nthis is no ldif\n"
		}
		replaceFile(w.main, text)
		must(p.srv.cmd.Process.Signal(syscall.SIGHUP))
		time.Sleep(8 * time.Millisecond)
	default:
		fatal("unknown kind %s", kind)
	}
	count("use."+kind, 1)
	count("ops", 1)
}

// writes changes the directory without adding anything and notes the size of the database.
func (w *XWorld) writes(few, many int) {
	size := func() int {
		fi, err := os.Stat(w.p.db)
		must(err)
		return int(fi.Size() / 1024)
	}
	c := w.p.bound(w.p.admin.str(), "adminpw")
	if c == nil {
		w.dead(fmt.Errorf("cannot bind"))
	}
	defer c.close()
	b := w.p.base.str()
	step := func(i int) {
		if a := c.roundTrip(reqModify("cn=e"+itoa(i%30)+","+b, []Change{{"replace", "description", []string{"text " + itoa(i%10)}}})); a.Code < 0 {
			w.dead(fmt.Errorf("modify: %d", a.Code))
		}
		count("changes", 1)
	}
	kinds := []string{"reset", "unread", "cutanswer", "paged", "limited", "badfilter", "outside", "failedbind", "failedwrite", "rebind", "strange", "half"}
	for i := 0; i < few; i++ {
		step(i)
	}
	w.p.t.put(R{"ev": "few", "size": size()})
	for i := 0; i < many; i++ {
		step(i)
		if i%10 == 0 {
			w.use(kinds[i/10%len(kinds)])
		}
	}
	w.p.t.put(R{"ev": "many", "size": size()})
}

func runLeaks(t *Trace, seed int64, backend string, times, many int) {
	w := newXWorld(t, rand.New(rand.NewSource(seed)), backend)
	defer w.p.srv.kill()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(serverGone); !ok {
				panic(e)
			}
		}
	}()
	if backend == "boltdb" {
		w.writes(200, many)
	}
	kinds := append([]string{}, leakKinds...)
	if backend == "ldif" {
		kinds = append(kinds, "reload", "badreload")
	}
	w.r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	for i, k := range kinds {
		if i%6 == 5 {
			c, err := w.p.dial(i%4 == 3)
			if err != nil {
				w.dead(err)
			}
			c.roundTrip(reqBind("cn=user,"+w.p.base.str(), "userpw"))
			w.open = append(w.open, c)
		}
		for j := 0; j < times; j++ {
			w.use(k)
		}
		t.put(R{"ev": "used", "kind": k, "times": times, "open": len(w.open), "v": w.low(5*time.Second, false)})
		count("looks", 1)
	}
	t.put(R{"ev": "end", "open": len(w.open), "v": w.low(150*time.Second, true)})
	for _, c := range w.open {
		c.close()
	}
	w.open = nil
	t.put(R{"ev": "end", "open": 0, "v": w.low(10*time.Second, true)})
}

func init() {
	drivers["leaks"] = func(c *Ctx) {
		answerTimeout = 15 * time.Second
		t := newTrace(c.out)
		runLeaks(t, c.seed, c.args[0], c.scale(40, 150), c.scale(1500, 8000))
		t.close()
	}
}
