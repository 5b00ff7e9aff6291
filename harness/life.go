package main

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Lives of the server program: starts, signals, ends (judged by TraceLifecycle).

const (
	lifePatience = 30 * time.Second // for what takes the server some milliseconds
	lifeBase     = "dc=example,dc=org"
	lifeAdmin    = "cn=admin,dc=example,dc=org"
)

type life struct {
	r       *rand.Rand
	ev      []R
	backend string
	addr    map[string]string // of the listeners
	args    []string
	db      string
	ldif    string // name and content of the LDIF file
	text    string
	srv     *Server
	conns   []*Client
	names   *int64
	told    atomic.Bool
	load    []*loader
	loadWg  sync.WaitGroup
	done    bool // the server has ended
}

func newLife(r *rand.Rand, backend, listeners string) *life {
	w := &life{r: r, backend: backend, addr: map[string]string{}, names: new(int64)}
	base, _ := parseDN(lifeBase)
	w.args = []string{"--ldap-handler", backend, "--ldap-base-dn", lifeBase, "--ldap-admin-dn", lifeAdmin}
	if backend == "boltdb" {
		w.db = scratchPath("idm.db")
		writeDB(w.db, protoEntries(base))
		w.args = append(w.args, "--boltdb-file", w.db)
	} else {
		w.ldif, w.text = scratchPath("main.ldif"), ldifText(nil, protoEntries(base))
		must(os.WriteFile(w.ldif, []byte(w.text), 0o644))
		w.args = append(w.args, "--ldif-main", w.ldif)
	}
	if listeners != "ldaps" {
		w.addr["ldap"] = freeAddr()
		w.args = append(w.args, "--ldap-listen", w.addr["ldap"])
	} else {
		w.args = append(w.args, "--ldap-listen", "")
	}
	if listeners != "ldap" {
		w.addr["ldaps"] = freeAddr()
		c, k := makeCert()
		w.args = append(w.args, "--ldaps-listen", w.addr["ldaps"], "--tls-cert-file", c, "--tls-key-file", k)
	}
	w.put(R{"ev": "run", "backend": backend, "listeners": listeners})
	return w
}

func (w *life) put(x R) {
	w.ev = append(w.ev, x)
	count("ev."+x["ev"].(string), 1)
}

func exitCode(err error) int {
	if err == nil {
		return 0
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() != 0 {
		return x.ExitCode()
	}
	return 255
}

func (w *life) connect(on string) (*Client, error) {
	if on == "ldaps" {
		c, err := tls.DialWithDialer(&net.Dialer{Timeout: 10 * time.Second}, "tcp", w.addr[on], &tls.Config{InsecureSkipVerify: true})
		if err != nil {
			return nil, err
		}
		return newClient(c), nil
	}
	c, err := net.DialTimeout("tcp", w.addr[on], 10*time.Second)
	if err != nil {
		return nil, err
	}
	return newClient(c), nil
}

func (w *life) wait(d time.Duration) bool {
	select {
	case <-w.srv.done:
		return true
	case <-time.After(d):
		return false
	}
}

// start starts the server; early are signals sent as soon as it accepts a connection.
func (w *life) start(early ...syscall.Signal) bool {
	w.told.Store(false)
	w.done = false
	w.srv = spawn("", nil, w.args...)
	accepts := map[string]bool{}
	count("starts", 1)
	for end := time.Now().Add(lifePatience); len(accepts) < len(w.addr) && w.srv.alive() && time.Now().Before(end); {
		for on := range w.addr {
			if accepts[on] {
				continue
			}
			if c, err := net.DialTimeout("tcp", w.addr[on], time.Second); err == nil {
				c.Close()
				if len(accepts) == 0 && len(early) > 0 {
					w.put(R{"ev": "notice"})
					w.signal(early...)
					early = nil
				}
				accepts[on] = true
			}
		}
		if len(early) == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	ended := !w.srv.alive()
	if w.told.Load() {
		return true
	}
	w.put(R{"ev": "start", "valid": true, "wanted": sortedKeys(w.addr), "accepts": sortedKeys(accepts), "ended": ended, "code": exitCode(w.codeOf())})
	return !ended && len(accepts) == len(w.addr)
}

func (w *life) codeOf() error {
	if w.srv.alive() {
		return nil
	}
	return w.srv.err
}

var sigNames = map[syscall.Signal]string{syscall.SIGHUP: "HUP", syscall.SIGTERM: "TERM", syscall.SIGINT: "INT"}

func (w *life) signal(sigs ...syscall.Signal) {
	for _, s := range sigs {
		if s == syscall.SIGTERM || s == syscall.SIGINT {
			w.told.Store(true)
		}
	}
	for _, s := range sigs {
		if n := sigNames[s]; n != "" {
			w.put(R{"ev": "signal", "sig": n})
			count("sig."+n, 1)
		}
		w.srv.cmd.Process.Signal(s)
	}
}

// look notices a server that ended without being told to.
func (w *life) look() bool {
	if w.srv.alive() || w.done {
		return !w.done
	}
	w.end()
	return false
}

func (w *life) open(on string) {
	if w.addr[on] == "" {
		for on = range w.addr {
		}
	}
	c, err := w.connect(on)
	ok := err == nil
	if ok {
		user, pw := lifeAdmin, "adminpw"
		ok = c.roundTrip(reqBind(user, pw)).Code == 0
		w.conns = append(w.conns, c)
	}
	w.put(R{"ev": "open", "on": on, "ok": ok})
}

func (w *life) use() {
	for _, c := range w.conns {
		a := c.roundTrip(reqSearch(lifeBase, pick(w.r, []string{"base", "one"}), present("objectClass"), nil, 0))
		w.put(R{"ev": "use", "res": a.Code})
	}
}

func newName(n *int64) string { return fmt.Sprintf("w%d", atomic.AddInt64(n, 1)) }

func reqWrite(n string) func(c *Client) *Answer {
	return func(c *Client) *Answer {
		return c.roundTrip(reqAdd("cn="+n+","+lifeBase, []Attr{{"cn", []string{n}}, {"objectClass", []string{"person"}}, {"sn", []string{"written"}}}))
	}
}

func (w *life) write() {
	if len(w.conns) == 0 {
		w.open("ldap")
	}
	if w.backend == "ldif" || len(w.conns) == 0 {
		w.use()
		return
	}
	n := newName(w.names)
	a := reqWrite(n)(pick(w.r, w.conns))
	w.put(R{"ev": "write", "name": n, "res": a.Code})
}

type loader struct {
	sure, may []string
	bad       []int // answers other than success from before the end was ordered
}

// under starts clients that go on writing (or reading) until the server ends.
func (w *life) under(n int) {
	for i := 0; i < n; i++ {
		on := pick(w.r, sortedKeys(w.addr))
		c, err := w.connect(on)
		if err == nil && c.roundTrip(reqBind(lifeAdmin, "adminpw")).Code != 0 {
			err = fmt.Errorf("bind")
		}
		w.put(R{"ev": "open", "on": on, "ok": err == nil})
		if err != nil {
			continue
		}
		l := &loader{}
		w.load = append(w.load, l)
		w.loadWg.Add(1)
		go func() {
			defer w.loadWg.Done()
			defer c.close()
			for {
				var a *Answer
				n := ""
				if w.backend == "boltdb" {
					n = newName(w.names)
					a = reqWrite(n)(c)
				} else {
					a = c.roundTrip(reqSearch(lifeBase, "sub", present("objectClass"), nil, 0))
				}
				if a.Code != 0 && !w.told.Load() {
					l.bad = append(l.bad, a.Code)
				}
				switch {
				case a.Code == 0 && n != "":
					l.sure = append(l.sure, n)
				case a.Code < 0 && n != "":
					l.may = append(l.may, n)
				}
				if a.Code != 0 {
					return
				}
				count("loaded", 1)
			}
		}()
	}
}

// end waits for the end of the server and looks at what is left.
func (w *life) end() {
	ended := w.wait(lifePatience)
	held := []string{}
	if ended {
		for _, on := range sortedKeys(w.addr) {
			if !unused(w.addr[on]) {
				held = append(held, on)
			}
		}
	}
	code := exitCode(w.codeOf())
	if !ended {
		w.srv.kill()
		count("hanging", 1)
	}
	w.loadWg.Wait()
	sure, may := []string{}, []string{}
	for _, l := range w.load {
		sure, may = append(sure, l.sure...), append(may, l.may...)
		for _, b := range l.bad {
			w.ev = append([]R{w.ev[0]}, append(w.ev[1:], R{"ev": "use", "res": b})...)
		}
	}
	if len(w.load) > 0 {
		w.put(R{"ev": "load", "sure": sure, "may": may})
		w.load = nil
	}
	w.put(R{"ev": "end", "ended": ended, "code": code, "held": held})
	if w.backend == "boltdb" {
		d, err := readDB(w.db)
		names := []string{}
		if err == nil {
			for _, e := range d.Entries {
				if n := writtenName(e.DN); n != "" {
					names = append(names, n)
				}
			}
		}
		sort.Strings(names)
		w.put(R{"ev": "left", "names": names, "readable": err == nil})
	}
	for _, c := range w.conns {
		c.close()
	}
	w.conns = nil
	w.done = true
}

func writtenName(dn string) string {
	n := strings.SplitN(dn, ",", 2)[0]
	if strings.HasPrefix(strings.ToLower(n), "cn=w") {
		return n[3:]
	}
	return ""
}

// shown lists what a restarted server shows.
func (w *life) shown() {
	if w.backend != "boltdb" {
		return
	}
	on := pick(w.r, sortedKeys(w.addr))
	c, err := w.connect(on)
	if err != nil {
		w.put(R{"ev": "open", "on": on, "ok": false})
		return
	}
	defer c.close()
	c.roundTrip(reqBind(lifeAdmin, "adminpw"))
	a := c.roundTrip(reqSearch(lifeBase, "sub", &Filter{K: "eq", T: "sn", V: "written"}, []string{"cn"}, 0))
	w.put(R{"ev": "use", "res": a.Code})
	names := []string{}
	for _, e := range a.Entries {
		names = append(names, writtenName(e.DN))
	}
	sort.Strings(names)
	w.put(R{"ev": "left", "names": names})
}

const hup, term, intr = syscall.SIGHUP, syscall.SIGTERM, syscall.SIGINT

func (w *life) hups(n int) {
	for i := 0; i < n; i++ {
		if w.ldif != "" && chance(w.r, 0.3) {
			if bad := pick(w.r, []string{"", "objectClass: top\n", w.text + "\nthis is no ldif\n"}); bad != "" {
				replaceFile(w.ldif, bad)
			} else {
				must(os.Remove(w.ldif))
			}
			count("spoiled", 1)
			w.signal(hup)
			if chance(w.r, 0.5) {
				time.Sleep(time.Duration(w.r.Intn(3000)) * time.Microsecond)
			}
			replaceFile(w.ldif, w.text)
		}
		w.signal(hup)
		if chance(w.r, 0.2) {
			time.Sleep(time.Duration(w.r.Intn(500)) * time.Microsecond)
		}
	}
}

func (w *life) act(a string) {
	switch a {
	case "open":
		w.open("ldap")
	case "opens":
		w.open("ldaps")
	case "use":
		w.use()
	case "write":
		w.write()
	case "hup":
		w.hups(1)
	case "hups":
		w.hups(3 + w.r.Intn(20))
	case "frozen":
		w.signal(syscall.SIGSTOP, hup, hup, syscall.SIGCONT)
	case "pause":
		time.Sleep(time.Duration(w.r.Intn(30)) * time.Millisecond)
	default:
		fatal("act %q", a)
	}
}

func (w *life) finish(a string) {
	switch a {
	case "term":
		w.signal(term)
	case "int":
		w.signal(intr)
	case "hupterm":
		w.hups(1 + w.r.Intn(5))
		w.signal(hup, term)
	case "frozenterm":
		w.signal(syscall.SIGSTOP, hup, term, syscall.SIGCONT)
	case "frozenint":
		w.signal(syscall.SIGSTOP, intr, hup, syscall.SIGCONT)
	case "twice":
		w.signal(term, term)
	case "both":
		w.signal(intr, term)
	case "termhup":
		w.signal(term, hup)
	default:
		fatal("end %q", a)
	}
	w.end()
}

// all looks at all listeners and connections.
func (w *life) all() {
	for _, on := range sortedKeys(w.addr) {
		w.open(on)
	}
	w.use()
}

func lifeScript(r *rand.Rand, i int, acts []string, end string) []R {
	w := newLife(r, []string{"boltdb", "ldif"}[i%2], []string{"both", "ldap", "both", "ldaps"}[i/2%4])
	if !w.start() {
		w.srv.kill()
		return w.ev
	}
	for _, a := range acts {
		if !w.look() {
			return w.ev
		}
		w.act(a)
	}
	if chance(r, 0.5) {
		w.all()
	}
	if !w.look() {
		return w.ev
	}
	w.finish(end)
	// a second life on the same database and addresses
	if w.start() {
		w.shown()
		w.finish("term")
	} else {
		w.srv.kill()
	}
	return w.ev
}

func lifeWalk(t *Trace, c *Ctx, file string) {
	b, err := os.ReadFile(file)
	must(err)
	var j struct{ Acts, Ends []string }
	must(json.Unmarshal(b, &j))
	sort.Strings(j.Acts)
	sort.Strings(j.Ends)
	type script struct {
		acts []string
		end  string
	}
	var ss []script
	var grow func(pre []string, n int)
	grow = func(pre []string, n int) {
		for _, e := range j.Ends {
			ss = append(ss, script{pre, e})
		}
		if n == 0 {
			return
		}
		for _, a := range j.Acts {
			grow(append(append([]string{}, pre...), a), n-1)
		}
	}
	grow(nil, c.scale(2, 3))
	count("scripts", len(ss))
	// both backends meet each of them
	sideBySide(t, 16, 2*len(ss), func(i int) []R {
		s := ss[i/2]
		return lifeScript(rand.New(rand.NewSource(c.seed*7919+int64(i))), i%2+2*(i/2+i/14), s.acts, s.end)
	})
}

func lifeRandom(r *rand.Rand, i int) []R {
	w := newLife(r, []string{"boltdb", "ldif"}[i%2], pick(r, []string{"both", "ldap", "ldaps"}))
	acts := []string{"open", "opens", "use", "write", "hup", "hups", "frozen", "pause"}
	ends := []string{"term", "int", "hupterm", "frozenterm", "frozenint", "twice", "both", "termhup"}
	for lives := 1 + r.Intn(3); lives > 0; lives-- {
		var early []syscall.Signal
		if chance(r, 0.5) {
			for n := 1 + r.Intn(4); n > 0; n-- {
				early = append(early, hup)
			}
			if chance(r, 0.2) {
				early = append(early, pick(r, []syscall.Signal{term, intr}))
			}
			count("early", 1)
		}
		if !w.start(early...) {
			w.srv.kill()
			return w.ev
		}
		if w.told.Load() {
			w.end()
			continue
		}
		w.shown()
		loaded := chance(r, 0.6)
		if loaded {
			w.under(1 + r.Intn(6))
		}
		for n := r.Intn(8); n > 0; n-- {
			if !w.look() {
				return w.ev
			}
			w.act(pick(r, acts))
		}
		if chance(r, 0.5) {
			w.all()
		}
		if !w.look() {
			return w.ev
		}
		if loaded {
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
		w.finish(pick(r, ends))
	}
	return w.ev
}

// config is a way to start the server.
type config struct {
	name  string
	valid bool
	args  func(d string) []string
}

func lifeConfigs() []config {
	base, _ := parseDN(lifeBase)
	es := protoEntries(base)
	cert, key := makeCert()
	_, key2 := makeCert()
	file := func(d, name, text string) string {
		f := filepath.Join(d, name)
		must(os.WriteFile(f, []byte(text), 0o644))
		return f
	}
	bolt := func(more ...string) func(d string) []string {
		return func(d string) []string {
			db := filepath.Join(d, "idm.db")
			writeDB(db, es)
			return append([]string{"--ldap-handler", "boltdb", "--ldap-base-dn", lifeBase, "--ldap-admin-dn", lifeAdmin, "--boltdb-file", db}, more...)
		}
	}
	ldif := func(text string, more ...string) func(d string) []string {
		return func(d string) []string {
			return append([]string{"--ldap-handler", "ldif", "--ldap-base-dn", lifeBase, "--ldif-main", file(d, "main.ldif", text)}, more...)
		}
	}
	inDir := func(f func(d string) []string, g func(d string) []string) func(d string) []string {
		return func(d string) []string { return append(f(d), g(d)...) }
	}
	text := ldifText(nil, es)
	tlsArgs := func(c, k string) []string {
		return []string{"--ldaps-listen", freeAddr(), "--tls-cert-file", c, "--tls-key-file", k}
	}
	return []config{
		{"bolt", true, bolt()},
		{"bolt new file", true, inDir(bolt(), func(d string) []string { return []string{"--boltdb-file", filepath.Join(d, "new.db")} })},
		{"bolt base spelled otherwise", true, bolt("--ldap-base-dn", "DC=Example, dc=ORG")},
		{"bolt tls", true, inDir(bolt(), func(d string) []string { return tlsArgs(cert, key) })},
		{"bolt with metrics", true, inDir(bolt(), func(d string) []string { return []string{"--with-metrics", "--metrics-listen", freeAddr()} })},
		{"ldif", true, ldif(text)},
		{"ldif with config", true, inDir(ldif(text), func(d string) []string { return []string{"--ldif-config", file(d, "config.ldif", "")} })},
		{"ldif tls", true, inDir(ldif(text), func(d string) []string { return tlsArgs(cert, key) })},

		{"unknown backend", false, bolt("--ldap-handler", "mysql")},
		{"empty backend", false, bolt("--ldap-handler", "")},
		{"unknown flag", false, bolt("--no-such-flag")},
		{"bad log level", false, bolt("--log-level", "loud")},
		{"bolt bad base", false, bolt("--ldap-base-dn", "nonsense")},
		{"bolt bad base 2", false, bolt("--ldap-base-dn", "dc=example,,dc=org")},
		{"bolt bad admin", false, bolt("--ldap-admin-dn", "nonsense")},
		{"bolt no directory", false, inDir(bolt(), func(d string) []string { return []string{"--boltdb-file", filepath.Join(d, "no", "such", "idm.db")} })},
		{"bolt directory", false, inDir(bolt(), func(d string) []string { return []string{"--boltdb-file", d} })},
		{"bolt garbage", false, inDir(bolt(), func(d string) []string {
			return []string{"--boltdb-file", file(d, "junk.db", strings.Repeat("garbage ", 4096))}
		})},
		{"bolt short garbage", false, inDir(bolt(), func(d string) []string { return []string{"--boltdb-file", file(d, "junk.db", "garbage")} })},
		{"ldif missing", false, inDir(ldif(text), func(d string) []string { return []string{"--ldif-main", filepath.Join(d, "missing.ldif")} })},
		{"ldif unset", false, ldif(text, "--ldif-main", "")},
		{"ldif broken", false, ldif("objectClass: top\n")},
		{"ldif broken 2", false, ldif(text + "\nthis is no ldif\n")},
		{"ldif broken base64", false, ldif(text + "\ndn: cn=x," + lifeBase + "\ncn:: ***\n")},
		{"ldif broken template", false, ldif(text + "\ndn: cn=x," + lifeBase + "\ncn: {{nosuchfunction}}\n")},
		{"ldif bad base", false, ldif(text, "--ldap-base-dn", "nonsense")},
		{"ldif config missing", false, inDir(ldif(text), func(d string) []string { return []string{"--ldif-config", filepath.Join(d, "missing.ldif")} })},
		{"ldif config broken", false, inDir(ldif(text), func(d string) []string { return []string{"--ldif-config", file(d, "config.ldif", "this is no ldif\n")} })},
		{"tls without certificate", false, inDir(bolt(), func(d string) []string { return tlsArgs("", "") })},
		{"tls without key", false, inDir(bolt(), func(d string) []string { return tlsArgs(cert, "") })},
		{"tls key without certificate", false, inDir(bolt(), func(d string) []string { return tlsArgs("", key) })},
		{"tls missing certificate", false, inDir(bolt(), func(d string) []string { return tlsArgs(filepath.Join(d, "missing.pem"), key) })},
		{"tls missing key", false, inDir(bolt(), func(d string) []string { return tlsArgs(cert, filepath.Join(d, "missing.pem")) })},
		{"tls other key", false, inDir(bolt(), func(d string) []string { return tlsArgs(cert, key2) })},
		{"tls garbage", false, inDir(bolt(), func(d string) []string { return tlsArgs(file(d, "junk.pem", "garbage"), key) })},
		{"tls swapped", false, inDir(ldif(text), func(d string) []string { return tlsArgs(key, cert) })},
		{"address without port", false, bolt("--ldap-listen", ownHost)},
		{"address with bad port", false, bolt("--ldap-listen", ownHost+":99999")},
		{"address of somebody else", false, bolt("--ldap-listen", "203.0.113.77:"+itoa(freePort()))},
		{"tls address without port", false, inDir(bolt(), func(d string) []string { return append(tlsArgs(cert, key), "--ldaps-listen", "nonsense") })},
		{"ldif address with bad port", false, ldif(text, "--ldap-listen", ownHost+":70000")},
		{"address in use", false, inDir(bolt(), func(d string) []string { return []string{"--ldap-listen", taken()} })},
		{"tls address in use", false, inDir(ldif(text), func(d string) []string { return append(tlsArgs(cert, key), "--ldaps-listen", taken()) })},
	}
}

var (
	takenOnce sync.Once
	takenBy   net.Listener
)

// taken is an address in use by this process.
func taken() string {
	takenOnce.Do(func() {
		l, err := net.Listen("tcp", ownHost+":0")
		must(err)
		takenBy = l // else it is closed when the garbage is collected
	})
	return takenBy.Addr().String()
}

func lifeConfig(r *rand.Rand, c config) []R {
	d := scratchPath("config")
	must(os.MkdirAll(d, 0o755))
	defer os.RemoveAll(d)
	args := c.args(d)
	ev := []R{{"ev": "run", "config": c.name}}
	addr := freeAddr()
	s := spawn(addr, nil, args...)
	wanted, accepts := []string{"ldap"}, []string{}
	if c.valid {
		if s.await(lifePatience) {
			accepts = wanted
		}
		ended := !s.alive()
		code := 0
		if ended {
			code = exitCode(s.err)
		}
		ev = append(ev, R{"ev": "start", "valid": true, "wanted": wanted, "accepts": accepts, "ended": ended, "code": code})
		s.stop()
		count("configs.valid", 1)
		return ev
	}
	ended, code := false, 0
	select {
	case <-s.done:
		ended, code = true, exitCode(s.err)
	case <-time.After(lifePatience):
		s.kill()
	}
	count("configs.invalid", 1)
	return append(ev, R{"ev": "start", "valid": false, "wanted": wanted, "accepts": accepts, "ended": ended, "code": code})
}

func init() {
	drivers["life"] = func(c *Ctx) {
		answerTimeout = 20 * time.Second
		t := newTrace(c.out)
		switch c.args[0] {
		case "random":
			sideBySide(t, 16, c.scale(150, 1500), func(i int) []R { return lifeRandom(rand.New(rand.NewSource(c.seed*4513+int64(i))), i) })
		case "configs":
			cs := lifeConfigs()
			sideBySide(t, 16, len(cs), func(i int) []R { return lifeConfig(rand.New(rand.NewSource(c.seed*97+int64(i))), cs[i]) })
		default:
			lifeWalk(t, c, c.args[0])
		}
		t.close()
	}
}
