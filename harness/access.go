package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"time"
)

// Reading without authentication (judged by TraceAccess).

var (
	accessBinds    = []string{"good", "anon", "unauth", "pwonly", "wrong", "unknown", "outside"}
	accessSearches = []string{"base", "one", "sub", "above", "paged", "resume"}
)

// place is where a connection seems to come from.
type place struct {
	name string
	loop bool
	dial func() (*Client, error)
}

type AWorld struct {
	t    *Trace
	r    *rand.Rand
	base DN
	srv  *Server
	home func() (*Client, error) // a place on the same machine
}

func (w *AWorld) request(c *Client, kind string) {
	b := w.base.str()
	user, e := "cn=user,"+b, "cn=e"+itoa(w.r.Intn(30))+","+b
	var a *Answer
	switch kind {
	case "good":
		a = c.roundTrip(reqBind(user, "userpw"))
	case "anon":
		a = c.roundTrip(reqBind("", ""))
	case "unauth":
		a = c.roundTrip(reqBind(pick(w.r, []string{user, "cn=admin," + b, "cn=nopw," + b, b, "cn=nobody," + b}), ""))
	case "pwonly":
		a = c.roundTrip(reqBind(pick(w.r, []string{"", " "}), pick(w.r, []string{"userpw", "adminpw", "x"})))
	case "wrong":
		a = c.roundTrip(reqBind(user, pick(w.r, []string{"adminpw", "userp", "userpw ", "USERPW", "\x00"})))
	case "unknown":
		a = c.roundTrip(reqBind(pick(w.r, []string{"cn=nobody," + b, "cn=nopw," + b, "cn=x,cn=user," + b}), "userpw"))
	case "outside":
		a = c.roundTrip(reqBind(pick(w.r, []string{"cn=user,dc=other", "cn=user", "dc=org", "cn=anonymous", "user"}), "userpw"))
	}
	if a != nil {
		w.t.put(R{"ev": "bind", "kind": kind, "res": a.Code})
		count("op.bind", 1)
		return
	}
	f := pick(w.r, []*Filter{present("objectClass"), {K: "or", Fs: []*Filter{present("cn"), present("objectClass")}}, {K: "not", Fs: []*Filter{{K: "eq", T: "cn", V: "nothing"}}}})
	attrs := pick(w.r, [][]string{nil, {"cn"}, {"1.1"}, {"*", "+"}})
	switch kind {
	case "base":
		a = c.roundTrip(reqSearch(e, "base", f, attrs, 0))
	case "one":
		a = c.roundTrip(reqSearch(b, "one", f, attrs, w.r.Intn(3)))
	case "sub":
		a = c.roundTrip(reqSearch(b, "sub", f, attrs, w.r.Intn(3)))
	case "above":
		a = c.roundTrip(reqSearch(pick(w.r, []string{"", "dc=org", "dc=other", "cn=config", "cn=subschema"}), pick(w.r, []string{"base", "one", "sub"}), f, attrs, 0))
	case "paged":
		a = c.roundTrip(reqSearch(b, "sub", f, attrs, 0), pagingControl(int64(1+w.r.Intn(40)), nil))
	case "resume":
		// Somebody else has begun a paged search.
		var cookie []byte
		if o, err := w.home(); err == nil {
			if o.roundTrip(reqBind(user, "userpw")).Code == 0 {
				if first := o.roundTrip(reqSearch(b, "sub", f, nil, 0), pagingControl(2, nil)); first.Final != nil {
					cookie = first.Final.Cookie
				}
			}
			defer o.close()
		}
		if len(cookie) > 0 {
			count("cookies", 1)
		} else {
			cookie = []byte("1")
		}
		a = c.roundTrip(reqSearch(b, "sub", f, nil, 0), pagingControl(int64(1+w.r.Intn(4)), cookie))
	}
	w.t.put(R{"ev": "search", "kind": kind, "n": len(a.Entries), "res": a.Code})
	count("op.search", 1)
	if len(a.Entries) > 0 {
		count("op.read", 1)
	}
}

func (w *AWorld) sequence(p place, kinds []string) {
	c, err := p.dial()
	if err != nil {
		if !w.srv.alive() {
			w.t.put(R{"ev": "dead"})
		}
		return
	}
	defer c.close()
	w.t.put(R{"ev": "open", "from": p.name, "loop": p.loop})
	count("sequences", 1)
	for _, k := range kinds {
		w.request(c, k)
	}
}

// explore puts connections from a place through all sequences of some length and longer random ones.
func (w *AWorld) explore(p place, depth, random int) {
	all := append(append([]string{}, accessBinds...), accessSearches...)
	var rec func(pre []string)
	rec = func(pre []string) {
		if len(pre) == depth {
			w.sequence(p, pre)
			return
		}
		for _, k := range all {
			rec(append(append([]string{}, pre...), k))
		}
	}
	rec(nil)
	for i := 0; i < random; i++ {
		ks := []string{}
		for n := 3 + w.r.Intn(6); n > 0; n-- {
			ks = append(ks, pick(w.r, all))
		}
		w.sequence(p, ks)
	}
	count("places", 1)
}

var claimedAddrs = []struct {
	a    string
	loop bool
}{
	{"127.0.0.1", true}, {"127.0.0.53", true}, {"127.255.255.254", true}, {"[::1]", true}, {"[::ffff:127.0.0.1]", true},
	{"10.0.0.1", false}, {"10.127.0.1", false}, {"172.16.4.4", false}, {"192.168.1.1", false}, {"169.254.1.1", false}, {"100.64.0.1", false},
	{"0.0.0.0", false}, {"[::]", false}, {"8.8.8.8", false}, {"126.255.255.255", false}, {"128.0.0.1", false}, {"1.0.0.127", false}, {"12.7.0.0", false},
	{"[2001:db8::1]", false}, {"[fe80::1]", false}, {"[fc00::1]", false}, {"[::ffff:10.0.0.1]", false}, {"[::2]", false}, {"[1::1]", false}, {"[::127.0.0.1]", false},
	{"[64:ff9b::127.0.0.1]", false}, {"[7f00:1::]", false}, {"224.0.0.1", false}, {"255.255.255.255", false},
}

func dialTo(addr string, hello string) func() (*Client, error) {
	return func() (*Client, error) {
		c, err := dial(addr)
		if err == nil && hello != "" {
			c.c.Write([]byte(hello))
		}
		return c, err
	}
}

func runAccess(t *Trace, seed int64, lib, backend string, allow bool, depth, random int) {
	base, _ := parseDN("dc=example,dc=org")
	w := &AWorld{t: t, r: rand.New(rand.NewSource(seed)), base: base}
	dbf, mainf := scratchPath("idm.db"), scratchPath("main.ldif")
	if backend == "boltdb" {
		writeDB(dbf, protoEntries(base))
	} else {
		must(os.WriteFile(mainf, []byte(ldifText(nil, protoEntries(base))), 0o644))
	}
	var places []place
	admin := "cn=admin," + base.str()
	for i := 0; ; i++ {
		port, port2 := freePort(), freePort()
		home := fmt.Sprintf("127.0.0.1:%d", port)
		if lib != "" {
			claim := fmt.Sprintf("127.0.0.1:%d", port2)
			w.srv = spawnLib(lib, home, "-handler", backend, "-base", base.str(), "-admin", admin, "-db", dbf, "-main", mainf, "-claim", claim, fmt.Sprintf("-anon=%v", allow))
			for _, a := range claimedAddrs {
				places = append(places, place{a.a, a.loop, dialTo(claim, fmt.Sprintf("%s:%d\n", a.a, 1024+w.r.Intn(60000)))})
			}
			w.home = dialTo(claim, "127.0.0.1:4000\n")
			for deadline := time.Now().Add(10 * time.Second); time.Now().Before(deadline) && w.srv.alive() && !listening(claim); time.Sleep(3 * time.Millisecond) {
			}
		} else {
			on := "[::]"
			if l, err := net.Listen("tcp", "[::1]:0"); err != nil {
				on = "0.0.0.0"
			} else {
				l.Close()
			}
			args := []string{"--ldap-handler", backend, "--ldap-base-dn", base.str(), "--ldap-admin-dn", admin, "--boltdb-file", dbf, "--ldif-main", mainf}
			if allow {
				args = append(args, "--ldap-allow-local-anonymous")
			}
			w.srv = spawn(fmt.Sprintf("%s:%d", on, port), nil, args...)
			ips := []net.IP{net.ParseIP("127.0.0.1"), net.ParseIP("127.3.4.5")}
			addrs, _ := net.InterfaceAddrs()
			for _, a := range addrs {
				if n, ok := a.(*net.IPNet); ok && !n.IP.Equal(ips[0]) && !n.IP.IsLinkLocalUnicast() && (n.IP.To4() != nil || on == "[::]") {
					ips = append(ips, n.IP)
				}
			}
			for _, ip := range ips {
				to := net.JoinHostPort(ip.String(), itoa(port))
				// The system takes the same address for the client.
				loop := strings.HasPrefix(ip.String(), "127.") || ip.String() == "::1"
				if !loop {
					count("remote", 1)
				}
				places = append(places, place{"real " + ip.String(), loop, dialTo(to, "")})
			}
			w.home = dialTo(home, "")
		}
		if w.listens(home) {
			break
		}
		if i > 5 {
			fatal("cannot start server: %s", w.srv.stderr.String())
		}
		w.srv.kill()
		places = nil
	}
	t.put(R{"ev": "run", "allow": allow, "backend": backend})
	count("runs", 1)
	for i, p := range places {
		d := depth
		if lib != "" && i != 1 && i != 8 {
			d = min(d, 2)
		}
		w.explore(p, d, random)
	}
	if !w.srv.alive() {
		t.put(R{"ev": "dead"})
	}
	w.srv.kill()
}

func (w *AWorld) listens(addr string) bool {
	for deadline := time.Now().Add(20 * time.Second); time.Now().Before(deadline) && w.srv.alive(); time.Sleep(3 * time.Millisecond) {
		if listening(addr) {
			return true
		}
	}
	return false
}

func init() {
	drivers["access"] = func(c *Ctx) {
		answerTimeout = 10 * time.Second
		t := newTrace(c.out)
		lib := ""
		if len(c.args) > 1 {
			lib = c.args[1]
		}
		for i, allow := range []bool{true, false} {
			runAccess(t, c.seed*31+int64(i), lib, c.args[0], allow, c.scale(2, 3), c.scale(20, 300))
		}
		t.close()
	}
}
