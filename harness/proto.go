package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
)

// Conversations on the level of the protocol (judged by TraceConn).

type PWorld struct {
	t       *Trace
	rng     *rand.Rand
	srv     *Server
	backend string
	db      string
	base    DN
	admin   DN
	tlsAddr string
	args    []string
	wrap    []string
	dir     string
	other   *Client
	n       int
}

func makeCert() (string, string) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Unix(0, 0),
		NotAfter: time.Now().Add(time.Hour * 24 * 365), DNSNames: []string{"localhost"}}
	der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, &key.PublicKey, key)
	must(err)
	kb, err := x509.MarshalECPrivateKey(key)
	must(err)
	c, k := scratchPath("cert.pem"), scratchPath("key.pem")
	must(os.WriteFile(c, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	must(os.WriteFile(k, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600))
	return c, k
}

func protoEntries(base DN) []Entry {
	es := []Entry{
		{base.str(), []Attr{{"dc", []string{"example"}}, {"objectClass", []string{"domain"}}}},
		{base.child(AVA{"cn", "admin"}).str(), []Attr{{"cn", []string{"admin"}}, {"objectClass", []string{"person"}}, {"userPassword", []string{"adminpw"}}}},
		{base.child(AVA{"cn", "user"}).str(), []Attr{{"cn", []string{"user"}}, {"objectClass", []string{"person"}}, {"userPassword", []string{"userpw"}}}},
	}
	for i := 0; i < 30; i++ {
		n := "e" + itoa(i)
		es = append(es, Entry{base.child(AVA{"cn", n}).str(), []Attr{{"cn", []string{n}}, {"objectClass", []string{"person"}}, {"sn", []string{"S" + itoa(i%7)}},
			{"description", []string{"some text " + itoa(i), "other text"}}}})
	}
	es = append(es, Entry{base.child(AVA{"cn", "nopw"}).str(), []Attr{{"cn", []string{"nopw"}}, {"objectClass", []string{"person"}}}})
	for i := 0; i < hostileTargets; i++ {
		n := "t" + itoa(i)
		es = append(es, Entry{base.child(AVA{"cn", n}).str(), []Attr{{"cn", []string{n}}, {"sn", []string{n}}}})
	}
	return es
}

func newPWorld(t *Trace, r *rand.Rand, backend string, withTLS bool, wrap []string, extra ...string) *PWorld {
	base, _ := parseDN("dc=example,dc=org")
	w := &PWorld{t: t, rng: r, backend: backend, base: base, admin: base.child(AVA{"cn", "admin"}), wrap: wrap}
	es := protoEntries(base)
	w.args = append([]string{"--ldap-handler", backend, "--ldap-base-dn", base.str(), "--ldap-admin-dn", w.admin.str()}, extra...)
	if backend == "boltdb" {
		w.db = scratchPath("idm.db")
		writeDB(w.db, es)
		w.args = append(w.args, "--boltdb-file", w.db)
	} else {
		d := scratchPath("ldif")
		must(os.MkdirAll(d, 0o755))
		must(os.WriteFile(filepath.Join(d, "main.ldif"), []byte(ldifText(nil, es)), 0o644))
		w.args = append(w.args, "--ldif-main", filepath.Join(d, "main.ldif"))
	}
	if withTLS {
		c, k := makeCert()
		w.tlsAddr = freeAddr()
		w.args = append(w.args, "--ldaps-listen", w.tlsAddr, "--tls-cert-file", c, "--tls-key-file", k)
	}
	w.start()
	return w
}

func (w *PWorld) start() {
	for i := 0; ; i++ {
		w.srv = spawn(freeAddr(), w.wrap, w.args...)
		if w.up() {
			break
		}
		if i > 5 {
			fatal("cannot start server: %s", w.srv.stderr.String())
		}
		w.srv.kill()
	}
	w.dir = w.digest()
	w.t.put(R{"ev": "run", "dir": w.dir})
	count("runs", 1)
	w.other = w.bound(w.admin.str(), "adminpw")
}

func (w *PWorld) up() bool {
	for _, a := range []string{w.srv.addr, w.tlsAddr} {
		if a == "" {
			continue
		}
		ok := false
		for deadline := time.Now().Add(20 * time.Second); !ok && time.Now().Before(deadline) && w.srv.alive(); time.Sleep(3 * time.Millisecond) {
			if c, err := net.DialTimeout("tcp", a, time.Second); err == nil {
				c.Close()
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return w.srv.alive()
}

func (w *PWorld) dial(useTLS bool) (*Client, error) {
	if useTLS && w.tlsAddr != "" {
		d := &net.Dialer{Timeout: 5 * time.Second}
		c, err := tls.DialWithDialer(d, "tcp", w.tlsAddr, &tls.Config{InsecureSkipVerify: true})
		if err != nil {
			return nil, err
		}
		return newClient(c), nil
	}
	c, err := net.DialTimeout("tcp", w.srv.addr, 5*time.Second)
	if err != nil {
		return nil, err
	}
	return newClient(c), nil
}

// bound is a connection for probing; nil if that is not possible.
func (w *PWorld) bound(dn, pw string) *Client {
	c, err := w.dial(false)
	if err != nil {
		return nil
	}
	if a := c.roundTrip(reqBind(dn, pw)); a.Code != 0 {
		c.close()
		return nil
	}
	return c
}

// digest identifies the content of the directory.
func (w *PWorld) digest() string {
	if w.backend != "boltdb" {
		return "ldif"
	}
	for i := 0; i < 20; i++ {
		if d, err := rawDigest(w.db); err == nil {
			return d
		}
		time.Sleep(20 * time.Millisecond)
	}
	return "unreadable"
}

func (w *PWorld) end() {
	if w.other != nil {
		w.other.close()
	}
	if w.srv.alive() {
		w.srv.kill()
	}
}

// ---- pipelines (C19) --------------------------------------------------------------------

type preq struct {
	kind string
	ok   bool
	op   *ber.Packet
	ctl  []*ber.Packet
	last bool // the server may end the connection after it
}

func extended(oid string, val *string) *ber.Packet {
	p := app(23, true)
	p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, oid, ""))
	if val != nil {
		p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 1, *val, ""))
	}
	return p
}

func reqCompare(dn, t, v string) *ber.Packet {
	p := app(14, true)
	p.AppendChild(octet(dn))
	a := ber.NewSequence("")
	a.AppendChild(octet(t))
	a.AppendChild(octet(v))
	p.AppendChild(a)
	return p
}

func reqSASL(mech string) *ber.Packet {
	p := app(0, true)
	p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, 3, ""))
	p.AppendChild(octet(""))
	s := ber.Encode(ber.ClassContext, ber.TypeConstructed, 3, nil, "")
	s.AppendChild(octet(mech))
	s.AppendChild(octet("cred"))
	p.AppendChild(s)
	return p
}

func reqBindVersion(v int64, dn, pw string) *ber.Packet {
	p := app(0, true)
	p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, v, ""))
	p.AppendChild(octet(dn))
	p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pw, ""))
	return p
}

func (w *PWorld) someDN(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return w.base.str()
	case 1:
		return "cn=nobody," + w.base.str()
	case 2:
		return "cn=user," + w.base.str()
	}
	return "cn=e" + itoa(r.Intn(32)) + "," + w.base.str()
}

func unsupportedFilter(r *rand.Rand) *ber.Packet {
	switch r.Intn(4) {
	case 0, 1, 2:
		return (&Filter{K: pick(r, []string{"ge", "le", "approx"}), T: "cn", V: "e1"}).packet()
	default:
		p := ber.Encode(ber.ClassContext, ber.TypeConstructed, 9, nil, "")
		p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 1, "caseExactMatch", ""))
		p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 2, "cn", ""))
		p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 3, "e1", ""))
		return p
	}
}

func unknownControl(critical bool) *ber.Packet {
	c := ber.NewSequence("")
	c.AppendChild(octet("1.2.3.4.5.6"))
	if critical {
		c.AppendChild(ber.NewBoolean(ber.ClassUniversal, ber.TypePrimitive, ber.TagBoolean, true, ""))
	}
	return c
}

// request makes a random request. bound: the connection is bound, so that searches are allowed.
func (w *PWorld) request(r *rand.Rand, last bool) preq {
	d := w.someDN(r)
	if last {
		switch r.Intn(9) {
		case 0, 1:
			return preq{kind: "unbind", ok: true, op: reqUnbind(), last: true}
		case 2:
			return preq{kind: "compare", op: reqCompare(d, "cn", "x"), last: true}
		case 3:
			return preq{kind: "unknown", op: ber.NewInteger(ber.ClassApplication, ber.TypePrimitive, 16, int64(1+r.Intn(5)), ""), last: true} // abandon
		case 4:
			return preq{kind: "unknown", op: app(pick(r, []int{17, 21, 25, 26, 30}), true), last: true}
		case 5:
			return preq{kind: "extended", op: extended(pick(r, []string{"1.3.6.1.4.1.1466.20037", "1.3.6.1.4.1.4203.1.11.3", "1.1.1", ""}), nil), last: true}
		case 6:
			if r.Intn(2) == 0 {
				return preq{kind: "bind", op: reqSASL(pick(r, []string{"PLAIN", "EXTERNAL", "DIGEST-MD5"})), last: true}
			}
			return preq{kind: "bind", op: reqBindVersion(int64(pick(r, []int{1, 2, 4})), "cn=user,"+w.base.str(), "userpw"), last: true}
		case 7:
			sup := "cn=e1," + w.base.str()
			return preq{kind: "rename", op: reqRename("cn=e3,"+w.base.str(), "cn=moved", false, &sup), last: true}
		default:
			return preq{kind: "search", op: reqSearchRaw(w.base.str(), 2, unsupportedFilter(r), nil, 0), last: true}
		}
	}
	var p preq
	p.ok = true
	switch r.Intn(14) {
	case 0, 1:
		p.kind, p.op = "bind", reqBind("cn=user,"+w.base.str(), "userpw")
	case 2, 3:
		p.kind, p.op = "bind", reqBind(w.admin.str(), pick(r, []string{"adminpw", "adminpw", "adminpw", "wrong"}))
	case 4:
		p.kind, p.op = "bind", reqBind(pick(r, []string{"", d, "garbage", "cn=x"}), pick(r, []string{"", "x"}))
	case 5:
		p.kind, p.op = "add", reqAdd("cn=n"+itoa(r.Intn(10))+","+w.base.str(), []Attr{{"cn", []string{"n"}}, {"objectClass", []string{"person"}}})
	case 6:
		p.kind, p.op = "delete", reqDelete(pick(r, []string{"cn=n" + itoa(r.Intn(10)) + "," + w.base.str(), d + "x"}))
	case 7:
		p.kind, p.op = "modify", reqModify(d, []Change{{pick(r, []string{"add", "replace", "delete"}), "description", []string{"v" + itoa(r.Intn(5))}}})
	case 8:
		p.kind, p.op = "rename", reqRename("cn=n"+itoa(r.Intn(10))+","+w.base.str(), "cn=n"+itoa(r.Intn(10)), r.Intn(2) == 0, nil)
	case 9:
		n := "newpw"
		t := "cn=n1," + w.base.str()
		if r.Intn(6) > 0 { // few, hashing is slow
			t = "cn=nobody," + w.base.str()
			p.kind, p.op = "delete", reqDelete(t)
		} else {
			p.kind, p.op = "extended", reqPw(&t, nil, &n)
		}
	default:
		f := lfilter(r, nil, 1)
		if r.Intn(2) == 0 {
			f = present("objectClass")
		}
		limit := 0
		if r.Intn(4) == 0 {
			limit = r.Intn(5)
		}
		b := d
		if r.Intn(2) == 0 {
			b = w.base.str()
		}
		var attrs []string
		if r.Intn(3) == 0 {
			for k := r.Intn(12); k >= 0; k-- {
				attrs = append(attrs, pick(r, []string{"cn", "sn", "description", "objectClass", "mail", "uid", "none", "*", "+", "1.1"}))
			}
		}
		p.kind, p.op = "search", reqSearch(b, pick(r, []string{"base", "one", "sub", "sub"}), f, attrs, limit)
		if r.Intn(6) == 0 {
			p.ctl = append(p.ctl, pagingControl(int64(1+r.Intn(8)), nil))
		}
	}
	if r.Intn(12) == 0 {
		p.ctl = append(p.ctl, unknownControl(false))
	}
	return p
}

func (w *PWorld) converse(name string, r *rand.Rand, batches int) {
	var c *Client
	seq := int64(0)
	for b := 0; b < batches; b++ {
		if c == nil {
			var err error
			if c, err = w.dial(r.Intn(3) == 0); err != nil {
				return // seen by the probe
			}
			w.t.put(R{"ev": "open", "conn": name})
			count("conns", 1)
		}
		var reqs []preq
		for i := 0; i < 1+r.Intn(8); i++ {
			reqs = append(reqs, w.request(r, false))
		}
		if r.Intn(4) == 0 {
			reqs = append(reqs, w.request(r, true))
		}
		var recs []R
		var data []byte
		for _, q := range reqs {
			var id int64
			switch r.Intn(4) {
			case 0:
				id = 1 + r.Int63n(1<<31-1)
			case 1:
				id = int64(pick(r, []int{1, 127, 128, 255, 256, 32767, 32768, 1<<31 - 1}))
			default:
				seq++
				id = seq
			}
			recs = append(recs, R{"id": id, "kind": q.kind, "ok": q.ok})
			data = append(data, envelope(id, q.op, q.ctl...).Bytes()...)
			count("op."+q.kind, 1)
			count("ops", 1)
			if !q.ok {
				count("unsupported", 1)
			}
		}
		w.t.put(R{"ev": "send", "conn": name, "reqs": recs})
		go func(c *Client, split, slow bool) {
			c.c.SetWriteDeadline(time.Now().Add(30 * time.Second))
			if !split {
				c.c.Write(data)
				return
			}
			rr := rand.New(rand.NewSource(int64(len(data))))
			for len(data) > 0 {
				n := 1 + rr.Intn(min(len(data), 40))
				if _, err := c.c.Write(data[:n]); err != nil {
					return
				}
				data = data[n:]
				if slow {
					time.Sleep(200 * time.Microsecond)
				}
			}
		}(c, r.Intn(2) == 0, r.Intn(3) == 0)
		open := w.drain(name, c, len(reqs), reqs[len(reqs)-1].kind == "unbind")
		if !open {
			c.close()
			c = nil
		} else if reqs[len(reqs)-1].last || r.Intn(6) == 0 {
			c.close()
			c = nil
			w.t.put(R{"ev": "close", "conn": name})
		}
	}
	if c != nil {
		w.t.put(R{"ev": "send", "conn": name, "reqs": []R{{"id": 99999, "kind": "unbind", "ok": true}}})
		c.sendID(99999, reqUnbind())
		w.drain(name, c, 1, true)
		c.close()
	}
}

// drain records messages until the given number of final answers, the end or silence.
func (w *PWorld) drain(name string, c *Client, finals int, toEnd bool) bool {
	for n := 0; n < finals || toEnd; {
		m, err := c.read(answerTimeout)
		if err != nil {
			switch err {
			case errTimeout:
				w.t.put(R{"ev": "silence", "conn": name})
				count("silences", 1)
			case io.EOF:
				w.t.put(R{"ev": "end", "conn": name})
				return false
			default:
				w.t.put(R{"ev": "garbled", "conn": name, "what": err.Error()})
			}
			w.t.put(R{"ev": "close", "conn": name})
			return false
		}
		if m.ID > 1<<31-1 || m.ID < 0 {
			m.ID = -1
		}
		w.t.put(R{"ev": "msg", "conn": name, "id": m.ID, "tag": m.Tag, "code": m.Code})
		count("messages", 1)
		if m.Tag != 4 {
			n++
		}
	}
	return true
}

func runPipeline(t *Trace, seed int64, runs, batches int) {
	for i := 0; i < runs; i++ {
		r := rand.New(rand.NewSource(seed*101 + int64(i)))
		backend := []string{"boltdb", "boltdb", "ldif"}[i%3]
		var extra []string
		if i%4 < 2 {
			extra = []string{"--with-metrics", "--metrics-listen", freeAddr()}
		}
		w := newPWorld(t, r, backend, i%2 == 0, nil, extra...)
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			wg.Add(1)
			name, rr := fmt.Sprintf("c%d", k), rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				w.converse(name, rr, batches)
			}()
		}
		wg.Wait()
		w.probe(true)
		w.end()
	}
}

// probe looks at the health of the server. may: the directory may have been changed.
func (w *PWorld) probe(may bool) bool {
	alive, other, fresh := w.srv.alive(), false, false
	if alive {
		if w.other != nil {
			a := w.other.roundTrip(reqSearch(w.base.str(), "base", present("objectClass"), nil, 0))
			other = a.Code == 0 && len(a.Entries) == 1
			if other && w.backend == "boltdb" {
				other = w.other.roundTrip(reqDelete("cn=nobody,"+w.base.str())).Code > 0
			}
		}
		if c := w.bound("cn=user,"+w.base.str(), "userpw"); c != nil {
			fresh = true
			c.close()
		}
		time.Sleep(time.Millisecond)
		alive = w.srv.alive()
		if !alive {
			other, fresh = false, false
		}
	}
	d := w.digest()
	rec := R{"ev": "probe", "alive": alive, "other": other, "fresh": fresh, "dir": d, "may": may}
	if !alive {
		s := w.srv.stderr.String()
		rec["what"] = enc(strings.SplitN(s+"\n", "\n", 2)[0])
	}
	w.t.put(rec)
	count("probes", 1)
	return alive && other
}

func init() {
	drivers["pipeline"] = func(c *Ctx) {
		answerTimeout = 20 * time.Second
		t := newTrace(c.out)
		runPipeline(t, c.seed, c.scale(6, 60), c.scale(60, 100))
		t.close()
	}
}
