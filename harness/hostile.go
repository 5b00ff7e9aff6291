package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
)

// Bad input of one client (judged by TraceConn).

// tnode is an encoded element.
type tnode struct {
	id   byte
	kids []*tnode
	val  []byte
	form int // encoding of the length: 0 shortest, 1 long, 2 indefinite, 3 one too large, 4 one too small, 5 huge
}

func (n *tnode) bytes() []byte {
	body := n.val
	if n.kids != nil {
		body = nil
		for _, k := range n.kids {
			body = append(body, k.bytes()...)
		}
	}
	l := len(body)
	out := []byte{n.id}
	switch n.form {
	case 1:
		out = append(out, 0x84, byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
		return append(out, body...)
	case 2:
		out = append(append(out, 0x80), body...)
		return append(out, 0, 0)
	case 3:
		l++
	case 4:
		if l > 0 {
			l--
		}
	case 5:
		out = append(out, 0x84, 0x7f, 0xff, 0xff, 0xff)
		return append(out, body...)
	}
	switch {
	case l < 128:
		out = append(out, byte(l))
	case l < 256:
		out = append(out, 0x81, byte(l))
	case l < 65536:
		out = append(out, 0x82, byte(l>>8), byte(l))
	default:
		out = append(out, 0x83, byte(l>>16), byte(l>>8), byte(l))
	}
	return append(out, body...)
}

// parseTLV decodes one element with a definite length.
func parseTLV(b []byte, depth int) (*tnode, []byte, bool) {
	if len(b) < 2 || b[0]&0x1f == 0x1f || depth > 50 {
		return nil, nil, false
	}
	n := &tnode{id: b[0]}
	l, h := int(b[1]), 2
	if l >= 128 {
		k := l - 128
		if k < 1 || k > 4 || len(b) < 2+k {
			return nil, nil, false
		}
		l = 0
		for _, x := range b[2 : 2+k] {
			l = l<<8 | int(x)
		}
		h += k
	}
	if l < 0 || len(b)-h < l {
		return nil, nil, false
	}
	n.val = b[h : h+l]
	if n.id&0x20 != 0 {
		n.kids = []*tnode{}
		for rest := n.val; len(rest) > 0; {
			k, r, ok := parseTLV(rest, depth+1)
			if !ok {
				return nil, nil, false
			}
			n.kids, rest = append(n.kids, k), r
		}
	}
	return n, b[h+l:], true
}

func (n *tnode) clone() *tnode {
	c := *n
	if n.kids != nil {
		c.kids = []*tnode{}
		for _, k := range n.kids {
			c.kids = append(c.kids, k.clone())
		}
	}
	return &c
}

func (n *tnode) record(ext bool) R {
	kids := []R{}
	for _, k := range n.kids {
		kids = append(kids, k.record(ext || n.id == 0x77))
	}
	if ext && n.id&^0x20 == 0x81 { // the body of an extended request
		if b, _, ok := parseTLV(n.val, 0); ok && n.id&0x20 == 0 {
			kids = append(kids, b.record(false))
		}
	}
	l := len(n.val)
	return R{"c": int(n.id >> 6), "t": int(n.id & 0x1f), "p": n.id&0x20 == 0, "n": l, "k": kids}
}

// alter calls f for the tree with one alteration, for every position and every alteration.
func alter(root *tnode, f func(*tnode, string)) {
	var all [][]int
	var walk func(n *tnode, path []int)
	walk = func(n *tnode, path []int) {
		all = append(all, append([]int{}, path...))
		for i, k := range n.kids {
			walk(k, append(path, i))
		}
	}
	walk(root, nil)
	at := func(r *tnode, path []int) *tnode {
		for _, i := range path {
			r = r.kids[i]
		}
		return r
	}
	edit := func(path []int, what string, g func(n *tnode)) {
		c := root.clone()
		g(at(c, path))
		f(c, fmt.Sprint(path, what))
	}
	for _, p := range all {
		edit(p, "int", func(n *tnode) { *n = tnode{id: 0x02, val: []byte{5}} })
		edit(p, "str", func(n *tnode) { *n = tnode{id: 0x04, val: []byte("zz")} })
		edit(p, "nul", func(n *tnode) { *n = tnode{id: 0x05} })
		edit(p, "seq", func(n *tnode) { *n = tnode{id: 0x30, kids: []*tnode{}} })
		edit(p, "boo", func(n *tnode) { *n = tnode{id: 0x01, val: []byte{0xff}} })
		edit(p, "nested", func(n *tnode) { *n = tnode{id: 0x30, kids: []*tnode{n.clone()}} })
		edit(p, "empty", func(n *tnode) {
			n.val = nil
			if n.kids != nil {
				n.kids = []*tnode{}
			}
		})
		edit(p, "cls", func(n *tnode) { n.id ^= 0x40 })
		edit(p, "ctx", func(n *tnode) { n.id ^= 0x80 })
		edit(p, "tag", func(n *tnode) { n.id = n.id&0xe0 | (n.id+1)&0x1f })
		edit(p, "con", func(n *tnode) {
			v := n.bytes()
			n.id ^= 0x20
			if n.kids != nil {
				n.val, n.kids = v[2:], nil
			}
		})
		edit(p, "hightag", func(n *tnode) { n.id |= 0x1f })
		for form := 1; form <= 5; form++ {
			edit(p, "len"+itoa(form), func(n *tnode) { n.form = form })
		}
		if len(p) > 0 {
			par, i := p[:len(p)-1], p[len(p)-1]
			edit(par, "drop"+itoa(i), func(n *tnode) { n.kids = append(n.kids[:i:i], n.kids[i+1:]...) })
			edit(par, "cut"+itoa(i), func(n *tnode) { n.kids = n.kids[:i:i] })
			edit(par, "dup"+itoa(i), func(n *tnode) { n.kids = append(n.kids[:i+1:i+1], n.kids[i:]...) })
			if i > 0 {
				edit(par, "swap"+itoa(i), func(n *tnode) { n.kids[i-1], n.kids[i] = n.kids[i], n.kids[i-1] })
			}
		}
	}
}

type template struct {
	name string
	op   *ber.Packet
	ctl  []*ber.Packet
}

func (w *PWorld) target() string { return "cn=t" + itoa(w.n%hostileTargets) + "," + w.base.str() }

const hostileTargets = 150

var errEnough = fmt.Errorf("the server died often enough")

func (w *PWorld) templates() []template {
	b, t := w.base.str(), w.target()
	pw := "newpass"
	f := &Filter{K: "and", Fs: []*Filter{present("cn"), {K: "or", Fs: []*Filter{{K: "not", Fs: []*Filter{{K: "eq", T: "sn", V: "S1"}}}, {K: "sub", T: "cn", I: "a", A: []string{"b"}, F: "c"}}}, {K: "ge", T: "sn", V: "a"}}}
	return []template{
		{"add", reqAdd("cn=added"+itoa(w.n)+","+b, []Attr{{"cn", []string{"a", "b"}}, {"objectClass", []string{"person"}}}), nil},
		{"delete", reqDelete(t), nil},
		{"modify", reqModify(t, []Change{{"add", "description", []string{"x" + itoa(w.n)}}, {"replace", "sn", []string{"y" + itoa(w.n), "z"}}}), nil},
		{"rename", reqRename(t, "cn=renamed"+itoa(w.n), true, nil), nil},
		{"renamesup", reqRename(t, "cn=renamed"+itoa(w.n), false, &b), nil},
		{"passwd", reqPw(&t, nil, &pw), nil},
		{"passwdold", reqPw(&t, &pw, nil), nil},
		{"bind", reqBind("cn=user,"+b, "userpw"), nil},
		{"sasl", reqSASL("PLAIN"), nil},
		{"search", reqSearch(b, "sub", f, []string{"cn", "sn"}, 3), nil},
		{"paged", reqSearch(b, "sub", present("cn"), nil, 0), []*ber.Packet{pagingControl(4, nil), unknownControl(true)}},
		{"extensible", reqSearchRaw(b, 2, unsupportedFilter(rand.New(rand.NewSource(6))), nil, 0), nil},
		{"compare", reqCompare(t, "cn", "x"), nil},
		{"unbind", reqUnbind(), nil},
		{"extended", extended("1.3.6.1.4.1.1466.20037", nil), nil},
	}
}

// input sends bytes on a fresh connection and records what becomes of it. exact: the bytes are one message.
func (w *PWorld) input(what string, data []byte, admin, exact, useTLS bool) {
	c, err := w.dial(useTLS)
	if err != nil {
		return // seen by the probe
	}
	defer c.close()
	if admin {
		if a := c.roundTrip(reqBind(w.admin.str(), "adminpw")); a.Code != 0 {
			// Its password was changed by a request.
			c.close()
			w.end()
			writeDB(w.db, protoEntries(w.base))
			w.start()
			w.input(what, data, admin, exact, useTLS)
			return
		}
	}
	rec := R{"ev": "bad", "what": what, "admin": admin, "exact": exact, "tree": []R{}, "complete": true, "hex": fmt.Sprintf("%x", data[:min(len(data), 120)])}
	if exact {
		if n, rest, ok := parseTLV(data, 0); ok && len(rest) == 0 {
			rec["tree"] = []R{n.record(false)}
		}
	}
	c.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	_, werr := c.c.Write(data)
	type closer interface{ CloseWrite() error }
	c.c.(closer).CloseWrite()
	msgs := 0
	outcome := ""
	for outcome == "" {
		m, err := c.read(answerTimeout)
		switch {
		case err == errTimeout:
			outcome = "silent"
		case err != nil:
			outcome = "closed"
			if msgs > 0 {
				outcome = "answered"
			}
		default:
			msgs++
			if m.Tag != 4 {
				rec["code"] = m.Code
			}
		}
	}
	if werr != nil && outcome != "silent" {
		outcome += ", not read"
	}
	rec["outcome"] = outcome
	rec["msgs"] = msgs
	w.t.put(rec)
	count("ops", 1)
	count("outcome."+outcome, 1)
	if admin {
		count("as_admin", 1)
	}
}

func (w *PWorld) check() bool {
	before := w.dir
	if !w.probe(false) {
		w.end()
		w.start()
		count("restarts", 1)
		return false
	}
	if w.dir = w.digest(); w.dir != before {
		w.n++
		count("changes", 1)
	}
	return true
}

func nest(n int, id byte, inner []byte) []byte {
	// lengths from the inside out
	heads := make([][]byte, n)
	l := len(inner)
	for i := n - 1; i >= 0; i-- {
		h := (&tnode{id: id}).head(l)
		heads[i] = h
		l += len(h)
	}
	var out []byte
	for _, h := range heads {
		out = append(out, h...)
	}
	return append(out, inner...)
}

func (n *tnode) head(l int) []byte {
	switch {
	case l < 128:
		return []byte{n.id, byte(l)}
	case l < 65536:
		return []byte{n.id, 0x82, byte(l >> 8), byte(l)}
	}
	return []byte{n.id, 0x84, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
}

func wrapTLV(id byte, parts ...[]byte) []byte {
	var body []byte
	for _, p := range parts {
		body = append(body, p...)
	}
	return append((&tnode{id: id}).head(len(body)), body...)
}

var msgID = []byte{2, 1, 7}

// deepInputs are messages with extreme nesting or extreme sizes.
func (w *PWorld) deepInputs() map[string][]byte {
	search := reqSearch(w.base.str(), "sub", present("cn"), nil, 0).Bytes()
	deep := nest(40000, 0x30, []byte{4, 0})
	control := func(oid string, val []byte) []byte {
		return wrapTLV(0xa0, wrapTLV(0x30, wrapTLV(4, []byte(oid)), wrapTLV(4, val)))
	}
	not := func(n int) []byte {
		s := reqSearchRaw(w.base.str(), 2, ber.NewString(ber.ClassContext, ber.TypePrimitive, 7, "cn", ""), nil, 0)
		var parts [][]byte
		for i, c := range s.Children {
			if i == 6 {
				parts = append(parts, nest(n, 0xa2, []byte{0x87, 2, 'c', 'n'}))
			} else {
				parts = append(parts, c.Bytes())
			}
		}
		return wrapTLV(0x63, parts...)
	}
	indef := []byte(strings.Repeat("\x30\x80", 1500000))
	oids := map[string]string{"paging": "1.2.840.113556.1.4.319", "behera": "1.3.6.1.4.1.42.2.27.8.5.1", "sync": "1.3.6.1.4.1.4203.1.9.1.1", "done": "1.3.6.1.4.1.4203.1.9.1.3",
		"sort": "1.2.840.113556.1.4.473", "notification": "1.2.840.113556.1.4.528", "deleted": "1.2.840.113556.1.4.417", "dirsync": "1.2.840.113556.1.4.841", "unknown": "1.2.3"}
	out := map[string][]byte{
		"indefinite":      indef,
		"definite":        wrapTLV(0x30, msgID, deep),
		"filter":          wrapTLV(0x30, msgID, not(20000)),
		"filter-small":    wrapTLV(0x30, msgID, not(300)),
		"control-itself":  wrapTLV(0x30, msgID, search, deep),
		"control-indef":   wrapTLV(0x30, msgID, search, control(oids["paging"], indef)),
		"passwd":          wrapTLV(0x30, msgID, wrapTLV(0x77, wrapTLV(0x80, []byte(oidPwModify)), wrapTLV(0x81, deep))),
		"passwd-indef":    wrapTLV(0x30, msgID, wrapTLV(0x77, wrapTLV(0x80, []byte(oidPwModify)), wrapTLV(0x81, indef))),
		"huge-length":     {0x30, 0x84, 0x7f, 0xff, 0xff, 0xff, 2, 1, 1},
		"huge-length-8":   {0x30, 0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 2, 1, 1},
		"negative-length": {0x30, 0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xf0, 2, 1, 1},
		"length-127":      append([]byte{0x30, 0xff}, make([]byte, 200)...),
		"huge-string":     {0x30, 0x20, 2, 1, 1, 0x60, 0x1b, 2, 1, 3, 4, 0x84, 0x7f, 0xff, 0xff, 0xff, 'a'},
		"huge-tag":        append([]byte{0x3f}, []byte(strings.Repeat("\xff", 100000))...),
		"long-value":      wrapTLV(0x30, msgID, wrapTLV(0x60, []byte{2, 1, 3}, wrapTLV(4, []byte(strings.Repeat("a", 5000000))), []byte{0x80, 1, 'x'})),
		"many-children":   wrapTLV(0x30, msgID, []byte(strings.Repeat("\x05\x00", 200000))),
		"long-dn":         wrapTLV(0x30, msgID, wrapTLV(0x60, []byte{2, 1, 3}, wrapTLV(4, []byte(strings.Repeat("cn=a,", 20000)+w.base.str())), []byte{0x80, 1, 'x'})),
		"long-multi-rdn":  wrapTLV(0x30, msgID, wrapTLV(0x60, []byte{2, 1, 3}, wrapTLV(4, []byte(strings.Repeat("cn=a+", 5000)+"cn=b,"+w.base.str())), []byte{0x80, 1, 'x'})),
	}
	hexdn := func(ber []byte) []byte { return []byte(fmt.Sprintf("cn=#%x,", ber) + w.base.str()) }
	for n, d := range map[string][]byte{"hexname": hexdn(deep), "hexname-indef": hexdn(indef)} {
		out[n+"-bind"] = wrapTLV(0x30, msgID, wrapTLV(0x60, []byte{2, 1, 3}, wrapTLV(4, d), []byte{0x80, 1, 'x'}))
		out[n+"-delete"] = wrapTLV(0x30, msgID, wrapTLV(0x4a, d))
		out[n+"-search"] = wrapTLV(0x30, msgID, reqSearch(string(d), "sub", present("cn"), nil, 0).Bytes())
		out[n+"-add"] = wrapTLV(0x30, msgID, reqAdd(string(d), []Attr{{"cn", []string{"a"}}}).Bytes())
		out[n+"-modify"] = wrapTLV(0x30, msgID, reqModify(string(d), []Change{{"add", "cn", []string{"a"}}}).Bytes())
		out[n+"-rename"] = wrapTLV(0x30, msgID, reqRename(string(d), "cn=x", true, nil).Bytes())
		out[n+"-renameto"] = wrapTLV(0x30, msgID, reqRename(w.target(), strings.Split(string(d), ",")[0], true, nil).Bytes())
		x := string(d)
		out[n+"-passwd"] = wrapTLV(0x30, msgID, reqPw(&x, nil, &x).Bytes())
		out[n+"-filter"] = wrapTLV(0x30, msgID, reqSearch(w.base.str(), "sub", &Filter{K: "eq", T: "member", V: x}, nil, 0).Bytes())
	}
	for n, o := range oids {
		out["control-"+n] = wrapTLV(0x30, msgID, search, control(o, deep))
	}
	return out
}

var strangeNames = []string{"", ",", "=", "cn=", "=x", "cn", "cn=a,", ",cn=a", "cn=a,,dc=example,dc=org", "cn=a+,dc=example,dc=org", "+", "\x00", "\xff\xfe", "cn=\\", "cn=\\zz", "cn=\\c3", "cn=#", "cn=#04", "cn=#040", "cn=#zz,dc=example,dc=org",
	"cn=#30800000,dc=example,dc=org", "cn=#0404", "cn=\"a", "cn=a\\", " ", "dc=org", "dc=example,dc=org,", "cn=<x>;cn=y", "cn=a;dc=example,dc=org", "cn= ,dc=example,dc=org", "cn=\\00,dc=example,dc=org", strings.Repeat("cn=a,", 3000) + "dc=example,dc=org",
	"cn=" + strings.Repeat("x", 70000) + ",dc=example,dc=org", "ou=%s%n,dc=example,dc=org", "DC=EXAMPLE,DC=ORG", "cn=nopw,dc=example,dc=org"}

// strange are well formed requests with unusual content.
func (w *PWorld) strange(r *rand.Rand) map[string][]byte {
	out := map[string][]byte{}
	msg := func(op *ber.Packet, ctl ...*ber.Packet) []byte { return envelope(9, op, ctl...).Bytes() }
	b := w.base.str()
	for i, n := range strangeNames {
		k := func(s string) string { return s + " " + itoa(i) }
		out[k("bind")] = msg(reqBind(n, pick(r, []string{"", "x", "userpw"})))
		out[k("search")] = msg(reqSearch(n, pick(r, []string{"base", "one", "sub"}), present("cn"), nil, 0))
		out[k("add")] = msg(reqAdd(n, []Attr{{"cn", []string{"x"}}}))
		out[k("addchild")] = msg(reqAdd("cn=y,"+n, []Attr{{"cn", []string{"x"}}}))
		out[k("delete")] = msg(reqDelete(n))
		out[k("modify")] = msg(reqModify(n, []Change{{"add", "description", []string{"x"}}}))
		out[k("rename")] = msg(reqRename(n, "cn=z", true, nil))
		out[k("renameto")] = msg(reqRename(w.target(), n, true, nil))
		out[k("passwd")] = msg(reqPw(&n, nil, &n))
		out[k("passwdnew")] = msg(reqPw(&n, nil, nil))
		out[k("passwdold")] = msg(reqPw(nil, &n, &n))
		out[k("attr")] = msg(reqAdd("cn=str"+itoa(i)+","+b, []Attr{{n, []string{"x"}}, {"cn", []string{n}}, {"objectClass", nil}}))
		out[k("modattr")] = msg(reqModify(w.target(), []Change{{pick(r, []string{"add", "replace", "delete"}), n, []string{n}}, {"delete", "cn", nil}}))
		out[k("filter")] = msg(reqSearch(b, "sub", &Filter{K: "eq", T: pick(r, []string{"cn", n}), V: n}, []string{n}, 0))
		out[k("subst")] = msg(reqSearch(b, "sub", &Filter{K: "sub", T: "cn", I: n, A: []string{n, ""}, F: n}, nil, 0))
	}
	for i, s := range []int64{-1, 0, 1, 1 << 31, 1<<63 - 1} {
		out["pagesize "+itoa(i)] = msg(reqSearch(b, "sub", present("cn"), nil, 0), pagingControl(s, []byte(pick(r, []string{"", "x", strings.Repeat("z", 300)}))))
	}
	for i := 0; i < 4; i++ {
		c := ber.NewSequence("")
		for k := 0; k < i; k++ {
			c.AppendChild(octet(pick(r, []string{"1.2.840.113556.1.4.319", "1.2.840.113556.1.4.473", "", "\x30\x00", "\x30\x03\x02\x01"})))
		}
		out["control "+itoa(i)] = msg(reqSearch(b, "sub", present("cn"), nil, 0), c)
	}
	for i, f := range []*ber.Packet{
		ber.Encode(ber.ClassContext, ber.TypeConstructed, 0, nil, ""), ber.Encode(ber.ClassContext, ber.TypeConstructed, 1, nil, ""), ber.Encode(ber.ClassContext, ber.TypeConstructed, 2, nil, ""),
		ber.Encode(ber.ClassContext, ber.TypeConstructed, 3, nil, ""), ber.Encode(ber.ClassContext, ber.TypeConstructed, 4, nil, ""), ber.Encode(ber.ClassContext, ber.TypePrimitive, 7, nil, ""),
		ber.Encode(ber.ClassContext, ber.TypeConstructed, 9, nil, ""), ber.Encode(ber.ClassContext, ber.TypeConstructed, 12, nil, ""),
		(&Filter{K: "sub", T: "cn"}).packet(),
	} {
		out["filter kind "+itoa(i)] = msg(reqSearchRaw(b, 2, f, nil, 0))
	}
	for _, s := range []int{-1, 3, 4, 200} {
		out["scope "+itoa(s)] = msg(reqSearchRaw(b, int64(s), present("cn").packet(), nil, 0))
	}
	return out
}

// disconnects are ways of leaving in the middle.
func (w *PWorld) disconnects(r *rand.Rand) {
	search := envelope(3, reqSearch(w.base.str(), "sub", present("objectClass"), nil, 0)).Bytes()
	bind := envelope(2, reqBind("cn=user,"+w.base.str(), "userpw")).Bytes()
	for i := 0; i < 60; i++ {
		c, err := net.DialTimeout("tcp", w.srv.addr, 5*time.Second)
		if w.tlsAddr != "" && i%4 == 3 {
			c, err = net.DialTimeout("tcp", w.tlsAddr, 5*time.Second)
		}
		if err != nil {
			break
		}
		tc := c.(*net.TCPConn)
		if r.Intn(2) == 0 {
			tc.SetLinger(0)
		}
		data := append([]byte{}, bind...)
		for k := 0; k < r.Intn(40); k++ {
			data = append(data, search...)
		}
		if i%3 > 0 {
			tc.Write(data[:r.Intn(len(data)+1)])
		}
		if i%5 == 0 {
			tc.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
			tc.Read(make([]byte, 10))
		}
		tc.Close()
		count("disconnects", 1)
	}
	w.t.put(R{"ev": "bad", "what": "disconnects", "admin": false, "exact": false, "tree": []R{}, "complete": false, "outcome": "left"})
	w.check()
}

// stalled: clients that never read what they asked for, or never finish what they began.
func (w *PWorld) stalled() {
	search := envelope(3, reqSearch(w.base.str(), "sub", present("objectClass"), nil, 0)).Bytes()
	bind := envelope(2, reqBind(w.admin.str(), "adminpw")).Bytes()
	del := envelope(4, reqModify(w.target(), nil)).Bytes()
	var cs []net.Conn
	for i := 0; i < 20; i++ {
		c, err := net.DialTimeout("tcp", w.srv.addr, 5*time.Second)
		if err != nil {
			break
		}
		c.(*net.TCPConn).SetReadBuffer(4096)
		cs = append(cs, c)
		data := append([]byte{}, bind...)
		if i%2 == 0 {
			for k := 0; k < 300; k++ {
				data = append(append(data, search...), del...)
			}
		} else {
			data = append(data, search[:len(search)-1-i%5]...)
		}
		go func() {
			c.SetWriteDeadline(time.Now().Add(5 * time.Second))
			c.Write(data)
		}()
		count("stalled", 1)
	}
	time.Sleep(300 * time.Millisecond)
	w.t.put(R{"ev": "bad", "what": "stalled", "admin": false, "exact": false, "tree": []R{}, "complete": false, "outcome": "left"})
	w.check()
	for _, c := range cs {
		c.Close()
	}
	w.check()
}

// flood opens more connections than the server has descriptors for.
func (w *PWorld) flood(n int) {
	var cs []net.Conn
	for i := 0; i < n; i++ {
		c, err := net.DialTimeout("tcp", w.srv.addr, 200*time.Millisecond)
		if err != nil {
			break
		}
		cs = append(cs, c)
	}
	count("flood", len(cs))
	time.Sleep(100 * time.Millisecond)
	for _, c := range cs {
		c.Close()
	}
	time.Sleep(200 * time.Millisecond)
	w.t.put(R{"ev": "bad", "what": "flood", "admin": false, "exact": false, "tree": []R{}, "complete": false, "outcome": "left"})
	w.check()
}

func limited(mem, files int) []string {
	return []string{"/bin/sh", "-c", fmt.Sprintf("ulimit -v %d; ulimit -n %d; exec \"$@\"", mem, files), "sh"}
}

func runHostile(t *Trace, part string, seed int64, thorough bool) {
	r := rand.New(rand.NewSource(seed))
	rounds := 1
	if thorough {
		rounds = 8
	}
	deaths := 0
	step := func(w *PWorld) {
		if !w.check() {
			if deaths++; deaths > 12 {
				w.end()
				panic(errEnough)
			}
		}
	}
	for round := 0; round < rounds; round++ {
		for _, backend := range []string{"boltdb", "ldif"} {
			w := newPWorld(t, r, backend, true, limited(6000000, 1000), "--with-metrics", "--metrics-listen", freeAddr())
			switch part {
			case "altered": // every alteration at every position of every kind of request
				for i := range w.templates() {
					for k := 0; ; k++ {
						// The template is built anew, for the targets change.
						tpl := w.templates()[i]
						root, _, ok := parseTLV(envelope(5, tpl.op, tpl.ctl...).Bytes(), 0)
						if !ok {
							fatal("template %s", tpl.name)
						}
						if op := root.kids[1]; op.id == 0x77 && len(op.kids) > 1 {
							body, _, _ := parseTLV(op.kids[1].val, 0)
							op.kids[1].kids = []*tnode{body}
						}
						j, done := 0, true
						var data []byte
						var what string
						alter(root, func(n *tnode, s string) {
							if j == k {
								data, what, done = n.bytes(), tpl.name+" "+s, false
							}
							j++
						})
						if done {
							break
						}
						admin := (backend == "boltdb") && (k+int(seed)+round)%5 > 0
						if !thorough && (backend == "ldif") && (k+int(seed))%3 > 0 {
							continue
						}
						w.input(what, data, admin, true, false)
						step(w)
					}
				}
			case "strange":
				for _, admin := range []bool{false, true} {
					in := w.strange(r)
					for _, k := range sortedKeys(in) {
						w.input(k, in[k], admin, false, r.Intn(6) == 0)
						step(w)
					}
				}
			case "random":
				n := 500
				if thorough {
					n = 1500
				}
				for i := 0; i < n; i++ {
					admin := r.Intn(3) == 0
					var data []byte
					if r.Intn(6) == 0 {
						data = make([]byte, r.Intn(200))
						r.Read(data)
						if r.Intn(2) == 0 && len(data) > 1 {
							data[0], data[1] = 0x30, byte(len(data)-2)
						}
					} else {
						tpl := pick(r, w.templates())
						data = envelope(5, tpl.op, tpl.ctl...).Bytes()
						for k := 0; k <= r.Intn(4); k++ {
							p := r.Intn(len(data))
							switch r.Intn(5) {
							case 0:
								data[p] = byte(r.Intn(256))
							case 1:
								data[p] ^= 1 << r.Intn(8)
							case 2:
								data = append(data[:p:p], data[p+1:]...)
							case 3:
								data = append(data[:p:p], append([]byte{byte(r.Intn(256))}, data[p:]...)...)
							case 4:
								data = data[:p]
							}
							if len(data) == 0 {
								break
							}
						}
					}
					w.input("random", data, admin, false, r.Intn(10) == 0)
					step(w)
				}
				w.disconnects(r)
				w.stalled()
			case "extreme":
				in := w.deepInputs()
				for _, k := range sortedKeys(in) {
					for _, admin := range []bool{false, true} {
						if admin && (k == "indefinite" || backend == "ldif" && !thorough) {
							continue
						}
						w.input(k, in[k], admin, false, false)
						step(w)
					}
				}
				w.end()
				w.wrap = limited(6000000, 40)
				w.start()
				w.flood(100)
				w.flood(100)
			}
			w.end()
		}
	}
}

func init() {
	drivers["hostile"] = func(c *Ctx) {
		answerTimeout = 15 * time.Second
		t := newTrace(c.out)
		func() {
			defer func() {
				if e := recover(); e != nil && e != errEnough {
					panic(e)
				}
			}()
			runHostile(t, c.args[0], c.seed, c.tier == "thorough")
		}()
		t.close()
	}
}
