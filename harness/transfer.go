package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// Loading and exporting (judged by TraceTransfer).

// tool runs a command of the program under test.
func tool(out *os.File, stdin string, args ...string) (code int, stdout, stderr string) {
	cmd := exec.Command(idmd, args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if out != nil {
		cmd.Stdout = out
	}
	if stdin != "" {
		cmd.Stdin = strings.NewReader(stdin)
	}
	if err := cmd.Start(); err != nil {
		fatal("cannot run %s: %v", idmd, err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		var x *exec.ExitError
		if errors.As(err, &x) {
			return x.ExitCode(), o.String(), e.String()
		}
		return 0, o.String(), e.String()
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return -2, o.String(), e.String()
	}
}

// parseLDIF is a reader for LDIF files written for the harness.
func parseLDIF(text string) (es []Entry, err error) {
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, " ") && len(lines) > 0 && lines[len(lines)-1] != "" {
			lines[len(lines)-1] += l[1:]
		} else {
			lines = append(lines, l)
		}
	}
	var cur *Entry
	for i, l := range lines {
		switch {
		case l == "":
			cur = nil
			continue
		case l[0] == '#', i == 0 && strings.HasPrefix(l, "version:"):
			continue
		}
		k := strings.IndexByte(l, ':')
		if k <= 0 {
			return es, fmt.Errorf("no attribute name in %q", l)
		}
		name, v := l[:k], l[k+1:]
		if strings.HasPrefix(v, ":") {
			b, err := base64.StdEncoding.DecodeString(strings.TrimLeft(v[1:], " "))
			if err != nil {
				return es, err
			}
			v = string(b)
		} else if strings.HasPrefix(v, "<") {
			return es, fmt.Errorf("unexpected reference in %q", l)
		} else {
			v = strings.TrimLeft(v, " ")
		}
		if cur == nil {
			if fold(name) != "dn" {
				return es, fmt.Errorf("no name in front of %q", l)
			}
			es = append(es, Entry{DN: v})
			cur = &es[len(es)-1]
			continue
		}
		n := len(cur.Attrs)
		if n > 0 && cur.Attrs[n-1].Name == name {
			cur.Attrs[n-1].Vals = append(cur.Attrs[n-1].Vals, v)
		} else {
			cur.Attrs = append(cur.Attrs, Attr{name, []string{v}})
		}
	}
	return es, nil
}

// TRec is one record of a file to load.
type TRec struct {
	k string
	e Entry
}

func absRecs(rs []TRec) []R {
	out := []R{}
	for _, r := range rs {
		at, _ := absAttrs(r.e.Attrs)
		out = append(out, R{"k": r.k, "dn": absOf(r.e.DN), "attrs": at})
	}
	return out
}

// fileText writes the records in one of the many ways of writing them.
func fileText(r *rand.Rand, rs []TRec) string {
	var parts []string
	for _, x := range rs {
		t := ldifText(r, []Entry{x.e})
		if i := strings.Index(t, "\n"); x.k != "entry" {
			for i+1 < len(t) && t[i+1] == ' ' { // behind the continuation of the name
				i += 1 + strings.Index(t[i+1:], "\n")
			}
			rest := t[i+1:]
			switch {
			case x.k == "add":
				t = t[:i+1] + "changetype: add\n" + rest
			case r != nil && r.Intn(2) == 0:
				t = t[:i+1] + "changetype: modify\nreplace: sn\nsn: x\n-\n\n"
			default:
				t = t[:i+1] + "changetype: delete\n\n"
			}
		}
		parts = append(parts, t)
	}
	if r == nil {
		return strings.Join(parts, "")
	}
	var b strings.Builder
	switch r.Intn(6) {
	case 0:
		b.WriteString("version: 1\n")
	case 1:
		b.WriteString("version: 1\n\n")
	case 2:
		b.WriteString("# a comment\n#\n# goes\n  on\n\n")
	case 3:
		b.WriteString("# extended LDIF\n\nversion: 1\n\n# entry\n")
	}
	for i, p := range parts {
		if r.Intn(6) == 0 {
			b.WriteString("# entry number " + itoa(i) + "\n")
		}
		b.WriteString(p)
		if r.Intn(8) == 0 {
			b.WriteString("\n\n")
		}
	}
	t := b.String()
	if r.Intn(6) == 0 {
		t = strings.TrimRight(t, "\n")
	}
	if r.Intn(6) == 0 {
		t = strings.ReplaceAll(t, "\n", "\r\n")
	}
	return t
}

// TWorld is one database file and the block of records about it.
type TWorld struct {
	r    *rand.Rand
	db   string
	base DN
	recs []R
}

func (w *TWorld) put(x R) { w.recs = append(w.recs, x) }

func (w *TWorld) spell() string {
	if w.r.Intn(2) == 0 {
		return w.base.str()
	}
	return w.base.spell(w.r)
}

func dumpOf(db string) ([]R, int) {
	if _, err := os.Stat(db); err != nil {
		return []R{}, 0
	}
	d, err := readDB(db)
	if err != nil {
		return []R{{"dn": [][][2]string{{{"?unreadable", "database"}}}, "attrs": R{}}}, 1
	}
	dups := d.Undec
	for _, e := range d.Entries {
		_, n := absAttrs(e.Attrs)
		dups += n
	}
	return absEntries(d.Entries), dups
}

func (w *TWorld) load(db, text string) (int, bool) {
	f := scratchPath("in.ldif")
	must(os.WriteFile(f, []byte(text), 0o600))
	defer os.Remove(f)
	code, _, e := tool(nil, "", "boltdb", "load", "--boltdb-file", db, "--ldap-base-dn", w.spell(), "--input-file", f)
	count("loads", 1)
	return code, strings.TrimSpace(e) != ""
}

func (w *TWorld) doLoad(rs []TRec, text string, wf bool) int {
	code, said := w.load(w.db, text)
	post, dups := dumpOf(w.db)
	w.put(R{"ev": "load", "recs": absRecs(rs), "wf": wf, "code": code, "said": said, "post": post, "dups": dups})
	if code != 0 {
		count("loads.refused", 1)
	}
	return code
}

// doExport exports and loads the export again.
func (w *TWorld) doExport() {
	code, out, _ := tool(nil, "", "boltdb", "export", "--boltdb-file", w.db, "--ldap-base-dn", w.spell())
	es, err := parseLDIF(out)
	if err != nil {
		es = append(es, Entry{DN: "cn=?unreadable"})
	}
	post, dups := dumpOf(w.db)
	for _, e := range es {
		_, n := absAttrs(e.Attrs)
		dups += n
	}
	w.put(R{"ev": "export", "code": code, "out": absEntries(es), "post": post, "dups": dups})
	count("exports", 1)
	count("exported", len(es))
	if code != 0 || len(es) == 0 {
		return
	}
	db := scratchPath("again.db")
	defer os.Remove(db)
	c2, _ := w.load(db, out)
	post, dups = dumpOf(db)
	w.put(R{"ev": "again", "code": c2, "post": post, "dups": dups})
	if w.r.Intn(8) == 0 {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		c3, _, e := tool(f, "", "boltdb", "export", "--boltdb-file", w.db, "--ldap-base-dn", w.spell())
		w.put(R{"ev": "full", "code": c3, "said": strings.TrimSpace(e) != ""})
		count("full", 1)
	}
}

// transferAll runs the jobs side by side, each with its own block of the trace.
func transferAll(t *Trace, n int, job func(i int) []R) { sideBySide(t, 6, n, job) }

// sideBySide does n jobs, some at a time; their events keep the order of the jobs.
func sideBySide(t *Trace, workers, n int, job func(i int) []R) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	ch := make(chan int)
	blocks := make([][]R, n)
	next := 0
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				b := job(i)
				count("runs", 1)
				mu.Lock()
				blocks[i] = b
				for next < n && blocks[next] != nil {
					for _, x := range blocks[next] {
						t.put(x)
					}
					blocks[next] = []R{}
					next++
				}
				mu.Unlock()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

var transferVals = []string{" lead", "   three", "trail ", "trail   ", ":colon", "<angle", "a\nb", "\n", "\r\n", "x\r", "", "\x00", "\x7f", "#hash", "-", "dn: cn=x", "é", "\xff\xfe",
	"a: b", "a:: b", "x\n y", "x\n\ny", " ", "  ", "\t", "tab\tin", "changetype: add", "日本語", "v1", "V2", "alpha beta"}

func transferVal(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0: // around the width at which lines are folded
		n := 60 + r.Intn(30)
		return strings.Repeat("x y", n)[:n]
	case 1:
		n := pick(r, []int{140, 149, 150, 151, 152, 300, 5000})
		b := make([]byte, n)
		for i := range b {
			b[i] = "abc def ghi"[r.Intn(11)]
		}
		return string(b)
	case 2:
		b := make([]byte, 1+r.Intn(40))
		r.Read(b)
		return string(b)
	}
	return pick(r, transferVals)
}

// rawSpelling leaves control characters in a name as they are.
func rawSpelling(d DN) string {
	var rs []string
	for _, rdn := range d {
		var as []string
		for _, a := range rdn {
			as = append(as, a.T+"="+strings.NewReplacer("\\0a", "\n", "\\0d", "\r", "\\09", "\t").Replace(escValue(nil, a.V)))
		}
		rs = append(rs, strings.Join(as, "+"))
	}
	return strings.Join(rs, ",")
}

func randomEntries(r *rand.Rand, base DN, n int) []Entry {
	p := &Profile{Rich: true}
	dns := []DN{base}
	seen := map[string]bool{base.key(): true}
	for i := 0; i < n; i++ {
		d := pick(r, dns)
		if len(d) > len(base)+8 {
			d = base
		}
		d = d.child(pickRDN(p, r)...)
		if chance(r, 0.1) {
			d[0] = []AVA{{"cn", pick(r, []string{"nl\nline", "a\ndn: cn=evil,o=base", "tab\tx", " ", "x\r"})}}
		}
		if !seen[d.key()] {
			seen[d.key()] = true
			dns = append(dns, d)
		}
	}
	var es []Entry
	for _, d := range dns {
		var as []Attr
		have := map[string]bool{}
		for _, a := range d[0] {
			if !have[fold(a.T)] {
				have[fold(a.T)] = true
				as = append(as, Attr{a.T, []string{a.V}})
			}
		}
		for i := 0; i < r.Intn(4); i++ {
			t := pick(r, []string{"description", "mail", "title", "sn", "telephoneNumber", "member", "jpegPhoto", "description;lang-de", "x-attr-1", "userPassword"})
			if have[fold(t)] {
				continue
			}
			have[fold(t)] = true
			var vs []string
			sv := map[string]bool{}
			for k := 0; k < 1+r.Intn(4); k++ {
				if v := transferVal(r); !sv[enc(fold(v))] {
					sv[enc(fold(v))] = true
					vs = append(vs, v)
				}
			}
			as = append(as, Attr{t, vs})
		}
		s := d.str()
		switch r.Intn(4) {
		case 0:
			s = d.spell(r)
		case 1:
			s = rawSpelling(d)
		}
		es = append(es, Entry{s, as})
	}
	return es
}

func entriesAsRecs(es []Entry) []TRec {
	var rs []TRec
	for _, e := range es {
		rs = append(rs, TRec{"entry", e})
	}
	return rs
}

// malformed gives pieces of text that are no record.
var malformed = []string{"this is no record\n\n", "dn: cn=x,%s\ncn:: ***\n\n", "cn: x\nsn: y\n\n", "dn: cn=only,%s\n\n", "dn: cn=x,%s\ncn:< http://example.org/x\n\n",
	"dn: cn=x,%s\ncn: x\nno colon here\n\n", "dn: no name\ncn: x\n\n", "dn: cn=x,%s\nchangetype: strange\ncn: x\n\n", "dn:: !!!\ncn: x\n\n", "dn: cn=x,%s\ncn: x\n: y\n\n",
	"dn: cn=x,%s\nchangetype: modrdn\nnewrdn: cn=y\ndeleteoldrdn: 1\n\n"}

func transferRandom(i int, r *rand.Rand) []R {
	base, _ := parseDN(pick(r, bases))
	w := &TWorld{r: r, base: base, db: scratchPath("t.db")}
	defer os.Remove(w.db)
	switch {
	case i%5 == 0: // left behind by a server
		p := &Profile{Rich: true, W: map[string]int{"add": 6, "delete": 2, "modify": 5, "rename": 4, "pw": 1}, Conns: 2, AsAdmin: 1, Big: 0.05}
		s := sceneFor(p, r)
		sw := newWorld(newNullTrace(), r, s.entries, s.base, s.admin, false, s.known)
		h := &History{w: sw, p: p, s: s, r: r, pws: map[string]string{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(serverGone); !ok {
						panic(e)
					}
				}
			}()
			for k := 0; k < 25 && h.lost < 4; k++ {
				h.step()
			}
		}()
		sw.srv.kill()
		must(copyFile(sw.db, w.db))
		sw.end()
		w.base = s.base
		post, _ := dumpOf(w.db)
		w.put(R{"ev": "adopt", "base": w.base.abs(), "post": post})
		count("histories", 1)
	case i%5 == 1: // written by the harness, raw names included
		es := randomEntries(r, base, r.Intn(14))
		writeDB(w.db, es)
		post, _ := dumpOf(w.db)
		w.put(R{"ev": "adopt", "base": base.abs(), "post": post})
	default:
		w.put(R{"ev": "new", "base": base.abs()})
		es := randomEntries(r, base, r.Intn(14))
		rs := entriesAsRecs(es)
		x := r.Intn(10)
		k := r.Intn(len(rs) + 1)
		switch {
		case x == 0: // not a file of records
			bad := strings.ReplaceAll(pick(r, malformed), "%s", base.str())
			w.doLoad(rs[:k], fileText(r, rs[:k])+"\n\n"+bad+fileText(nil, rs[k:]), false)
			w.doExport()
			return w.recs
		case x == 1 && len(rs) > 1: // one of them is missing, the order is wrong
			r.Shuffle(len(rs), func(a, b int) { rs[a], rs[b] = rs[b], rs[a] })
		case x == 2: // twice, in another spelling
			d, _ := parseDN(pick(r, rs).e.DN)
			rs = append(rs, TRec{"entry", Entry{d.spell(r), []Attr{{"sn", []string{"second"}}}}})
		case x == 3: // outside
			d, _ := parseDN("cn=x,dc=elsewhere")
			if r.Intn(2) == 0 {
				d, _ = parseDN("x" + base.str())
			}
			rs = append(rs[:k:k], append([]TRec{{"entry", Entry{d.str(), []Attr{{"sn", []string{"x"}}}}}}, rs[k:]...)...)
		case x == 4: // changes
			for j := range rs {
				if r.Intn(3) == 0 {
					rs[j].k = "add"
				}
			}
			if r.Intn(2) == 0 {
				rs = append(rs, TRec{"other", rs[len(rs)-1].e})
			}
		}
		if w.doLoad(rs, fileText(r, rs), true) == 0 && r.Intn(4) == 0 {
			// More of it.
			d := base.child(AVA{"cn", "second file"})
			more := []TRec{{"entry", Entry{d.str(), []Attr{{"cn", []string{"second file"}}}}}, {"entry", Entry{d.child(AVA{"cn", "b"}).str(), []Attr{{"cn", []string{"b"}}}}}}
			if r.Intn(3) == 0 {
				more = append(more, pick(r, rs))
			}
			w.doLoad(more, fileText(r, more), true)
		}
	}
	w.doExport()
	return w.recs
}

func transferWalk(t *Trace, file string) {
	b, err := os.ReadFile(file)
	must(err)
	type jRec struct {
		K  string
		Dn [][][2]string
	}
	var j struct {
		Base   [][][2]string
		Attrs  map[string][]jVal
		Files  [][][]jRec
		Starts [][][][][2]string
	}
	must(json.Unmarshal(b, &j))
	as := attrsOf(j.Attrs)
	base := dnOf(j.Base)
	files := j.Files[0]
	transferAll(t, len(files)*len(j.Starts), func(i int) []R {
		r := rand.New(rand.NewSource(int64(i)))
		w := &TWorld{r: r, base: base, db: scratchPath("t.db")}
		defer os.Remove(w.db)
		w.put(R{"ev": "new", "base": base.abs()})
		var st []DN
		for _, d := range j.Starts[i%len(j.Starts)] {
			if len(d) > 0 {
				st = append(st, dnOf(d))
			}
		}
		var rs []TRec
		for n := 1; len(rs) < len(st); n++ {
			for _, d := range st {
				if len(d) == n {
					rs = append(rs, TRec{"entry", Entry{d.str(), as}})
				}
			}
		}
		if len(rs) > 0 {
			w.doLoad(rs, fileText(nil, rs), true)
		}
		rs = nil
		for _, x := range files[i/len(j.Starts)] {
			rs = append(rs, TRec{x.K, Entry{dnOf(x.Dn).str(), as}})
		}
		w.doLoad(rs, fileText(nil, rs), true)
		w.doExport()
		count("walk.files", 1)
		return w.recs
	})
}

func init() {
	drivers["transfer"] = func(c *Ctx) {
		t := newTrace(c.out)
		if c.args[0] == "random" {
			transferAll(t, c.scale(400, 4000), func(i int) []R {
				return transferRandom(i, rand.New(rand.NewSource(c.seed*100003+int64(i))))
			})
		} else {
			transferWalk(t, c.args[0])
		}
		t.close()
	}
}
