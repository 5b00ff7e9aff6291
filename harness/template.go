package main

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// LDIF templates (judged by TraceTemplate).

const includeLimit = 1024 * 1024

// TItem is one thing in a template that yields a value.
type TItem struct {
	k    string
	n    int
	abs  bool
	segs []string
	text string
}

// TPart is one template file.
type TPart struct {
	base  []string // folder
	name  string
	items []TItem
	seen  bool
}

type TFile struct {
	path []string
	data []byte
}

func digest(b string) string { return fmt.Sprintf("%d-%x", len(b), sha1.Sum([]byte(b)))[:24] }

type tplRun struct {
	r       *rand.Rand
	top     string // the real folder standing for <<"r">>
	files   []TFile
	dirs    [][]string
	parts   []TPart
	folder  bool
	company string
}

func (x *tplRun) real(p []string) string {
	if len(p) > 0 && p[0] == "r" {
		return x.top + "/" + strings.Join(p[1:], "/")
	}
	return "/" + strings.Join(p, "/")
}

func (it TItem) rec() R {
	switch it.k {
	case "file":
		return R{"k": "file", "abs": it.abs, "segs": it.segs}
	case "autoset":
		return R{"k": "autoset", "n": it.n}
	case "text":
		return R{"k": "text", "v": digest(it.text)}
	case "setvar":
		return R{"k": "setvar", "v": digest(it.text)}
	}
	return R{"k": it.k}
}

// render writes the template; entry number i of a part carries the value of item i.
func (x *tplRun) render(p *TPart, pi int) string {
	var b strings.Builder
	r := x.r
	for i, it := range p.items {
		b.WriteString(fmt.Sprintf("dn: cn=p%di%d,{{.BaseDN}}\ncn: p%di%d\nobjectClass: top\n", pi, i, pi, i))
		if r.Intn(5) == 0 {
			b.WriteString("# a comment\n")
		}
		if r.Intn(12) == 0 {
			b.WriteString("# a comment\n  that goes on\n")
		}
		switch it.k {
		case "auto":
			b.WriteString("description: {{AutoIncrement}}\n")
		case "autoset":
			b.WriteString(fmt.Sprintf("description: {{AutoIncrement %d}}\n", it.n))
		case "file":
			path := strings.Join(it.segs, "/")
			if it.abs {
				path = x.real(it.segs[:1]) + "/" + strings.Join(it.segs[1:], "/")
			}
			b.WriteString(fmt.Sprintf("description:: {{formatAsFileBase64 %q}}\n", path))
		case "text":
			b.WriteString("description: " + it.text + "\n")
		case "setvar":
			b.WriteString(fmt.Sprintf("description: x{{WithCompany %q}}\n", it.text))
		case "var":
			b.WriteString("description: {{.Company}}\n")
		}
		b.WriteString("\n")
	}
	b.WriteString(fmt.Sprintf("dn: cn=last%d,{{.BaseDN}}\ncn: last%d\nobjectClass: top\nuserPassword: pw\n", pi, pi))
	return b.String()
}

func (x *tplRun) run() R {
	must(os.MkdirAll(x.top, 0o755))
	defer os.RemoveAll(x.top)
	for _, d := range x.dirs {
		must(os.MkdirAll(x.real(d), 0o755))
	}
	fs := []R{}
	for _, f := range x.files {
		must(os.WriteFile(x.real(f.path), f.data, 0o644))
		fs = append(fs, R{"path": f.path, "size": len(f.data), "sum": digest(string(f.data))})
	}
	args := []string{"--ldap-handler", "ldif", "--ldap-base-dn", "o=base", "--ldap-admin-dn", "", "--ldap-allow-local-anonymous"}
	if x.company != "" {
		args = append(args, "--ldif-template-default-company", x.company)
	} else {
		x.company = "Default"
	}
	for i := range x.parts {
		p := &x.parts[i]
		must(os.WriteFile(filepath.Join(x.real(p.base), p.name), []byte(x.render(p, i)), 0o644))
		switch {
		case !p.seen:
			args = append(args, "--ldif-config", filepath.Join(x.real(p.base), p.name))
		case x.folder:
			if i == 0 {
				args = append(args, "--ldif-main", x.real(p.base))
			}
		default:
			args = append(args, "--ldif-main", filepath.Join(x.real(p.base), p.name))
		}
	}
	e := R{"files": fs, "dirs": append([][]string{{}, {"r"}}, x.dirs...), "limit": includeLimit, "company": digest(x.company), "code": 0, "said": false, "ok": false}
	srv, up := startUp(args...)
	e["ok"] = up
	got := map[string]string{}
	if e["ok"].(bool) {
		c, err := dial(srv.addr)
		if err == nil {
			a := c.roundTrip(reqSearch("o=base", "sub", present("objectClass"), nil, 0))
			for _, m := range a.Entries {
				d, n := "", 0
				for _, at := range m.Attrs {
					if fold(at.Name) == "description" {
						d = strings.Join(at.Vals, "|")
						n = len(at.Vals)
					}
				}
				if n > 0 {
					got[m.DN] = d
				}
			}
			c.close()
		}
		count("loaded", 1)
	} else {
		e["code"] = srv.cmd.ProcessState.ExitCode()
		e["said"] = strings.TrimSpace(srv.stderr.String()) != ""
		count("failed", 1)
	}
	srv.kill()
	ps := []R{}
	for pi, p := range x.parts {
		its := []R{}
		vals := []interface{}{}
		for i, it := range p.items {
			its = append(its, it.rec())
			count("item."+it.k, 1)
			v, ok := got[fmt.Sprintf("cn=p%di%d,o=base", pi, i)]
			switch it.k {
			case "auto", "autoset":
				n, err := strconv.ParseUint(v, 10, 31)
				if err != nil || !ok {
					vals = append(vals, -1)
				} else {
					vals = append(vals, n)
				}
			default:
				if !ok {
					vals = append(vals, "none")
				} else {
					vals = append(vals, digest(v))
				}
			}
		}
		ps = append(ps, R{"base": p.base, "items": its, "vals": vals, "seen": p.seen})
	}
	e["parts"] = ps
	return e
}

func bytesOf(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// folders around the template folder, with a file in each of them.
var tplDirs = [][]string{{"r", "d"}, {"r", "d2"}, {"r", "a"}, {"r", "d", "a"}, {"r", "d", "d"}, {"r", "d", "d2"}, {"r", "d", "a", "d"}, {"r", "d2", "a"}, {"r", "a", "d"}, {"r", "a", "a"}, {"r", "d2", "d"}}

func (x *tplRun) surroundings() {
	x.dirs = tplDirs
	for i, d := range append([][]string{{"r"}}, tplDirs...) {
		x.files = append(x.files, TFile{append(append([]string{}, d...), "f"), []byte(fmt.Sprintf("content of file number %d%s", i, strings.Repeat("!", i%3)))})
	}
}

func tplWalk(t *Trace, file string) {
	b, err := os.ReadFile(file)
	must(err)
	var j struct {
		Items []struct {
			Abs  bool
			Segs []string
		}
		Base []string
	}
	must(json.Unmarshal(b, &j))
	transferAll(t, len(j.Items), func(i int) []R {
		r := rand.New(rand.NewSource(int64(i)))
		x := &tplRun{r: r, top: scratchPath("tpl"), folder: i%2 == 0}
		x.surroundings()
		it := j.Items[i]
		x.parts = []TPart{{j.Base, "main.ldif", []TItem{{k: "file", abs: it.Abs, segs: it.Segs}}, true}}
		count("walk.paths", 1)
		return []R{x.run()}
	})
}

var tplSizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 55, 56, 57, 58, 59, 75, 76, 77, 100, 383, 384, 385, 1022, 1023, 1024, 1025, 1026, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537,
	includeLimit / 2, includeLimit - 2, includeLimit - 1, includeLimit}

func longText(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz"[r.Intn(26)]
	}
	return string(b)
}

func tplRandom(i int, r *rand.Rand) []R {
	x := &tplRun{r: r, top: scratchPath("tpl"), folder: r.Intn(2) == 0}
	x.surroundings()
	if r.Intn(3) == 0 {
		x.company = "Company " + itoa(r.Intn(10))
	}
	base := []string{"r", "d"}
	var names []string
	for k := 0; k < 3; k++ {
		n := pick(r, tplSizes)
		if r.Intn(3) == 0 {
			n = r.Intn(3000)
		}
		name := "b" + itoa(k)
		names = append(names, name)
		x.files = append(x.files, TFile{append(append([]string{}, base...), name), bytesOf(r, n)})
	}
	item := func() TItem {
		switch r.Intn(8) {
		case 0, 1:
			return TItem{k: "auto"}
		case 2:
			if r.Intn(2) == 0 {
				return TItem{k: "auto"}
			}
			return TItem{k: "autoset", n: pick(r, []int{0, 1, 7, 1000, 5000, 65536})}
		case 3, 4:
			return TItem{k: "file", segs: []string{pick(r, names)}}
		case 5:
			n := pick(r, []int{1, 70, 1000, 4000, 5000})
			if r.Intn(4) == 0 {
				n = pick(r, []int{65500, 65520, 65521, 65522, 65523, 65524, 65535, 65536, 70000, 131072, 300000})
			}
			return TItem{k: "text", text: longText(r, n)}
		case 6:
			return TItem{k: "setvar", text: "Firm " + itoa(r.Intn(100))}
		}
		return TItem{k: "var"}
	}
	np := 1
	if x.folder {
		np = 1 + r.Intn(3)
	}
	for k := 0; k < np; k++ {
		p := TPart{base: base, name: fmt.Sprintf("%d%s.ldif", k, pick(r, []string{"", "x", " y"})), seen: true}
		for n := 2 + r.Intn(8); n > 0; n-- {
			p.items = append(p.items, item())
		}
		x.parts = append(x.parts, p)
	}
	if r.Intn(4) == 0 { // a file for binding, in another folder
		p := TPart{base: []string{"r", "a"}, name: "config.ldif"}
		for n := r.Intn(3); n > 0; n-- {
			p.items = append(p.items, TItem{k: "file", segs: append([]string{}, pick(r, [][]string{{"f"}, {"d", "f"}, {"..", "a", "f"}, {".", "f"}})...)})
		}
		if r.Intn(4) == 0 {
			p.items = append(p.items, TItem{k: "file", segs: pick(r, [][]string{{"..", "d", "f"}, {"..", "f"}, {"b0"}})})
		}
		x.parts = append(x.parts, p)
	}
	if r.Intn(5) == 0 { // too large
		x.files = append(x.files, TFile{append(append([]string{}, base...), "large"), bytesOf(r, pick(r, []int{includeLimit + 1, includeLimit + 2, includeLimit + 3, includeLimit + 100, 2 * includeLimit, 2*includeLimit + 1}))})
		p := &x.parts[0]
		k := r.Intn(len(p.items) + 1)
		p.items = append(p.items[:k:k], append([]TItem{{k: "file", segs: []string{"large"}}}, p.items[k:]...)...)
	}
	if r.Intn(8) == 0 { // elsewhere, missing, a folder
		p := &x.parts[0]
		p.items = append(p.items, TItem{k: "file", segs: append([]string{}, pick(r, [][]string{{"missing"}, {"..", "f"}, {"..", "d2", "f"}, {"a", "..", "..", "d2", "f"}, {"a"}, {"..", "..", "..", "..", "..", "..", "..", "f"}})...)})
	}
	return []R{x.run()}
}

func init() {
	drivers["template"] = func(c *Ctx) {
		answerTimeout = 20 * time.Second
		t := newTrace(c.out)
		if c.args[0] == "random" {
			transferAll(t, c.scale(800, 4000), func(i int) []R { return tplRandom(i, rand.New(rand.NewSource(c.seed*7919+int64(i)))) })
		} else {
			tplWalk(t, c.args[0])
		}
		t.close()
	}
}
