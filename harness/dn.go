package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode"
)

// AVA is one attribute type and value of a relative name, unescaped.
type AVA struct{ T, V string }

// DN is a sequence of relative names, leaf first.
type DN [][]AVA

// parseDN is an RFC 4514 parser written for the harness, independent of the code under test.
func parseDN(s string) (DN, error) {
	var dn DN
	if strings.Trim(s, " ") == "" {
		return dn, nil
	}
	i := 0
	var rdn []AVA
	for {
		// type
		j := i
		for j < len(s) && s[j] != '=' {
			if s[j] == ',' || s[j] == '+' {
				return nil, fmt.Errorf("no type at %d in %q", i, s)
			}
			j++
		}
		if j >= len(s) {
			return nil, fmt.Errorf("incomplete %q", s)
		}
		t := strings.Trim(s[i:j], " ")
		i = j + 1
		// value: bytes with a flag telling whether they were escaped
		var bs []byte
		var esc []bool
		for i < len(s) && s[i] != ',' && s[i] != '+' && s[i] != ';' {
			if s[i] == '\\' {
				if i+1 >= len(s) {
					return nil, fmt.Errorf("dangling escape in %q", s)
				}
				if strings.IndexByte(` "#+,;<=>\`, s[i+1]) >= 0 {
					bs = append(bs, s[i+1])
					esc = append(esc, true)
					i += 2
					continue
				}
				if i+2 >= len(s) {
					return nil, fmt.Errorf("bad escape in %q", s)
				}
				b, err := hex.DecodeString(s[i+1 : i+3])
				if err != nil {
					return nil, err
				}
				bs = append(bs, b[0])
				esc = append(esc, true)
				i += 3
				continue
			}
			bs = append(bs, s[i])
			esc = append(esc, false)
			i++
		}
		a, b := 0, len(bs)
		for a < b && bs[a] == ' ' && !esc[a] {
			a++
		}
		for b > a && bs[b-1] == ' ' && !esc[b-1] {
			b--
		}
		rdn = append(rdn, AVA{t, string(bs[a:b])})
		if i >= len(s) {
			dn = append(dn, rdn)
			return dn, nil
		}
		if s[i] != '+' {
			dn = append(dn, rdn)
			rdn = nil
		}
		i++
	}
}

// abs gives the abstract form used in traces: folded, sorted within an RDN.
func (d DN) abs() [][][2]string {
	out := [][][2]string{}
	for _, rdn := range d {
		r := [][2]string{}
		for _, a := range rdn {
			r = append(r, [2]string{enc(fold(a.T)), enc(fold(a.V))})
		}
		sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] || r[i][0] == r[j][0] && r[i][1] < r[j][1] })
		out = append(out, r)
	}
	return out
}

func absKey(d [][][2]string) string { return fmt.Sprintf("%q", d) }

func (d DN) key() string { return absKey(d.abs()) }

func absOf(s string) [][][2]string {
	d, err := parseDN(s)
	if err != nil {
		return [][][2]string{{{"?unparseable", enc(s)}}}
	}
	return d.abs()
}

func (d DN) parent() DN { return d[1:] }

func (d DN) child(avas ...AVA) DN {
	r := DN{avas}
	return append(r, d...)
}

func randCase(r *rand.Rand, s string) string {
	return strings.Map(func(c rune) rune {
		if r.Intn(2) == 0 {
			return c
		}
		if u := unicode.ToUpper(c); u != c && unicode.ToLower(u) == c {
			return u
		}
		if l := unicode.ToLower(c); l != c && unicode.ToUpper(l) == c {
			return l
		}
		return c
	}, s)
}

// escValue escapes a value for use in a DN string; with r != nil optional escapes are used at random.
func escValue(r *rand.Rand, v string) string {
	var sb strings.Builder
	hexc := func(b byte) {
		h := fmt.Sprintf("%02x", b)
		if r != nil && r.Intn(2) == 0 {
			h = strings.ToUpper(h)
		}
		sb.WriteString("\\" + h)
	}
	for i := 0; i < len(v); i++ {
		b := v[i]
		special := strings.IndexByte(`"+,;<>\`, b) >= 0 || (b == '#' && i == 0) || (b == ' ' && (i == 0 || i == len(v)-1))
		optional := strings.IndexByte(`=# `, b) >= 0
		switch {
		case b == 0 || b < 0x20 || b == 0x7f:
			hexc(b)
		case special:
			if r != nil && r.Intn(2) == 0 {
				hexc(b)
			} else {
				sb.WriteByte('\\')
				sb.WriteByte(b)
			}
		case optional && r != nil && r.Intn(3) == 0:
			sb.WriteByte('\\')
			sb.WriteByte(b)
		case b >= 0x80:
			if !validUTF8Around(v) || (r != nil && r.Intn(4) == 0) {
				// escape the whole multi byte sequence
				hexc(b)
				for i+1 < len(v) && v[i+1]&0xC0 == 0x80 {
					i++
					hexc(v[i])
				}
			} else {
				sb.WriteByte(b)
				for i+1 < len(v) && v[i+1]&0xC0 == 0x80 {
					i++
					sb.WriteByte(v[i])
				}
			}
		case r != nil && r.Intn(12) == 0:
			hexc(b)
		default:
			sb.WriteByte(b)
		}
	}
	return sb.String()
}

func validUTF8Around(v string) bool { return strings.ToValidUTF8(v, "?") == v }

// str is the plain spelling, spell a random equivalent one.
func (d DN) str() string {
	var rs []string
	for _, rdn := range d {
		var as []string
		for _, a := range rdn {
			as = append(as, a.T+"="+escValue(nil, a.V))
		}
		rs = append(rs, strings.Join(as, "+"))
	}
	return strings.Join(rs, ",")
}

func (d DN) spell(r *rand.Rand) string {
	style := r.Intn(4) // 0: plain, 1: case only, 2: case and blanks, 3: everything
	if style == 0 {
		return d.str()
	}
	sp := func() string {
		if style >= 2 && r.Intn(4) == 0 {
			return strings.Repeat(" ", 1+r.Intn(2))
		}
		return ""
	}
	var rs []string
	for _, rdn := range d {
		var as []string
		for _, a := range rdn {
			v := randCase(r, a.V)
			var e string
			if style == 3 {
				e = escValue(r, v)
			} else {
				e = escValue(nil, v)
			}
			tail := sp()
			if strings.HasSuffix(e, "\\") {
				tail = ""
			}
			as = append(as, sp()+randCase(r, a.T)+sp()+"="+sp()+e+tail)
		}
		rs = append(rs, strings.Join(as, "+"))
	}
	return strings.Join(rs, ",")
}
