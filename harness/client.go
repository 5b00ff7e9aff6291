package main

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync/atomic"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
)

// Result codes below zero are outcomes without an answer.
const (
	resClosed  = -1 // connection closed by the server before the final answer
	resTimeout = -2 // no final answer in time
	resGarbled = -3 // something that is not an LDAP message
)

var answerTimeout = 20 * time.Second

// Client is a raw LDAP connection.
type Client struct {
	c     net.Conn
	br    *bufio.Reader
	msgID int64
}

func dial(addr string) (*Client, error) {
	var last error
	for i := 0; i < 50; i++ {
		c, err := net.DialTimeout("tcp", addr, 2*time.Second)
		if err == nil {
			return &Client{c: c, br: bufio.NewReader(c)}, nil
		}
		last = err
		time.Sleep(20 * time.Millisecond)
	}
	return nil, last
}

func newClient(c net.Conn) *Client { return &Client{c: c, br: bufio.NewReader(c)} }

func (c *Client) close() { c.c.Close() }

// Msg is one decoded response message.
type Msg struct {
	ID     int64
	Tag    int
	Code   int
	Diag   string
	DN     string
	Attrs  []Attr
	Cookie []byte // paging cookie
	Paged  bool
	ExtVal []byte
	HasExt bool
}

type Attr struct {
	Name string
	Vals []string
}

var errTimeout = errors.New("timeout")

// readRaw reads one BER element (definite lengths only).
func (c *Client) readRaw(timeout time.Duration) ([]byte, error) {
	c.c.SetReadDeadline(time.Now().Add(timeout))
	h, err := c.br.Peek(2)
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return nil, errTimeout
		}
		return nil, io.EOF
	}
	hl, n := 2, int(h[1])
	if h[1]&0x80 != 0 {
		k := int(h[1] & 0x7f)
		if k == 0 || k > 4 {
			return nil, fmt.Errorf("bad length")
		}
		h, err = c.br.Peek(2 + k)
		if err != nil {
			return nil, io.EOF
		}
		var b [4]byte
		copy(b[4-k:], h[2:2+k])
		n = int(binary.BigEndian.Uint32(b[:]))
		hl = 2 + k
	}
	buf := make([]byte, hl+n)
	if _, err := io.ReadFull(c.br, buf); err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return nil, errTimeout
		}
		return nil, io.EOF
	}
	return buf, nil
}

// silences counts the answers that never came. Each of them is recorded; after
// several the driver does not wait that long any more, so that it comes to its end.
var silences atomic.Int32

func (c *Client) read(timeout time.Duration) (m *Msg, err error) {
	if n := silences.Load(); n > 60 {
		timeout = min(timeout, 50*time.Millisecond)
	} else if n > 4 {
		timeout = min(timeout, time.Second)
	}
	raw, err := c.readRaw(timeout)
	if err != nil {
		if err == errTimeout && timeout >= 40*time.Millisecond {
			silences.Add(1)
		}
		return nil, err
	}
	return decodeMsg(raw)
}

func pstr(p *ber.Packet) string {
	if p.Data != nil {
		return p.Data.String()
	}
	return ""
}

func decodeMsg(raw []byte) (m *Msg, err error) {
	defer func() {
		if r := recover(); r != nil {
			m, err = nil, fmt.Errorf("undecodable response: %v", r)
		}
	}()
	p, err := ber.DecodePacketErr(raw)
	if err != nil {
		return nil, fmt.Errorf("undecodable response: %w", err)
	}
	m = &Msg{Code: -9}
	m.ID = p.Children[0].Value.(int64)
	op := p.Children[1]
	if op.ClassType != ber.ClassApplication {
		return nil, fmt.Errorf("undecodable response: class")
	}
	m.Tag = int(op.Tag)
	switch m.Tag {
	case 4:
		m.DN = pstr(op.Children[0])
		for _, a := range op.Children[1].Children {
			at := Attr{Name: pstr(a.Children[0])}
			for _, v := range a.Children[1].Children {
				at.Vals = append(at.Vals, pstr(v))
			}
			m.Attrs = append(m.Attrs, at)
		}
	case 19:
	default:
		m.Code = int(op.Children[0].Value.(int64))
		m.DN = pstr(op.Children[1])
		m.Diag = pstr(op.Children[2])
		for _, ch := range op.Children[3:] {
			if ch.ClassType == ber.ClassContext && ch.Tag == 11 {
				m.HasExt = true
				m.ExtVal = ch.Data.Bytes()
				if len(m.ExtVal) == 0 && len(ch.Children) > 0 {
					m.ExtVal = ch.Children[0].Bytes()
				}
			}
		}
	}
	if len(p.Children) > 2 {
		for _, ctl := range p.Children[2].Children {
			if len(ctl.Children) >= 2 && pstr(ctl.Children[0]) == "1.2.840.113556.1.4.319" {
				v := ctl.Children[len(ctl.Children)-1]
				inner, err := ber.DecodePacketErr(v.Data.Bytes())
				if err == nil && len(inner.Children) >= 2 {
					m.Paged = true
					m.Cookie = inner.Children[1].Data.Bytes()
				}
			}
		}
	}
	return m, nil
}

// send transmits one request and returns its message number.
func (c *Client) send(op *ber.Packet, controls ...*ber.Packet) (int64, error) {
	c.msgID++
	return c.msgID, c.sendID(c.msgID, op, controls...)
}

func envelope(id int64, op *ber.Packet, controls ...*ber.Packet) *ber.Packet {
	p := ber.NewSequence("LDAP Request")
	p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, id, "id"))
	p.AppendChild(op)
	if len(controls) > 0 {
		ctl := ber.Encode(ber.ClassContext, ber.TypeConstructed, 0, nil, "controls")
		for _, x := range controls {
			ctl.AppendChild(x)
		}
		p.AppendChild(ctl)
	}
	return p
}

func (c *Client) sendID(id int64, op *ber.Packet, controls ...*ber.Packet) error {
	c.c.SetWriteDeadline(time.Now().Add(answerTimeout))
	_, err := c.c.Write(envelope(id, op, controls...).Bytes())
	return err
}

// Answer is everything that came back for one request.
type Answer struct {
	Code    int
	Entries []*Msg
	Final   *Msg
	WrongID bool
	Tag     int
}

// roundTrip sends one request and collects its answer.
func (c *Client) roundTrip(op *ber.Packet, controls ...*ber.Packet) *Answer {
	id, err := c.send(op, controls...)
	if err != nil {
		return &Answer{Code: resClosed}
	}
	return c.collect(id)
}

func (c *Client) collect(id int64) *Answer {
	a := &Answer{}
	for {
		m, err := c.read(answerTimeout)
		if err != nil {
			switch {
			case err == errTimeout:
				a.Code = resTimeout
			case err == io.EOF:
				a.Code = resClosed
			default:
				a.Code = resGarbled
			}
			return a
		}
		if m.ID != id {
			a.WrongID = true
		}
		if m.Tag == 4 {
			a.Entries = append(a.Entries, m)
			continue
		}
		a.Final = m
		a.Tag = m.Tag
		a.Code = m.Code
		return a
	}
}

// ---- request encoders -------------------------------------------------------------------

func octet(s string) *ber.Packet {
	return ber.NewString(ber.ClassUniversal, ber.TypePrimitive, ber.TagOctetString, s, "")
}

func app(tag int, constructed bool) *ber.Packet {
	t := ber.TypeConstructed
	if !constructed {
		t = ber.TypePrimitive
	}
	return ber.Encode(ber.ClassApplication, t, ber.Tag(tag), nil, "")
}

func reqBind(dn, pw string) *ber.Packet {
	p := app(0, true)
	p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, 3, ""))
	p.AppendChild(octet(dn))
	p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pw, ""))
	return p
}

func reqUnbind() *ber.Packet { return app(2, false) }

func attrPacket(name string, vals []string) *ber.Packet {
	a := ber.NewSequence("")
	a.AppendChild(octet(name))
	s := ber.Encode(ber.ClassUniversal, ber.TypeConstructed, ber.TagSet, nil, "")
	for _, v := range vals {
		s.AppendChild(octet(v))
	}
	a.AppendChild(s)
	return a
}

func reqAdd(dn string, attrs []Attr) *ber.Packet {
	p := app(8, true)
	p.AppendChild(octet(dn))
	l := ber.NewSequence("")
	for _, a := range attrs {
		l.AppendChild(attrPacket(a.Name, a.Vals))
	}
	p.AppendChild(l)
	return p
}

func reqDelete(dn string) *ber.Packet {
	return ber.NewString(ber.ClassApplication, ber.TypePrimitive, 10, dn, "")
}

type Change struct {
	K    string // add, delete, replace
	Name string
	Vals []string
}

func reqModify(dn string, chs []Change) *ber.Packet {
	p := app(6, true)
	p.AppendChild(octet(dn))
	l := ber.NewSequence("")
	for _, c := range chs {
		s := ber.NewSequence("")
		k := map[string]int64{"add": 0, "delete": 1, "replace": 2}[c.K]
		s.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagEnumerated, k, ""))
		s.AppendChild(attrPacket(c.Name, c.Vals))
		l.AppendChild(s)
	}
	p.AppendChild(l)
	return p
}

func reqRename(dn, newrdn string, delold bool, newSuperior *string) *ber.Packet {
	p := app(12, true)
	p.AppendChild(octet(dn))
	p.AppendChild(octet(newrdn))
	p.AppendChild(ber.NewBoolean(ber.ClassUniversal, ber.TypePrimitive, ber.TagBoolean, delold, ""))
	if newSuperior != nil {
		p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, *newSuperior, ""))
	}
	return p
}

// Filter is the abstract syntax of a search filter.
type Filter struct {
	K    string
	T    string // spelled attribute type
	V    string // spelled value
	I, F string
	A    []string
	Fs   []*Filter
}

func (f *Filter) packet() *ber.Packet {
	ctx := func(tag int) *ber.Packet {
		return ber.Encode(ber.ClassContext, ber.TypeConstructed, ber.Tag(tag), nil, "")
	}
	switch f.K {
	case "and", "or":
		p := ctx(map[string]int{"and": 0, "or": 1}[f.K])
		for _, x := range f.Fs {
			p.AppendChild(x.packet())
		}
		return p
	case "not":
		p := ctx(2)
		p.AppendChild(f.Fs[0].packet())
		return p
	case "eq":
		p := ctx(3)
		p.AppendChild(octet(f.T))
		p.AppendChild(octet(f.V))
		return p
	case "sub":
		p := ctx(4)
		p.AppendChild(octet(f.T))
		s := ber.NewSequence("")
		if f.I != "" {
			s.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, f.I, ""))
		}
		for _, a := range f.A {
			s.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 1, a, ""))
		}
		if f.F != "" {
			s.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 2, f.F, ""))
		}
		p.AppendChild(s)
		return p
	case "pres":
		return ber.NewString(ber.ClassContext, ber.TypePrimitive, 7, f.T, "")
	case "ge", "le", "approx":
		p := ctx(map[string]int{"ge": 5, "le": 6, "approx": 8}[f.K])
		p.AppendChild(octet(f.T))
		p.AppendChild(octet(f.V))
		return p
	}
	panic("filter kind " + f.K)
}

// abs is the folded form for traces.
func (f *Filter) abs() R {
	switch f.K {
	case "and", "or", "not":
		fs := []R{}
		for _, x := range f.Fs {
			fs = append(fs, x.abs())
		}
		return R{"k": f.K, "fs": fs}
	case "eq", "ge", "le", "approx":
		return R{"k": f.K, "t": fold(f.T), "v": enc(fold(f.V))}
	case "pres":
		return R{"k": f.K, "t": fold(f.T)}
	case "sub":
		a := []string{}
		for _, x := range f.A {
			a = append(a, enc(fold(x)))
		}
		return R{"k": f.K, "t": fold(f.T), "i": enc(fold(f.I)), "a": a, "f": enc(fold(f.F))}
	}
	panic("filter kind " + f.K)
}

func present(t string) *Filter { return &Filter{K: "pres", T: t} }

var scopeNum = map[string]int64{"base": 0, "one": 1, "sub": 2}

func reqSearch(base, scope string, f *Filter, attrs []string, limit int) *ber.Packet {
	return reqSearchRaw(base, scopeNum[scope], f.packet(), attrs, limit)
}

func reqSearchRaw(base string, scope int64, f *ber.Packet, attrs []string, limit int) *ber.Packet {
	p := app(3, true)
	p.AppendChild(octet(base))
	p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagEnumerated, scope, ""))
	p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagEnumerated, 0, ""))
	p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, limit, ""))
	p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, 0, ""))
	p.AppendChild(ber.NewBoolean(ber.ClassUniversal, ber.TypePrimitive, ber.TagBoolean, false, ""))
	p.AppendChild(f)
	l := ber.NewSequence("")
	for _, a := range attrs {
		l.AppendChild(octet(a))
	}
	p.AppendChild(l)
	return p
}

func pagingControl(size int64, cookie []byte) *ber.Packet {
	c := ber.NewSequence("")
	c.AppendChild(octet("1.2.840.113556.1.4.319"))
	v := ber.NewSequence("")
	v.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, size, ""))
	v.AppendChild(octet(string(cookie)))
	c.AppendChild(octet(string(v.Bytes())))
	return c
}

const oidPwModify = "1.3.6.1.4.1.4203.1.11.1"

// reqPw builds a password modify request; nil parts are absent.
func reqPw(target, old, new *string) *ber.Packet {
	p := app(23, true)
	p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, oidPwModify, ""))
	if target != nil || old != nil || new != nil {
		v := ber.NewSequence("")
		for i, x := range []*string{target, old, new} {
			if x != nil {
				v.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, ber.Tag(i), *x, ""))
			}
		}
		p.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 1, string(v.Bytes()), ""))
	}
	return p
}

// genPw extracts the generated password of a password modify answer.
func genPw(a *Answer) string {
	if a.Final == nil || !a.Final.HasExt {
		return ""
	}
	p, err := ber.DecodePacketErr(a.Final.ExtVal)
	if err != nil || len(p.Children) == 0 {
		return ""
	}
	return p.Children[0].Data.String()
}
