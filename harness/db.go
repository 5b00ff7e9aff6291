package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"time"

	"github.com/go-ldap/ldap/v3"
	bolt "go.etcd.io/bbolt"
)

// Entry is a directory entry as the harness sees it.
type Entry struct {
	DN    string
	Attrs []Attr
}

func le(id uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, id)
	return b
}

// writeDB creates a database file in the on-disk format of the server, independently of its code.
// Entries have to be given parents first.
func writeDB(path string, entries []Entry) {
	db, err := bolt.Open(path, 0o600, &bolt.Options{NoSync: true})
	must(err)
	defer db.Close()
	ids := map[string]uint64{}
	kids := map[uint64][]byte{}
	must(db.Update(func(tx *bolt.Tx) error {
		d2i, err := tx.CreateBucketIfNotExists([]byte("dn2id"))
		must(err)
		i2c, err := tx.CreateBucketIfNotExists([]byte("id2children"))
		must(err)
		i2e, err := tx.CreateBucketIfNotExists([]byte("id2entry"))
		must(err)
		for _, e := range entries {
			id, _ := i2e.NextSequence()
			dn, err := parseDN(e.DN)
			must(err)
			le_ := ldap.NewEntry(e.DN, nil)
			for _, a := range e.Attrs {
				le_.Attributes = append(le_.Attributes, ldap.NewEntryAttribute(a.Name, a.Vals))
			}
			var buf bytes.Buffer
			must(gob.NewEncoder(&buf).Encode(le_))
			must(i2e.Put(le(id), buf.Bytes()))
			must(d2i.Put([]byte(normDN(dn)), le(id)))
			ids[dn.key()] = id
			if p, ok := ids[dn.parent().key()]; ok {
				kids[p] = append(kids[p], le(id)...)
			}
		}
		for p, k := range kids {
			must(i2c.Put(le(p), k))
		}
		return nil
	}))
}

// normDN is the normal form used as key in the name index: folded, canonical escaping.
func normDN(d DN) string {
	out := ""
	for i, rdn := range d {
		for j, a := range rdn {
			if j > 0 {
				out += "+"
			} else if i > 0 {
				out += ","
			}
			out += fold(a.T) + "=" + canonEsc(fold(a.V))
		}
	}
	return out
}

func canonEsc(v string) string {
	var b bytes.Buffer
	const hexd = "0123456789abcdef"
	for i := 0; i < len(v); i++ {
		c := v[i]
		switch {
		case c == '#' || (c == ' ' && (i == 0 || i == len(v)-1)), bytes.IndexByte([]byte(`"+,;<>\`), c) >= 0:
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < ' ' || c > '~':
			b.WriteByte('\\')
			b.WriteByte(hexd[c>>4])
			b.WriteByte(hexd[c&15])
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// Dump is the content of a database file.
type Dump struct {
	Entries []Entry
	Ids     []uint64
	DN2ID   map[string]uint64
	Kids    map[uint64][]uint64
	Seq     uint64
	Undec   int // entries that cannot be decoded
}

func copyFile(src, dst string) error {
	in, err := os.Open(src)
	if err != nil {
		return err
	}
	defer in.Close()
	out, err := os.Create(dst)
	if err != nil {
		return err
	}
	defer out.Close()
	_, err = io.Copy(out, in)
	return err
}

// readDB reads a consistent copy of the database file. It fails only if the copy cannot be opened.
func readDB(path string) (*Dump, error) {
	var last error
	for i := 0; i < 20; i++ {
		d, err := readDBOnce(path)
		if err == nil {
			return d, nil
		}
		last = err
		time.Sleep(20 * time.Millisecond)
	}
	return nil, last
}

func readDBOnce(path string) (d *Dump, err error) {
	cp := scratchPath("copy.db")
	defer os.Remove(cp)
	if err := copyFile(path, cp); err != nil {
		return nil, err
	}
	return readDBFile(cp)
}

func readDBFile(cp string) (d *Dump, err error) {
	defer func() {
		if r := recover(); r != nil {
			d, err = nil, errPanic
		}
	}()
	db, err := bolt.Open(cp, 0o600, &bolt.Options{ReadOnly: true, Timeout: time.Second})
	if err != nil {
		return nil, err
	}
	defer db.Close()
	d = &Dump{DN2ID: map[string]uint64{}, Kids: map[uint64][]uint64{}}
	err = db.View(func(tx *bolt.Tx) error {
		if b := tx.Bucket([]byte("id2entry")); b != nil {
			d.Seq = b.Sequence()
			b.ForEach(func(k, v []byte) error {
				var e ldap.Entry
				id := binary.LittleEndian.Uint64(k)
				if err := gob.NewDecoder(bytes.NewReader(v)).Decode(&e); err != nil {
					d.Undec++
					return nil
				}
				en := Entry{DN: e.DN}
				for _, a := range e.Attributes {
					en.Attrs = append(en.Attrs, Attr{a.Name, a.Values})
				}
				d.Entries = append(d.Entries, en)
				d.Ids = append(d.Ids, id)
				return nil
			})
		}
		if b := tx.Bucket([]byte("dn2id")); b != nil {
			b.ForEach(func(k, v []byte) error {
				d.DN2ID[string(k)] = binary.LittleEndian.Uint64(v)
				return nil
			})
		}
		if b := tx.Bucket([]byte("id2children")); b != nil {
			b.ForEach(func(k, v []byte) error {
				id := binary.LittleEndian.Uint64(k)
				d.Kids[id] = []uint64{}
				for i := 0; i+8 <= len(v); i += 8 {
					d.Kids[id] = append(d.Kids[id], binary.LittleEndian.Uint64(v[i:]))
				}
				if len(v)%8 != 0 {
					d.Undec++
				}
				return nil
			})
		}
		return nil
	})
	return d, err
}

var errPanic = &os.PathError{Op: "open", Path: "database copy", Err: os.ErrInvalid}

// absAttrs gives the abstract attributes of an entry and the number of duplicates in it.
func absAttrs(as []Attr) (map[string][]Val, int) {
	m := map[string][]Val{}
	dup := 0
	for _, a := range as {
		t := enc(fold(a.Name))
		if _, ok := m[t]; ok {
			dup++
		}
		if m[t] == nil {
			m[t] = []Val{}
		}
		for _, s := range a.Vals {
			v := val(s)
			for _, x := range m[t] {
				if x.C == v.C {
					dup++
				}
			}
			m[t] = append(m[t], v)
		}
	}
	for _, vs := range m {
		sort.Slice(vs, func(i, j int) bool { return vs[i].S < vs[j].S })
	}
	return m, dup
}

// record is the abstract form of a dump for the trace.
func (d *Dump) record() R {
	type ent struct {
		key string
		r   R
	}
	dups := d.Undec
	var es []ent
	ids := [][2]interface{}{}
	for i, e := range d.Entries {
		at, dup := absAttrs(e.Attrs)
		dups += dup
		dn := absOf(e.DN)
		es = append(es, ent{absKey(dn), R{"dn": dn, "attrs": at}})
		ids = append(ids, [2]interface{}{d.Ids[i], dn})
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].key < es[j].key })
	out := []R{}
	for _, e := range es {
		out = append(out, e.r)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i][0].(uint64) < ids[j][0].(uint64) })
	dn2id := [][2]interface{}{}
	var ks []string
	for k := range d.DN2ID {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		dn2id = append(dn2id, [2]interface{}{absOf(k), d.DN2ID[k]})
	}
	kids := [][2]interface{}{}
	var kk []uint64
	for k := range d.Kids {
		kk = append(kk, k)
	}
	sort.Slice(kk, func(i, j int) bool { return kk[i] < kk[j] })
	for _, k := range kk {
		kids = append(kids, [2]interface{}{k, d.Kids[k]})
	}
	return R{"ev": "state", "entries": out, "dups": dups,
		"raw": R{"dn2id": dn2id, "ids": ids, "kids": kids, "seq": d.Seq}}
}

func jsonStr(x interface{}) string {
	b, err := json.Marshal(x)
	must(err)
	return string(b)
}

// rawDigest identifies the content of a database.
func rawDigest(path string) (s string, err error) {
	cp := scratchPath("copy.db")
	defer os.Remove(cp)
	if err := copyFile(path, cp); err != nil {
		return "", err
	}
	defer func() {
		if r := recover(); r != nil {
			err = errPanic
		}
	}()
	db, err := bolt.Open(cp, 0o600, &bolt.Options{ReadOnly: true, Timeout: time.Second})
	if err != nil {
		return "", err
	}
	defer db.Close()
	h := sha256.New()
	err = db.View(func(tx *bolt.Tx) error {
		return tx.ForEach(func(name []byte, b *bolt.Bucket) error {
			fmt.Fprintf(h, "%q\n", name)
			return b.ForEach(func(k, v []byte) error {
				fmt.Fprintf(h, "%x %x\n", k, v)
				return nil
			})
		})
	})
	return fmt.Sprintf("%x", h.Sum(nil)[:8]), err
}
