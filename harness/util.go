package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"sync"
	"unicode/utf8"
)

// fatal ends the driver with an error of the check itself (never a verdict).
func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver error: "+format+"\n", a...)
	cleanupAll()
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

// Val is an attribute value: folded form and exact spelling.
type Val struct {
	C string `json:"c"`
	S string `json:"s"`
}

// abbreviated tells that only a digest of the string is recorded.
func abbreviated(s string) bool { return len(s) > 300 }

func enc(s string) string {
	if abbreviated(s) {
		// in letters that no filter looks for
		var b strings.Builder
		for _, x := range sha1.Sum([]byte(s)) {
			for i := 0; i < 8; i += 2 {
				b.WriteRune([]rune("¡¢£¤")[x>>i&3])
			}
		}
		return b.String()
	}
	if utf8.ValidString(s) && !strings.ContainsFunc(s, func(r rune) bool { return r < 0x20 || r == 0x7f || r > 0xffff || (r >= 0xd800 && r < 0xe000) }) {
		return s
	}
	return "hex:" + hex.EncodeToString([]byte(s))
}

func fold(s string) string {
	if !utf8.ValidString(s) {
		return s
	}
	return strings.ToLower(s)
}

func val(s string) Val { return Val{C: enc(fold(s)), S: enc(s)} }

func vals(ss []string) []Val {
	r := []Val{}
	for _, s := range ss {
		r = append(r, val(s))
	}
	return r
}

// Trace is a writer of newline separated JSON records.
type Trace struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	n  int
}

func newTrace(path string) *Trace {
	f, err := os.Create(path)
	must(err)
	return &Trace{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

// newNullTrace keeps nothing.
func newNullTrace() *Trace { return &Trace{w: bufio.NewWriter(io.Discard)} }

// put appends a record and returns its line number (from 1).
func (t *Trace) put(rec map[string]interface{}) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	b, err := json.Marshal(rec)
	must(err)
	for _, c := range string(b) { // pure ASCII, independent of the locale of the reader
		if c < 0x80 {
			t.w.WriteByte(byte(c))
		} else {
			fmt.Fprintf(t.w, "\\u%04x", c) // enc admits only the basic plane
		}
	}
	t.w.WriteByte('\n')
	t.n++
	return t.n
}

func (t *Trace) close() {
	must(t.w.Flush())
	must(t.f.Close())
}

type R = map[string]interface{}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

// Stats collected by the drivers, written next to the trace.
var counters = map[string]int{}
var samples []interface{}
var countersMu sync.Mutex

func count(k string, n int) {
	countersMu.Lock()
	counters[k] += n
	countersMu.Unlock()
}

func sample(x interface{}) {
	countersMu.Lock()
	if len(samples) < 4 {
		samples = append(samples, x)
	}
	countersMu.Unlock()
}

func itoa(n int) string { return fmt.Sprintf("%d", n) }

func lastLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return enc(strings.Join(ls, " | "))
}
