package main

import (
	"crypto/sha1"
	"encoding/base64"
	"encoding/json"
	"flag"
	"os"
)

func sshaHash(pw, salt string) string {
	h := sha1.Sum([]byte(pw + salt))
	return "{SSHA}" + base64.StdEncoding.EncodeToString(append(h[:], salt...))
}

type Ctx struct {
	seed  int64
	tier  string
	out   string
	args  []string
	quick bool
}

// scale picks the size for the tier.
func (c *Ctx) scale(quick, thorough int) int {
	if c.quick {
		return quick
	}
	return thorough
}

var drivers = map[string]func(*Ctx){}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "supervised" {
		supervisedExec(os.Args[2:])
	}
	if len(os.Args) == 2 && os.Args[1] == "reader" {
		readerMain()
		return
	}
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "trace file")
	flag.StringVar(&idmd, "idmd", "", "server binary")
	flag.Parse()
	d := drivers[flag.Arg(0)]
	if d == nil {
		fatal("unknown driver %q", flag.Arg(0))
	}
	initScratch()
	d(&Ctx{seed: *seed, tier: *tier, out: *out, args: flag.Args()[1:], quick: *tier != "thorough"})
	b, err := json.MarshalIndent(R{"counters": counters, "samples": samples}, "", " ")
	must(err)
	must(os.WriteFile(*out+".stats", b, 0o644))
	cleanupAll()
}
