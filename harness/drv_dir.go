package main

// Random histories against the database backend, one profile per property.
var profiles = map[string]*Profile{
	"C01": {W: map[string]int{"add": 12, "delete": 10, "modify": 12, "rename": 10, "bind": 18, "pw": 1, "open": 3, "close": 2}, Conns: 4, NoAdmin: 0.2, AsAdmin: 0.35, Anon: 0.5},
	"C03": {W: map[string]int{"add": 10, "delete": 8, "modify": 8, "rename": 4, "bind": 40, "pw": 1, "search": 8, "open": 8, "close": 6}, Conns: 5, AsAdmin: 0.5, Anon: 0.5},
	"C04": {W: map[string]int{"add": 35, "delete": 18, "modify": 5, "rename": 25, "bind": 2, "restart": 1}, Conns: 2, AsAdmin: 0.97, Deep: true},
	"C05": {W: map[string]int{"add": 45, "delete": 35, "modify": 3, "rename": 6, "bind": 1, "restart": 1}, Conns: 2, AsAdmin: 0.97, Big: 0.03, Rich: true},
	"C06": {W: map[string]int{"add": 10, "delete": 2, "modify": 60, "rename": 4, "bind": 1}, Conns: 2, AsAdmin: 0.97, Big: 0.02, Rich: true, Multi: true},
	"C07": {W: map[string]int{"add": 25, "delete": 8, "modify": 5, "rename": 50, "bind": 2, "search": 6}, Conns: 2, AsAdmin: 0.97, Rich: true, Multi: true},
	"C08": {W: map[string]int{"add": 25, "delete": 10, "modify": 10, "rename": 15, "bind": 12, "pw": 1, "search": 25}, Conns: 2, AsAdmin: 0.95, Rich: true},
	"C09": {W: map[string]int{"add": 22, "delete": 8, "modify": 6, "rename": 10, "bind": 2, "search": 60}, Conns: 2, AsAdmin: 0.9, Rich: true, Deep: true},
	"C10": {W: map[string]int{"add": 16, "delete": 3, "modify": 14, "rename": 3, "bind": 1, "search": 80}, Conns: 2, AsAdmin: 0.95, Rich: true},
	"C11": {W: map[string]int{"add": 16, "delete": 3, "modify": 10, "rename": 3, "bind": 1, "search": 80}, Conns: 2, AsAdmin: 0.95, Rich: true, Big: 0.02},
	"C02": {W: map[string]int{"add": 8, "delete": 5, "modify": 12, "rename": 6, "bind": 60, "pw": 2, "open": 2, "close": 1}, Conns: 3, AsAdmin: 0.9, Anon: 0.4, Rich: true},
	"C18": {W: map[string]int{"add": 4, "delete": 3, "modify": 6, "rename": 4, "bind": 30, "pw": 20}, Conns: 4, NoAdmin: 0.1, AsAdmin: 0.9},
}

func init() {
	drivers["dir"] = func(c *Ctx) {
		p := profiles[c.args[0]]
		t := newTrace(c.out)
		runHistories(t, c.seed, p, c.scale(80, 400), 100)
		t.close()
	}
	// The same on larger directories.
	drivers["wide"] = func(c *Ctx) {
		p := *profiles[c.args[0]]
		t := newTrace(c.out)
		for i := 0; i < c.scale(2, 6); i++ {
			p.Wide = []int{90, 300, 700, 1100}[i%4]
			if c.tier == "quick" {
				p.Wide = []int{150, 560}[i]
			}
			runHistories(t, c.seed*100+int64(i), &p, 1, c.scale(120, 200))
		}
		t.close()
	}
}
