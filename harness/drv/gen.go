package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Gen makes random scripts. Every choice comes from r.
type Gen struct {
	r *rand.Rand
	v int // values are used once
}

func (g *Gen) val() int { g.v++; return g.v }

type weights struct {
	set, del, purge, get, getb, geth, load, loadh, isetv, store, len, rng, rngi, stop, walk, walkb, gc, rangere, rest, relo, copyto, search, dump, opt int
}

// Profile is what a property asks the generator for.
type Profile struct {
	Stores  []string // storage modes
	APIs    []string // for heap maps
	Dists   []string // key distributions
	Keys    [2]int   // number of keys
	Ops     [2]int
	Pers    []int
	Insts   [2]int
	W       weights
	Vals    []string
	Clone   bool
	AllSame bool // every instance executes the same operations
	Phased  bool // long runs of one kind of operation
	Final   []string
	FixMode int // -1: any
}

var basic = weights{set: 40, del: 8, purge: 6, get: 40, len: 3, rng: 1}

var allStores = []string{"heap", "pool", "emb"}

// key distributions of exact keys
var exactDists = []string{"uni", "bound", "clus24", "clus48", "seqr", "low", "high", "mix", "two", "halves", "edge", "adj"}

func (g *Gen) pickS(l []string) string { return l[g.r.Intn(len(l))] }
func (g *Gen) pickI(l []int) int       { return l[g.r.Intn(len(l))] }
func (g *Gen) between(x [2]int) int {
	if x[1] <= x[0] {
		return x[0]
	}
	// small ones more often
	d := x[1] - x[0] + 1
	a, b := g.r.Intn(d), g.r.Intn(d)
	if b < a {
		a = b
	}
	return x[0] + a
}

// revs makes n different reversed hashes of a distribution.
func (g *Gen) revs(dist string, n int) []uint64 {
	r := g.r
	base := r.Uint64()
	seen := map[uint64]bool{}
	var out []uint64
	lo := uint64(r.Intn(16)) << 60
	mid := lo
	for tries := 0; len(out) < n && tries < 50*n+1000; tries++ {
		var x uint64
		switch dist {
		case "uni":
			x = r.Uint64()
		case "bound": // at nibble boundaries, one below, one above
			l := 1 + r.Intn(5)
			x = r.Uint64() >> uint(64-4*l) << uint(64-4*l)
			x += uint64(int64(r.Intn(3) - 1))
		case "edge": // boundaries that splitting really makes: halves of one top range
			d := uint(1 + r.Intn(6))
			step := uint64(1<<60) >> d
			x = lo + uint64(r.Intn(1<<d))*step + uint64(int64(r.Intn(3)-1))
		case "halves": // converge to one boundary from both sides
			if mid == lo {
				mid = lo + 1<<59
			}
			s := uint(r.Intn(59))
			if r.Intn(2) == 0 {
				x = mid + 1<<s
			} else {
				x = mid - 1<<s
			}
			if r.Intn(6) == 0 {
				x = mid
			}
		case "clus24":
			x = base&^0xffffff | r.Uint64()&0xffffff
		case "clus48":
			x = base&^0xffff00000000 | r.Uint64()&0xffffffffffff
		case "seqr": // hashes 0,1,2,...
			x = rev64(uint64(len(out)))
		case "low":
			x = uint64(len(out))
			if r.Intn(3) == 0 {
				x = uint64(r.Intn(4 * n))
			}
		case "high":
			x = ^uint64(0) - uint64(r.Intn(4*n))
		case "adj": // dense anywhere
			x = base + uint64(r.Intn(2*n+2))
		case "mix":
			b := uint(r.Intn(64))
			x = base&^(1<<b-1) | r.Uint64()&(1<<b-1)
		case "two": // two far clusters
			x = r.Uint64() & 0xfff
			if r.Intn(2) == 0 {
				x |= base &^ 0xfff
			} else {
				x |= ^base &^ 0xfff
			}
		default:
			panic("dist " + dist)
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func rev64(x uint64) (y uint64) {
	for i := 0; i < 64; i++ {
		y = y<<1 | x&1
		x >>= 1
	}
	return
}

// keys makes the key specs of a script. dist "str:*" are ordinary strings,
// "lit" unusual strings, "coll:*" keys of equal hash, others are exact hashes.
func (g *Gen) keys(dist string, n int, kind string) []KeySpec {
	r := g.r
	var out []KeySpec
	switch dist {
	case "str:uni":
		for i := 0; i < n; i++ {
			out = append(out, KeySpec{T: "s", R: r.Uint64(), B: 0})
		}
		return out
	case "str:clus": // one prefix
		b := 4 + r.Intn(7)
		base := r.Uint64()
		if m := 1 << uint(tabBits-b-1); n > m {
			n = m
		}
		for i := 0; i < n; i++ {
			out = append(out, KeySpec{T: "s", R: base, B: b})
		}
		return out
	case "str:mix":
		base := r.Uint64()
		for i := 0; i < n; i++ {
			if r.Intn(3) > 0 && i < 200 {
				out = append(out, KeySpec{T: "s", R: base, B: 9})
			} else {
				out = append(out, KeySpec{T: "s", R: r.Uint64(), B: 0})
			}
		}
		return out
	case "str:deep":
		off := r.Intn(1 << 30)
		if n > 200 {
			n = 200
		}
		for i := 0; i < n; i++ {
			out = append(out, KeySpec{T: "d", R: uint64(off + i)})
		}
		return out
	case "lit":
		pool := []string{"", " ", "\x00", "\x00\x00", "a", "A", "日本語", "a\x00b", "key", "Key", "0", "00", "-1", "\xff\xfe", "nil", "test1", "test2", "%s", "\n"}
		long := ""
		for i := 0; i < 300; i++ {
			long += string(rune('a' + i%26))
		}
		vlong := strings.Repeat(long, 1+r.Intn(250))
		pool = append(pool, vlong, vlong+"x", "x"+vlong, vlong+"y", long, long+"x", long[:64], long[:63], long[:65], long[:32], long[:16], long[:8])
		r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		if n > len(pool) {
			n = len(pool)
		}
		for i := 0; i < n; i++ {
			out = append(out, KeySpec{T: "l", S: pool[i]})
		}
		return out
	}
	coll := 0
	if len(dist) > 5 && dist[:5] == "coll:" {
		dist, coll = dist[5:], 2+r.Intn(3)
	}
	m := n
	if coll > 0 {
		m = (n + coll - 1) / coll
	}
	for _, x := range g.revs(dist, m) {
		c := 1
		if coll > 0 {
			c = 1 + r.Intn(coll+1)
		}
		// conflict values which differ in a part of their bits only
		base, sh := r.Uint64()>>1, -1
		if r.Intn(3) == 0 {
			sh = r.Intn(61)
		}
		for j := 0; j < c && len(out) < n; j++ {
			switch kind {
			case "i":
				out = append(out, KeySpec{T: "i", R: x})
				j = c
			default:
				conf := uint64(j)
				if r.Intn(3) == 0 {
					conf = r.Uint64()
				}
				if coll == 0 && r.Intn(4) > 0 {
					conf = r.Uint64()
				}
				if coll > 0 && sh >= 0 {
					conf = base ^ uint64(j)<<sh
				}
				out = append(out, KeySpec{T: kind, R: x, C: conf})
			}
		}
	}
	// no two keys may have the same pair
	seen := map[[2]uint64]bool{}
	o := out[:0]
	for _, k := range out {
		p := [2]uint64{k.R, k.C}
		if !seen[p] {
			seen[p] = true
			o = append(o, k)
		}
	}
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

func isStr(d string) bool { return d == "lit" || len(d) > 4 && d[:4] == "str:" }

func (g *Gen) script(p *Profile, id string) *Script {
	r := g.r
	g.v = 0
	s := &Script{ID: id, Clone: p.Clone, Vals: "int"}
	if len(p.Vals) > 0 {
		s.Vals = g.pickS(p.Vals)
	}
	dist := g.pickS(p.Dists)
	if !isStr(dist) && !exactOK() {
		// keys of chosen hash are integers or custom items then
		for i := 0; i < 20 && !isStr(dist); i++ {
			dist = g.pickS(p.Dists)
		}
	}
	n := g.between(p.Keys)
	kind := "x"
	api := ""
	ni := g.between(p.Insts)
	if ni < 1 {
		ni = 1
	}
	if !isStr(dist) {
		switch {
		case !exactOK():
			kind = "i"
			if r.Intn(2) == 0 {
				kind = "c"
			}
		case len(p.APIs) > 0:
			a := g.pickS(p.APIs)
			if a == "entry" && r.Intn(2) == 0 {
				kind, api = "i", "entry"
			} else if a == "cust" {
				kind, api = "c", "cust"
			}
		}
		if kind == "c" {
			api = "cust"
		}
		if kind == "i" {
			api = "entry"
		}
	}
	s.Keys = g.keys(dist, n, kind)
	n = len(s.Keys)
	for i := 0; i < ni; i++ {
		c := Cfg{Store: g.pickS(p.Stores), API: "set", Mode: r.Intn(6), Per: g.pickI(p.Pers)}
		if p.FixMode > 0 {
			c.Mode = p.FixMode
		}
		if len(p.APIs) > 0 {
			c.API = g.pickS(p.APIs)
		}
		if api != "" {
			c.API = api
		} else if c.API == "cust" {
			c.API = "item"
		}
		switch c.API {
		case "entry", "cust":
			if c.Store == "emb" || c.Store == "rmap" {
				if kind == "i" || kind == "c" {
					c.Store = "heap"
				} else {
					c.API = "set"
				}
			}
		}
		c.Fn = c.API != "entry" && c.API != "cust" && r.Intn(2) == 0
		if c.API == "item" {
			c.Setup = r.Intn(3) == 0
		}
		if p.FixMode == 0 && r.Intn(12) == 0 {
			c.Def = true
		}
		if r.Intn(4) == 0 {
			c.Perm = 1 + r.Intn(1000)
		}
		s.Insts = append(s.Insts, c)
	}
	nops := g.between(p.Ops)
	names, cum := p.W.table()
	total := cum[len(cum)-1]
	draw := func() string {
		x := r.Intn(total)
		for i, c := range cum {
			if x < c {
				return names[i]
			}
		}
		return names[0]
	}
	focus := n
	phase, left := "", 0
	emit := func(i int, o string, k, v int) {
		op := Op{o, i, k, 0}
		switch o {
		case "set", "isetv", "store", "rest", "relo":
			op.A = v
		case "copyto":
			op.K, op.A = 0, r.Intn(ni)
		case "opt":
			op.K, op.A = 1+r.Intn(9), r.Intn(18)
		case "range", "rangei":
			op.K = 0
		case "stop":
			op.N, op.K, op.A = "range", r.Intn(3)/2, 1+r.Intn(n+1)
			if r.Intn(2) == 0 {
				op.N = "rangei"
			}
		case "len", "walk", "walkb", "gc", "dump":
			op.K = 0
		case "del", "purge", "load", "getb": // representation of the key
			if o == "getb" || r.Intn(3) == 0 {
				op.A = 1 + r.Intn(5)
			}
		case "rangere":
			op.K, op.A = 0, r.Intn(n+1)*8+r.Intn(8)
		}
		// an API a configuration does not have
		c := s.Insts[i-1]
		if c.Store == "rmap" {
			switch op.N {
			case "set", "store", "get", "geth", "del", "len", "gc":
			case "purge":
				op.N = "del"
			case "isetv", "rest", "relo":
				op.N = "set"
			case "load", "loadh", "getb", "search":
				op.N = "get"
			default:
				op.N = "len"
			}
		}
		if c.API == "entry" || c.API == "cust" {
			if op.N == "set" {
				op.N = "store"
			}
		}
		s.Ops = append(s.Ops, op)
	}
	both := func(o string, k int) {
		v := 0
		if o == "set" || o == "isetv" || o == "store" || o == "rest" || o == "relo" {
			v = g.val()
		}
		if p.AllSame {
			a := 0
			st := len(s.Ops)
			for i := 1; i <= ni; i++ {
				emit(i, o, k, v)
				// the same argument for all
				if i == 1 {
					a = s.Ops[st].A
				} else if s.Ops[len(s.Ops)-1].N == s.Ops[st].N {
					s.Ops[len(s.Ops)-1].A = a
				}
			}
			return
		}
		emit(1+r.Intn(ni), o, k, v)
	}
	for cnt := 0; cnt < nops; cnt++ {
		if r.Intn(60) == 0 { // sometimes only few keys are used
			focus = 1 + r.Intn(n)
		}
		k := 1 + r.Intn(n)
		if r.Intn(3) > 0 {
			k = 1 + r.Intn(focus)
		}
		o := draw()
		if p.Phased {
			if left == 0 {
				phase = g.pickS([]string{"", "set", "del", "purge", "mixdel", "setseq"})
				left = 1 + r.Intn(2*n)
			}
			left--
			switch phase {
			case "set", "del", "purge":
				if r.Intn(4) > 0 {
					o = phase
				}
			case "mixdel":
				if r.Intn(3) > 0 {
					o = "del"
					if r.Intn(2) == 0 {
						o = "purge"
					}
				}
			case "setseq":
				o, k = "set", 1+left%n
			}
		}
		both(o, k)
		// look at a changed key, and at some neighbour
		if (o == "set" || o == "isetv" || o == "del" || o == "purge" || o == "store" || o == "rest" || o == "relo") && r.Intn(3) == 0 {
			both("get", k)
		}
	}
	fin := p.Final
	if fin == nil {
		fin = []string{"getall", "len", "range", "walk"}
	}
	for i := 1; i <= ni; i++ {
		for _, f := range fin {
			if s.Insts[i-1].Store == "rmap" && f != "getall" && f != "len" {
				continue
			}
			s.Ops = append(s.Ops, Op{f, i, 0, 0})
		}
	}
	return s
}

// growing has so many keys that the arrays of items grow several times
func growing(w weights) Profile {
	return Profile{Stores: []string{"pool", "emb"}, Dists: []string{"clus48", "str:clus", "uni"}, Keys: [2]int{300, 900}, Ops: [2]int{1500, 3000}, Pers: ints(8, 16, 32, 64), W: w}
}

func (w weights) table() (names []string, cum []int) {
	t := 0
	add := func(n string, x int) {
		if x > 0 {
			t += x
			names = append(names, n)
			cum = append(cum, t)
		}
	}
	add("set", w.set)
	add("del", w.del)
	add("purge", w.purge)
	add("get", w.get)
	add("getb", w.getb)
	add("geth", w.geth)
	add("load", w.load)
	add("loadh", w.loadh)
	add("isetv", w.isetv)
	add("store", w.store)
	add("len", w.len)
	add("range", w.rng)
	add("rangei", w.rngi)
	add("stop", w.stop)
	add("walk", w.walk)
	add("walkb", w.walkb)
	add("gc", w.gc)
	add("rangere", w.rangere)
	add("rest", w.rest)
	add("relo", w.relo)
	add("copyto", w.copyto)
	add("search", w.search)
	add("dump", w.dump)
	add("opt", w.opt)
	return
}

// batch is a list of profiles with shares.
type share struct {
	n int
	p Profile
}

func ints(l ...int) []int { return l }

var smallPers = ints(1, 2, 3, 4, 8)
var anyPers = ints(1, 2, 3, 5, 8, 16, 32)

var strDists = []string{"str:uni", "str:clus", "str:mix", "str:deep", "lit"}

func dists(l ...[]string) (o []string) {
	for _, x := range l {
		o = append(o, x...)
	}
	return
}

func coll(l []string) (o []string) {
	for _, x := range l {
		o = append(o, "coll:"+x)
	}
	return
}

// profiles of the properties. The share is a relative number of scripts.
func profiles(prop string) []share {
	all := weights{opt: 1, search: 5, dump: 1, rest: 6, relo: 2, copyto: 1, set: 30, del: 8, purge: 6, get: 20, getb: 5, geth: 5, load: 5, loadh: 5, isetv: 6, store: 6, len: 4, rng: 1, rngi: 1, stop: 1, walk: 1, walkb: 1}
	items := []string{"set", "item", "entry", "cust"}
	smallP := func(st []string, w weights) Profile {
		return Profile{Stores: st, Dists: dists(strDists, exactDists), Keys: [2]int{1, 14}, Ops: [2]int{20, 160}, Pers: smallPers, W: w}
	}
	medP := func(st []string, w weights) Profile {
		return Profile{Stores: st, Dists: dists(strDists, exactDists), Keys: [2]int{20, 150}, Ops: [2]int{200, 800}, Pers: anyPers, W: w}
	}
	switch prop {
	case "C01":
		w := basic
		a, b := smallP(allStores, w), medP(allStores, w)
		a.Phased = true
		c := medP(allStores, w)
		c.Phased = true
		d := Profile{Stores: allStores, Dists: []string{"str:uni", "str:clus", "uni", "clus48"}, Keys: [2]int{600, 1200}, Ops: [2]int{3000, 4000}, Pers: anyPers, W: w}
		return []share{{60, a}, {14, b}, {14, c}, {1, d}}
	case "C02":
		w := weights{set: 75, get: 18, del: 1, rng: 1, len: 1}
		a := Profile{Stores: allStores, APIs: items, Dists: dists(exactDists, exactDists, []string{"str:deep", "str:clus"}), Keys: [2]int{2, 60}, Ops: [2]int{10, 200}, Pers: ints(1, 1, 2, 3, 4), W: w}
		b := Profile{Stores: allStores, APIs: items, Dists: dists(exactDists, []string{"str:deep", "str:clus", "str:uni"}), Keys: [2]int{100, 500}, Ops: [2]int{300, 1500}, Pers: anyPers, W: w}
		wb := weights{set: 100, get: 8, rng: 0}
		c := Profile{Stores: allStores, Dists: []string{"str:uni", "uni", "clus48", "mix", "two"}, Keys: [2]int{1500, 3500}, Ops: [2]int{4000, 7000}, Pers: anyPers, W: wb}
		w2 := weights{set: 50, del: 12, purge: 6, get: 28, rng: 1, len: 1}
		e := Profile{Stores: allStores, Dists: dists(strDists, exactDists), Keys: [2]int{6, 40}, Ops: [2]int{30, 200}, Pers: ints(1, 1, 2, 3, 4), W: w2, Phased: true}
		f := Profile{Stores: allStores, Dists: dists(strDists, exactDists), Keys: [2]int{60, 300}, Ops: [2]int{200, 1000}, Pers: anyPers, W: w2, Phased: true}
		return []share{{40, a}, {12, b}, {1, c}, {16, e}, {8, f}}
	case "C03":
		w := weights{dump: 2, rest: 4, relo: 2, copyto: 1, set: 40, del: 10, purge: 6, rng: 12, rngi: 12, stop: 12, walk: 5, walkb: 5, rangere: 3, isetv: 3, store: 6}
		a := Profile{Stores: allStores, APIs: items, Dists: dists(strDists, exactDists, coll(exactDists)), Keys: [2]int{1, 16}, Ops: [2]int{10, 120}, Pers: smallPers, W: w, Phased: true}
		w2 := weights{set: 80, del: 14, purge: 10, rng: 2, rngi: 2, stop: 3, walk: 2, walkb: 2, store: 6}
		b := Profile{Stores: allStores, APIs: items, Dists: dists(strDists, exactDists), Keys: [2]int{30, 200}, Ops: [2]int{150, 700}, Pers: anyPers, W: w2}
		return []share{{60, a}, {20, b}}
	case "C04":
		w := weights{rest: 6, relo: 4, set: 30, del: 22, purge: 22, get: 8, getb: 3, geth: 3, load: 3, loadh: 3, len: 2, rng: 3, rngi: 3}
		a := Profile{Stores: allStores, APIs: []string{"set", "set", "item", "entry"}, Dists: dists(strDists, exactDists, coll(exactDists)), Keys: [2]int{1, 14}, Ops: [2]int{20, 200}, Pers: smallPers, W: w, Phased: true}
		b := Profile{Stores: allStores, Dists: dists(strDists, exactDists), Keys: [2]int{20, 150}, Ops: [2]int{200, 900}, Pers: anyPers, W: weights{set: 40, del: 15, purge: 20, get: 20, rng: 1}, Phased: true}
		return []share{{60, a}, {20, b}, {1, growing(weights{set: 60, del: 10, purge: 10, get: 20})}}
	case "C05":
		w := weights{rest: 4, relo: 2, copyto: 1, set: 30, del: 15, purge: 12, get: 3, len: 25, isetv: 4, store: 5}
		a := Profile{Stores: allStores, APIs: items, Dists: dists(strDists, exactDists, coll(exactDists)), Keys: [2]int{1, 14}, Ops: [2]int{20, 200}, Pers: smallPers, W: w, Phased: true}
		b := Profile{Stores: allStores, APIs: items, Dists: dists(strDists, exactDists), Keys: [2]int{20, 200}, Ops: [2]int{200, 900}, Pers: anyPers, W: w, Phased: true}
		return []share{{60, a}, {20, b}}
	case "C06":
		w := weights{search: 3, set: 34, del: 10, purge: 8, get: 20, geth: 4, loadh: 6, load: 3, isetv: 5, store: 5, len: 2, rng: 3, rngi: 1, walk: 1}
		a := Profile{Stores: allStores, APIs: []string{"set", "item", "cust", "entry"}, Dists: coll(dists(exactDists, []string{"bound", "edge", "low", "high"})), Keys: [2]int{2, 16}, Ops: [2]int{20, 180}, Pers: smallPers, W: w, Phased: true}
		b := Profile{Stores: allStores, APIs: []string{"set", "item", "cust"}, Dists: coll(exactDists), Keys: [2]int{20, 120}, Ops: [2]int{150, 700}, Pers: anyPers, W: w}
		return []share{{60, a}, {20, b}}
	case "C07":
		a := Profile{Stores: allStores, APIs: items, Dists: dists(strDists, exactDists, coll(exactDists)), Keys: [2]int{1, 12}, Ops: [2]int{20, 200}, Pers: smallPers, W: all}
		b := Profile{Stores: allStores, APIs: items, Dists: dists(strDists, exactDists), Keys: [2]int{20, 120}, Ops: [2]int{200, 700}, Pers: anyPers, W: all}
		c := growing(weights{set: 60, get: 8, getb: 4, geth: 4, load: 12, loadh: 6, search: 2, isetv: 8, store: 8, del: 3, purge: 3})
		return []share{{60, a}, {20, b}, {1, c}}
	case "C08":
		w := weights{opt: 2, set: 40, del: 8, purge: 6, get: 30, len: 4, rng: 2, rngi: 1, stop: 1, load: 3, isetv: 3}
		a := Profile{Stores: allStores, Dists: dists(strDists, exactDists), Keys: [2]int{1, 14}, Ops: [2]int{15, 70}, Pers: ints(1, 2, 3, 4, 7, 8, 16, 33), Insts: [2]int{4, 9}, AllSame: true, W: w, Phased: true}
		b := Profile{Stores: allStores, Dists: dists(strDists, exactDists), Keys: [2]int{30, 120}, Ops: [2]int{100, 300}, Pers: ints(1, 2, 3, 5, 9, 17, 64), Insts: [2]int{3, 6}, AllSame: true, W: w}
		return []share{{40, a}, {10, b}}
	case "C12":
		a := Profile{Stores: allStores, APIs: items, Dists: dists(strDists, exactDists, coll(exactDists)), Keys: [2]int{1, 20}, Ops: [2]int{1, 120}, Pers: smallPers, W: all, Phased: true}
		a.W.rangere = 4
		b := Profile{Stores: allStores, APIs: items, Dists: dists(strDists, exactDists), Keys: [2]int{30, 300}, Ops: [2]int{200, 900}, Pers: anyPers, W: all, Phased: true}
		c := Profile{Stores: []string{"rmap"}, Dists: dists(strDists), Keys: [2]int{1, 40}, Ops: [2]int{1, 200}, Pers: ints(1), W: basic}
		return []share{{50, a}, {20, b}, {10, c}}
	case "C13":
		w := weights{set: 40, del: 6, purge: 4, get: 25, isetv: 4, store: 5, rng: 2, walk: 1, gc: 4}
		a := Profile{Stores: allStores, APIs: items, Dists: dists(strDists, exactDists), Keys: [2]int{1, 30}, Ops: [2]int{20, 120}, Pers: smallPers, W: w, Vals: []string{"box", "box", "str"}, Clone: true, Phased: true}
		w2 := w
		w2.gc = 1
		b := Profile{Stores: []string{"heap", "pool", "emb", "rmap"}, APIs: items, Dists: dists(strDists, []string{"uni", "clus48", "mix"}), Keys: [2]int{60, 400}, Ops: [2]int{200, 900}, Pers: anyPers, W: w2, Vals: []string{"box", "str"}, Clone: true,
			Final: []string{"gc", "getall", "gc", "range", "walk", "len"}}
		return []share{{30, a}, {12, b}}
	case "C14":
		w := weights{rest: 4, relo: 2, copyto: 2, set: 40, del: 8, purge: 6, get: 30, len: 3, rng: 2, load: 3, isetv: 3, store: 4}
		a := Profile{Stores: []string{"heap", "pool", "emb", "rmap"}, APIs: []string{"set", "item"}, Dists: dists(strDists, exactDists), Keys: [2]int{1, 12}, Ops: [2]int{40, 250}, Pers: smallPers, Insts: [2]int{2, 6}, W: w}
		b := a
		b.Keys, b.Ops, b.Pers = [2]int{20, 80}, [2]int{200, 800}, anyPers
		c := growing(weights{set: 60, del: 10, purge: 10, get: 20})
		c.Insts = [2]int{2, 3}
		d := a
		d.Keys, d.Ops, d.Insts = [2]int{3, 10}, [2]int{300, 900}, [2]int{20, 70}
		return []share{{50, a}, {15, b}, {1, c}, {4, d}}
	case "C15":
		w := weights{rest: 4, relo: 2, set: 40, del: 5, purge: 3, get: 30, load: 8, isetv: 6, store: 6, rng: 4, rngi: 2, walk: 1}
		a := Profile{Stores: []string{"heap", "pool", "emb", "rmap"}, APIs: items, Dists: dists(strDists, exactDists), Keys: [2]int{1, 8}, Ops: [2]int{30, 200}, Pers: smallPers, W: w, Vals: []string{"mixed"}}
		b := a
		b.Keys, b.Ops, b.Pers = [2]int{20, 90}, [2]int{200, 600}, anyPers
		return []share{{60, a}, {15, b}}
	case "C16":
		w := weights{set: 35, del: 12, get: 40, geth: 6, store: 4, len: 6}
		a := Profile{Stores: []string{"rmap"}, Dists: dists(strDists, []string{"uni", "bound", "low", "high", "mix", "edge"}), Keys: [2]int{1, 12}, Ops: [2]int{20, 300}, Pers: ints(1), W: w, Phased: true}
		b := Profile{Stores: []string{"rmap"}, Dists: dists(strDists, exactDists), Keys: [2]int{20, 300}, Ops: [2]int{300, 1200}, Pers: ints(1), W: w, Phased: true}
		c := Profile{Stores: []string{"rmap"}, Dists: dists(strDists, exactDists), Keys: [2]int{2, 60}, Ops: [2]int{100, 700}, Pers: ints(1), W: weights{set: 12, del: 3, get: 85}}
		return []share{{50, a}, {15, b}, {25, c}}
	case "C18":
		w := weights{rest: 3, relo: 3, set: 38, del: 14, purge: 20, get: 12, isetv: 8, store: 4, rng: 2, rngi: 1, load: 4}
		a := Profile{Stores: []string{"emb", "emb", "pool", "heap"}, APIs: []string{"set", "set", "item"}, Dists: dists(strDists, exactDists), Keys: [2]int{3, 16}, Ops: [2]int{30, 250}, Pers: smallPers, W: w, Phased: true}
		b := Profile{Stores: []string{"emb", "emb", "pool"}, Dists: dists(strDists, exactDists), Keys: [2]int{20, 160}, Ops: [2]int{200, 1000}, Pers: anyPers, W: w, Phased: true}
		c := growing(weights{set: 60, isetv: 12, del: 4, purge: 4, get: 20})
		return []share{{60, a}, {20, b}, {1, c}}
	}
	panic(fmt.Sprint("no profile ", prop))
}
