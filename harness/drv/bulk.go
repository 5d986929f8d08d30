package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	sm "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/rmap"
)

// Histories at scale: the keys of a map are partitioned into blocks, all keys of a block are
// treated alike. See spec/BulkMap.tla.

// BOp is one bulk call on a block, or len, range, gc; par runs Sub at the same time.
type BOp struct {
	N   string `json:"n"`
	B   int    `json:"b,omitempty"`
	V   int    `json:"v,omitempty"`
	Ord string `json:"ord,omitempty"` // asc, desc, rand: order of hashes
	Sub []BOp  `json:"sub,omitempty"`

	Form int `json:"form,omitempty"` // of get, 1..4
}

type BScript struct {
	ID    string `json:"id"`
	Cfg   Cfg    `json:"cfg"`
	N     int    `json:"keys"`
	Kind  string `json:"kind"` // nat, low, long, dense, same
	Bits  int    `json:"bits,omitempty"`
	Val   uint64 `json:"val,omitempty,string"`
	NB    int    `json:"blocks"`
	Part  string `json:"part"` // mod, range, rand
	Seed  int64  `json:"seed"`
	Ops   []BOp  `json:"ops"`
	Notes string `json:"notes,omitempty"`
}

type BTrace struct {
	ID string        `json:"id"`
	Sz []int         `json:"sz"`
	Ev []interface{} `json:"ev"`
}

type bref struct{ idx, v int }

func bmake(idx, v int) interface{} {
	switch (idx + v) % 4 {
	case 0:
		return "v" + strconv.Itoa(idx) + "." + strconv.Itoa(v)
	case 1:
		return &bref{idx, v}
	case 2:
		return [2]int{idx, v}
	}
	return idx*64 + v
}

// bdecode gives the number of the value, -1 if it is not one of the key.
func bdecode(idx int, x interface{}, ok bool) (v int) {
	if !ok {
		return 0
	}
	i := -1
	switch x := x.(type) {
	case string:
		if p := strings.IndexByte(x, '.'); p > 1 && x[0] == 'v' {
			i, _ = strconv.Atoi(x[1:p])
			v, _ = strconv.Atoi(x[p+1:])
		}
	case *bref:
		if x != nil {
			i, v = x.idx, x.v
		}
	case [2]int:
		i, v = x[0], x[1]
	case int:
		i, v = x/64, x%64
	}
	if i != idx || v <= 0 {
		return -1
	}
	return v
}

type bulk struct {
	s      *BScript
	m      *sm.Map
	r      *rmap.RMap
	keys   []string
	rev    []uint64
	idx    map[string]int
	block  []int // of key, 1..NB
	blocks [][]int
}

func bkeys(s *BScript) []string {
	var out []string
	switch s.Kind {
	case "nat":
		for i := 0; i < s.N; i++ {
			out = append(out, "n"+strconv.Itoa(i))
		}
	case "low": // low bits of the hash are the same
		for i := 0; len(out) < s.N; i++ {
			k := "w" + strconv.Itoa(i)
			if h, _ := sm.KeyToHash(k); h&(1<<s.Bits-1) == s.Val&(1<<s.Bits-1) {
				out = append(out, k)
			}
		}
	case "long": // equal beginnings
		p := strings.Repeat("long key ", 1<<s.Bits)
		for i := 0; i < s.N; i++ {
			out = append(out, p+strconv.Itoa(i))
		}
	case "dense": // reversed hashes at a constant distance
		for i := 0; i < s.N; i++ {
			out = append(out, exactKey(s.Val+uint64(i)<<s.Bits, uint64(i)+1))
		}
	case "same": // groups of equal hash
		for i := 0; i < s.N; i++ {
			// conflict values differ in the lower, the middle or the upper bits
			out = append(out, exactKey(s.Val+uint64(i>>s.Bits)<<40, s.Val^(uint64(i)+1)<<(s.Seed%45)))
		}
	}
	return out
}

func newBulk(s *BScript) *bulk {
	b := &bulk{s: s, keys: bkeys(s), idx: map[string]int{}}
	r := rand.New(rand.NewSource(s.Seed))
	n := len(b.keys)
	b.rev = make([]uint64, n)
	byRev := make([]int, n)
	for i, k := range b.keys {
		h, _ := sm.KeyToHash(k)
		b.rev[i] = bits.Reverse64(h)
		b.idx[k] = i
		byRev[i] = i
	}
	sort.Slice(byRev, func(i, j int) bool { return b.rev[byRev[i]] < b.rev[byRev[j]] })
	b.block = make([]int, n)
	b.blocks = make([][]int, s.NB)
	for p, i := range byRev { // blocks are in order of the hash
		var bl int
		switch s.Part {
		case "mod":
			bl = p % s.NB
		case "range":
			bl = p * s.NB / n
		default:
			bl = r.Intn(s.NB)
			if p < s.NB {
				bl = p
			}
		}
		b.block[i] = bl + 1
		b.blocks[bl] = append(b.blocks[bl], i)
	}
	if s.Cfg.Store == "rmap" {
		b.r = rmap.New()
		return b
	}
	b.m = newInst(s.Cfg, nil, nil, false).m
	return b
}

func (b *bulk) order(o BOp, seed int64) []int {
	l := append([]int(nil), b.blocks[o.B-1]...)
	switch o.Ord {
	case "desc":
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case "rand":
		r := rand.New(rand.NewSource(seed))
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	return l
}

func (b *bulk) one(o BOp, i int) int {
	k := strings.Clone(b.keys[i])
	if b.r != nil {
		switch o.N {
		case "set":
			return b2i(b.r.Set(k, bmake(i, o.V)))
		case "del", "purge":
			return b2i(b.r.Delete(k))
		}
		v, ok := b.r.Get(k)
		return bdecode(i, v, ok)
	}
	switch o.N {
	case "set":
		if b.s.Cfg.API == "item" || b.s.Cfg.API == "mix" && (i+o.V)%3 == 0 {
			return b2i(b.m.StoreItem(sm.NewSampleItem(k, bmake(i, o.V))))
		}
		return b2i(b.m.Set(k, bmake(i, o.V)))
	case "isetv":
		it, ok := b.m.LoadItem(k)
		if !ok {
			return 0
		}
		if it.Key() != k {
			return -1
		}
		return b2i(it.SetValue(bmake(i, o.V)))
	case "del":
		return b2i(b.m.Delete(k))
	case "purge":
		return b2i(b.m.Purge(k))
	case "get":
		form := (i + o.V) % 4
		if o.Form > 0 {
			form = o.Form - 1
		}
		switch form {
		case 0:
			v, ok := b.m.GetByHash(sm.KeyToHash(k))
			return bdecode(i, v, ok)
		case 1:
			it, ok := b.m.LoadItem(k)
			if ok && it.Key() != k {
				return -1
			}
			if !ok {
				return 0
			}
			return bdecode(i, it.Value(), ok)
		case 2:
			v, ok := b.m.Get([]byte(k))
			return bdecode(i, v, ok)
		}
		v, ok := b.m.Get(k)
		return bdecode(i, v, ok)
	}
	panic("unknown bulk op " + o.N)
}

// call makes a bulk call. A panic is a result.
func (b *bulk) call(o BOp, seed int64) (ev []interface{}) {
	n := map[int]int{}
	name := o.N
	if name == "purge" {
		name = "del"
	}
	defer func() {
		if r := recover(); r != nil {
			ev = []interface{}{"panic", o.B, o.V, fmt.Sprint(r)}
		}
	}()
	debug.SetPanicOnFault(true)
	for _, i := range b.order(o, seed) {
		n[b.one(o, i)]++
	}
	res := [][2]int{}
	for r, c := range n {
		res = append(res, [2]int{r, c})
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	v := o.V
	if name == "del" || name == "get" {
		v = 0
	}
	return []interface{}{name, o.B, v, res}
}

func sums(n map[int]int) [][2]int {
	res := [][2]int{}
	for r, c := range n {
		res = append(res, [2]int{r, c})
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

// evName gives name and argument of a bulk call in the trace.
func evName(o BOp) (string, int) {
	switch o.N {
	case "purge", "del":
		return "del", 0
	case "get":
		return "get", 0
	}
	return o.N, o.V
}

// churn makes all calls of o.Sub on one key, o.V times (Form 1: one round after the other
// for all keys).
func (b *bulk) churn(o BOp, seed int64) (ev []interface{}) {
	defer func() {
		if r := recover(); r != nil {
			ev = []interface{}{"panic", o.B, o.V, fmt.Sprint(r)}
		}
	}()
	debug.SetPanicOnFault(true)
	n := make([]map[int]int, 2*len(o.Sub))
	for j := range n {
		n[j] = map[int]int{}
	}
	do := func(t, i int) {
		for j, c := range o.Sub {
			if t > 0 {
				j += len(o.Sub)
			}
			n[j][b.one(c, i)]++
		}
	}
	keys := b.order(o, seed)
	if o.Form == 1 {
		for t := 0; t < o.V; t++ {
			for _, i := range keys {
				do(t, i)
			}
		}
	} else {
		for _, i := range keys {
			for t := 0; t < o.V; t++ {
				do(t, i)
			}
		}
	}
	calls := [2][]interface{}{}
	for j, c := range o.Sub {
		name, v := evName(c)
		calls[0] = append(calls[0], []interface{}{name, v, sums(n[j])})
		calls[1] = append(calls[1], []interface{}{name, v, sums(n[j+len(o.Sub)])})
	}
	return []interface{}{"churn", o.B, o.V, calls[0], calls[1]}
}

func (b *bulk) length() int {
	if b.r != nil {
		return b.r.Len()
	}
	return b.m.Len()
}

// each makes all calls of o.Sub on one key of the block, then on the next one.
func (b *bulk) each(o BOp, seed int64) (ev []interface{}) {
	defer func() {
		if r := recover(); r != nil {
			ev = []interface{}{"panic", o.B, o.V, fmt.Sprint(r)}
		}
	}()
	debug.SetPanicOnFault(true)
	n := make([]map[int]int, len(o.Sub))
	for j := range n {
		n[j] = map[int]int{}
	}
	runs := [][3]int{}
	for _, i := range b.order(o, seed) {
		for j, c := range o.Sub {
			n[j][b.one(c, i)]++
		}
		if o.V == 0 { // V = 1: others are setting keys at the same time
			l := b.length()
			if k := len(runs) - 1; k < 0 {
				runs = append(runs, [3]int{l, 0, 1})
			} else if r := &runs[k]; r[2] == 1 {
				*r = [3]int{r[0], l - r[0], 2}
			} else if l == r[0]+r[1]*r[2] {
				r[2]++
			} else if len(runs) < 5 {
				runs = append(runs, [3]int{l, 0, 1})
			}
		}
	}
	calls := []interface{}{}
	for j, c := range o.Sub {
		name, v := evName(c)
		calls = append(calls, []interface{}{name, v, sums(n[j])})
	}
	return []interface{}{"each", o.B, calls, runs}
}

// hot writes some keys of a block again and again from several goroutines, others read them or
// enumerate. In the end the block is set to o.V.
func (b *bulk) hot(o BOp, seed int64) []interface{} {
	var writes, reads []BOp
	w := []int{}
	for _, c := range o.Sub {
		if c.N == "get" || c.N == "range" || c.N == "rangei" {
			reads = append(reads, c)
			continue
		}
		writes = append(writes, c)
		_, v := evName(c)
		w = append(w, v)
	}
	keys := b.order(o, seed)
	if len(keys) > 3 {
		keys = keys[:3]
	}
	var wg sync.WaitGroup
	evs := make([][]interface{}, len(reads)+2)
	got := make([]map[int]int, len(reads))
	run := func(g int, f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					evs[g] = []interface{}{[]interface{}{"panic", o.B, o.V, fmt.Sprint(r)}}
				}
			}()
			debug.SetPanicOnFault(true)
			f()
		}()
	}
	const rounds = 6000
	for g := 0; g < 2; g++ {
		g := g
		run(g, func() {
			if its := b.held(o, writes, keys); its != nil {
				// items are held and changed as fast as possible
				vals := make([][]interface{}, len(keys))
				for k := range keys {
					for _, c := range writes {
						vals[k] = append(vals[k], bmake(keys[k], c.V))
					}
				}
				for i := 0; i < 20*rounds; i++ {
					k := (i/50 + g) % len(keys)
					its[k].SetValue(vals[k][(i+g)%len(writes)])
				}
				return
			}
			for i := 0; i < rounds; i++ {
				b.one(writes[(i+i/7+g)%len(writes)], keys[(i/3+g)%len(keys)])
			}
		})
	}
	for j, c := range reads {
		j, c := j, c
		run(j+2, func() {
			if c.N != "get" {
				for i := 0; i < 4; i++ {
					res, ord, dups := b.enum(c.N == "rangei")
					evs[j+2] = append(evs[j+2], []interface{}{"crange", res, ord, dups, []int{o.B}, w})
				}
				return
			}
			n := map[int]int{}
			if its := b.held(o, writes, keys); its != nil && c.Form%2 == 0 {
				for i := 0; i < 10*rounds; i++ {
					k := i / 50 % len(keys)
					n[bdecode(keys[k], its[k].Value(), true)]++
				}
			}
			for i := 0; i < rounds; i++ {
				n[b.one(c, keys[i%len(keys)])]++
			}
			got[j] = n
		})
	}
	wg.Wait()
	out, res := []interface{}{}, map[int]int{}
	for _, e := range evs {
		out = append(out, e...)
	}
	for _, n := range got {
		for r, c := range n {
			res[r] += c
		}
	}
	fin := b.call(BOp{N: "set", B: o.B, V: o.V}, seed)
	if fin[0] == "panic" {
		return append(out, fin)
	}
	return append(out, []interface{}{"hot", o.B, w, sums(res), o.V, fin[3]})
}

// held gives the items of keys if they can be held while they are changed by writes.
func (b *bulk) held(o BOp, writes []BOp, keys []int) (its []sm.MapItem) {
	if b.r != nil || b.s.Cfg.Store != "heap" {
		return nil
	}
	for _, c := range writes {
		if c.N != "isetv" {
			return nil
		}
	}
	for _, i := range keys {
		it, ok := b.m.LoadItem(b.keys[i])
		if !ok {
			return nil
		}
		its = append(its, it)
	}
	return
}

// stairs makes a map of 3 keys, another one of 4 keys, and so on up to all keys (rmap, or few keys)
// or with growing distance, and the calls of o.Sub in each of them.
func (b *bulk) stairs(o BOp) (ev []interface{}) {
	defer func() {
		if r := recover(); r != nil {
			ev = []interface{}{"panic", 0, o.V, fmt.Sprint(r)}
		}
	}()
	debug.SetPanicOnFault(true)
	ks := make([]int, len(b.keys))
	for i := range ks {
		ks[i] = i
	}
	if o.Ord == "rand" {
		rand.New(rand.NewSource(b.s.Seed)).Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	n := make([]map[int]int, len(o.Sub))
	for j := range n {
		n[j] = map[int]int{}
	}
	lens, maps := map[int]int{}, 0
	bm := &bulk{s: b.s, keys: b.keys}
	for sz := 3; sz < len(ks); sz++ {
		if b.r != nil {
			bm.r = rmap.New()
		} else {
			bm.m = newInst(b.s.Cfg, nil, nil, false).m
		}
		for _, i := range ks[:sz] {
			bm.one(BOp{N: "set", V: o.V}, i)
		}
		cells := [4]int{ks[0], ks[sz/2], ks[sz-1], ks[sz]}
		for j, c := range o.Sub {
			n[j][bm.one(c, cells[c.B-1])]++
		}
		lens[bm.length()-sz]++
		maps++
	}
	calls := []interface{}{}
	for j, c := range o.Sub {
		name, v := evName(c)
		calls = append(calls, []interface{}{name, c.B, v, sums(n[j])})
	}
	return []interface{}{"stairs", o.V, maps, calls, sums(lens)}
}

// enum enumerates and sums up.
func (b *bulk) enum(items bool) (res [][3]int, ord, dups int) {
	n := map[[2]int]int{}
	seen := make([]bool, len(b.keys))
	ord = 1
	last := uint64(0)
	f := func(k, v interface{}) bool {
		s, _ := k.(string)
		i, ok := b.idx[s]
		if !ok {
			n[[2]int{-1, -1}]++
			return true
		}
		if seen[i] {
			dups++
		}
		seen[i] = true
		if b.rev[i] < last {
			ord = 0
		}
		last = b.rev[i]
		n[[2]int{b.block[i], bdecode(i, v, true)}]++
		return true
	}
	if items {
		b.m.RangeItem(func(it sm.MapItem) bool { return f(it.Key(), it.Value()) })
	} else {
		b.m.Range(f)
	}
	res = [][3]int{}
	for bv, c := range n {
		res = append(res, [3]int{bv[0], bv[1], c})
	}
	sort.Slice(res, func(i, j int) bool {
		if res[i][0] != res[j][0] {
			return res[i][0] < res[j][0]
		}
		return res[i][1] < res[j][1]
	})
	return
}

func runBulk(s *BScript) (t *BTrace) {
	b := newBulk(s)
	t = &BTrace{ID: s.ID, Ev: []interface{}{}}
	for _, l := range b.blocks {
		t.Sz = append(t.Sz, len(l))
	}
	defer func() {
		if r := recover(); r != nil {
			t.Ev = append(t.Ev, []interface{}{"panic", 0, 0, fmt.Sprint(r)})
		}
	}()
	debug.SetPanicOnFault(true)
	for n, o := range s.Ops {
		seed := s.Seed + int64(n)*1000
		switch o.N {
		case "len":
			l := 0
			if b.r != nil {
				l = b.r.Len()
			} else {
				l = b.m.Len()
			}
			t.Ev = append(t.Ev, []interface{}{"len", l})
		case "range", "rangei":
			if b.r != nil {
				continue
			}
			res, ord, dups := b.enum(o.N == "rangei")
			t.Ev = append(t.Ev, []interface{}{"range", res, ord, dups})
		case "gc":
			gcNow()
			t.Ev = append(t.Ev, []interface{}{"gc"})
		case "each":
			t.Ev = append(t.Ev, b.each(o, seed))
		case "churn":
			t.Ev = append(t.Ev, b.churn(o, seed))
		case "hot":
			t.Ev = append(t.Ev, b.hot(o, seed)...)
		case "stairs":
			t.Ev = append(t.Ev, b.stairs(o))
		case "par":
			t.Ev = append(t.Ev, b.par(o, seed)...)
		default:
			t.Ev = append(t.Ev, b.call(o, seed))
		}
	}
	runtime.KeepAlive(b)
	return t
}

// par runs bulk calls on different blocks at the same time, and enumerations. Enumerations are
// reported first: the specification compares them with the content before.
func (b *bulk) par(o BOp, seed int64) []interface{} {
	evs := make([][]interface{}, len(o.Sub))
	touched, vals := []int{}, []int{}
	for _, s := range o.Sub {
		if s.B > 0 && s.N != "get" {
			touched = append(touched, s.B)
			if s.V > 0 {
				vals = append(vals, s.V)
			}
			for _, c := range s.Sub {
				if c.V > 0 && c.N != "get" {
					vals = append(vals, c.V)
				}
			}
		}
	}
	var wg sync.WaitGroup
	for i, s := range o.Sub {
		i, s := i, s
		wg.Add(1)
		go func() {
			defer wg.Done()
			if s.N == "each" {
				s.V = 1
				evs[i] = b.each(s, seed+int64(i))
				return
			}
			if s.N != "range" && s.N != "rangei" {
				evs[i] = b.call(s, seed+int64(i))
				return
			}
			defer func() {
				if r := recover(); r != nil {
					evs[i] = []interface{}{"panic", 0, 0, fmt.Sprint(r)}
				}
			}()
			debug.SetPanicOnFault(true)
			res, ord, dups := b.enum(s.N == "rangei")
			evs[i] = []interface{}{"crange", res, ord, dups, touched, vals}
		}()
	}
	wg.Wait()
	var first, rest []interface{}
	for i, s := range o.Sub {
		if s.N == "range" || s.N == "rangei" {
			first = append(first, evs[i])
		} else {
			rest = append(rest, evs[i])
		}
	}
	return append(first, rest...)
}

// ---- generation ----

type bprofile struct {
	name  string
	store []string
	per   []int
	kind  string
	bits  []int
	n     [2]int
	gc    int // percent of calls followed by a collection
	exact bool
}

var (
	anyStore = []string{"heap", "pool", "emb"}
	bprofs   = map[string]bprofile{
		"pool":   {store: []string{"pool"}, per: []int{0, 16, 64}, kind: "nat", n: [2]int{136000, 150000}},
		"heap":   {store: []string{"heap"}, per: []int{0, 16, 32}, kind: "nat", n: [2]int{60000, 100000}},
		"emb":    {store: []string{"emb"}, per: []int{0, 8, 32}, kind: "nat", n: [2]int{60000, 100000}},
		"wide":   {store: []string{"emb"}, per: []int{600, 1000, 2000, 4000}, kind: "low", bits: []int{4}, n: [2]int{4200, 12000}, gc: 60},
		"huge":   {store: anyStore, per: []int{256, 1 << 15, 1 << 16, 1 << 17}, kind: "nat", n: [2]int{2000, 4000}},
		"one":    {store: anyStore, per: []int{1}, kind: "nat", n: [2]int{5000, 20000}},
		"low":    {store: anyStore, per: []int{2, 16, 32}, kind: "low", bits: []int{4, 6, 8}, n: [2]int{3000, 20000}},
		"dense":  {store: anyStore, per: []int{1, 2, 16, 32}, kind: "dense", bits: []int{0, 1, 20, 44}, n: [2]int{3000, 10000}, exact: true},
		"same":   {store: anyStore, per: []int{1, 4, 16}, kind: "same", bits: []int{1, 3, 5}, n: [2]int{1000, 3000}, exact: true},
		"long":   {store: anyStore, per: []int{0, 4}, kind: "long", bits: []int{6, 10}, n: [2]int{200, 400}},
		"gc":     {store: anyStore, per: []int{0, 4, 32}, kind: "nat", n: [2]int{3000, 30000}, gc: 50},
		"stair":  {store: anyStore, per: []int{0, 1, 2, 4, 16}, kind: "nat", n: [2]int{150, 600}},
		"dstair": {store: anyStore, per: []int{0, 1, 2, 4, 16}, kind: "dense", bits: []int{0, 1, 20, 44, 52}, n: [2]int{100, 300}, exact: true},
		"rstair": {store: []string{"rmap"}, per: []int{0}, kind: "nat", n: [2]int{1100, 1300}},
		"hot":    {store: []string{"heap", "heap", "pool", "emb"}, per: []int{0, 1, 4, 16}, kind: "nat", n: [2]int{10, 400}},
		"churn":  {store: anyStore, per: []int{0, 1, 4, 16}, kind: "nat", n: [2]int{1, 40}},
		"rchurn": {store: []string{"rmap"}, per: []int{0}, kind: "nat", n: [2]int{1, 30}},
		"rhot":   {store: []string{"rmap"}, per: []int{0}, kind: "nat", n: [2]int{10, 400}},
		"mid":    {store: anyStore, per: []int{0, 4, 16, 64}, kind: "nat", n: [2]int{1500, 9000}},
		"rmap":   {store: []string{"rmap"}, per: []int{0}, kind: "nat", n: [2]int{2000, 60000}},
		"rgc":    {store: []string{"rmap"}, per: []int{0}, kind: "nat", n: [2]int{500, 6000}, gc: 40},
	}
	// in this order, again and again
	bplans = map[string][]string{
		"":    {"pool", "wide", "huge", "emb", "stair", "churn", "one", "dense", "heap", "same", "long", "low", "gc"},
		"C02": {"dense", "pool", "dstair", "stair", "wide", "low", "emb", "same", "one", "heap"},
		"C03": {"low", "emb", "same", "pool", "dense", "heap", "one"},
		"C06": {"same"},
		"C09": {"hot"},
		"C11": {"mid", "hot", "mid", "low"},
		"C10": {"low", "emb", "pool", "one", "heap", "wide"},
		"C13": {"wide", "gc", "pool", "gc", "emb", "churn", "gc", "heap"},
		"C16": {"rmap", "rstair", "rchurn", "rgc"},
		"C17": {"rmap", "rhot", "rgc", "rhot"},
		"C18": {"wide", "low", "emb", "churn", "stair", "dstair", "one", "pool", "gc"},
		"C05": {"pool", "hot", "mid", "emb", "churn", "stair", "wide", "one", "heap"},
	}
)

func (g *Gen) bulk(p bprofile, id string) *BScript {
	r := g.r
	pick := func(l []int) int { return l[r.Intn(len(l))] }
	s := &BScript{ID: id, Kind: p.kind, Seed: r.Int63n(1 << 40), Notes: p.name,
		N: p.n[0] + r.Intn(p.n[1]-p.n[0]), NB: 4 + r.Intn(12), Part: []string{"mod", "range", "rand"}[r.Intn(3)]}
	s.Cfg = Cfg{Store: p.store[r.Intn(len(p.store))], API: []string{"set", "mix", "item"}[r.Intn(3)], Per: pick(p.per),
		Mode: r.Intn(6), Fn: r.Intn(2) == 0}
	if s.Cfg.Per == 0 {
		s.Cfg.Def = true
	}
	if s.Cfg.Per > 1<<16 && s.Cfg.Store == "emb" {
		s.Cfg.Per = 1 << 16
	}
	if p.bits != nil {
		s.Bits = pick(p.bits)
	}
	switch p.kind {
	case "low":
		s.Val = uint64(r.Intn(1 << s.Bits))
	case "dense", "same":
		s.Val = []uint64{0, 1 << 63, uint64(r.Intn(16)) << 60, r.Uint64() >> 1, ^uint64(0) - uint64(s.N)<<s.Bits + 1}[r.Intn(5)]
		if p.kind == "same" {
			s.Val = r.Uint64() >> 1
		}
	}
	ords := []string{"asc", "desc", "rand"}
	ord := func() string { return ords[r.Intn(3)] }
	all := r.Perm(s.NB)
	fill := ord()
	if s.N > 50000 && s.Cfg.Store != "emb" && s.Cfg.Store != "rmap" {
		// sorted insertions are slow then, and so are lookups in mode 3
		if s.Cfg.Mode == 3 {
			s.Cfg.Mode = 4
		}
		fill, s.Part, ords = "rand", "mod", []string{"rand", "rand", "rand"}
	} else if r.Intn(2) == 0 || p.name == "wide" && r.Intn(3) > 0 {
		// all keys in order of their hashes
		s.Part = "range"
		sort.Ints(all)
		fill = "asc"
		if r.Intn(4) == 0 {
			sort.Sort(sort.Reverse(sort.IntSlice(all)))
			fill = "desc"
		}
	}
	add := func(o BOp) {
		s.Ops = append(s.Ops, o)
		if p.gc > 0 && r.Intn(100) < p.gc {
			s.Ops = append(s.Ops, BOp{N: "gc"})
		}
	}
	val := func() int { return 1 + r.Intn(40) }
	check := func() {
		add(BOp{N: "len"})
		for _, b := range all {
			s.Ops = append(s.Ops, BOp{N: "get", B: b + 1, Ord: ord(), V: r.Intn(4)})
		}
		s.Ops = append(s.Ops, BOp{N: "range"})
		if s.Cfg.Store == "heap" || r.Intn(2) == 0 {
			s.Ops = append(s.Ops, BOp{N: "rangei"})
		}
	}
	call := func(b int) BOp {
		o := BOp{B: b + 1, Ord: ord(), V: val()}
		switch x := r.Intn(10); {
		case x < 4:
			o.N = "set"
		case x < 6:
			o.N, o.V = "del", 0
		case x < 8:
			o.N, o.V = "purge", 0
		default:
			o.N = "isetv"
			if s.Cfg.Store == "rmap" {
				o.N = "get"
			}
		}
		return o
	}
	if strings.HasSuffix(p.name, "stair") {
		s.NB = 1
		for i := 0; i < 1+r.Intn(3); i++ {
			o := BOp{N: "stairs", V: val(), Ord: ord()}
			for k := 0; k < 1+r.Intn(5); k++ {
				c := call(r.Intn(4))
				if r.Intn(2) == 0 {
					c.N, c.V = "get", r.Intn(4)
				}
				if k == 0 && r.Intn(2) == 0 {
					c.B = 3
				}
				c.Ord = ""
				o.Sub = append(o.Sub, c)
			}
			s.Ops = append(s.Ops, o)
			if len(s.Ops) == 1 && p.name == "rstair" {
				break
			}
		}
		return s
	}
	// rmap copies its table when a key is read after it was set
	eachOK := s.Cfg.Store != "rmap" || s.N < 4000
	if strings.HasSuffix(p.name, "hot") {
		s.NB = 1 + r.Intn(min(8, s.N))
		all = r.Perm(s.NB)
		for _, b := range all[:len(all)-r.Intn(2)] {
			add(BOp{N: "set", B: b + 1, Ord: fill, V: val()})
		}
		for i := 0; i < 4+r.Intn(5); i++ {
			o := BOp{N: "hot", B: 1 + r.Intn(s.NB), Ord: ord(), V: val()}
			del := r.Intn(3) == 0
			items := r.Intn(2) == 0
			for k := 0; k < 2+r.Intn(3); k++ {
				c := BOp{N: "set", V: val()}
				if s.Cfg.Store == "heap" && s.Cfg.Mode != 5 && !del && (items || r.Intn(2) == 0) {
					c.N = "isetv"
				}
				o.Sub = append(o.Sub, c)
			}
			if del {
				o.Sub = append(o.Sub, BOp{N: []string{"del", "purge"}[r.Intn(2)]})
			}
			for k := 0; k < 2; k++ {
				// an item which was loaded can be deleted and its storage used again
				o.Sub = append(o.Sub, BOp{N: "get", V: r.Intn(4), Form: 1 + []int{0, 2, 3, 1}[r.Intn(4-b2i(del))]})
			}
			if s.Cfg.Store != "rmap" && r.Intn(2) == 0 {
				o.Sub = append(o.Sub, BOp{N: "range"})
			}
			add(o)
			if r.Intn(3) == 0 {
				check()
			}
		}
		check()
		return s
	}
	if strings.HasSuffix(p.name, "churn") {
		s.NB = 1 + r.Intn(min(8, s.N))
		all = r.Perm(s.NB)
		for _, b := range all[:len(all)-r.Intn(2)] {
			add(BOp{N: "set", B: b + 1, Ord: fill, V: val()})
		}
		left := 450000
		for i := 0; i < 2+r.Intn(5); i++ {
			o := BOp{N: "churn", B: 1 + r.Intn(s.NB), Ord: ord(), Form: r.Intn(2)}
			del := false
			for k := 0; k < 2+r.Intn(4); k++ {
				c := call(0)
				c.B, c.Ord = 0, ""
				if i%2 == 0 && c.V == 0 && c.N != "get" {
					c.N, c.V = "set", val()
				}
				if r.Intn(3) == 0 {
					c.N, c.V = "get", r.Intn(4)
				}
				del = del || c.N == "del" || c.N == "purge"
				o.Sub = append(o.Sub, c)
			}
			sz := (s.N + s.NB - 1) / s.NB
			o.V = left / 2 / len(o.Sub) / sz
			// deleted entries of the same hash may stay in the list
			if lim := 8000 / sz; del && s.Cfg.Store != "rmap" && o.V > lim {
				o.V = lim
			}
			if o.V < 2 {
				o.V = 2
			}
			left -= o.V * len(o.Sub) * sz
			add(o)
			if r.Intn(3) == 0 {
				check()
			}
		}
		check()
		return s
	}
	// several calls for each key, one key after the other
	each := func(b int) BOp {
		o := BOp{N: "each", B: b + 1, Ord: ord()}
		for k := 0; k < 2+r.Intn(4); k++ {
			c := call(b)
			c.B, c.Ord = 0, ""
			if k == 0 && c.N == "isetv" {
				c.N = "set"
			}
			if k > 0 && r.Intn(2) == 0 {
				c.N, c.V = "get", r.Intn(4)
			}
			o.Sub = append(o.Sub, c)
		}
		return o
	}
	// the last block is the last to be set, in parts of the runs it stays out
	for _, b := range all[:len(all)-r.Intn(2)] {
		if r.Intn(4) == 0 && eachOK {
			o := each(b)
			o.Ord = fill
			add(o)
			continue
		}
		add(BOp{N: "set", B: b + 1, Ord: fill, V: val()})
	}
	check()
	big := s.N > 50000
	for i := 0; i < 2+r.Intn(s.NB); i++ {
		if big && i > 4 {
			break
		}
		if r.Intn(3) == 0 && eachOK {
			add(each(r.Intn(s.NB)))
		} else {
			add(call(r.Intn(s.NB)))
		}
		if r.Intn(3) == 0 {
			add(BOp{N: "len"})
		}
		if r.Intn(5) == 0 && !big {
			s.Ops = append(s.Ops, BOp{N: "range"})
		}
	}
	check()
	// several at once
	for i := 0; i < 1+r.Intn(2); i++ {
		perm := r.Perm(s.NB)
		k := 2 + r.Intn(s.NB/2+1)
		o := BOp{N: "par"}
		for _, b := range perm[:min(k, s.NB)] {
			c := call(b)
			if c.N == "isetv" && (s.Cfg.Store != "heap" || s.Cfg.Mode == 5) {
				// items of pools (mode 5 makes one) move when pools grow: an item is
				// not held while other keys are set
				c.N = "set"
			}
			if r.Intn(4) == 0 && eachOK {
				c = each(b)
				for j := range c.Sub {
					if c.Sub[j].N == "isetv" && (s.Cfg.Store != "heap" || s.Cfg.Mode == 5) {
						c.Sub[j].N = "set"
					}
				}
			}
			o.Sub = append(o.Sub, c)
		}
		for _, b := range perm[min(k, s.NB):] {
			if r.Intn(2) == 0 {
				o.Sub = append(o.Sub, BOp{N: "get", B: b + 1, Ord: ord(), V: r.Intn(4)})
			}
		}
		if s.Cfg.Store != "rmap" {
			o.Sub = append(o.Sub, BOp{N: "range"})
			if s.Cfg.Store == "heap" {
				o.Sub = append(o.Sub, BOp{N: "rangei"})
			}
		}
		s.Ops = append(s.Ops, o, BOp{N: "len"})
	}
	check()
	return s
}

func cmdBulk(prop string, seed int64, n int, dir, name, in string, limit, budget time.Duration, reps, off, stride int) {
	g := &Gen{r: rand.New(rand.NewSource(seed*104729 + 5))}
	w := newShards(dir, name, 1)
	sf, err := os.Create(filepath.Join(dir, name+".scripts"))
	check(err)
	sw := bufio.NewWriter(sf)
	st := newStats()
	start := time.Now()
	var given []*BScript
	if in != "" {
		f, err := os.Open(in)
		check(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			s := &BScript{}
			check(json.Unmarshal(sc.Bytes(), s))
			for i := 0; i < reps; i++ {
				given = append(given, s)
			}
		}
		n = len(given)
	}
	plan := bplans[prop]
	if plan == nil {
		plan = bplans[""]
	}
	for i := 0; i < n; i++ {
		if budget > 0 && time.Since(start) > budget {
			break
		}
		var s *BScript
		if in != "" {
			s = given[i]
		} else {
			pn := plan[(off+i*stride)%len(plan)]
			p := bprofs[pn]
			p.name = pn
			if p.exact && !exactOK() {
				st.Skipped++
				continue
			}
			s = g.bulk(p, fmt.Sprintf("%s-bulk-%d-%d", prop, seed, i))
		}
		progress(dir, name, s)
		ch := make(chan *BTrace, 1)
		t0 := time.Now()
		go func() { ch <- runBulk(s) }()
		var t *BTrace
		select {
		case t = <-ch:
		case <-time.After(limit):
			st.Hung = append(st.Hung, s.ID)
			b, _ := json.Marshal(s)
			check(os.WriteFile(filepath.Join(dir, name+".hung"), b, 0o644))
		}
		if t == nil {
			break
		}
		if os.Getenv("VERIF_BULKTIME") != "" {
			fmt.Fprintln(os.Stderr, s.Notes, s.Cfg, s.Kind, s.N, s.NB, s.Part, time.Since(t0).Round(time.Millisecond))
		}
		w.write(t, len(t.Ev))
		b, _ := json.Marshal(s)
		sw.Write(b)
		sw.WriteByte('\n')
		st.Scripts++
		st.Distinct++
		st.Events += len(t.Ev)
		st.ByStore[s.Cfg.Store]++
		st.Extra["keys_"+s.Notes] += s.N
		for _, e := range t.Ev {
			l := e.([]interface{})
			st.ByOp[l[0].(string)]++
			if l[0] == "each" {
				st.Extra["calls"] += t.Sz[l[1].(int)-1] * len(l[2].([]interface{}))
			} else if l[0] == "churn" {
				st.Extra["calls"] += t.Sz[l[1].(int)-1] * len(l[3].([]interface{})) * l[2].(int)
			} else if l[0] == "stairs" {
				st.Extra["stairs_maps"] += l[2].(int)
			} else if len(l) == 4 && l[0] != "panic" && l[0] != "range" {
				st.Extra["calls"] += t.Sz[l[1].(int)-1]
			}
		}
	}
	w.close()
	sw.Flush()
	sf.Close()
	os.Remove(filepath.Join(dir, name+".current"))
	json.NewEncoder(os.Stdout).Encode(st)
}
