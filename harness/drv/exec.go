package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"github.com/kazu/elist_head"
	sm "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/rmap"
)

// Cfg of one map instance.
type Cfg struct {
	Store string `json:"store"` // heap, pool, emb, rmap
	API   string `json:"api"`   // set, item, entry, cust
	Mode  int    `json:"mode"`
	Per   int    `json:"per"`
	Fn    bool   `json:"fn,omitempty"`    // pass ItemFn option
	Def   bool   `json:"def,omitempty"`   // no options at all besides the storage
	Setup bool   `json:"setup,omitempty"` // call Setup before StoreItem
	Perm  int    `json:"perm,omitempty"`  // other order of the options, with options that change nothing
}

// Op is [name, inst, key, arg].
type Op struct {
	N string
	I int
	K int
	A int
}

func (o Op) MarshalJSON() ([]byte, error) { return json.Marshal([]interface{}{o.N, o.I, o.K, o.A}) }
func (o *Op) UnmarshalJSON(b []byte) error {
	var l []interface{}
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	o.N = l[0].(string)
	g := func(i int) int {
		if i < len(l) {
			return int(l[i].(float64))
		}
		return 0
	}
	o.I, o.K, o.A = g(1), g(2), g(3)
	return nil
}

// Script is a sequential history to execute.
type Script struct {
	ID    string    `json:"id"`
	Insts []Cfg     `json:"insts"`
	Keys  []KeySpec `json:"keys"`
	Vals  string    `json:"vals,omitempty"`
	Ops   []Op      `json:"ops"`
	// keys are cloned for every call, so that only the map refers to stored strings
	Clone bool `json:"clone,omitempty"`
	// lower bounds of the buckets at the end according to the specification; only counted
	Want  []string `json:"want,omitempty"`
	Wlist []string `json:"wlist,omitempty"` // reverses of the entries of the list
}

// Trace is what TLC reads.
type Trace struct {
	ID   string        `json:"id"`
	NI   int           `json:"ni"`
	NK   int           `json:"nk"`
	Rank []int         `json:"rank"`
	Ev   []interface{} `json:"ev"`
	Scr  *Script       `json:"-"`
	Same int           `json:"-"` // buckets as wanted: 1, other buckets: 2
}

// ---- custom item type with free choice of the hash ----

type custItem struct {
	H, C uint64
	sm.SampleItem
}

var custProto *custItem

const custOff = unsafe.Offsetof(custProto.SampleItem) + sm.SampleItemOffsetOf

func custFrom(l *elist_head.ListHead) *custItem {
	return (*custItem)(unsafe.Add(unsafe.Pointer(l), -int(custOff)))
}
func (s *custItem) Offset() uintptr { return custOff }
func (s *custItem) HmapEntryFromListHead(l *elist_head.ListHead) sm.HMapEntry {
	return custFrom(l)
}
func (s *custItem) KeyHash() (uint64, uint64) { return s.H, s.C }
func (s *custItem) Next() sm.HMapEntry        { return custFrom(s.PtrListHead().DirectNext()) }
func (s *custItem) Prev() sm.HMapEntry        { return custFrom(s.PtrListHead().DirectPrev()) }

// ---- one map instance ----

type inst struct {
	cfg   Cfg
	m     *sm.Map
	r     *rmap.RMap
	keys  []*Key
	byV   map[interface{}]int
	vs    *values
	last  map[int]int // latest value written per key: only a hint for values that look alike
	clone bool
	held  map[int]sm.MapItem // latest item of a key given to StoreItem
	all   []*inst            // the maps of the script
	items map[int]sm.MapItem // items by number; in the first map
}

func newInst(c Cfg, keys []*Key, vs *values, clone bool) *inst {
	in := &inst{cfg: c, keys: keys, vs: vs, byV: map[interface{}]int{}, last: map[int]int{}, clone: clone, held: map[int]sm.MapItem{}, items: map[int]sm.MapItem{}}
	for i, k := range keys {
		in.byV[k.V] = i + 1
	}
	if c.Store == "rmap" {
		in.r = rmap.New()
		return in
	}
	var opts []sm.OptHMap
	if !c.Def {
		opts = append(opts, sm.MaxPefBucket(c.Per), sm.BucketMode(sm.SearchMode(c.Mode)))
	}
	switch c.Store {
	case "pool":
		opts = append(opts, sm.UsePool(true))
	case "emb":
		opts = append(opts, sm.UseEmbeddedPool(true))
	}
	if c.Fn {
		opts = append(opts, sm.ItemFn(func() sm.MapItem { return sm.EmptySampleHMapEntry }))
	}
	if c.API == "cust" {
		opts = append(opts, sm.ItemFn(func() sm.MapItem { return custProto }))
	}
	if c.Perm == 0 {
		in.m = sm.New(opts...)
		return in
	}
	r := rand.New(rand.NewSource(int64(c.Perm)))
	switch c.Store {
	case "heap":
		opts = append(opts, sm.UsePool(false), sm.UseEmbeddedPool(false))
	case "pool":
		opts = append(opts, sm.UsePool(true), sm.UseEmbeddedPool(false))
	case "emb":
		opts = append(opts, sm.UsePool(r.Intn(2) == 0), sm.UseEmbeddedPool(true))
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	if !c.Def && r.Intn(2) == 0 {
		// overwritten by later ones
		opts = append([]sm.OptHMap{sm.BucketMode(sm.SearchMode(r.Intn(5))), sm.MaxPefBucket(1 + r.Intn(40))}, opts...)
	}
	in.m = sm.NewHMap(opts...)
	return in
}

func (in *inst) key(k int) interface{} {
	v := in.keys[k-1].V
	if in.clone {
		return cloneKey(v)
	}
	return v
}

// altKey returns the key in another representation: bytes of a string, another integer type.
func (in *inst) altKey(k, form int) interface{} {
	v := in.key(k)
	if form == 0 {
		return v
	}
	if s, ok := v.(string); ok {
		return []byte(s)
	}
	n, ok := v.(int)
	if !ok {
		return v
	}
	alt := []interface{}{uint64(n), int64(n)}
	if int(int32(n)) == n {
		alt = append(alt, int32(n))
	}
	if int(uint32(n)) == n {
		alt = append(alt, uint32(n))
	}
	if int(byte(n)) == n {
		alt = append(alt, byte(n))
	}
	return alt[form%len(alt)]
}

// itemNo is keyNo of the key of an item, which has to carry the hashes of its key.
func (in *inst) itemNo(it sm.MapItem) int {
	kn := in.keyNo(it.Key())
	if kn <= 0 {
		return kn
	}
	k, h := in.keys[kn-1], it.PtrMapHead()
	if h.KeyInHmap() != k.Hash || h.ConflictInHamp() != k.Conf || h.IsDummy() || h.IsDeleted() {
		return -1
	}
	return kn
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// keyNo maps a key reported by the map to its number, -1 if it is none of the script.
func (in *inst) keyNo(v interface{}) int {
	switch v.(type) {
	case string, int:
	default:
		return -1
	}
	if n, ok := in.byV[v]; ok {
		return n
	}
	return -1
}

func (in *inst) val(k int, v interface{}, ok bool) int {
	if !ok {
		return 0
	}
	return in.vs.decode(v, in.last[k])
}

func (in *inst) item(k, v int) sm.MapItem {
	key := in.keys[k-1]
	switch in.cfg.API {
	case "entry":
		return sm.NewEntryMap(in.key(k), in.vs.make(v))
	case "cust":
		it := &custItem{H: key.Hash, C: key.Conf}
		it.K = in.key(k).(string)
		it.SetValue(in.vs.make(v))
		return it
	}
	it := sm.NewSampleItem(in.key(k).(string), in.vs.make(v))
	if in.cfg.Setup {
		it.Setup()
	}
	return it
}

func gcNow() {
	runtime.GC()
	var churn [][]byte
	for i := 0; i < 64; i++ {
		churn = append(churn, make([]byte, 48+i*8))
	}
	runtime.KeepAlive(churn)
}

// restore stores the item it of key o.K, which has value v.
func (in *inst) restore(o Op, it sm.MapItem, v int) []interface{} {
	if v <= 0 {
		return []interface{}{[]interface{}{"get", o.I, o.K, -1}}
	}
	in.last[o.K] = v
	return []interface{}{[]interface{}{"set", o.I, o.K, v, b2i(in.m.StoreItem(it))}}
}

// do executes one operation and returns its events.
func (in *inst) do(o Op) []interface{} {
	ev := func(x ...interface{}) []interface{} { return []interface{}{x} }
	if in.r != nil {
		return in.doRmap(o, ev)
	}
	m := in.m
	switch o.N {
	case "set", "store":
		var ok bool
		old, had := in.last[o.K]
		in.last[o.K] = o.A
		if o.N == "set" && in.cfg.API == "set" {
			k := in.key(o.K)
			if s, isStr := k.(string); isStr && o.A%7 == 3 { // an update may name the key by its bytes
				if _, live := m.Get(k); live {
					k = []byte(s)
				}
			}
			ok = m.Set(k, in.vs.make(o.A))
		} else {
			it := in.item(o.K, o.A)
			if !in.clone {
				in.held[o.K] = it
			}
			ok = m.StoreItem(it)
		}
		_, _ = old, had
		return ev("set", o.I, o.K, o.A, b2i(ok))
	case "inew": // items with an identity (ItemLinks): A is 16 * value + number of the item
		in.all[0].items[o.A%16] = in.item(o.K, o.A/16)
		return nil
	case "ist":
		it := in.all[0].items[o.A%16]
		return in.restore(o, it, in.vs.decode(it.Value(), in.last[o.K]))
	case "ild":
		it, ok := m.LoadItem(in.key(o.K))
		if !ok {
			return ev("load", o.I, o.K, 0)
		}
		in.all[0].items[o.A%16] = it
		return ev("load", o.I, o.K, in.val(o.K, it.Value(), true))
	case "isv": // the item is live in this map
		o.N, o.A = "isetv", o.A/16
		return in.do(o)
	case "isv0": // it is in no map
		in.all[0].items[o.A%16].SetValue(in.vs.make(o.A / 16))
		return nil
	case "rest": // store an item again: it may be in this map, deleted from it, or in another map
		var it sm.MapItem
		from := in
		for d := 0; d < len(in.all) && it == nil; d++ {
			x := in.all[(o.I-1+d+o.A)%len(in.all)]
			if x.r == nil && (x.cfg.API == "entry") == (in.cfg.API == "entry") {
				it, from = x.held[o.K], x
			}
		}
		if it == nil || in.cfg.API == "cust" || from.cfg.API == "cust" {
			o.N = "store"
			return in.do(o)
		}
		v := o.A
		if from != in { // it may be in both maps or only in this one from now on
			delete(from.held, o.K)
		}
		if o.A%2 == 0 && from == in { // with a new value
			// an item which is in the map changes the map now
			in.last[o.K] = o.A
			it.SetValue(in.vs.make(o.A))
		} else {
			v = in.vs.decode(it.Value(), from.last[o.K], in.last[o.K])
		}
		return in.restore(o, it, v)
	case "relo": // load an item, delete it, store it
		if in.cfg.API == "cust" {
			o.N = "store"
			return in.do(o)
		}
		it, ok := m.LoadItem(in.key(o.K))
		if !ok {
			return ev("load", o.I, o.K, 0)
		}
		v := in.val(o.K, it.Value(), true)
		l := ev("load", o.I, o.K, v)
		d := Op{"del", o.I, o.K, 0}
		if o.A%2 == 0 && in.cfg.Store != "emb" {
			d.N = "purge"
		}
		l = append(l, in.do(d)...)
		return append(l, in.restore(o, it, v)...)
	case "copyto": // every item of this map is stored in another one
		to := in.all[o.A%len(in.all)]
		if to.r != nil || in.cfg.API == "cust" || to.cfg.API == "cust" || (to.cfg.API == "entry") != (in.cfg.API == "entry") {
			o.N = "rangei"
			o.A = 0
			return in.do(o)
		}
		res := []int{}
		var sub []interface{}
		n := 0
		m.RangeItem(func(it sm.MapItem) bool {
			n++
			kn := in.keyNo(it.Key())
			v := in.val(kn, it.Value(), true)
			res = append(res, kn, v)
			if kn > 0 {
				sub = append(sub, to.restore(Op{"rest", 1 + o.A%len(in.all), kn, 0}, it, v)...)
			}
			return n < 2*len(in.keys)+3
		})
		return append(ev("rangei", o.I, 0, res), sub...)
	case "isetv": // update through a loaded item
		var it sm.MapItem
		var ok bool
		if in.cfg.API == "cust" || o.A%2 == 0 {
			it, ok = m.LoadItemByHash(in.keys[o.K-1].Hash, in.keys[o.K-1].Conf)
		} else {
			it, ok = m.LoadItem(in.key(o.K))
		}
		if ok && it != nil {
			in.last[o.K] = o.A
			ok2 := it.SetValue(in.vs.make(o.A))
			return ev("isetv", o.I, o.K, o.A, b2i(ok2))
		}
		return ev("isetv", o.I, o.K, o.A, b2i(ok))
	case "get":
		if in.cfg.API == "cust" {
			v, ok := m.GetByHash(in.keys[o.K-1].Hash, in.keys[o.K-1].Conf)
			return ev("get", o.I, o.K, in.val(o.K, v, ok))
		}
		v, ok := m.Get(in.key(o.K))
		return ev("get", o.I, o.K, in.val(o.K, v, ok))
	case "getb":
		if in.cfg.API == "cust" {
			v, ok := m.GetByHash(in.keys[o.K-1].Hash, in.keys[o.K-1].Conf)
			return ev("getb", o.I, o.K, in.val(o.K, v, ok))
		}
		v, ok := m.Get(in.altKey(o.K, 1+o.A))
		return ev("getb", o.I, o.K, in.val(o.K, v, ok))
	case "geth":
		h, c := in.keys[o.K-1].Hash, in.keys[o.K-1].Conf
		if in.cfg.API != "cust" {
			h, c = sm.KeyToHash(in.key(o.K))
		}
		v, ok := m.GetByHash(h, c)
		return ev("geth", o.I, o.K, in.val(o.K, v, ok))
	case "load", "loadh":
		var it sm.MapItem
		var ok bool
		if o.N == "load" && in.cfg.API != "cust" {
			it, ok = m.LoadItem(in.altKey(o.K, o.A))
		} else {
			it, ok = m.LoadItemByHash(in.keys[o.K-1].Hash, in.keys[o.K-1].Conf)
		}
		if !ok {
			return ev(o.N, o.I, o.K, 0)
		}
		if in.itemNo(it) != o.K {
			return ev(o.N, o.I, o.K, -1)
		}
		return ev(o.N, o.I, o.K, in.val(o.K, it.Value(), true))
	case "search": // any entry which has the hash of the key
		h := in.keys[o.K-1].Hash
		if in.cfg.API != "cust" {
			h, _ = sm.KeyToHash(in.key(o.K))
		}
		e := m.SearchKey(h)
		if e == nil {
			return ev("search", o.I, o.K, 0, 0)
		}
		it := e.(sm.MapItem)
		kn := in.keyNo(it.Key())
		return ev("search", o.I, o.K, kn, in.val(kn, it.Value(), true))
	case "opt": // another capacity of buckets and another search mode
		mode := sm.SearchMode(o.A % 6)
		prev := m.Options(sm.MaxPefBucket(o.K), sm.BucketMode(mode))
		if o.A/6 == 0 { // and back
			m.Options(prev...)
		}
		return ev("opt", o.I)
	case "dump":
		return ev("dump", o.I, 0, in.dump())
	case "del":
		if in.cfg.API == "cust" { // the way the package itself removes a loaded item
			it, ok := m.LoadItemByHash(in.keys[o.K-1].Hash, in.keys[o.K-1].Conf)
			if ok {
				m.AddLen(-1)
				it.Delete()
			}
			return ev("del", o.I, o.K, b2i(ok))
		}
		return ev("del", o.I, o.K, b2i(m.Delete(in.altKey(o.K, o.A))))
	case "purge":
		if in.cfg.API == "cust" {
			o.N = "del"
			return in.do(o)
		}
		return ev("purge", o.I, o.K, b2i(m.Purge(in.altKey(o.K, o.A))))
	case "len":
		return ev("len", o.I, m.Len())
	case "range":
		res := []int{}
		n := 0
		leaving(func() {
			m.Range(func(k, v interface{}) bool {
				n++
				kn := in.keyNo(k)
				res = append(res, kn, in.val(kn, v, true))
				return goOn(n != o.A && n < 2*len(in.keys)+3, o)
			})
		})
		return ev("range", o.I, o.A, res)
	case "rangei":
		res := []int{}
		n := 0
		leaving(func() {
			m.RangeItem(func(it sm.MapItem) bool {
				n++
				kn := in.itemNo(it)
				res = append(res, kn, in.val(kn, it.Value(), true))
				return goOn(n != o.A && n < 2*len(in.keys)+3, o)
			})
		})
		return ev("rangei", o.I, o.A, res)
	case "walk":
		res := []int{}
		n := 0
		for e := m.First(); n < 1000000; e = e.Next() {
			n++
			if e.PtrListHead().Empty() {
				break
			}
			if e.PtrMapHead().IsIgnored() {
				continue
			}
			it := e.(sm.MapItem)
			kn := in.itemNo(it)
			res = append(res, kn, in.val(kn, it.Value(), true))
			if len(res) > 4*len(in.keys)+8 {
				break
			}
		}
		return ev("walk", o.I, 0, res)
	case "walkb":
		res := []int{}
		n := 0
		for e := m.Last(); n < 1000000; e = e.Prev() {
			n++
			if e.PtrListHead().Empty() {
				break
			}
			if e.PtrMapHead().IsIgnored() {
				continue
			}
			it := e.(sm.MapItem)
			kn := in.itemNo(it)
			res = append([]int{kn, in.val(kn, it.Value(), true)}, res...)
			if len(res) > 4*len(in.keys)+8 {
				break
			}
		}
		return ev("walkb", o.I, 0, res)
	case "gc":
		gcNow()
		return ev("gc", o.I)
	case "getall": // observe every key
		var l []interface{}
		for k := range in.keys {
			l = append(l, in.do(Op{"get", o.I, k + 1, 0})...)
		}
		return l
	case "rangere": // enumeration whose callback calls the map again
		res := []int{}
		n := 0
		var sub []interface{}
		// o.A/8: the callback in which it is enumerated again, o.A&7: how
		other, oi := in, o.I
		if o.A&4 != 0 && len(in.all) > 0 {
			oi = 1 + (o.A/8)%len(in.all)
			if other = in.all[oi-1]; other.r != nil {
				other, oi = in, o.I
			}
		}
		visit := func(k, v interface{}) bool {
			n++
			kn := in.keyNo(k)
			res = append(res, kn, in.val(kn, v, true))
			if kn > 0 {
				sub = append(sub, in.do(Op{"get", o.I, kn, 0})...)
				sub = append(sub, in.do(Op{"len", o.I, 0, 0})...)
				if n == o.A/8 {
					name := "range"
					if o.A&2 != 0 {
						name = "rangei"
					}
					sub = append(sub, other.do(Op{name, oi, 0, n / 2})...)
				}
			}
			return n < 2*len(in.keys)+3
		}
		name := "range"
		if o.A&1 != 0 {
			name = "rangei"
			m.RangeItem(func(it sm.MapItem) bool { return visit(it.Key(), it.Value()) })
		} else {
			m.Range(visit)
		}
		// nothing is modified: the enumeration may be reported before the inner calls
		return append(ev(name, o.I, 0, res), sub...)
	}
	panic("unknown op " + o.N)
}

// An enumeration with K = 1 is left by a panic of its callback, which the
// caller recovers, instead of by returning false.
type leave struct{}

func goOn(ok bool, o Op) bool {
	if !ok && o.K == 1 {
		panic(leave{})
	}
	return ok
}

func leaving(f func()) {
	done := false
	defer func() {
		if done {
			return
		}
		if e := recover(); e != nil {
			if _, ok := e.(leave); !ok {
				panic(e)
			}
		}
	}()
	f()
	done = true
}

var dumpRe = regexp.MustCompile(`(?s)entryHMap\{key: (.*?), k: 0x *([0-9a-f]+), reverse: 0x *([0-9a-f]+)\), conflict: 0x([0-9a-f]+), cur: 0x`)

// dump calls the methods that print the map and returns the keys of the printed
// entries. Entries of deleted keys are printed, too.
func (in *inst) dump() []int {
	in.m.DumpBucket(io.Discard)
	in.m.DumpBucketPerLevel(io.Discard)
	var b strings.Builder
	in.m.DumpEntry(&b)
	no := map[string]int{}
	for i, k := range in.keys {
		h, c := k.Hash, k.Conf
		if in.cfg.API != "cust" {
			h, c = sm.KeyToHash(in.key(i + 1))
		}
		no[fmt.Sprintf("%x %x", h, c)] = i + 1
	}
	res := []int{}
	for _, x := range dumpRe.FindAllStringSubmatch(b.String(), -1) {
		if n := no[x[2]+" "+x[4]]; n > 0 {
			res = append(res, n)
		} else if strings.TrimSpace(x[1]) != "<nil>" { // not the start of a bucket
			res = append(res, -1)
		}
	}
	return res
}

func (in *inst) doRmap(o Op, ev func(x ...interface{}) []interface{}) []interface{} {
	m := in.r
	key := func() string { return in.key(o.K).(string) }
	switch o.N {
	case "set":
		in.last[o.K] = o.A
		return ev("set", o.I, o.K, o.A, b2i(m.Set(key(), in.vs.make(o.A))))
	case "store":
		in.last[o.K] = o.A
		k := in.keys[o.K-1]
		return ev("set", o.I, o.K, o.A, b2i(m.Set2(k.Hash, k.Conf, key(), in.vs.make(o.A))))
	case "get":
		v, ok := m.Get(key())
		return ev("get", o.I, o.K, in.val(o.K, v, ok))
	case "geth":
		v, ok := m.Get2(in.keys[o.K-1].Hash, in.keys[o.K-1].Conf)
		return ev("geth", o.I, o.K, in.val(o.K, v, ok))
	case "del":
		return ev("del", o.I, o.K, b2i(m.Delete(key())))
	case "len":
		return ev("len", o.I, m.Len())
	case "gc":
		gcNow()
		return ev("gc", o.I)
	case "getall":
		var l []interface{}
		for k := range in.keys {
			l = append(l, in.doRmap(Op{"get", o.I, k + 1, 0}, ev)...)
		}
		return l
	}
	panic("unknown rmap op " + o.N)
}

// run executes a script. A panic of the code under test becomes an event.
func run(s *Script) (t *Trace, err error) {
	keys, rank, err := resolve(s.Keys)
	if err != nil {
		return nil, err
	}
	t = &Trace{ID: s.ID, NI: len(s.Insts), NK: len(keys), Rank: rank, Scr: s, Ev: []interface{}{}}
	var cur Op
	defer func() {
		if r := recover(); r != nil {
			t.Ev = append(t.Ev, []interface{}{"panic", cur.I, cur.K, fmt.Sprint(r)})
			if os.Getenv("VERIF_STACK") != "" {
				fmt.Fprintln(os.Stderr, s.ID, cur, r, string(debug.Stack()))
			}
		}
	}()
	debug.SetPanicOnFault(true)
	var ins []*inst
	vs := newValues(s.Vals)
	for _, c := range s.Insts {
		ins = append(ins, newInst(c, keys, vs, s.Clone))
	}
	for _, in := range ins {
		in.all = ins
	}
	for _, o := range s.Ops {
		cur = o
		if o.I < 1 {
			o.I = 1
		}
		t.Ev = append(t.Ev, ins[o.I-1].do(o)...)
	}
	if len(s.Want) > 0 && ins[0].m != nil {
		t.Same = 2
		if sameBuckets(ins[0].m, s.Want, s.Wlist) {
			t.Same = 1
		}
	}
	runtime.KeepAlive(ins)
	return t, nil
}

var bucketRe = regexp.MustCompile(`bucket\{reverse: 0x *([0-9a-f]+),`)

var entryRe = regexp.MustCompile(`reverse: 0x *([0-9a-f]+)\)`)

// sameBuckets compares the buckets with those of the specification. It judges the
// specification, not the code: other buckets may be as good.
func sameBuckets(m *sm.Map, want, list []string) (same bool) {
	defer func() {
		if recover() != nil {
			same = false
		}
	}()
	var b strings.Builder
	m.DumpBucket(&b)
	got := map[string]bool{}
	for _, x := range bucketRe.FindAllStringSubmatch(b.String(), -1) {
		got[x[1]] = true
	}
	delete(got, "ffffffffffffffff")
	if len(got) != len(want) {
		return false
	}
	for _, w := range want {
		if !got[w] {
			return false
		}
	}
	b.Reset()
	m.DumpEntry(&b)
	ents := entryRe.FindAllStringSubmatch(b.String(), -1)
	if len(ents) != len(list)+1 {
		return false
	}
	for i, w := range list {
		if ents[i][1] != w {
			return false
		}
	}
	return true
}

// runLimited runs a script with a time limit. After a timeout the process cannot be used any more.
func runLimited(s *Script, limit time.Duration) (t *Trace, hung bool, err error) {
	type res struct {
		t   *Trace
		err error
	}
	ch := make(chan res, 1)
	go func() {
		t, err := run(s)
		ch <- res{t, err}
	}()
	select {
	case r := <-ch:
		return r.t, false, r.err
	case <-time.After(limit):
		return nil, true, nil
	}
}

func short(s string) string {
	if len(s) > 200 {
		s = s[:200]
	}
	return strings.ReplaceAll(s, "\n", " ")
}
