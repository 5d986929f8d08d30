package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	sm "github.com/kazu/skiplistmap"
)

// CScript is a concurrent workload.
type CScript struct {
	ID    string    `json:"id"`
	Insts []Cfg     `json:"insts"`
	Keys  []KeySpec `json:"keys"`
	Vals  string    `json:"vals,omitempty"`
	Clone bool      `json:"clone,omitempty"`
	Init  []Op      `json:"init,omitempty"`  // sequential, before
	Gs    [][]Op    `json:"gs"`              // one list per goroutine
	Sub   [][]Op    `json:"sub,omitempty"`   // what callbacks of rangemod do
	Post  []Op      `json:"post,omitempty"`  // sequential, after
	Sleep []int     `json:"sleep,omitempty"` // yield points at which a goroutine sleeps
	Gosch int       `json:"gosch,omitempty"` // 1 of Gosch yield points calls Gosched, 0: none
	GC    bool      `json:"gc,omitempty"`
	Own   bool      `json:"own,omitempty"` // every map is used by one goroutine only

	Ctl   bool  `json:"ctl,omitempty"`   // the schedule is
	Start int   `json:"start,omitempty"` // the first goroutine and
	Plan  []Pre `json:"plan,omitempty"`  // preemptions
	Sync  int   `json:"sync,omitempty"`  // preemptions at locks (1), at all synchronisation (2) only
}

// one call of a goroutine
type call struct {
	op     Op
	c, r   int64 // order of call and return
	res    int
	ok     bool // returned
	range_ bool
	ks     []int   // Range: visited keys
	vs     []int   // and values
	at     []int64 // and when
	stop   bool    // callback said stop
}

// History of one key, for TraceLin.
type History struct {
	ID   string        `json:"id"`
	Init int           `json:"init"`
	Ev   []interface{} `json:"ev"`
}

type runner struct {
	s    *CScript
	ins  []*inst
	ctr  int64
	logs [][]*call
	pan  atomic.Value
	c    *ctl
	cy   func() // scheduling point of callbacks, while the goroutines run
}

func (r *runner) tick() int64 { return atomic.AddInt64(&r.ctr, 1) }

// do is the part of inst.do that is safe for concurrent use.
func (r *runner) do(g int, o Op) {
	in := r.ins[o.I-1]
	c := &call{op: o}
	r.logs[g] = append(r.logs[g], c)
	m := in.m
	val := func(v interface{}, ok bool) int {
		if !ok {
			return 0
		}
		return in.vs.decode(v)
	}
	if in.r != nil {
		var key string
		var k *Key
		if o.K > 0 {
			key, k = in.key(o.K).(string), in.keys[o.K-1]
		}
		var v interface{}
		if o.N == "set" {
			v = in.vs.make(o.A)
		}
		c.c = r.tick()
		switch o.N {
		case "set":
			c.res = b2i(in.r.Set(key, v))
		case "get":
			x, ok := in.r.Get(key)
			c.r = r.tick()
			c.res = val(x, ok)
		case "geth":
			x, ok := in.r.Get2(k.Hash, k.Conf)
			c.r = r.tick()
			c.res = val(x, ok)
		case "del":
			c.res = b2i(in.r.Delete(key))
		case "len":
			in.r.Len()
		default:
			panic("rmap op " + o.N)
		}
		if c.r == 0 {
			c.r = r.tick()
		}
		c.ok = true
		return
	}
	switch o.N {
	case "set", "store":
		if o.N == "set" && in.cfg.API == "set" {
			k, v := in.key(o.K), in.vs.make(o.A)
			c.c = r.tick()
			ok := m.Set(k, v)
			c.r = r.tick()
			c.res = b2i(ok)
		} else {
			it := in.item(o.K, o.A)
			c.c = r.tick()
			ok := m.StoreItem(it)
			c.r = r.tick()
			c.res = b2i(ok)
		}
	case "get", "getb", "geth":
		k := in.key(o.K)
		if o.N == "getb" {
			k = []byte(k.(string))
		}
		h, cf := in.keys[o.K-1].Hash, in.keys[o.K-1].Conf
		var v interface{}
		var ok bool
		c.c = r.tick()
		if o.N == "geth" {
			v, ok = m.GetByHash(h, cf)
		} else {
			v, ok = m.Get(k)
		}
		c.r = r.tick()
		c.res = val(v, ok)
	case "load", "loadh":
		h, cf := in.keys[o.K-1].Hash, in.keys[o.K-1].Conf
		var it sm.MapItem
		var ok bool
		c.c = r.tick()
		if o.N == "loadh" {
			it, ok = m.LoadItemByHash(h, cf)
		} else {
			it, ok = m.LoadItem(in.altKey(o.K, o.A))
		}
		if in.cfg.Store == "heap" && ok {
			kk, vv := it.Key(), it.Value()
			c.r = r.tick()
			c.res = val(vv, true)
			if in.keyNo(kk) != o.K {
				c.res = -1
			}
		} else { // storage of a pooled item may already be in other use
			c.r = r.tick()
			c.op.N = "has"
			c.res = b2i(ok)
		}
	case "isetv": // update through a loaded item
		k := in.key(o.K)
		h, cf := in.keys[o.K-1].Hash, in.keys[o.K-1].Conf
		v := in.vs.make(o.A)
		var it sm.MapItem
		var ok bool
		c.c = r.tick()
		if o.A%2 == 0 {
			it, ok = m.LoadItemByHash(h, cf)
		} else {
			it, ok = m.LoadItem(k)
		}
		ok = ok && it.SetValue(v)
		c.r = r.tick()
		c.res = b2i(ok)
	case "search":
		h := in.keys[o.K-1].Hash
		same := false
		for i, k := range in.keys {
			same = same || i != o.K-1 && k.Hash == h
		}
		c.c = r.tick()
		e := m.SearchKey(h)
		c.r = r.tick()
		c.op.N = "has"
		c.res = b2i(e != nil)
		if same { // it may be the entry of another key
			c.op.N = "len"
		}
	case "dump":
		c.c = r.tick()
		in.dump()
		c.r = r.tick()
	case "del", "purge":
		k := in.altKey(o.K, o.A)
		var ok bool
		c.c = r.tick()
		if o.N == "purge" {
			ok = m.Purge(k)
		} else {
			ok = m.Delete(k)
		}
		c.r = r.tick()
		c.res = b2i(ok)
	case "len":
		c.c = r.tick()
		m.Len()
		c.r = r.tick()
	case "range", "rangei", "rangemod", "rangemodi":
		c.range_ = true
		sub := []Op(nil)
		stop := o.A
		if o.N == "rangemod" || o.N == "rangemodi" {
			sub, stop = r.s.Sub[o.A], 0
		}
		n := 0
		visit := func(k, v interface{}) bool {
			n++
			c.at = append(c.at, r.tick())
			kn := in.keyNo(k)
			c.ks = append(c.ks, kn)
			c.vs = append(c.vs, val(v, true))
			if r.cy != nil {
				r.cy()
			}
			// spread over the callbacks
			for j := n - 1; j < len(sub); j += 3 {
				r.do(g, sub[j])
				if j-(n-1) >= 3 {
					break
				}
			}
			if n == stop || n > 2*len(in.keys)+3 {
				c.stop = true
				return goOn(false, o)
			}
			return true
		}
		c.c = r.tick()
		leaving(func() {
			if o.N == "rangei" || o.N == "rangemodi" {
				m.RangeItem(func(it sm.MapItem) bool { return visit(it.Key(), it.Value()) })
			} else {
				m.Range(visit)
			}
		})
		c.r = r.tick()
	default:
		panic("conc op " + o.N)
	}
	c.ok = true
}

// yieldFn makes the yield function of a case.
func yieldFn(s *CScript, cnt *int64) func() {
	sl := map[int64]bool{}
	var max int64
	for _, x := range s.Sleep {
		sl[int64(x)] = true
		if int64(x) > max {
			max = int64(x)
		}
	}
	g := int64(s.Gosch)
	return func() {
		n := atomic.AddInt64(cnt, 1)
		if n <= max && sl[n] {
			time.Sleep(60 * time.Microsecond)
			return
		}
		if g > 0 && (n*2654435761>>13)%g == 0 {
			runtime.Gosched()
		}
	}
}

type cresult struct {
	hist   []*History
	trace  *Trace
	yields int64
	calls  int
	hung   bool
	stacks string
}

// foreign counts schedules which stood still because a goroutine waited for something
// the scheduler does not know (a channel): such waits are cut short after the first ones.
var foreign int

func (r *runner) run(limit time.Duration) (res *cresult, err error) {
	s := r.s
	keys, rank, err := resolve(s.Keys)
	if err != nil {
		return nil, err
	}
	res = &cresult{trace: &Trace{ID: s.ID, NI: len(s.Insts), NK: len(keys), Rank: rank, Ev: []interface{}{}}}
	t := res.trace
	for _, c := range s.Insts {
		r.ins = append(r.ins, newInst(c, keys, newValues(s.Vals), s.Clone))
	}
	done := make(chan bool, 1)
	last, quiet := int64(-1), 0
	lastStage := int32(-1)
	r.logs = make([][]*call, len(s.Gs)+1)
	init := make([][]int, len(s.Insts))
	for i := range init {
		init[i] = make([]int, len(keys))
	}
	seq := func(ops []Op) (ok bool) {
		var cur Op
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("VERIF_STACK") != "" {
					fmt.Fprintln(os.Stderr, s.ID, cur, e, string(debug.Stack()))
				}
				t.Ev = append(t.Ev, []interface{}{"panic", cur.I, cur.K, short(fmt.Sprint(e))})
			}
		}()
		debug.SetPanicOnFault(true)
		for _, o := range ops {
			cur = o
			t.Ev = append(t.Ev, r.ins[o.I-1].do(o)...)
		}
		return true
	}
	var yc int64
	stage := int32(0)
	go func() {
		defer func() { done <- true }()
		if !seq(s.Init) {
			return
		}
		for _, e := range t.Ev {
			e := e.([]interface{})
			switch e[0] {
			case "set":
				init[e[1].(int)-1][e[2].(int)-1] = e[3].(int)
			case "del", "purge":
				init[e[1].(int)-1][e[2].(int)-1] = 0
			}
		}
		if s.Ctl {
			r.c = newCtl(len(s.Gs), s.Plan, s.Start)
			setBlock(r.c.block)
			if s.Sync > 0 {
				setPoint(r.c.yield, s.Sync == 1)
			} else {
				setYield(r.c.yield)
			}
			r.cy = r.c.yield
		} else if s.Gosch > 0 || len(s.Sleep) > 0 {
			r.cy = yieldFn(s, &yc)
			setYield(r.cy)
		}
		atomic.StoreInt32(&stage, 1)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := range s.Gs {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				if r.c != nil {
					defer r.c.end(g)
				}
				defer func() {
					if e := recover(); e != nil {
						var o Op
						for _, c := range r.logs[g] {
							o = c.op
						}
						if os.Getenv("VERIF_STACK") != "" {
							fmt.Fprintln(os.Stderr, s.ID, o, e, string(debug.Stack()))
						}
						r.pan.Store([]interface{}{"panic", o.I, o.K, short(fmt.Sprint(e))})
					}
				}()
				debug.SetPanicOnFault(true)
				<-start
				if r.c != nil {
					r.c.begin(g)
				}
				for i, o := range s.Gs[g] {
					if i > 0 && s.Sync > 0 && r.c != nil {
						r.c.yield()
					}
					r.do(g, o)
				}
			}(g)
		}
		var stopGC atomic.Bool
		gcDone := make(chan bool)
		if !s.GC {
			close(gcDone)
		} else {
			go func() {
				defer close(gcDone)
				for !stopGC.Load() {
					gcNow()
				}
			}()
		}
		close(start)
		if r.c != nil {
			r.c.wake[r.c.cur] <- true
		}
		wg.Wait()
		stopGC.Store(true)
		<-gcDone
		setYield(nil)
		setPoint(nil, false)
		r.cy = nil
		if r.c != nil {
			setBlock(nil)
			yc = r.c.cnt
		}
		atomic.StoreInt32(&stage, 2)
		if p := r.pan.Load(); p != nil {
			t.Ev = append(t.Ev, p)
			return
		}
		// what is there now
		g := len(s.Gs)
		ok := func() (ok bool) {
			defer func() {
				if e := recover(); e != nil {
					t.Ev = append(t.Ev, []interface{}{"panic", 1, 0, short(fmt.Sprint(e))})
				}
			}()
			for i := range s.Insts {
				for k := range keys {
					r.do(g, Op{"get", i + 1, k + 1, 0})
					l := r.logs[g]
					v := l[len(l)-1].res
					if v != init[i][k] && v >= 0 {
						t.Ev = append(t.Ev, []interface{}{"adopt", i + 1, k + 1, v})
						r.ins[i].last[k+1] = v
					}
				}
			}
			return true
		}()
		if ok {
			seq(s.Post)
		}
	}()
	if s.Ctl { // most of these end at once
		wait := 500 * time.Millisecond
		if foreign >= 2 {
			wait = 10 * time.Millisecond
		}
		select {
		case <-done:
			goto ended
		case <-time.After(wait):
		}
		for n := int64(-1); ; {
			select {
			case <-done:
				goto ended
			case <-time.After(wait):
			}
			if r.c == nil || atomic.LoadInt32(&stage) != 1 {
				break
			}
			if x := r.c.shadow.Load(); x != n {
				n = x
				continue
			}
			if !r.c.free.Load() {
				foreign++
			}
			r.c.release()
			break
		}
	}
wait:
	for {
		select {
		case <-done:
			break wait
		case <-time.After(limit / 10):
			n, sg := atomic.LoadInt64(&r.ctr)+atomic.LoadInt64(&yc), atomic.LoadInt32(&stage)
			c := atomic.LoadInt64(&r.ctr)
			_ = n
			if c == last && sg == lastStage {
				quiet++
			} else {
				quiet = 0
			}
			last, lastStage = c, sg
			if quiet >= 10 {
				res.hung = true
				b := make([]byte, 1<<16)
				res.stacks = string(b[:runtime.Stack(b, true)])
				return res, nil
			}
		}
	}
ended:
	res.yields = yc
	for _, e := range t.Ev {
		if e.([]interface{})[0] == "panic" {
			return res, nil // calls that have not returned are unknown
		}
	}
	r.histories(res, init, rank)
	return res, nil
}

// histories makes one history for each key of each map, and adds the shape of
// concurrent enumerations to the trace.
func (r *runner) histories(res *cresult, init [][]int, rank []int) {
	type pt struct {
		t  int64
		ev []interface{}
	}
	type pk struct{ i, k int }
	per := map[pk][]pt{}
	id := map[pk]int{}
	add := func(i, k int, c, rt int64, op string, a, v int) {
		p := pk{i, k}
		id[p]++
		n := id[p]
		per[p] = append(per[p], pt{c, []interface{}{"c", n, op, a, v}}, pt{rt, []interface{}{"r", n}})
	}
	var shapes []interface{}
	for _, l := range r.logs {
		for _, c := range l {
			if !c.ok {
				continue
			}
			res.calls++
			o := c.op
			if c.range_ {
				seen := map[int]bool{}
				kv := []int{}
				for j, k := range c.ks {
					kv = append(kv, k, c.vs[j])
					if k > 0 {
						if !seen[k] {
							add(o.I, k, c.c, c.at[j], "get", 0, c.vs[j])
						}
						seen[k] = true
					}
				}
				shapes = append(shapes, []interface{}{"crange", o.I, 0, kv})
				for k := range rank {
					if seen[k+1] {
						continue
					}
					if c.stop {
						lk := c.ks[len(c.ks)-1]
						if lk <= 0 || rank[k] >= rank[lk-1] {
							continue
						}
					}
					add(o.I, k+1, c.c, c.r, "get", 0, 0)
				}
				continue
			}
			switch o.N {
			case "len", "dump":
			case "set", "store":
				add(o.I, o.K, c.c, c.r, "set", o.A, c.res)
			case "del", "purge":
				add(o.I, o.K, c.c, c.r, "del", 0, c.res)
			case "isetv":
				add(o.I, o.K, c.c, c.r, "isetv", o.A, c.res)
			case "has":
				add(o.I, o.K, c.c, c.r, "has", 0, c.res)
			default:
				add(o.I, o.K, c.c, c.r, "get", 0, c.res)
			}
		}
	}
	res.trace.Ev = append(shapes, res.trace.Ev...)
	ps := make([]pk, 0, len(per))
	for p := range per {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(a, b int) bool { return ps[a].i < ps[b].i || ps[a].i == ps[b].i && ps[a].k < ps[b].k })
	for _, p := range ps {
		l := per[p]
		sort.SliceStable(l, func(a, b int) bool { return l[a].t < l[b].t })
		h := &History{ID: fmt.Sprintf("%s/m%d/k%d", r.s.ID, p.i, p.k), Init: init[p.i-1][p.k-1], Ev: []interface{}{}}
		for _, x := range l {
			h.Ev = append(h.Ev, x.ev)
		}
		res.hist = append(res.hist, h)
	}
}

// ---- generation ----

func (g *Gen) conc(prop, id string, yields int64, small bool) *CScript {
	r := g.r
	g.v = 0
	s := &CScript{ID: id, Vals: "int"}
	isR := prop == "C17" || prop == "C12" && r.Intn(5) == 0
	kind := "x"
	if !exactOK() {
		kind = ""
	}
	var ds []string
	if kind == "x" {
		ds = dists(strDists, exactDists)
		if !isR {
			ds = dists(ds, coll(exactDists))
		}
	} else {
		ds = strDists
	}
	n := 1 + r.Intn(4)
	big := false
	switch prop {
	case "C10", "C05", "C14", "C13":
		n = 4 + r.Intn(40)
	case "C11":
		n = 3 + r.Intn(14)
	default:
		if r.Intn(3) == 0 {
			n = 4 + r.Intn(24)
		}
	}
	if r.Intn(12) == 0 {
		n, big = 60+r.Intn(140), true
	}
	if small {
		n, big = 1+r.Intn(1+r.Intn(8)), false
		if r.Intn(6) == 0 {
			n = 6 + r.Intn(12)
		}
	}
	dist := g.pickS(ds)
	s.Keys = g.keys(dist, n, kind)
	n = len(s.Keys)
	ni := 1
	ng := 2 + r.Intn(5)
	if small {
		ng = 2 + r.Intn(4)/3
	}
	if prop == "C14" {
		ni = 2 + r.Intn(4)
		if small {
			ni = 2
		}
		ng = ni
		s.Own = r.Intn(4) > 0
	}
	if prop == "C11" && r.Intn(3) == 0 {
		ng = 1
	}
	for i := 0; i < ni; i++ {
		c := Cfg{Store: g.pickS(allStores), API: "set", Mode: r.Intn(6), Per: g.pickI(smallPers)}
		if r.Intn(4) == 0 {
			c.API = "item"
			c.Setup = r.Intn(3) == 0
			if r.Intn(3) == 0 && c.Store != "emb" {
				c.API, c.Setup = "entry", false
			}
		}
		if isR {
			c.Store = "rmap"
		}
		if prop == "C14" && r.Intn(6) == 0 && !strings.HasPrefix(dist, "coll:") {
			c.Store = "rmap"
		}
		c.Fn = r.Intn(2) == 0 && c.API != "entry"
		if r.Intn(4) == 0 {
			c.Perm = 1 + r.Intn(1000)
		}
		s.Insts = append(s.Insts, c)
	}
	if prop == "C13" {
		s.GC, s.Vals, s.Clone = true, g.pickS([]string{"box", "str"}), true
	} else if r.Intn(10) == 0 && prop != "C14" {
		s.GC, s.Vals, s.Clone = true, "box", true
	}
	w := weights{set: 30, store: 6, isetv: 5, del: 10, purge: 8, get: 24, geth: 5, getb: 6, load: 5, loadh: 4, search: 6, len: 2}
	switch prop {
	case "C10", "C05":
		w = weights{set: 50, store: 8, isetv: 6, del: 12, purge: 10, get: 6, len: 2, rng: 1}
		if r.Intn(3) == 0 {
			w = weights{set: 90, get: 6}
		}
	case "C11":
		w = weights{set: 30, isetv: 4, del: 8, purge: 6, get: 6, rng: 18, rngi: 6, stop: 6}
	case "C12":
		w.rng, w.rngi, w.stop, w.dump = 6, 2, 3, 1
	case "C14", "C13":
		w.rng = 2
	case "C17":
		w = weights{set: 36, del: 16, get: 46, geth: 6, len: 2}
		if r.Intn(3) == 0 {
			w = weights{set: 10, del: 5, get: 85}
		}
	}
	var hot []int // small programs: the keys used
	if small && r.Intn(3) == 0 {
		// readers: what they share is what the library writes while it reads
		if !isR {
			n = len(s.Keys)
			w = weights{get: 36, geth: 10, getb: 10, load: 10, loadh: 6, search: 8, set: 2 * r.Intn(4), isetv: 3 * r.Intn(3)}
			if prop == "C11" || prop == "C12" {
				w.rng = 6
			}
		} else {
			w = weights{get: 60, geth: 10, set: 4 * r.Intn(4), del: 2 * r.Intn(3)}
		}
		for j := 2 + r.Intn(2); j > 0; j-- {
			hot = append(hot, 1+r.Intn(n))
		}
	}
	names, cum := w.table()
	mk := func(i int, inCallback bool, only int) (Op, bool) {
		x := r.Intn(cum[len(cum)-1])
		o := ""
		for j, c := range cum {
			if x < c {
				o = names[j]
				break
			}
		}
		k := 1 + r.Intn(n)
		if len(hot) > 0 {
			k = hot[r.Intn(len(hot))]
		}
		if only > 0 {
			k = only
		}
		op, leave := Op{o, i, k, 0}, 0
		c := s.Insts[i-1]
		if c.Store == "rmap" {
			switch o {
			case "set", "get", "geth", "del", "len":
			case "store":
				op.N = "set"
			case "purge":
				op.N = "del"
			default:
				op.N = "get"
			}
		}
		if op.N == "isetv" && (c.Store != "heap" || c.Mode == 5) { // the item may be moved
			op.N = "set"
		}
		switch op.N {
		case "set", "store", "isetv":
			op.A = g.val()
		case "del", "purge", "load":
			op.A = r.Intn(3) / 2
		case "stop":
			op.N, op.A, leave = "range", 1+r.Intn(n), r.Intn(3)/2
		case "rangei":
			if c.Store != "heap" {
				op.N = "range"
			}
		case "getb":
			if _, ok := s.Keys[k-1].strKey(); !ok {
				op.N = "get"
			}
		}
		if op.N == "range" || op.N == "rangei" {
			op.K = leave
			if inCallback && r.Intn(4) > 0 {
				return op, false
			}
			if !inCallback && op.N == "range" && op.A == 0 && c.Store != "rmap" &&
				(prop == "C11" && r.Intn(2) == 0 || prop == "C12" && r.Intn(3) == 0) {
				op.N, op.A = "rangemod", len(s.Sub)
				if c.Store == "heap" && r.Intn(2) == 0 {
					op.N = "rangemodi"
				}
				s.Sub = append(s.Sub, nil)
			}
		}
		if op.N == "len" || op.N == "dump" {
			op.K = 0
		}
		return op, true
	}
	for i := 1; i <= ni; i++ { // some keys are there at the start
		if r.Intn(4) == 0 && len(hot) == 0 {
			continue
		}
		for k := 1; k <= n; k++ {
			if r.Intn(2) == 0 || len(hot) > 0 && r.Intn(4) > 0 {
				s.Init = append(s.Init, Op{"set", i, k, g.val()})
				if r.Intn(6) == 0 {
					s.Init = append(s.Init, Op{"del", i, k, 0})
				}
			}
		}
	}
	if isR {
		for j := r.Intn(2 * n); j > 0; j-- {
			s.Init = append(s.Init, Op{"get", 1, 1 + r.Intn(n), 0})
		}
	}
	per := 4 + r.Intn(16)
	if big || prop == "C10" || prop == "C05" || r.Intn(6) == 0 {
		per = 10 + r.Intn(50)
	}
	if prop == "C11" {
		per = 3 + r.Intn(8)
	}
	if small {
		per = 1 + r.Intn(1+r.Intn(4))
		if len(hot) > 0 {
			per = 2 + r.Intn(3)
		}
	}
	if big && ng > 1 && n > 40 && r.Intn(2) == 0 && prop != "C14" { // a crowd
		ng, per = 12+r.Intn(30), 4+r.Intn(10)
	}
	part := (prop == "C10" || prop == "C05") && r.Intn(2) == 0
	for gi := 0; gi < ng; gi++ {
		var ops []Op
		role := "" // sometimes a goroutine does one thing
		if prop == "C11" && ng > 1 && gi == 0 {
			role = "range"
		}
		np := per
		for j := 0; j < np; j++ {
			i := 1 + r.Intn(ni)
			if s.Own || prop == "C14" {
				i = gi + 1
			}
			only := 0
			if part { // disjoint keys
				only = 1 + gi + ng*r.Intn((n+ng-1)/ng)
				if only > n {
					continue
				}
			}
			op, ok := mk(i, false, only)
			if !ok {
				continue
			}
			if role == "range" && op.N != "range" && op.N != "rangei" && !strings.HasPrefix(op.N, "rangemod") && j%3 > 0 {
				op = Op{"range", i, 0, 0}
			}
			if strings.HasPrefix(op.N, "rangemod") {
				var sub []Op
				for q := 1 + r.Intn(min(2*n, 24)); q > 0; q-- {
					if o, ok := mk(i, true, 0); ok && !strings.HasPrefix(o.N, "rangemod") {
						sub = append(sub, o)
					}
				}
				s.Sub[op.A] = sub
			}
			ops = append(ops, op)
		}
		s.Gs = append(s.Gs, ops)
	}
	for i := 1; i <= ni; i++ {
		if s.Insts[i-1].Store == "rmap" {
			s.Post = append(s.Post, Op{"len", i, 0, 0}, Op{"getall", i, 0, 0}, Op{"len", i, 0, 0})
			continue
		}
		for _, f := range []string{"len", "range", "walk", "walkb", "rangei"} {
			s.Post = append(s.Post, Op{f, i, 0, 0})
		}
		for j := r.Intn(2*n + 2); j > 0; j-- { // it still works
			k := 1 + r.Intn(n)
			switch r.Intn(4) {
			case 0:
				s.Post = append(s.Post, Op{"del", i, k, 0})
			case 1:
				s.Post = append(s.Post, Op{"get", i, k, 0})
			default:
				s.Post = append(s.Post, Op{"set", i, k, g.val()})
			}
		}
		for _, f := range []string{"getall", "len", "range"} {
			s.Post = append(s.Post, Op{f, i, 0, 0})
		}
	}
	if small {
		s.GC = false // at scheduling points
		return s
	}
	switch r.Intn(4) {
	case 0: // free running
	case 1:
		s.Gosch = 1 + r.Intn(4)
	case 2:
		s.Gosch = 2 + r.Intn(60)
		fallthrough
	case 3:
		for j := 1 + r.Intn(6); j > 0; j-- {
			s.Sleep = append(s.Sleep, 1+r.Intn(int(yields)+1))
		}
	}
	return s
}

func (k KeySpec) strKey() (string, bool) { return k.S, k.T != "i" && k.T != "c" }

func cmdConc(prop string, seed int64, n, events int, dir, name string, shards int, limit, budget time.Duration, in string, reps int) {
	g := &Gen{r: rand.New(rand.NewSource(seed*104729 + 71))}
	lw := newShards(dir, name+".lin", shards)
	tw := newShards(dir, name, shards)
	sf, err := os.Create(filepath.Join(dir, name+".scripts"))
	check(err)
	sw := bufio.NewWriter(sf)
	st := newStats()
	start := time.Now()
	yields := int64(2000)
	runCase := func(s *CScript) (stop bool) {
		progress(dir, name, s)
		r := &runner{s: s}
		res, err := r.run(limit)
		if err != nil {
			if strings.HasPrefix(err.Error(), "no string key") || strings.HasPrefix(err.Error(), "key twice") {
				st.Skipped++
				return false
			}
			check(err)
		}
		if res.hung {
			st.Hung = append(st.Hung, s.ID)
			b, _ := json.Marshal(s)
			check(os.WriteFile(filepath.Join(dir, name+".hung"), b, 0o644))
			check(os.WriteFile(filepath.Join(dir, name+".stacks"), []byte(res.stacks), 0o644))
			return true
		}
		if res.yields > 0 {
			yields = (3*yields + res.yields) / 4
			if yields < 50 {
				yields = 50
			}
		}
		for _, h := range res.hist {
			lw.write(h, len(h.Ev))
			st.Extra["key_histories"]++
			st.Extra["history_events"] += len(h.Ev)
			overlap := 0
			open := 0
			for _, e := range h.Ev {
				if e.([]interface{})[0] == "c" {
					if open > 0 {
						overlap++
					}
					open++
				} else {
					open--
				}
			}
			if overlap > 0 {
				st.Extra["histories_with_overlap"]++
			}
			st.Extra["overlapping_calls"] += overlap
			if len(st.Samples) < 2 && overlap > 1 && len(h.Ev) < 40 {
				st.Samples = append(st.Samples, h)
			}
		}
		st.Extra["calls"] += res.calls
		st.Extra["yields"] += int(res.yields)
		tw.write(res.trace, len(res.trace.Ev))
		b, _ := json.Marshal(s)
		sw.Write(b)
		sw.WriteByte('\n')
		st.Scripts++
		st.Events += len(res.trace.Ev)
		for _, c := range s.Insts {
			st.ByStore[c.Store]++
		}
		for _, l := range r.logs {
			for _, c := range l {
				st.ByOp[c.op.N]++
			}
		}
		var h uint64 = 14695981039346656037
		for _, hi := range res.hist {
			b, _ := json.Marshal(hi.Ev)
			for _, c := range b {
				h = (h ^ uint64(c)) * 1099511628211
			}
		}
		if !st.seen[h] {
			st.seen[h] = true
			st.Distinct++
		}
		return false
	}
	if in != "" {
		f, err := os.Open(in)
		check(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			if len(strings.TrimSpace(sc.Text())) == 0 {
				continue
			}
			for i := 0; i < reps; i++ {
				s := &CScript{}
				check(json.Unmarshal(sc.Bytes(), s))
				if i > 0 {
					s.ID = fmt.Sprintf("%s#%d", s.ID, i)
					for j := range s.Sleep {
						s.Sleep[j] = 1 + g.r.Intn(int(yields)+1)
					}
				}
				if budget > 0 && time.Since(start) > budget {
					break
				}
				if runCase(s) {
					break
				}
			}
		}
	} else {
		for i := 0; i < n; i++ {
			if events > 0 && st.Extra["history_events"]+st.Events >= events || budget > 0 && time.Since(start) > budget {
				break
			}
			if runCase(g.conc(prop, fmt.Sprintf("%s-c%d-%d", prop, seed, i), yields, false)) {
				break
			}
		}
	}
	lw.close()
	tw.close()
	sw.Flush()
	sf.Close()
	os.Remove(filepath.Join(dir, name+".current"))
	json.NewEncoder(os.Stdout).Encode(st)
}
