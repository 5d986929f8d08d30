package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ctl runs the goroutines of a workload one at a time. Control changes hands at
// chosen scheduling points, and when a goroutine waits for a lock or ends, so a
// script with its plan determines the schedule.
type ctl struct {
	mu     sync.Mutex
	wake   []chan bool
	done   []bool
	cur    int
	plan   []Pre
	pi     int
	cnt    int64
	since  int
	streak int
	limit  int64
	free   atomic.Bool // out of control: waiting went on for too long
	freed  chan bool   // closed then
	shadow atomic.Int64
	sig    uint64 // of the order in which goroutines passed points
}

// Pre is a preemption: at the At-th scheduling point goroutine To goes on. To < 0: garbage collection.
type Pre struct {
	At int64 `json:"at"`
	To int   `json:"to"`
}

func newCtl(n int, plan []Pre, start int) *ctl {
	c := &ctl{done: make([]bool, n), plan: plan, cur: start % n, limit: 3_000_000, freed: make(chan bool)}
	for i := 0; i < n; i++ {
		c.wake = append(c.wake, make(chan bool, 1))
	}
	return c
}

var showAt = os.Getenv("VERIF_STACK") != ""

const fairAfter = 20000 // points without change of the goroutine

func (c *ctl) yield() {
	if c.free.Load() {
		return
	}
	c.mu.Lock() // the library may have goroutines of its own
	c.cnt++
	c.sig = (c.sig ^ uint64(c.cur+1)) * 1099511628211
	c.since++
	c.streak = 0
	c.shadow.Store(c.cnt)
	if c.cnt > c.limit {
		c.mu.Unlock()
		c.release()
		return
	}
	if c.pi < len(c.plan) && c.plan[c.pi].At <= c.cnt {
		to := c.plan[c.pi].To
		c.pi++
		if showAt {
			fmt.Fprintf(os.Stderr, "at %d to %d: %s\n", c.cnt, to, debug.Stack())
		}
		if to < 0 {
			c.mu.Unlock()
			gcNow()
		} else {
			c.to(c.pick(to))
		}
	} else if c.since > fairAfter {
		c.to(c.pick(c.cur + 1))
	} else {
		c.mu.Unlock()
	}
}

// block is called while the running goroutine waits for a lock.
func (c *ctl) block() {
	if c.free.Load() {
		time.Sleep(50 * time.Microsecond)
		return
	}
	c.mu.Lock()
	c.streak++
	if c.streak > 3*len(c.done) { // every goroutine waits
		c.mu.Unlock()
		c.release()
		return
	}
	c.to(c.pick(c.cur + 1))
}

// pick is the first goroutine from g on that has not ended.
func (c *ctl) pick(g int) int {
	n := len(c.done)
	for i := 0; i < n; i++ {
		if j := (g + i) % n; !c.done[j] {
			return j
		}
	}
	return -1
}

// to unlocks c and lets goroutine g go on.
func (c *ctl) to(g int) {
	c.since = 0
	me := c.cur
	if g < 0 || g == me {
		c.mu.Unlock()
		return
	}
	c.cur = g
	c.mu.Unlock()
	select {
	case c.wake[g] <- true:
	case <-c.freed:
	}
	c.begin(me)
}

// begin is called first by goroutine g.
func (c *ctl) begin(g int) {
	select {
	case <-c.wake[g]:
	case <-c.freed:
	}
}

// end is called last by goroutine g.
func (c *ctl) end(g int) {
	if c.free.Load() {
		return
	}
	c.mu.Lock()
	c.done[g] = true
	c.since, c.streak = 0, 0
	n := c.pick(g + 1)
	if n >= 0 {
		c.cur = n
	}
	c.mu.Unlock()
	if n >= 0 {
		select {
		case c.wake[n] <- true:
		case <-c.freed:
		}
	}
}

// release lets all goroutines run freely.
func (c *ctl) release() {
	if c.free.Swap(true) {
		return
	}
	close(c.freed)
}

// plans makes schedules of a program of ng goroutines with y scheduling points.
func plans(r *rand.Rand, ng int, y int64, max int, gc bool) (ps []*CScript) {
	add := func(start int, p ...Pre) {
		ps = append(ps, &CScript{Start: start, Plan: p})
	}
	for s := 1; s < ng; s++ {
		add(s)
	}
	tos := func(at int64) int {
		if gc && r.Intn(3) > 0 {
			return -1
		}
		return r.Intn(ng)
	}
	single := int64(max) * 6 / 10
	all := y * int64(ng) * int64(ng-1)
	if gc {
		all += y
	}
	if all <= single {
		for at := int64(1); at <= y; at++ {
			for s := 0; s < ng; s++ {
				for t := 0; t < ng; t++ {
					if t != s {
						add(s, Pre{at, t})
					}
				}
			}
			if gc {
				add(0, Pre{at, -1})
			}
		}
	} else {
		for i := int64(0); i < single; i++ { // evenly spread
			at := 1 + (i*y+r.Int63n(y))/single
			add(r.Intn(ng), Pre{at, tos(at)})
		}
	}
	for len(ps) < max {
		var p []Pre
		at := int64(0)
		for n := 2 + r.Intn(3); n > 0; n-- {
			var d int64
			switch r.Intn(3) {
			case 0:
				d = r.Int63n(y)
			case 1:
				d = r.Int63n(y/4 + 2)
			default:
				d = r.Int63n(24)
			}
			at += 1 + d
			p = append(p, Pre{at, tos(at)})
		}
		if at <= y+y/2 {
			add(r.Intn(ng), p...)
		} else if r.Intn(20) == 0 {
			add(r.Intn(ng), p[:1]...)
		}
	}
	return ps
}

// exhaust runs every schedule of a program with at most bound preemptions at
// synchronisation points (fewest first; level 1: of locks, 2: all of them). It gives the
// bound which was completed. A schedule with the order of another one is not extended.
func exhaust(s *CScript, level, bound, max int, late func() bool, run func(*CScript) (int64, uint64, bool)) (completed, n int, stop bool) {
	type node struct {
		start int
		p     []Pre
	}
	var todo []node
	for g := range s.Gs {
		todo = append(todo, node{start: g})
	}
	sigs := map[uint64]bool{}
	for b := 0; ; b++ {
		var next []node
		for _, x := range todo {
			if n >= max || late() {
				return b - 1, n, false
			}
			t := *s
			n++
			t.ID = fmt.Sprintf("%s.y%d", s.ID, n)
			t.Start, t.Plan, t.Sync = x.start, x.p, level
			y, sig, stop := run(&t)
			if stop || y < 0 {
				return b - 1, n, true
			}
			if b == bound || len(next) > max || sigs[sig] {
				continue
			}
			sigs[sig] = true
			from := int64(1)
			if len(x.p) > 0 {
				from = x.p[len(x.p)-1].At + 1
			}
			for at := from; at <= y; at++ {
				for g := range s.Gs {
					next = append(next, node{x.start, append(append([]Pre(nil), x.p...), Pre{at, g})})
				}
			}
		}
		if b == bound || len(next) == 0 {
			return bound, n, false
		}
		todo = next
	}
}

// cmdCtl explores schedules of small programs. Only new histories are written.
func cmdCtl(prop string, seed int64, n, events, per int, dir, name string, shards int, limit, budget time.Duration) {
	st := newStats()
	lw := newShards(dir, name+".lin", shards)
	tw := newShards(dir, name, shards)
	sf, err := os.Create(filepath.Join(dir, name+".scripts"))
	check(err)
	sw := bufio.NewWriter(sf)
	cur, err := os.Create(filepath.Join(dir, name+".current"))
	check(err)
	curLen := 0
	start := time.Now()
	written := 0
	seen := map[uint64]bool{}
	hash := func(x interface{}) uint64 {
		var h uint64 = 14695981039346656037
		b, _ := json.Marshal(x)
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		return h
	}
	var sig uint64
	run := func(s *CScript) (y int64, stop bool) {
		b, _ := json.Marshal(s)
		for len(b) < curLen {
			b = append(b, ' ')
		}
		curLen = len(b)
		cur.WriteAt(b, 0)
		r := &runner{s: s}
		res, err := r.run(limit)
		if err != nil {
			if strings.HasPrefix(err.Error(), "no string key") || strings.HasPrefix(err.Error(), "key twice") {
				st.Skipped++
				return -1, false
			}
			check(err)
		}
		if res.hung {
			st.Hung = append(st.Hung, s.ID)
			b, _ := json.Marshal(s)
			check(os.WriteFile(filepath.Join(dir, name+".hung"), b, 0o644))
			check(os.WriteFile(filepath.Join(dir, name+".stacks"), []byte(res.stacks), 0o644))
			return 0, true
		}
		if r.c != nil {
			sig = r.c.sig
		}
		st.Extra["schedules"]++
		st.Extra["calls"] += res.calls
		st.Extra["yields"] += int(res.yields)
		if r.c.free.Load() {
			st.Extra["uncontrolled"]++
		}
		st.Scripts++
		isNew := false
		for _, h := range res.hist {
			x := hash([]interface{}{h.Init, h.Ev})
			if seen[x] {
				continue
			}
			seen[x] = true
			isNew = true
			lw.write(h, len(h.Ev))
			written += len(h.Ev)
			st.Extra["key_histories"]++
			st.Extra["history_events"] += len(h.Ev)
		}
		t := res.trace
		x := hash([]interface{}{t.NI, t.NK, t.Rank, t.Ev})
		if !seen[x] {
			seen[x] = true
			isNew = true
			tw.write(t, len(t.Ev))
			written += len(t.Ev)
			st.Events += len(t.Ev)
		}
		if isNew {
			st.Distinct++
			b, _ := json.Marshal(s)
			sw.Write(b)
			sw.WriteByte('\n')
		}
		return res.yields, false
	}
	g := &Gen{r: rand.New(rand.NewSource(seed*15485863 + 29))}
out:
	for i := 0; i < n && canControl; i++ {
		if written >= events || time.Since(start) > budget {
			break
		}
		s := g.conc(prop, fmt.Sprintf("%s-k%d-%d", prop, seed, i), 0, true)
		s.Ctl = true
		y, stop := run(s)
		if stop {
			break
		}
		if y < 0 {
			continue
		}
		for _, c := range s.Insts {
			st.ByStore[c.Store]++
		}
		for _, l := range s.Gs {
			for _, o := range l {
				st.ByOp[o.N]++
			}
		}
		st.Extra["programs"]++
		if g.r.Intn(4) == 0 || s.Insts[0].Store == "rmap" && g.r.Intn(2) == 0 {
			level := 1 + g.r.Intn(2)
			if s.Insts[0].Store == "rmap" {
				level = 2
			}
			b, k, stop := exhaust(s, level, 4, per*4, func() bool { return time.Since(start) > budget+budget/2 }, func(t *CScript) (int64, uint64, bool) {
				y, stop := run(t)
				return y, sig, stop
			})
			if stop {
				break
			}
			st.Extra["sync_programs"]++
			st.Extra["sync_schedules"] += k
			st.Extra[fmt.Sprintf("sync_programs_all_%d_preemptions", b)]++
			continue
		}
		y++
		for j, p := range plans(g.r, len(s.Gs), y, per, prop == "C13" || g.r.Intn(12) == 0) {
			t := *s
			t.ID = fmt.Sprintf("%s.%d", s.ID, j+1)
			t.Start, t.Plan = p.Start, p.Plan
			if _, stop := run(&t); stop {
				break out
			}
			if time.Since(start) > budget {
				break out
			}
		}
	}
	lw.close()
	tw.close()
	sw.Flush()
	sf.Close()
	cur.Close()
	os.Remove(filepath.Join(dir, name+".current"))
	json.NewEncoder(os.Stdout).Encode(st)
}
