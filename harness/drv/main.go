// drv drives the real maps and records traces for TLC.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"
)

type shardWriter struct {
	fs []*os.File
	ws []*bufio.Writer
	n  []int // weight written so far
}

func newShards(dir, name string, n int) *shardWriter {
	s := &shardWriter{}
	for i := 0; i < n; i++ {
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("%s.%d.ndjson", name, i)))
		check(err)
		s.fs = append(s.fs, f)
		s.ws = append(s.ws, bufio.NewWriterSize(f, 1<<20))
		s.n = append(s.n, 0)
	}
	return s
}

func (s *shardWriter) write(v interface{}, weight int) {
	b, err := json.Marshal(v)
	check(err)
	j := 0
	for i := range s.n {
		if s.n[i] < s.n[j] {
			j = i
		}
	}
	s.n[j] += weight + 1
	s.ws[j].Write(b)
	s.ws[j].WriteByte('\n')
}

func (s *shardWriter) close() {
	for i := range s.fs {
		s.ws[i].Flush()
		s.fs[i].Close()
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		os.Exit(2)
	}
}

// stats are written as JSON on stdout.
type stats struct {
	Scripts  int            `json:"scripts"`
	Events   int            `json:"events"`
	ByOp     map[string]int `json:"by_op"`
	ByStore  map[string]int `json:"by_store"`
	Distinct int            `json:"distinct"`
	Skipped  int            `json:"skipped"`
	Exact    bool           `json:"exact_hash_keys"`
	Hung     []string       `json:"hung,omitempty"`
	Extra    map[string]int `json:"extra,omitempty"`
	Samples  []interface{}  `json:"samples,omitempty"`
	seen     map[uint64]bool
}

func newStats() *stats {
	return &stats{ByOp: map[string]int{}, ByStore: map[string]int{}, Extra: map[string]int{}, seen: map[uint64]bool{}, Exact: exactOK()}
}

func (st *stats) add(s *Script, t *Trace) {
	st.Scripts++
	st.Events += len(t.Ev)
	for _, e := range t.Ev {
		st.ByOp[e.([]interface{})[0].(string)]++
	}
	for _, c := range s.Insts {
		st.ByStore[c.Store]++
	}
	var h uint64 = 14695981039346656037
	b, _ := json.Marshal([]interface{}{s.Insts, s.Ops, t.Rank})
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	if len(t.Ev) > 3 && !st.seen[h] {
		st.seen[h] = true
		st.Distinct++
	}
}

func main() {
	if len(os.Args) < 2 {
		check(fmt.Errorf("subcommand?"))
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "number of scripts")
	events := fs.Int("events", 0, "stop after this number of events")
	dir := fs.String("dir", ".", "output directory")
	name := fs.String("name", "t", "name of output")
	shards := fs.Int("shards", 1, "number of trace files")
	in := fs.String("in", "", "script file (JSON lines)")
	limit := fs.Duration("limit", 20*time.Second, "time limit of one script")
	budget := fs.Duration("budget", 0, "stop generating after this time")
	per := fs.Int("per", 400, "schedules of a program")
	off := fs.Int("off", 0, "first profile of the plan")
	stride := fs.Int("stride", 1, "distance of profiles")
	reps := fs.Int("reps", 1, "repetitions")
	fs.Parse(os.Args[2:])
	setYield(nil)
	debug.SetMaxStack(128 << 20)
	switch os.Args[1] {
	case "info":
		json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"instrumented": instrumented, "exact": exactOK(), "control": canControl})
	case "seq":
		cmdSeq(*prop, *seed, *n, *events, *dir, *name, *shards, *limit, *budget)
	case "script":
		cmdScript(*in, *dir, *name, *shards, *limit, *reps)
	case "conc":
		cmdConc(*prop, *seed, *n, *events, *dir, *name, *shards, *limit, *budget, *in, *reps)
	case "bulk":
		cmdBulk(*prop, *seed, *n, *dir, *name, *in, *limit, *budget, *reps, *off, *stride)
	case "ctl":
		cmdCtl(*prop, *seed, *n, *events, *per, *dir, *name, *shards, *limit, *budget)
	default:
		check(fmt.Errorf("unknown subcommand %s", os.Args[1]))
	}
}

// progress keeps the script that is running, to be found after a crash.
func progress(dir, name string, v interface{}) {
	b, _ := json.Marshal(v)
	check(os.WriteFile(filepath.Join(dir, name+".current"), b, 0o644))
}

func cmdSeq(prop string, seed int64, n, events int, dir, name string, shards int, limit, budget time.Duration) {
	g := &Gen{r: rand.New(rand.NewSource(seed*7919 + 17))}
	ps := profiles(prop)
	var order []int
	for i, s := range ps {
		for j := 0; j < s.n; j++ {
			order = append(order, i)
		}
	}
	g.r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	// rare profiles come first, so that every run has some
	for i := range ps {
		order = append([]int{i}, order...)
	}
	w := newShards(dir, name, shards)
	sf, err := os.Create(filepath.Join(dir, name+".scripts"))
	check(err)
	sw := bufio.NewWriter(sf)
	st := newStats()
	start := time.Now()
	for i := 0; i < n; i++ {
		if events > 0 && st.Events >= events || budget > 0 && time.Since(start) > budget {
			break
		}
		p := ps[order[i%len(order)]].p
		s := g.script(&p, fmt.Sprintf("%s-%d-%d", prop, seed, i))
		if one(s, w, sw, st, dir, name, limit) {
			break
		}
	}
	w.close()
	sw.Flush()
	sf.Close()
	os.Remove(filepath.Join(dir, name+".current"))
	json.NewEncoder(os.Stdout).Encode(st)
}

func one(s *Script, w *shardWriter, sw *bufio.Writer, st *stats, dir, name string, limit time.Duration) (stop bool) {
	progress(dir, name, s)
	t, hung, err := runLimited(s, limit)
	if hung {
		st.Hung = append(st.Hung, s.ID)
		b, _ := json.Marshal(s)
		check(os.WriteFile(filepath.Join(dir, name+".hung"), b, 0o644))
		return true
	}
	if err != nil {
		if strings.HasPrefix(err.Error(), "no string key") || strings.HasPrefix(err.Error(), "key twice") {
			st.Skipped++
			return false
		}
		check(err)
	}
	w.write(t, len(t.Ev))
	if sw != nil {
		b, _ := json.Marshal(s)
		sw.Write(b)
		sw.WriteByte('\n')
	}
	st.add(s, t)
	switch t.Same {
	case 1:
		st.Extra["buckets_as_specified"]++
	case 2:
		st.Extra["buckets_differ"]++
	}
	if len(st.Samples) < 2 && len(t.Ev) < 60 {
		st.Samples = append(st.Samples, map[string]interface{}{"id": s.ID, "maps": s.Insts, "rank": t.Rank, "events": t.Ev})
	}
	return false
}

func cmdScript(in, dir, name string, shards int, limit time.Duration, reps int) {
	f, err := os.Open(in)
	check(err)
	w := newShards(dir, name, shards)
	st := newStats()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(strings.TrimSpace(sc.Text())) == 0 {
			continue
		}
		s := &Script{}
		check(json.Unmarshal(sc.Bytes(), s))
		stop := false
		for i := 0; i < reps && !stop; i++ {
			stop = one(s, w, nil, st, dir, name, limit)
		}
		if stop {
			break
		}
	}
	w.close()
	os.Remove(filepath.Join(dir, name+".current"))
	json.NewEncoder(os.Stdout).Encode(st)
}
