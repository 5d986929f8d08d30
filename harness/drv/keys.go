package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	sm "github.com/kazu/skiplistmap"
)

// KeySpec describes one key of a script.
//
//	T="l": literal string S
//	T="s": some string whose reversed hash starts with the B bits given in R
//	T="x": string with reversed hash R and conflict C (needs the instrumented build)
//	T="i": integer key with reversed hash R (conflict 0)
//	T="c": custom item with reversed hash R and conflict C (item API only)
type KeySpec struct {
	T string `json:"t"`
	S string `json:"s,omitempty"`
	R uint64 `json:"r,omitempty,string"`
	C uint64 `json:"c,omitempty,string"`
	B int    `json:"b,omitempty"`
}

// Key is a resolved key.
type Key struct {
	Spec KeySpec
	V    interface{} // string, int
	Hash uint64
	Conf uint64
}

func (k *Key) rev() uint64 { return bits.Reverse64(k.Hash) }

// ---- keys with chosen hash (instrumented build) ----

const exactPrefix = "\x00vx\x00"

func exactKey(rev, conflict uint64) string {
	var b [16]byte
	binary.BigEndian.PutUint64(b[:8], bits.Reverse64(rev))
	binary.BigEndian.PutUint64(b[8:], conflict)
	return exactPrefix + string(b[:])
}

func exactHash(s string) (hash, conflict uint64, ok bool) {
	if len(s) < len(exactPrefix)+16 || s[:len(exactPrefix)] != exactPrefix {
		return
	}
	b := []byte(s[len(exactPrefix) : len(exactPrefix)+16])
	return binary.BigEndian.Uint64(b[:8]), binary.BigEndian.Uint64(b[8:]), true
}

// exactOK tells whether keys with chosen hash work in this build.
var exactOK = sync.OnceValue(func() bool {
	if !instrumented {
		return false
	}
	for _, rc := range [][2]uint64{{1, 2}, {0, 5}, {^uint64(0), 1}, {0x1234 << 48, 77}} {
		s := exactKey(rc[0], rc[1])
		h, c := sm.KeyToHash(s)
		if h != bits.Reverse64(rc[0]) || c != rc[1] {
			return false
		}
		h, c = sm.KeyToHash([]byte(s))
		if h != bits.Reverse64(rc[0]) || c != rc[1] {
			return false
		}
		h, c = sm.NewSampleItem(s, 1).KeyHash()
		if h != bits.Reverse64(rc[0]) || c != rc[1] {
			return false
		}
	}
	return true
})

// ---- ordinary strings with a wanted prefix of the reversed hash ----

type tabEnt struct {
	rev uint64
	n   uint32
}

const tabBits = 19

var table = sync.OnceValue(func() []tabEnt {
	t := make([]tabEnt, 1<<tabBits)
	par(func(w, nw int) {
		for i := w; i < len(t); i += nw {
			h, _ := sm.KeyToHash(tabKey(uint32(i)))
			t[i] = tabEnt{bits.Reverse64(h), uint32(i)}
		}
	})
	sort.Slice(t, func(i, j int) bool { return t[i].rev < t[j].rev })
	return t
})

func tabKey(i uint32) string { return "k" + strconv.FormatUint(uint64(i), 36) }

func par(f func(w, nw int)) {
	nw := runtime.NumCPU()
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		w := w
		wg.Add(1)
		go func() { defer wg.Done(); f(w, nw) }()
	}
	wg.Wait()
}

// deep cluster: strings which share 16 bits of reversed hash
var deep = sync.OnceValue(func() []tabEnt {
	var mu sync.Mutex
	var out []tabEnt
	h, _ := sm.KeyToHash("deep")
	want := bits.Reverse64(h) >> 48
	par(func(w, nw int) {
		var l []tabEnt
		for i := w; i < 1<<24; i += nw {
			h, _ := sm.KeyToHash(deepKey(uint32(i)))
			if r := bits.Reverse64(h); r>>48 == want {
				l = append(l, tabEnt{r, uint32(i)})
			}
		}
		mu.Lock()
		out = append(out, l...)
		mu.Unlock()
	})
	sort.Slice(out, func(i, j int) bool { return out[i].rev < out[j].rev })
	return out
})

func deepKey(i uint32) string { return "d" + strconv.FormatUint(uint64(i), 36) }

// resolve turns specs into keys with pairwise different identity.
func resolve(specs []KeySpec) ([]*Key, []int, error) {
	keys := make([]*Key, len(specs))
	used := map[string]bool{}
	for i, s := range specs {
		k := &Key{Spec: s}
		switch s.T {
		case "l":
			k.V = s.S
		case "s":
			str, ok := pick(s, used)
			if !ok {
				return nil, nil, fmt.Errorf("no string key for %x/%d", s.R, s.B)
			}
			k.V = str
		case "d":
			d := deep()
			k.V = deepKey(d[int(s.R)%len(d)].n)
		case "x":
			k.V = exactKey(s.R, s.C)
		case "i":
			k.V = int(bits.Reverse64(s.R))
		case "c":
			k.V = "c" + strconv.FormatUint(s.R, 16) + "-" + strconv.FormatUint(s.C, 16)
			k.Hash, k.Conf = bits.Reverse64(s.R), s.C
		default:
			return nil, nil, fmt.Errorf("key type %q", s.T)
		}
		if s.T != "c" {
			k.Hash, k.Conf = sm.KeyToHash(k.V)
		}
		id := fmt.Sprintf("%T%v", k.V, k.V)
		if used[id] {
			return nil, nil, fmt.Errorf("key twice: %q", id)
		}
		used[id] = true
		keys[i] = k
	}
	// dense rank of reversed hash
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return keys[idx[a]].rev() < keys[idx[b]].rev() })
	rank := make([]int, len(keys))
	r := 0
	for j, i := range idx {
		if j == 0 || keys[idx[j-1]].rev() != keys[i].rev() {
			r++
		}
		rank[i] = r
	}
	return keys, rank, nil
}

func pick(s KeySpec, used map[string]bool) (string, bool) {
	t := table()
	b := s.B
	if b > 64 {
		b = 64
	}
	var lo, hi uint64
	if b == 0 {
		lo, hi = 0, ^uint64(0)
		// any key: start at R to be deterministic for a given table
		lo = s.R
	} else {
		lo = s.R >> (64 - b) << (64 - b)
		hi = lo | (^uint64(0) >> b)
		if b == 64 {
			hi = lo
		}
	}
	for i := sort.Search(len(t), func(i int) bool { return t[i].rev >= lo }); i < len(t) && t[i].rev <= hi; i++ {
		k := tabKey(t[i].n)
		if !used["string"+k] {
			return k, true
		}
	}
	if b == 0 {
		for i := range t {
			if k := tabKey(t[i].n); !used["string"+k] {
				return k, true
			}
		}
	}
	return "", false
}

func cloneKey(v interface{}) interface{} {
	if s, ok := v.(string); ok {
		return strings.Clone(s)
	}
	return v
}
