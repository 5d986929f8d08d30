package main

import (
	"errors"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	sm "github.com/kazu/skiplistmap"
)

// A script writes small positive numbers; a value profile turns them into Go values
// and back. Unknown values decode to -1.

type box struct {
	A, B int
	S    string
	P    *int
}

type small struct{ A int }
type named string

func (n named) String() string { return "?" }
func (n named) Error() string  { return "!" }

type myErr struct{ n int }

func (e *myErr) Error() string { return strconv.Itoa(e.n) }

type values struct {
	profile string
	reg     map[int]interface{}
}

func newValues(profile string) *values {
	return &values{profile: profile, reg: map[int]interface{}{}}
}

func (vs *values) make(v int) interface{} {
	switch vs.profile {
	case "box": // no reference is kept by the driver
		n := v
		return &box{A: v, B: ^v, S: strings.Repeat(strconv.Itoa(v), 3), P: &n}
	case "str":
		return strings.Clone("value-" + strconv.Itoa(v))
	case "mixed":
		if x, ok := vs.reg[v]; ok {
			return x
		}
		x := mixed(v)
		vs.reg[v] = x
		return x
	}
	return v
}

func mixed(v int) interface{} {
	switch v % 40 {
	case 0:
		return v
	case 1:
		return strconv.Itoa(v)
	case 2:
		return float64(v) + 0.5
	case 3:
		return small{v}
	case 4:
		return &small{v}
	case 5:
		return []int{v, 2}
	case 6:
		return map[string]int{"v": v}
	case 7:
		return func() int { return v }
	case 8:
		return make(chan int, v%7)
	case 9:
		return [3]int{v, v + 1, v + 2}
	case 10:
		return error(&myErr{v})
	case 11:
		return int64(v)
	case 12:
		return uint8(v)
	case 13:
		return complex(float64(v), 1)
	case 14:
		return []byte(strconv.Itoa(v))
	case 15:
		return (*small)(nil)
	case 16:
		return struct{}{}
	case 17:
		return v%2 == 0
	case 18:
		return math.NaN()
	case 19:
		return errors.New("e")
	case 20:
		return [](interface{}){v, "x"}
	case 21:
		return ""
	case 22:
		return 0
	case 23: // a function stored is not called
		return func() interface{} { return v }
	case 24:
		return func() (interface{}, error) { return v, nil }
	case 25:
		var x interface{} = v
		return &x
	case 26:
		return named(strconv.Itoa(v))
	case 27:
		return time.Duration(v)
	case 28:
		return math.Copysign(0, float64(v%4-2))
	case 29: // an item, a map, a lock: of no meaning as a value
		return sm.NewSampleItem("item"+strconv.Itoa(v), v)
	case 30:
		return sm.New()
	case 31:
		return &sync.Mutex{}
	case 32:
		return uintptr(v)
	case 33:
		return int32(v)
	case 34:
		return reflect.ValueOf(v)
	case 35:
		return func() string { return strconv.Itoa(v) }
	case 36:
		return strings.Repeat(strconv.Itoa(v), 3000)
	case 37:
		return [0]int{}
	case 38:
		return []int(nil)
	case 39:
		return map[string]int(nil)
	}
	return v
}

// same: identical dynamic type and content, and the same referent for references.
func same(a, b interface{}) bool {
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb || ta == nil {
		return false
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch ta.Kind() {
	case reflect.Slice:
		return va.Len() == vb.Len() && va.Cap() == vb.Cap() && va.Pointer() == vb.Pointer() && reflect.DeepEqual(a, b)
	case reflect.Map:
		return va.Pointer() == vb.Pointer() && reflect.DeepEqual(a, b)
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		return va.Pointer() == vb.Pointer()
	case reflect.Func:
		if va.Pointer() != vb.Pointer() {
			return false
		}
		// same code: is it the same closure?
		ra, rb := va.Call(nil), vb.Call(nil)
		return ra[0].Interface() == rb[0].Interface()
	case reflect.Struct:
		if x, ok := a.(reflect.Value); ok {
			y := b.(reflect.Value)
			return x.IsValid() && y.IsValid() && x.Interface() == y.Interface()
		}
	case reflect.Float64:
		return math.Float64bits(va.Float()) == math.Float64bits(vb.Float())
	}
	return a == b
}

// decode maps a returned value to the number it was made from. hint is the number the
// caller would expect (0: none); it only matters for values that are equal to others.
func (vs *values) decode(x interface{}, hints ...int) int {
	switch vs.profile {
	case "box":
		b, ok := x.(*box)
		if !ok || b == nil || b.A <= 0 || b.B != ^b.A || b.P == nil || *b.P != b.A || b.S != strings.Repeat(strconv.Itoa(b.A), 3) {
			return -1
		}
		return b.A
	case "str":
		s, ok := x.(string)
		if !ok || !strings.HasPrefix(s, "value-") {
			return -1
		}
		n, err := strconv.Atoi(s[6:])
		if err != nil || n <= 0 {
			return -1
		}
		return n
	case "mixed":
		for _, h := range hints {
			if r, ok := vs.reg[h]; ok && same(r, x) {
				return h
			}
		}
		for v, r := range vs.reg {
			if same(r, x) {
				return v
			}
		}
		return -1
	}
	n, ok := x.(int)
	if !ok || n <= 0 {
		return -1
	}
	return n
}
