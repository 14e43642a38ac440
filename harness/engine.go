package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"reflect"
	"runtime/debug"
	"strconv"
	"time"
)

// B is a byte string. In JSON it is written as a quoted Go string with ASCII characters only, so that replay files
// are readable and hold arbitrary bytes.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(b)))
}

func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	if err != nil {
		return err
	}
	*b = B(u)
	return nil
}

// Rand is the only source of random choices.
type Rand struct {
	*rand.Rand
	seen []string // texts given lately
}

func newRand(parts ...any) *Rand {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	a := h.Sum64()
	h.Write([]byte{1})
	return &Rand{Rand: rand.New(rand.NewPCG(a, h.Sum64()))}
}

// P is true with probability percent/100.
func (r *Rand) P(percent int) bool { return r.IntN(100) < percent }

// In is an integer in [lo, hi].
func (r *Rand) In(lo, hi int) int { return lo + r.IntN(hi-lo+1) }

func pick[T any](r *Rand, xs []T) T { return xs[r.IntN(len(xs))] }

// Obs collects what the evaluation of one case tells about it.
type Obs struct {
	nontrivial bool
	labels     map[string]int
	scale      int // 1 in the quick tier
}

// NonTrivial marks the case as non-trivial by the rule of the check.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Label counts the case in a class.
func (o *Obs) Label(s string) { o.labels[s]++ }

// Tier tells how much to do.
type Tier struct {
	Name  string
	Scale int // 1 for quick
}

// Check is a property made executable.
type Check struct {
	ID         string
	Rule       string
	Race       bool // built with the race detector, workers run one after the other
	Shards     int
	Fresh      func() any                           // pointer to an empty case
	Systematic func(t Tier, do func(mk func() any)) // deterministic cases
	Gen        func(r *Rand, t Tier) any            // random case
	N          int                                  // random cases in the quick tier
	MaxScale   int                                  // limits Tier.Scale for random cases (0: no limit)
	Eval       func(c any, o *Obs) error            // nil: the property holds on the case
	Once       func(o *Obs) error                   // checks made once per run (optional)
	Raw        bool                                 // any byte string will do as input of a case
}

// Def is the typed form of Check.
type Def[C any] struct {
	ID, Rule   string
	Race       bool
	N          int
	MaxScale   int
	Systematic func(t Tier, do func(mk func() C))
	Gen        func(r *Rand, t Tier) C
	Eval       func(c C, o *Obs) error
	Raw        bool
}

var checks = map[string]*Check{}

func register[C any](d Def[C]) {
	c := &Check{
		ID: d.ID, Rule: d.Rule, Race: d.Race, N: d.N, MaxScale: d.MaxScale, Shards: 8, Raw: d.Raw,
		Fresh: func() any { return new(C) },
		Eval:  func(x any, o *Obs) error { return d.Eval(*(x.(*C)), o) },
	}
	if d.Gen != nil {
		c.Gen = func(r *Rand, t Tier) any { v := d.Gen(r, t); return &v }
	}
	if d.Systematic != nil {
		c.Systematic = func(t Tier, do func(mk func() any)) {
			d.Systematic(t, func(mk func() C) { do(func() any { v := mk(); return &v }) })
		}
	}
	if _, dup := checks[d.ID]; dup {
		panic("duplicate check " + d.ID)
	}
	checks[d.ID] = c
}

// evalSafe evaluates a case; a panic is a violation.
func evalSafe(ck *Check, c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return ck.Eval(c, o)
}

func caseKey(c any) uint64 {
	h := fnv.New64a()
	hashValue(reflect.ValueOf(c), h.Write)
	return h.Sum64()
}

func hashValue(v reflect.Value, w func([]byte) (int, error)) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			w([]byte{0})
			return
		}
		hashValue(v.Elem(), w)
	case reflect.String:
		s := v.String()
		w([]byte(strconv.Itoa(len(s))))
		w([]byte(s))
	case reflect.Bool:
		if v.Bool() {
			w([]byte{1})
		} else {
			w([]byte{2})
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		w([]byte(strconv.FormatInt(v.Int(), 36) + ";"))
	case reflect.Uint8, reflect.Uint16, reflect.Uint64, reflect.Uint:
		w([]byte(strconv.FormatUint(v.Uint(), 36) + ";"))
	case reflect.Slice:
		w([]byte(strconv.Itoa(v.Len()) + "["))
		for i := 0; i < v.Len(); i++ {
			hashValue(v.Index(i), w)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			hashValue(v.Field(i), w)
		}
	default:
		panic("hashValue: " + v.Kind().String())
	}
}

func clone(ck *Check, c any) any {
	d, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	n := ck.Fresh()
	if err := json.Unmarshal(d, n); err != nil {
		panic(err)
	}
	return n
}

// shrink greedily minimises a failing case: it cuts byte strings and slices, simplifies bytes and numbers, switches
// options off, as long as the evaluation still fails.
func shrink(ck *Check, c any, fails func(any) bool, maxEvals int, deadline time.Time) any {
	cur := clone(ck, c)
	evals := 0
	try := func() bool {
		evals++
		return fails(clone(ck, cur))
	}
	over := func() bool { return evals >= maxEvals || time.Now().After(deadline) }
	for !over() {
		if !shrinkValue(reflect.ValueOf(cur).Elem(), try, over) {
			break
		}
	}
	return cur
}

func shrinkValue(v reflect.Value, try func() bool, over func() bool) (progress bool) {
	if over() {
		return false
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Tag.Get("shrink") == "-" {
				continue
			}
			if shrinkValue(v.Field(i), try, over) {
				progress = true
			}
		}
	case reflect.Slice:
		for n := v.Len(); n >= 1; n /= 2 {
			for i := 0; i+n <= v.Len(); {
				if over() {
					return
				}
				old := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
				reflect.Copy(old, v)
				nw := reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, v.Len()), old.Slice(0, i))
				nw = reflect.AppendSlice(nw, old.Slice(i+n, old.Len()))
				v.Set(nw)
				if try() {
					progress = true
				} else {
					v.Set(old)
					i += n
				}
			}
		}
		for i := 0; i < v.Len(); i++ {
			if shrinkValue(v.Index(i), try, over) {
				progress = true
			}
		}
	case reflect.String:
		for n := len(v.String()); n >= 1; n /= 2 {
			for i := 0; i+n <= len(v.String()); {
				if over() {
					return
				}
				old := v.String()
				v.SetString(old[:i] + old[i+n:])
				if try() {
					progress = true
				} else {
					v.SetString(old)
					i += n
				}
			}
		}
		for i := 0; i < len(v.String()); i++ {
			for _, b := range []byte("a10") {
				old := v.String()
				if over() || old[i] == b || (old[i] >= '0' && old[i] <= '9' && b == 'a') || old[i] == 'a' || old[i] == '1' && b == '0' {
					continue
				}
				if isStructural(old[i]) {
					break
				}
				v.SetString(old[:i] + string([]byte{b}) + old[i+1:])
				if try() {
					progress = true
					break
				}
				v.SetString(old)
			}
		}
	case reflect.Bool:
		if v.Bool() {
			v.SetBool(false)
			if try() {
				progress = true
			} else {
				v.SetBool(true)
			}
		}
	case reflect.Int, reflect.Int64:
		old := v.Int()
		for _, n := range []int64{0, 1, old / 2, old - 1} {
			if n == old || (n > old) != (0 > old) && n != 0 || abs64(n) >= abs64(old) {
				continue
			}
			v.SetInt(n)
			if try() {
				return true
			}
			v.SetInt(old)
		}
	}
	return progress
}

func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func isStructural(b byte) bool {
	switch b {
	case '<', '>', '[', ']', '"', '\\', '=', ' ', '-', ':', 'T', 'Z', '+', '.', '\n', 0:
		return true
	}
	return false
}
