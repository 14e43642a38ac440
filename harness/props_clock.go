//go:build !basic

package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
)

// Case35 is something done while time passes.
type Case35 struct {
	Kind  int // 0 a message, 1 a stream, 2 a message being built
	Opt   POpt
	In    B
	S     SOpt
	Read  Reading
	Build BCase
	Waits []int // seconds that pass before each call (or read, or result), one after the other and again
}

const hour = 3600
const day = 24 * hour

// clockWaits are the seconds until around the beginning of some months, counted from 2000-01-01.
func clockWaits() (out []int) {
	start := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
	for _, y := range []int{2000, 2001, 2003, 2004} {
		for m := 1; m <= 12; m++ {
			for _, d := range []int{-1, 0, 14*day + 7} {
				if s := int(time.Date(y, time.Month(m), 1, 0, 0, d, 0, time.UTC).Sub(start) / time.Second); s >= 0 {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

func (c Case35) wait(i int) {
	n := len(c.Waits)
	if n == 0 {
		return
	}
	if time.Now().Year() < 2100 {
		time.Sleep(time.Duration(min(max(0, c.Waits[i%n]), 20*366*day)) * time.Second)
	} else {
		time.Sleep(time.Second)
	}
}

func (c Case35) evalMessage(o *Obs) error {
	in := string(c.In)
	parse := func(m syslog.Machine) (string, error) {
		msg, err := m.Parse([]byte(in))
		if err == nil && msg == nil {
			return "", errors.New("neither message nor error")
		}
		return outcome(msg, err), nil
	}
	current := c.Opt.BSD && c.Opt.Opt.Year == -1
	var want string
	if !current {
		w, bad := parse(c.Opt.build())
		if bad != nil {
			return bad
		}
		want = w
		if !strings.HasPrefix(w, "nil") {
			o.NonTrivial()
		}
	}
	return atFakeTime(func() error {
		m := c.Opt.build()
		for i := 0; i < len(c.Waits)+1; i++ {
			if i > 0 {
				c.wait(i - 1)
			}
			now := time.Now()
			var first error
			years := []int{0}
			if current {
				years = []int{now.Year(), now.UTC().Year(), now.Local().Year()}
				if y := (rfc3164.CurrentYear{}).Apply(); y != years[0] && y != years[1] && y != years[2] {
					return fmt.Errorf("at %v the current year is %d", now.UTC(), y)
				}
				if y := (rfc3164.YearOperation{Operator: rfc3164.CurrentYear{}}).Operate(); y != years[0] && y != years[1] && y != years[2] {
					return fmt.Errorf("at %v the strategy of the current year gives %d", now.UTC(), y)
				}
			}
			got, bad := parse(m)
			if bad != nil {
				return bad
			}
			for _, y := range years {
				w := want
				if current {
					p := c.Opt
					p.Opt.Year = y
					if w, bad = parse(p.build()); bad != nil {
						return bad
					}
					if !strings.HasPrefix(w, "nil") {
						o.NonTrivial()
					}
				}
				if got == w {
					first = nil
					break
				}
				if first == nil {
					first = fmt.Errorf("call %d, at %v: the outcome is %s, want %s", i+1, now.UTC(), got, w)
				}
			}
			if first != nil {
				return first
			}
		}
		return nil
	})
}

func (c Case35) evalStream(o *Obs) error {
	connection := c.Read.Std >= 5
	c.Read.Std = 0
	want, bad := runStream(c.S, string(c.In), c.Read)
	if bad != nil {
		return bad
	}
	if len(want) > 0 {
		o.NonTrivial()
	}
	return atFakeTime(func() error {
		k := 0
		pause := func() { c.wait(k); k++ }
		col := &collector{}
		p := newStream(c.S.Octet, c.S.options(func(r *syslog.Result) {
			col.listen(r)
			pause()
		})...)
		for round := 0; round < 2; round++ {
			r := &reader{data: string(c.In), spec: c.Read, onRead: func(int) { pause() }}
			var from io.Reader = r
			if connection {
				from = &conn{reader: r}
			}
			got, bad := col.run(p, from)
			if bad != nil {
				return bad
			}
			if err := sameResults(got, want); err != nil {
				return fmt.Errorf("stream %d, read slowly until %v: %w", round+1, time.Now().UTC(), err)
			}
			pause()
		}
		return nil
	})
}

func (c Case35) evalBuild(o *Obs) error {
	m := buildAll(c.Build.start(), c.Build.Ops)
	want := serialized(m)
	if validMsg(m) {
		o.NonTrivial()
	}
	return atFakeTime(func() error {
		m := c.Build.start()
		for i, op := range c.Build.Ops {
			op.apply(m)
			c.wait(i)
		}
		for i := 0; i < 2; i++ {
			if got := serialized(m); got != want {
				return fmt.Errorf("built slowly until %v: it is %s, want %s", time.Now().UTC(), got, want)
			}
			c.wait(i)
		}
		return nil
	})
}

func init() {
	register(Def[Case35]{
		ID:   "C35",
		Rule: "cases are messages parsed, streams read (and their results taken) and messages built while the clock is moved between the calls, by some seconds up to some years, also right before and after the end of a year; non-trivial: the input gives a message or a result, or the message built is valid",
		N:    200000,
		Systematic: func(t Tier, do func(mk func() Case35)) {
			waits := clockWaits()
			for v := 0; v < 4; v++ {
				for mi, mo := range months {
					for di, d := range []int{1, 15, 28} {
						for wi, w := range waits {
							do(func() Case35 {
								c := Case35{Opt: POpt{BSD: true, Locking: v&1 != 0, BestEffort: wi%2 == 0, Opt: Opt3164{Year: -1}}, In: B(fmt.Sprintf("<13>%s %2d 12:0%d:00 h a[1]: m", mo, d, di)), Waits: []int{w, 2, day, 366 * day}}
								if v&2 != 0 {
									c.Opt.Opt.TZ = B(zoneNames[(mi+wi)%len(zoneNames)])
									c.Opt.Opt.Locale = B(zoneNames[(mi*5+wi)%len(zoneNames)])
								}
								return c
							})
						}
					}
				}
			}
			for i, in := range append(bases5424(t), bases3164(t)...) {
				for wi, w := range waits {
					do(func() Case35 {
						return Case35{Opt: POpt{BSD: i >= len(bases5424(t)), Locking: wi&1 != 0, BestEffort: wi&2 != 0, Opt: Opt3164{RFC3339: true}}, In: B(in), Waits: []int{w, 1, hour}}
					})
				}
			}
			for i := 0; i < 8; i++ {
				opt := SOpt{Octet: i&1 != 0, BestEffort: i&2 != 0, NUL: i&4 != 0, Limit: -1}
				tr := string([]byte{opt.trailer()})
				for n := 0; n < 6; n++ {
					var b strings.Builder
					for k := 0; k < n; k++ {
						s := fmt.Sprintf("<%d>1 - - - - - - m%d", k, k)
						if opt.Octet {
							b.WriteString(octetFrame(s))
						} else {
							b.WriteString(s + tr)
						}
					}
					for _, end := range []string{"", "<1>1 - - - -", "12 <1>1"} {
						for _, size := range []int{1, 7, 100} {
							for _, w := range []int{1, 5, 10, 30, 60, 90, 120, 300, 600, hour, 2 * hour, day, 40 * day, 400 * day} {
								do(func() Case35 {
									return Case35{Kind: 1, S: opt, In: B(b.String() + end), Read: Reading{Sizes: []int{size}, Std: w % 7, Fail: n%3 == 2, WithEnd: n%2 == 1}, Waits: []int{w, 0, 0, w}}
								})
							}
						}
					}
				}
			}
		},
		Gen: func(r *Rand, t Tier) Case35 {
			c := Case35{Kind: pick(r, []int{0, 0, 1, 1, 2})}
			switch c.Kind {
			case 0:
				c.Opt = r.popt()
				if c.Opt.BSD && r.P(50) {
					c.Opt.Opt.Year = -1
				}
				c.In = B(r.inputFor(c.Opt.BSD))
			case 1:
				s := r.anyStream(t)
				c.S, c.In, c.Read = s.Opt, s.Data, s.Read
				c.Read.Std = r.In(0, 10)
			case 2:
				c.Build = genBCase(r, t)
				if r.P(70) {
					c.Build.Ops = append([]BOp{{Kind: opPriority, N: r.pri()}, {Kind: opVersion, N: r.version()}}, c.Build.Ops...)
				}
			}
			for n := r.In(1, 4); n > 0; n-- {
				c.Waits = append(c.Waits, pick(r, []int{0, 1, 2, 10, 30, 60, 61, 300, hour, hour, day, day, 30 * day, 59 * day, 365 * day, 366 * day, 5000 * day, r.In(0, day), r.In(0, 400*day)}))
			}
			return c
		},
		Eval: func(c Case35, o *Obs) error {
			switch c.Kind {
			case 1:
				o.Label("stream")
				return c.evalStream(o)
			case 2:
				o.Label("building")
				return c.evalBuild(o)
			}
			if c.Opt.BSD && c.Opt.Opt.Year == -1 {
				o.Label("message, current year")
			} else {
				o.Label("message")
			}
			return c.evalMessage(o)
		},
	})
}
