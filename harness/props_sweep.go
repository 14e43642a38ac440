package main

import (
	"math"
	"strings"
)

// The checks made with the race detector run the systematic cases of other checks, in batches, each of them in at
// least two goroutines which share nothing: what is rarely executed is executed by two at once too.

// batches passes every n-th of the cases that each makes on to f, size at a time.
func batches[C any](each func(do func(mk func() C)), every, size int, f func(n int, mks []func() C)) {
	var mks []func() C
	i, n := 0, 0
	flush := func() {
		if len(mks) > 0 {
			f(n, mks)
			n++
			mks = nil
		}
	}
	each(func(mk func() C) {
		i++
		// Not always the same place of the inner loops.
		if (i+i/every)%every != 0 {
			return
		}
		if mks = append(mks, mk); len(mks) == size {
			flush()
		}
	})
	flush()
}

func made[C any](mks []func() C) (out []C) {
	for _, mk := range mks {
		out = append(out, mk())
	}
	return out
}

func sweepEvery(t Tier, quick, thorough int) int {
	if t.Name == "thorough" {
		return thorough
	}
	return quick
}

var sweepSizes = []int{100, 127, 128, 129, 250, 255, 256, 257, 300, 480, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 2049, 4000, 4095, 4096, 4097, 5000, 8000, 8191, 8192, 8193, 10000, 16384, 20000, 32768, 40000, 65535, 65536, 65537, 70000, 100000, 131073, 200000, 300000}

func sweepLarge(bsd bool) func(do func(mk func() string)) {
	return func(do func(mk func() string)) {
		for _, n := range sweepSizes {
			if bsd {
				do(func() string { return "<13>Oct 11 22:14:15 host " + filler(n) })
				do(func() string { return "<13>Oct 11 22:14:15 host su[" + strings.Repeat("7", n) + "]: x" })
				do(func() string { return "<13>Oct 11 22:14:15 host su: " + filler(n) + "\x01" })
				continue
			}
			do(func() string { return "<13>1 - host app - - - " + filler(n) })
			do(func() string { return "<13>1 - host app - - - " + bom + filler(n) })
			do(func() string { return "<13>1 - host app - - - " + filler(n) + "\xff" })
			do(func() string { return "<13>1 - host app - - [a b=\"" + strings.Repeat("v\\]", n/3) + "\"] m" })
			do(func() string { return "<13>1 - host app - - [a b=\"" + strings.Repeat("v", n) })
			do(func() string { return "<13>1 - host app - - [a" + strings.Repeat(" b=\"c\"", n/6) + "]" })
			do(func() string { return "<13>1 - host app - - " + strings.Repeat("[a]", n/3) })
		}
	}
}

// sweep08 parses at once, with a parser each, with and without lock, and with one locking parser.
func sweep08(t Tier, do func(mk func() Case08)) {
	for _, bsd := range []bool{false, true} {
		one := func(n int, mks []func() string) {
			for v := 0; v < 3; v++ {
				do(func() Case08 {
					p := POpt{BSD: bsd, Locking: true, BestEffort: n%2 == v%2, Compliant: !bsd && (n+v)%3 == 0}
					if bsd {
						p.Opt.RFC3339 = n%3 != v
						p.Opt.Year = []int{0, 2020, -1, 1999}[(n+v)%4]
						p.Opt.TZ = []B{"", "Asia/Tokyo", ""}[(n+v)%3]
						p.Opt.Locale = []B{"", "", "America/New_York", "Europe/Rome"}[(n/2+v)%4]
					}
					c := Case08{Parser: p, Own: v != 0, Go: 2}
					if v == 2 {
						// Both without a lock.
						c.Go = 4
					}
					for _, s := range made(mks) {
						c.Inputs = append(c.Inputs, B(s))
					}
					return c
				})
			}
		}
		all := func(do func(mk func() string)) {
			if bsd {
				systematic3164(t, do)
			} else {
				systematic5424(t, do)
			}
		}
		batches(all, sweepEvery(t, 97, 11), 150, one)
		batches(sweepLarge(bsd), 1, 12, one)
	}
}

// sweep17 makes the same calls for two messages at once, and looks at them after each of the calls.
func sweep17(t Tier, do func(mk func() Case17)) {
	one := func(n int, mks []func() BOp) {
		do(func() Case17 {
			ops := made(mks)
			c := Case17{Each: true}
			for i := 0; i < 3; i++ {
				b := BCase{Ops: ops}
				if n%2 == 0 {
					b.Start = "<77>7 2001-02-03T04:05:06.789012+03:04 hh aa pp mm [f n=\"v\"] some message"
				}
				c.Builds = append(c.Builds, b)
			}
			return c
		})
	}
	all := func(do func(mk func() BOp)) {
		k := 0
		sysBuilder(opPriority, opVersion, opTimestamp, opHostname, opAppname, opProcID, opMsgID, opMessage, opElement, opParameter)(t, func(mk func() BCase) {
			k++
			do(func() BOp {
				ops := mk().Ops
				if len(ops) == 0 {
					return BOp{Kind: opPriority, N: 1}
				}
				return ops[len(ops)-1]
			})
		})
	}
	batches(all, sweepEvery(t, 41, 5), 100, one)
	batches(func(do func(mk func() BOp)) {
		for _, n := range sweepSizes {
			if n > 20000 && n != 70000 {
				continue
			}
			s := B(filler(n))
			do(func() BOp { return BOp{Kind: opMessage, A: s} })
			do(func() BOp { return BOp{Kind: opMessage, A: s + "\xff"} })
			do(func() BOp { return BOp{Kind: opMessage, A: bom + s} })
			do(func() BOp { return BOp{Kind: opParameter, A: "big", B: "p", C: s} })
			do(func() BOp { return BOp{Kind: opParameter, A: "big", B: "q", C: B(strings.Repeat("]\"\\", n/3))} })
			do(func() BOp { return BOp{Kind: opHostname, A: B(strings.Repeat("h", n))} })
		}
		for n := 0; n < 300; n++ {
			do(func() BOp { return BOp{Kind: opVersion, N: n * 4} })
			do(func() BOp { return BOp{Kind: opPriority, N: n % 256} })
		}
	}, 1, 40, one)
}

// sweep30 parses each stream with two parsers at once.
func sweep30(t Tier, do func(mk func() Case30)) {
	one := func(_ int, mks []func() SCase) {
		do(func() (c Case30) {
			for _, s := range made(mks) {
				if s.Opt.Limit > 1<<30 {
					s.Opt.Limit = math.MaxInt
				}
				x := Conn30{Opt: s.Opt, Streams: []Stream24{{Data: s.Data, Read: s.Read}}}
				c.Conns = append(c.Conns, x, x)
			}
			return c
		})
	}
	sweepStreams(t, sweepEvery(t, 401, 61), 24, one)
}

// after24 are streams which show whether something of another one has been kept.
func after24(o SOpt) []string {
	head := "<1>1 - - - - - - "
	if o.Octet {
		f := octetFrame(head + "a")
		return []string{head, " " + head, "5", f, "1 <", "0", "", "17 ", "<", f + f[:len(f)-3], "<1>1 - - x", "  ", f + "x"}
	}
	tr := string([]byte{o.trailer()})
	return []string{head, "x", "<1", head + "a" + tr, tr + head + tr, "", head + tr + head + "b" + tr + head, "<", ">1 - - - - - -" + tr, "1>1 - - - - - - " + tr + head + tr}
}

// sweep24 parses a stream, and then others with the same parser, again and again.
func sweep24(t Tier, do func(mk func() Case24)) {
	one := func(n int, mks []func() SCase) {
		do(func() Case24 {
			s := mks[0]()
			c := Case24{Parsers: []SOpt{s.Opt}}
			for i, d := range after24(s.Opt) {
				c.Streams = append(c.Streams, Stream24{Data: s.Data, Read: s.Read, Same: n%2 == 0}, Stream24{Data: B(d), Read: Reading{Fail: (n+i)%3 == 0}, Same: n%3 == 0})
			}
			return c
		})
	}
	sweepStreams(t, sweepEvery(t, 401, 37), 1, one)
	// Each length of a message, and each limit.
	head := "<1>1 - - - - - - "
	for v := 0; v < 6; v++ {
		o := SOpt{Octet: v < 2, BestEffort: v%2 == 1, NUL: v >= 4, Limit: -1}
		for n := 0; n < 1100; n++ {
			one(n, []func() SCase{func() SCase {
				m := head + strings.Repeat("m", n)
				if o.Octet {
					return SCase{Opt: o, Data: B(octetFrame(m))}
				}
				return SCase{Opt: o, Data: B(m + string([]byte{o.trailer()}))}
			}})
		}
		if !o.Octet {
			continue
		}
		for _, l := range append([]int{17, 18, 20, 100, 1000, 4096, 8191, 8193, 65516, 65536, 65537, 100000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 24}, hugeLimits...) {
			for n := 0; n < 6; n++ {
				one(n, []func() SCase{func() SCase {
					o.Limit = l
					f := octetFrame(head)
					return SCase{Opt: o, Data: B([]string{f, f + f[:8], f + "x", f + "9999999999 <", octetFrame("<1>1 - - x"), ""}[n])}
				}})
			}
		}
	}
}

// sweepStreams passes the systematic cases of the checks of the stream parsers on, and large ones.
func sweepStreams(t Tier, every, size int, f func(n int, mks []func() SCase)) {
	for _, id := range []string{"C18", "C19", "C20", "C21", "C22", "C29"} {
		batches(func(do func(mk func() SCase)) {
			checks[id].Systematic(t, func(mk func() any) { do(func() SCase { return *(mk().(*SCase)) }) })
		}, every, size, f)
	}
	batches(func(do func(mk func() SCase)) {
		for i, n := range sweepSizes {
			for v := 0; v < 4; v++ {
				m := "<1>1 - - - - - - "
				do(func() SCase {
					f := octetFrame(m + filler(n))
					s := SCase{Opt: SOpt{Octet: true, BestEffort: v&1 != 0, Limit: []int{1 << 20, n + 100, n + 17, 65537 + n}[(i+v)%4]}, Data: B(f + f)}
					if v == 3 {
						s.Data = s.Data[:len(f)+len(f)/2]
					}
					s.Read.Sizes = []int{4096}
					return s
				})
				do(func() SCase {
					o := SOpt{BestEffort: v&1 != 0, NUL: v&2 != 0, Limit: -1}
					f := strings.ReplaceAll(m+filler(n), "\n", " ") + string([]byte{o.trailer()})
					s := SCase{Opt: o, Data: B(f + f + f[:len(f)-1])}
					s.Read.Sizes = []int{4096}
					return s
				})
			}
		}
	}, 1, min(size, 12), f)
}
