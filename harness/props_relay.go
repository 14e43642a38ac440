package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// Conn30 are the streams which one goroutine parses, one after the other, with a parser of its own.
type Conn30 struct {
	Opt     SOpt
	Streams []Stream24
}

// Case30 are connections served at the same time.
type Case30 struct {
	Conns []Conn30
}

func init() {
	register(Def[Case30]{
		ID:   "C30",
		Race: true,
		Rule: "cases are 2 to 8 (sometimes up to 300) goroutines, each parsing 1 to 4 random good and bad streams of either framing with a stream parser of its own and random reads, which yield to other goroutines, all at once (built with the race detector); the results are compared afterwards with those of a new parser alone, read and partly changed by another goroutine while the next stream is parsed; also systematic streams of the other checks, each with two parsers at once; non-trivial: at least two goroutines get results",
		N:    4000, MaxScale: 15,
		Systematic: sweep30,
		Gen: func(r *Rand, t Tier) (c Case30) {
			same := r.P(50)
			for n := r.several(); n > 0; n-- {
				x := Conn30{Opt: SOpt{Octet: r.P(50), BestEffort: r.P(50), Limit: pick(r, []int{-1, -1, -1, -1, 100, 9000, 0, -5, 65537, math.MaxInt})}}
				if !x.Opt.Octet {
					x.Opt = r.ntOpt()
				}
				if same && len(c.Conns) > 0 {
					x.Opt = c.Conns[0].Opt
				}
				k := r.In(1, 4)
				if n > 40 || len(c.Conns) > 40 {
					k = 1
				}
				for ; k > 0; k-- {
					var s SCase
					for {
						if s = r.anyStream(t); s.Opt.Octet == x.Opt.Octet {
							break
						}
					}
					d := string(s.Data)
					if !x.Opt.Octet {
						d = strings.ReplaceAll(d, string([]byte{s.Opt.trailer()}), string([]byte{x.Opt.trailer()}))
					}
					st := Stream24{Data: B(d), Read: s.Read}
					st.Read.Fail = r.P(15)
					x.Streams = append(x.Streams, st)
				}
				c.Conns = append(c.Conns, x)
			}
			return c
		},
		Eval: func(c Case30, o *Obs) error {
			// What is given at once is judged afterwards: nothing is parsed by one goroutine before it is by several.
			all := make([][][]sres, len(c.Conns))
			errs := make([]error, len(c.Conns))
			var mu sync.Mutex
			var later error
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for i, x := range c.Conns {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							errs[i] = fmt.Errorf("panic: %v", r)
						}
					}()
					col := &collector{}
					<-gate
					if errs[i] = configured(x.Opt); errs[i] != nil {
						return
					}
					p := newStream(x.Opt.Octet, x.Opt.options(col.listen)...)
					var readers sync.WaitGroup
					defer readers.Wait()
					for k, s := range x.Streams {
						rd := &reader{data: string(s.Data), spec: s.Read}
						rd.onRead = func(int) { runtime.Gosched() }
						got, bad := col.run(p, rd)
						if bad != nil {
							errs[i] = fmt.Errorf("stream %d of parser %d, at the same time as others: %w", k+1, i+1, bad)
							return
						}
						all[i] = append(all[i], got)
						// The results are read by another goroutine while this one goes on, every third message is changed by it.
						readers.Add(1)
						go func() {
							defer readers.Done()
							for round := 0; round < 2; round++ {
								for j := range got {
									if round == 1 && j%3 == 0 {
										continue
									}
									if now, bad := record(got[j].res); bad != nil || now.String() != got[j].String() {
										mu.Lock()
										later = fmt.Errorf("result %d was %v when delivered, and is %v afterwards (%v)", j+1, got[j], now, bad)
										mu.Unlock()
										return
									}
									if j%3 == 0 && got[j].res.Message != nil {
										scribbleMessage(got[j].res.Message)
									}
								}
								runtime.Gosched()
							}
						}()
						if len(c.Conns) > 40 {
							readers.Wait()
						}
					}
				}()
			}
			close(gate)
			wg.Wait()
			if later != nil {
				return later
			}
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			busy := 0
			for i, x := range c.Conns {
				n := 0
				for k, s := range x.Streams {
					want, bad := runStream(x.Opt, string(s.Data), s.Read)
					if bad == nil {
						bad = sameResults(all[i][k], want)
					}
					if bad != nil {
						return fmt.Errorf("stream %d of parser %d, at the same time as others: %w", k+1, i+1, bad)
					}
					n += len(want)
				}
				if n > 0 {
					busy++
				}
			}
			if busy >= 2 {
				o.NonTrivial()
			}
			o.Label(fmt.Sprintf("%d parsers at once", len(c.Conns)))
			return nil
		},
	})

	register(Def[Case31]{
		ID:   "C31",
		Rule: "cases are 1 to 8 messages built by random setter calls, on new messages and on parsed ones, or just parsed, serialized, put on a stream with either framing, read by the stream parser with random reads, and serialized and sent a second time with the other framing, with the limit far away or at the longest message; also all message lengths up to about 2000, and streams of up to 5000 messages; non-trivial: at least two messages are valid, or one with a timestamp, structured data or a message",
		N:    60000,
		Systematic: func(t Tier, do func(mk func() Case31)) {
			for b := 0; b < 256; b++ {
				for i := 0; i < 8; i++ {
					do(func() Case31 {
						v := B([]byte{byte(b)})
						m := func(op ...BOp) BCase {
							return BCase{Ops: append([]BOp{{Kind: opPriority, N: b % 192}, {Kind: opVersion, N: 1 + b}}, op...)}
						}
						return Case31{
							Msgs: []BCase{m(BOp{Kind: opMessage, A: v}), m(BOp{Kind: opMessage, A: "x" + v + v + "<1>"}), m(BOp{Kind: opParameter, A: "e", B: "n", C: "\u00e9" + v}), m(BOp{Kind: opHostname, A: "h" + v}), m(BOp{Kind: opMessage, A: "<" + v})},
							NUL:  i&1 != 0, BestEffort: i&2 != 0, NTFirst: i&4 != 0,
						}
					})
				}
			}
			for i, n := range sweptLengths {
				do(func() Case31 {
					m := BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}, {Kind: opMessage, A: B(filler(n))}}}
					v := BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}, {Kind: opParameter, A: "e", B: "n", C: B(fillerWord(0, n-1) + `\]`)}}}
					return Case31{Msgs: []BCase{m, v}, NUL: i&1 != 0, BestEffort: i&2 != 0, NTFirst: i&4 != 0}
				})
				do(func() Case31 {
					m := BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}, {Kind: opMessage, A: B(filler(n))}}}
					s := BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}, {Kind: opMessage, A: B(filler(n - 1))}}}
					return Case31{Msgs: []BCase{s, m, s, m}, NUL: i&1 == 0, BestEffort: i&2 == 0, NTFirst: i&4 != 0, Exact: i&8 == 0}
				})
			}
			for _, n := range []int{2, 100, 127, 255, 256, 511, 999, 1023, 1024, 2047, 4095, 4999} {
				for i := 0; i < 8; i++ {
					do(func() Case31 {
						m := BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}, {Kind: opMessage, A: B(filler(1 + i*7))}}}
						return Case31{Msgs: []BCase{m}, Repeat: n, NUL: i&1 != 0, BestEffort: i&2 != 0, NTFirst: i&4 != 0}
					})
				}
			}
			for _, n := range []int{1, 100, 4000, 4096, 8000, 8192, 10000, 70000} {
				for i := 0; i < 8; i++ {
					do(func() Case31 {
						m := BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}, {Kind: opMessage, A: B(strings.Repeat("m ", n/2+1))}}}
						return Case31{Msgs: []BCase{m, m, m}, NUL: i&1 != 0, BestEffort: i&2 != 0, NTFirst: i&4 != 0}
					})
				}
			}
		},
		Gen: func(r *Rand, t Tier) Case31 {
			c := Case31{NUL: r.P(50), BestEffort: r.P(50), NTFirst: r.P(50), Exact: r.P(30), Read: r.reading(), Read2: r.reading()}
			for n := r.In(1, 8); n > 0; n-- {
				b := genBCase(r, t)
				if r.P(80) {
					i := r.IntN(len(b.Ops) + 1)
					b.Ops = append(b.Ops[:i:i], append([]BOp{{Kind: opPriority, N: r.pri()}, {Kind: opVersion, N: r.version()}}, b.Ops[i:]...)...)
				}
				if r.P(20) {
					b = BCase{Start: B(r.valid5424())}
				}
				c.Msgs = append(c.Msgs, b)
			}
			return c
		},
		Eval: evalRelay,
	})
}

// configured reads the trailer type as from a configuration.
func configured(o SOpt) error {
	if o.Octet {
		return nil
	}
	name := "LF"
	if o.NUL {
		name = "NUL"
	}
	for _, s := range []string{name, strings.ToLower(name), `"` + name + `"`} {
		t, err := nontransparent.TrailerTypeFromString(s)
		if v, e := t.Value(); err != nil || e != nil || t.String() != name || v != int(o.trailer()) {
			return fmt.Errorf("the trailer type %s read at the same time as others is %v (%v), with value %d (%v)", s, t, err, v, e)
		}
	}
	return nil
}

// Case31 are messages sent over two hops.
type Case31 struct {
	Msgs        []BCase
	NUL         bool // trailer of the non transparent hop
	BestEffort  bool
	NTFirst     bool // the first hop is the non transparent one
	Repeat      int  `json:",omitempty"` // the messages are sent so many more times
	Exact       bool `json:",omitempty"` // the limit is the length of the longest message
	Read, Read2 Reading
}

func evalRelay(c Case31, o *Obs) error {
	opt := SOpt{BestEffort: c.BestEffort, NUL: c.NUL, Limit: 1 << 20}
	tr := string([]byte{opt.trailer()})
	var sent []*rfc5424.SyslogMessage
	var now []syslog.Message
	rich := false
	longest := 0
	for _, b := range c.Msgs {
		m := buildAll(b.start(), b.Ops)
		if !validMsg(m) {
			o.Label("message without priority or version")
			continue
		}
		before := copyMsg(m)
		s, err := m.String()
		if err != nil {
			return fmt.Errorf("serializing %s: %v", show5424(m), err)
		}
		if strings.Contains(s+tr, tr+"<") {
			// This framing cannot carry it.
			o.Label("the trailer and < in a message")
			continue
		}
		rich = rich || m.Timestamp != nil || m.StructuredData != nil || m.Message != nil
		sent = append(sent, before)
		now = append(now, m)
		longest = max(longest, len(s))
	}
	if n := len(sent); n > 0 {
		for i := 0; i < c.Repeat; i++ {
			sent = append(sent, sent[:n]...)
			now = append(now, now[:n]...)
		}
	}
	if c.Exact {
		opt.Limit = longest
	}
	if rich || len(sent) > 1 {
		o.NonTrivial()
	}
	if len(sent) == 0 {
		return nil
	}
	for hop := 0; hop < 2; hop++ {
		opt.Octet = (hop == 0) != c.NTFirst
		var b strings.Builder
		for _, m := range now {
			s, err := m.(*rfc5424.SyslogMessage).String()
			if err != nil {
				return fmt.Errorf("hop %d: serializing %s: %v", hop+1, showAny(m), err)
			}
			if opt.Octet {
				b.WriteString(octetFrame(s))
			} else {
				b.WriteString(s)
				b.WriteString(tr)
			}
		}
		rd := c.Read
		if hop == 1 {
			rd = c.Read2
		}
		rd.Fail = false
		got, bad := runStream(opt, b.String(), rd)
		if bad != nil {
			return bad
		}
		if len(got) != len(sent) {
			return fmt.Errorf("hop %d: %d messages sent, %d results from %+q", hop+1, len(sent), len(got), b.String())
		}
		for i, g := range got {
			if g.err != "nil" || g.raw == nil {
				return fmt.Errorf("hop %d: message %d is received as %v", hop+1, i+1, g)
			}
			if err := sameMessage(g.raw, sent[i]); err != nil {
				return fmt.Errorf("hop %d: message %d: %w", hop+1, i+1, err)
			}
			now[i] = g.res.Message
		}
	}
	return nil
}
