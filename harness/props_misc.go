package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// POpt is the configuration of a message parser.
type POpt struct {
	BSD        bool // RFC 3164
	Locking    bool
	BestEffort bool
	Compliant  bool    // RFC 5424 only
	Opt        Opt3164 // RFC 3164 only
}

func (p POpt) build() syslog.Machine {
	if p.BSD {
		return new3164(p.Locking, p.BestEffort, p.Opt)
	}
	return new5424(p.Locking, p.BestEffort, p.Compliant)
}

func (r *Rand) popt() POpt {
	p := POpt{BSD: r.P(45), Locking: r.P(50), BestEffort: r.P(60), Compliant: r.P(40)}
	if p.BSD {
		p.Compliant = false
		p.Opt = r.opt3164()
		if p.Opt.Year == -1 {
			p.Opt.Year = 0
		}
	}
	return p
}

func (r *Rand) inputFor(bsd bool) string {
	if r.P(6) {
		bsd = !bsd
	}
	if bsd {
		return r.any3164()
	}
	return r.any5424()
}

// showAny writes a message of any kind down.
func showAny(m syslog.Message) string {
	switch x := m.(type) {
	case nil:
		return "nil"
	case *rfc5424.SyslogMessage:
		if x == nil {
			return "a nil *rfc5424.SyslogMessage"
		}
		return "5424" + show5424(x) + inspect(x)
	case *rfc3164.SyslogMessage:
		if x == nil {
			return "a nil *rfc3164.SyslogMessage"
		}
		return "3164" + show3164(x) + inspect(x)
	}
	return fmt.Sprintf("%T", m)
}

func outcome(m syslog.Message, err error) string { return showAny(m) + " / " + showErr(err) }

// Step07 is a call of Parse.
type Step07 struct {
	Which      int
	In         B
	Before     B    // what is in the buffer before the input
	After      B    // what is in the buffer after the input
	Cap        bool // the slice given has room for After
	Scribble   bool // overwrite the buffer afterwards
	ModifyPrev bool // change the message returned by this step, after the comparison
}

// Case07 is a history of Parse calls on some parsers.
type Case07 struct {
	Parsers []POpt
	Steps   []Step07
	Buf     bool // one buffer for all of the steps
}

// sibling is s with the byte at k replaced by another one of its kind.
func sibling(s string, k int) string {
	b := []byte(s)
	switch c := b[k]; {
	case c == '0' || c == '1':
		b[k] = '0' + '1' - c
	case c >= '2' && c <= '9':
		b[k] = '1' + (c-'0')%8
	case c >= 'a' && c <= 'y', c >= 'A' && c <= 'Y':
		b[k]++
	default:
		b[k] = 'z'
	}
	return string(b)
}

// scribbleMessage changes all that can be changed in a message.
func scribbleMessage(m syslog.Message) {
	str := func(ps ...*string) {
		for _, p := range ps {
			if p != nil {
				*p = "scribbled"
			}
		}
	}
	base := func(b *syslog.Base) {
		str(b.Hostname, b.Appname, b.ProcID, b.MsgID, b.Message)
		for _, p := range []*uint8{b.Priority, b.Facility, b.Severity} {
			if p != nil {
				*p = 255
			}
		}
		if b.Timestamp != nil {
			*b.Timestamp = b.Timestamp.AddDate(7, 1, 1)
		}
	}
	switch x := m.(type) {
	case *rfc5424.SyslogMessage:
		if x == nil {
			return
		}
		base(&x.Base)
		x.Version = 777
		if x.StructuredData != nil {
			for _, e := range *x.StructuredData {
				if e != nil {
					e["scribbled"] = "scribbled"
				}
			}
			if *x.StructuredData != nil {
				(*x.StructuredData)["scribbled"] = map[string]string{"a": "b"}
			}
		}
	case *rfc3164.SyslogMessage:
		if x != nil {
			base(&x.Base)
		}
	}
}

// ownCodes tells whether changing a code of the message in place changes another one.
func ownCodes(b *syslog.Base) error {
	p, f, s := b.Priority, b.Facility, b.Severity
	if p != nil && (p == f || p == s) || f != nil && f == s {
		return errors.New("two of priority, facility and severity are kept in the same place: changing one changes the other")
	}
	return nil
}

// ownFields tells whether changing a field in place changes another one.
func ownFields(b *syslog.Base) error {
	fields := []*string{b.Hostname, b.Appname, b.ProcID, b.MsgID, b.Message}
	for i, x := range fields {
		for j, y := range fields[:i] {
			if x != nil && x == y {
				return fmt.Errorf("fields %d and %d of hostname, app-name, procid, msgid and message are kept in the same place: changing one changes the other", j+1, i+1)
			}
		}
	}
	return ownCodes(b)
}

// ownElements tells whether adding a parameter to an element adds it to another one.
func ownElements(m *rfc5424.SyslogMessage) error {
	if m.StructuredData == nil || len(*m.StructuredData) < 2 {
		return nil
	}
	seen := map[uintptr]string{}
	for id, e := range *m.StructuredData {
		if e == nil {
			continue
		}
		at := reflect.ValueOf(e).Pointer()
		if other, ok := seen[at]; ok {
			return fmt.Errorf("the elements %+q and %+q are one: changing one changes the other", min(id, other), max(id, other))
		}
		seen[at] = id
	}
	return nil
}

// ownParts is all of them.
func ownParts(m syslog.Message) error {
	switch x := m.(type) {
	case *rfc5424.SyslogMessage:
		if x == nil {
			return nil
		}
		if err := ownElements(x); err != nil {
			return err
		}
		return ownFields(&x.Base)
	case *rfc3164.SyslogMessage:
		if x != nil {
			return ownFields(&x.Base)
		}
	}
	return nil
}

func init() {
	register(Def[Case07]{
		ID:   "C07",
		Rule: "cases are histories of 2 to 12 Parse calls on 1 to 3 parsers of both formats and any options, with inputs in buffers shared with other bytes and overwritten afterwards, or all in the same buffer one after the other, and with returned messages being changed; systematically every ordered pair of a set of messages of all kinds, and a part of the systematic messages of the other checks; each outcome is compared with that of a new parser of the other kind (locking or not), and all messages again in the end; no two parts of a message are one; non-trivial: a parser is used at least twice, and some message is returned",
		N:    80000,
		Systematic: func(t Tier, do func(mk func() Case07)) {
			m5 := []string{"", "<", "<1>1", "<1>1 ", "<1>12 - - - - - -", "<34>1 2003-10-11T22:14:15.003Z h a p i [x a=\"b\\]\\\\\" c=\"\"][y] " + bom + "msg", "<0>1 2003-10-11T22:14:15.003Z h a p i [x a=\"b", "<0>1 2003-10-11T22:14:15.003Z h a p i [x a=\"b\\\"\\\"\" =", "<9>1 - - - - - [x][x]",
				"<9>1 - - - - - [x a=\"\\\"q\"][y b=\"w", "<9>1 - - - - - - " + bom + "\xff", "<9>1 2003-02-30T00:00:00Z - - - - -", "<9>999 - hh - - - [y z=\"\u00e9\"]", "<191>1 - - aa - - - m", "<5>1 - - - - ii - ", "<5>1 - - - pp - [", "<5>1 - h a p i [z ", "\x00", "<5>1 - - - - - -x", "<9>1 - h h h h [h][b][c h=\"h\"][d h=\"h\"] h"}
			m3 := []string{"", "<", "<3>", "<34>Oct 11 22:14:15 host su[12]: msg", "<34>Oct 11 22:14:15 host su: msg", "<34>Oct 11 22:14:15 host msg", "<34>Oct 11 22:14:15 host su[12]: ", "<34>Oct 11 22:14:15 host su[12", "<3>Oct 1", "<3>Feb 30 10:00:00 h m", "<3>Dec 31 10:00:00 h m\n", "<3>2003-10-11T22:14:15Z h m", "<3>2003-10-11T22:14:15", "<13>Jan  1 00:00:00 - -: -", "<13>Jan  1 00:00:00 h a[b]:c", "<13>Jan  1 00:00:00 h a[\x01", "<13>Jan  1 00:00:00 h ab: \x01", "<191>Jan  1 00:00:00 h ab: c\x01", "<9>Jan  1 00:00:00 h h[h]: h"}
			for _, bsd := range []bool{false, true} {
				all := systematic5424
				if bsd {
					all = systematic3164
				}
				batches(func(do func(mk func() string)) { all(t, do) }, sweepEvery(t, 61, 5), 15, func(n int, mks []func() string) {
					do(func() Case07 {
						c := Case07{Parsers: []POpt{{BSD: bsd, Locking: n%2 == 0, BestEffort: n%3 != 0}}}
						for k, in := range made(mks) {
							c.Steps = append(c.Steps, Step07{In: B(in), Scribble: k%2 == 0, ModifyPrev: k%3 == 0})
						}
						return c
					})
				})
			}
			// Many parsers, used in turn.
			for i := 0; i < 8; i++ {
				for _, n := range []int{9, 70, 300} {
					do(func() Case07 {
						po := POpt{Locking: i&1 != 0, BestEffort: i&2 != 0, BSD: i&4 != 0}
						ms := m5
						if po.BSD {
							ms = m3
						}
						var c Case07
						for k := 0; k < n; k++ {
							c.Parsers = append(c.Parsers, po)
						}
						for k := 0; k < 3*n; k++ {
							c.Steps = append(c.Steps, Step07{Which: k * 7 % n, In: B(ms[(k+k/n)%len(ms)]), Scribble: k%2 == 0})
						}
						return c
					})
				}
			}
			// Long histories.
			for i := 0; i < 16; i++ {
				for _, n := range []int{70, 300, 1200, 70000} {
					if n > 1200 && i != 1 && i != 4 {
						continue
					}
					do(func() Case07 {
						po := POpt{Locking: i&1 != 0, BestEffort: i&2 != 0, BSD: i&4 != 0, Compliant: i&8 != 0 && i&4 == 0}
						ms := m5
						if po.BSD {
							ms = m3
						}
						c := Case07{Parsers: []POpt{po}}
						for k := 0; k < n; k++ {
							in := ms[(k*k+k/7)%len(ms)]
							if k%4 == 3 {
								in = fmt.Sprintf("<%d>%d - h%d - - - [e%d a=\"%d\"] m%d", k%192, 1+k%999, k, k, k, k)
								if po.BSD {
									in = fmt.Sprintf("<%d>Oct 11 22:14:15 h%d a%d[%d]: m%d", k%192, k, k, k, k)
								}
							}
							c.Steps = append(c.Steps, Step07{In: B(in), Scribble: k%2 == 0})
						}
						return c
					})
				}
			}
			// Long histories of messages of ordinary length: all accepted, all
			// rejected, both, growing.
			for i := 0; i < 24; i++ {
				n := 1500
				if t.Name == "thorough" {
					n = 9000
				}
				do(func() Case07 {
					po := POpt{Locking: i&1 != 0, BestEffort: i&2 != 0, BSD: i&4 != 0}
					c := Case07{Parsers: []POpt{po}}
					for k := 0; k < n; k++ {
						text := strings.Repeat("lorem ipsum ", 2+(k*k+k/5)%23)
						if i/8 == 2 {
							text = strings.Repeat("dolor ", 2+k/8) // Growing.
						}
						in := fmt.Sprintf("<%d>%d 2003-10-11T22:14:%02d.%dZ h%d app%d %d id%d [e%d a=\"%d\" b=\"\\\"%s\"] %s%d", k%192, 1+k%999, k%60, k+1, k, k%77, k, k, k, k, text[:k%len(text)], text, k)
						if po.BSD {
							in = fmt.Sprintf("<%d>Oct %2d 22:14:%02d h%d app%d[%d]: %s%d", k%192, 1+k%31, k%60, k, k%77, k, text, k)
						}
						switch {
						case i/8 == 1:
							in = in[:len(in)-k%7] + "\x01\xff" // Rejected.
							if !po.BSD {
								in = strings.Replace(in, "] ", "]] ", 1)
							}
						case i/8 == 0 && k >= 700 && k%3 == 0:
							in = in[:k*7%len(in)]
						}
						c.Steps = append(c.Steps, Step07{In: B(in), Scribble: k%2 == 0})
					}
					return c
				})
			}
			// The same buffer with another byte.
			for i := 0; i < 8; i++ {
				po := POpt{BSD: i&4 != 0, Locking: i&1 != 0, BestEffort: i&2 != 0}
				ms := m5
				if po.BSD {
					ms = m3
				}
				for _, a := range ms {
					for k := range a {
						do(func() Case07 {
							b := sibling(a, k)
							return Case07{Parsers: []POpt{po}, Steps: []Step07{{In: B(a)}, {In: B(b)}, {In: B(a), Scribble: true}, {In: B(b)}}, Buf: true}
						})
					}
				}
			}
			for i := 0; i < 4; i++ {
				for _, bsd := range []bool{false, true} {
					ms := m5
					if bsd {
						ms = m3
					}
					po := POpt{BSD: bsd, Locking: i&1 != 0, BestEffort: i&2 != 0}
					for _, comp := range []bool{false, true} {
						po.Compliant, po.Opt.RFC3339 = comp && !bsd, comp && bsd
						for _, a := range ms {
							for _, b := range ms {
								do(func() Case07 {
									return Case07{Parsers: []POpt{po}, Steps: []Step07{{In: B(a), Scribble: true}, {In: B(b), After: "xyz", Cap: true, ModifyPrev: true, Scribble: true}, {In: B(a), Before: "<2>1 "}, {In: B(b)}}}
								})
								if t.Name == "thorough" {
									for _, x := range ms {
										do(func() Case07 {
											return Case07{Parsers: []POpt{po}, Steps: []Step07{{In: B(a)}, {In: B(b), Scribble: true}, {In: B(x), After: "]\"", Cap: true}}}
										})
									}
								}
							}
						}
					}
				}
			}
		},
		Gen: func(r *Rand, t Tier) (c Case07) {
			for n := pick(r, []int{1, 1, 2, 3}); n > 0; n-- {
				c.Parsers = append(c.Parsers, r.popt())
			}
			c.Buf = r.P(40)
			for n := r.In(2, 12); n > 0; n-- {
				s := Step07{Which: r.IntN(len(c.Parsers)), Cap: r.P(60), Scribble: r.P(70), ModifyPrev: r.P(40)}
				s.In = B(r.inputFor(c.Parsers[s.Which].BSD))
				if len(c.Steps) > 0 && r.P(25) {
					s.In = pick(r, c.Steps).In
					if r.P(40) {
						s.In = B(r.mutate(string(s.In), r.valid5424))
					}
				}
				s.Before, s.After = B(r.text(3)), B(r.text(3))
				if len(c.Steps) > 0 && c.Buf && r.P(60) {
					s = pick(r, c.Steps)
					s.Scribble = r.P(30)
					for k := r.In(0, 2); k > 0 && len(s.In) > 0; k-- {
						s.In = B(sibling(string(s.In), r.IntN(len(s.In))))
					}
				} else if r.P(30) && len(s.In) > 0 {
					// What follows the slice would go on with the message.
					k := r.IntN(len(s.In))
					s.In, s.After, s.Cap = s.In[:k], s.In[k:], true
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		},
		Eval: func(c Case07, o *Obs) error {
			if len(c.Parsers) == 0 {
				return nil
			}
			ps := make([]syslog.Machine, len(c.Parsers))
			used := make([]int, len(ps))
			for i, p := range c.Parsers {
				ps[i] = p.build()
			}
			type kept struct {
				m    syslog.Message
				err  error
				text string
				step int
			}
			var all []kept
			returned := false
			one := make([]byte, 0, 65536)
			// What new parsers of the other kind give, with the inputs alone in their buffers, before anything else.
			first := make([]string, len(c.Steps))
			alone := func(s Step07) string {
				po := c.Parsers[((s.Which%len(ps))+len(ps))%len(ps)]
				po.Locking = !po.Locking
				return outcome(po.build().Parse([]byte(strings.Clone(string(s.In)))))
			}
			for i, s := range c.Steps {
				first[i] = alone(s)
			}
			for i, s := range c.Steps {
				w := ((s.Which % len(ps)) + len(ps)) % len(ps)
				used[w]++
				want := alone(s)
				if want != first[i] {
					return fmt.Errorf("step %d: a new parser gives %s for %+q, and gave %s before the steps", i+1, want, s.In, first[i])
				}

				buf := []byte(string(s.Before) + string(s.In) + string(s.After))
				if c.Buf {
					one = append(one[:0], buf...)
					buf = one
				}
				in := buf[len(s.Before) : len(s.Before)+len(s.In)]
				if !s.Cap {
					in = in[:len(in):len(in)]
				}
				copied := string(buf)
				m, err := ps[w].Parse(in)
				if string(buf) != copied {
					return fmt.Errorf("step %d: parsing modified its buffer: %+q, was %+q", i+1, buf, copied)
				}
				got := outcome(m, err)
				if got != want {
					return fmt.Errorf("step %d: parsing %+q gives %s, with a new parser %s", i+1, s.In, got, want)
				}
				if bad := ownParts(m); bad != nil {
					return fmt.Errorf("step %d: the message from %+q: %w", i+1, s.In, bad)
				}
				if s.Scribble {
					for k := range buf {
						buf[k] = "#<1>9["[k%6]
					}
				}
				if now := outcome(m, err); now != got {
					return fmt.Errorf("step %d: the outcome was %s, and is %s after its buffer has been overwritten", i+1, got, now)
				}
				if m != nil {
					returned = true
				}
				if m != nil && s.ModifyPrev {
					scribbleMessage(m)
				}
				all = append(all, kept{m, err, outcome(m, err), i})
				if used[w] >= 2 && returned {
					o.NonTrivial()
				}
				// Messages returned earlier.
				if every := max(64, len(c.Steps)/20); len(c.Steps) > 20 && i%every != 0 && i != len(c.Steps)-1 {
					continue
				}
				for _, k := range all {
					if now := outcome(k.m, k.err); now != k.text {
						return fmt.Errorf("the outcome of step %d was %s, and is %s after step %d", k.step+1, k.text, now, i+1)
					}
				}
			}
			o.Label(fmt.Sprintf("%d parsers", min(len(ps), 4)))
			return nil
		},
	})

	registerC08()
	registerC28()
}

// Case08 are inputs parsed at once by goroutines, with one parser or with a parser each.
type Case08 struct {
	Parser POpt
	Own    bool // a parser for each goroutine
	Mixed  bool // with own parsers: of both formats
	Inputs []B
	Go     int
}

func registerC08() {
	register(Def[Case08]{
		ID:   "C08",
		Race: true,
		Rule: "cases are 2 to 10 random messages parsed by 2 to 8 (sometimes up to 300) goroutines at once, in different orders, with one locking parser of any configuration shared by all of them or with a parser each, from buffers of their own, overwritten afterwards, or from the same buffer, some of the messages returned being changed, the others kept (built with the race detector), and batches of the systematic messages; each outcome is compared with that of a new parser alone afterwards; non-trivial: at least two different inputs",
		N:    4000, MaxScale: 15,
		Systematic: sweep08,
		Gen: func(r *Rand, t Tier) Case08 {
			c := Case08{Parser: r.popt(), Own: r.P(25), Go: r.several()}
			c.Mixed = c.Own && r.P(50)
			c.Parser.Locking = true
			if r.P(15) {
				c.Parser.Opt.Year = -1
			}
			for n := r.In(2, 10); n > 0; n-- {
				c.Inputs = append(c.Inputs, B(r.inputFor(c.Parser.BSD)))
			}
			return c
		},
		Eval: func(c Case08, o *Obs) error {
			n := len(c.Inputs)
			if n == 0 {
				return nil
			}
			for _, in := range c.Inputs[1:] {
				if in != c.Inputs[0] {
					o.NonTrivial()
				}
			}
			o.Label(fmt.Sprintf("a parser each: %v", c.Own))
			g := max(2, c.Go)
			cfg := func(k int) POpt {
				p := c.Parser
				if c.Own {
					p.Locking = k%2 == 0 && c.Go != 4
					if c.Mixed && k%2 == 1 {
						p = POpt{BSD: !p.BSD, BestEffort: p.BestEffort}
					}
				}
				return p
			}
			begin := time.Now().Year()
			// What is given at once is judged afterwards: nothing is parsed by one goroutine before it is by several.
			type call struct {
				j     int
				got   string
				m     syslog.Message
				err   error
				kept  bool
				later string
			}
			calls := make([][]call, g)
			shared := cfg(0).build()
			errs := make([]error, g)
			common := make([][]byte, n)
			for j, in := range c.Inputs {
				common[j] = []byte(in)
			}
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for k := 0; k < g; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							errs[k] = fmt.Errorf("panic: %v", r)
						}
					}()
					<-gate
					p := shared
					if c.Own {
						p = cfg(k).build()
					}
					keep := 0
					for round := 0; round < 3; round++ {
						for i := 0; i < n; i++ {
							j := (i*(1+k%2*(n-1)) + k + round) % n
							if (i+k)%3 == 0 {
								runtime.Gosched()
							}
							// The same buffer as the others, or one of its own which is used again afterwards.
							in := common[j]
							if (i+k+round)%2 == 0 {
								in = []byte(c.Inputs[j])
							}
							m, err := p.Parse(in)
							if (i+k+round)%2 == 0 {
								for x := range in {
									in[x] = '#'
								}
							}
							if i%2 == 0 {
								runtime.Gosched()
							}
							x := call{j: j, got: outcome(m, err), m: m, err: err}
							if (i+round)%3 == 0 {
								// It belongs to this goroutine.
								if m != nil {
									scribbleMessage(m)
								}
							} else if keep < 40 {
								x.kept = true
								keep++
							}
							if !x.kept {
								x.m, x.err = nil, nil
							}
							calls[k] = append(calls[k], x)
						}
					}
					for i, x := range calls[k] {
						if x.kept {
							calls[k][i].later = outcome(x.m, x.err)
						}
					}
				}()
			}
			close(gate)
			wg.Wait()
			for j, in := range c.Inputs {
				if string(common[j]) != string(in) {
					return fmt.Errorf("the buffer %+q, parsed by several goroutines, is %+q afterwards", in, common[j])
				}
			}
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			want := make([][]string, 2)
			for k := range want {
				for _, in := range c.Inputs {
					want[k] = append(want[k], outcome(cfg(k).build().Parse([]byte(in))))
				}
			}
			if c.Parser.Opt.Year == -1 && time.Now().Year() != begin {
				return nil
			}
			for k, cs := range calls {
				kk := k % 2
				if !c.Own {
					kk = 0
				}
				for _, x := range cs {
					w := want[kk][x.j]
					if x.got != w {
						return fmt.Errorf("parsing %+q at the same time as others gives %s, alone %s", c.Inputs[x.j], x.got, w)
					}
					if x.kept && x.later != w {
						return fmt.Errorf("what was returned by a call at the same time as others is %s afterwards, alone %s", x.later, w)
					}
				}
			}
			return nil
		},
	})
}

// Case28 is a set of options, given in two ways, and an input.
type Case28 struct {
	Kind    int // 0 RFC 5424, 1 RFC 3164, 2 octet counting, 3 non transparent
	Locking bool
	Set     int   // which options are given
	Order   []int // the order, with repetitions
	ByCall  int   // which of them are set on the constructed parser instead
	Before  B     // parsed before those are set, if there are some
	Opt     Opt3164
	Limit   int
	NUL     bool
	In      B
	// Which of the options with a value are first given with another one, and which.
	Twice int
	Other int
}

// others is the case with the other values.
func (c Case28) others() Case28 {
	c.NUL = !c.NUL
	limits := []int{0, 7, 8192, 8193, 100000, 1 << 30}
	if c.Limit = limits[mod(c.Other, len(limits))]; c.Other < 0 {
		c.Limit = -c.Other
	}
	c.Opt.Year += 1 + mod(c.Other, 3)
	zs := []B{"UTC", "America/New_York", "Asia/Kolkata", "Europe/Rome"}
	c.Opt.TZ, c.Opt.Locale = zs[mod(c.Other, 4)], zs[mod(c.Other/4, 4)]
	return c
}

func mod(a, n int) int { return ((a % n) + n) % n }

type setting struct {
	late    func(p syslog.Parser) // sets it on a constructed stream parser
	machine syslog.MachineOption
	call    func(m syslog.Machine) bool // sets it on a constructed machine; false: there is no such method
	stream  syslog.ParserOption
}

// settings are the options that there are for a kind of parser.
func (c Case28) settings(l syslog.ParserListener) []setting {
	callBE := func(m syslog.Machine) bool { m.WithBestEffort(); return true }
	streams := []setting{
		{stream: syslog.WithBestEffort(), late: func(p syslog.Parser) { p.WithBestEffort() }},
		{stream: syslog.WithMaxMessageLength(c.Limit), late: func(p syslog.Parser) { p.WithMaxMessageLength(c.Limit) }},
		{stream: syslog.WithListener(l), late: func(p syslog.Parser) { p.WithListener(l) }},
	}
	switch c.Kind {
	case 0:
		return []setting{{machine: rfc5424.WithBestEffort(), call: callBE}, {machine: rfc5424.WithCompliantMsg()}}
	case 1:
		tz, loc := c.Opt.TZ, c.Opt.Locale
		if tz == "" {
			tz = "UTC"
		}
		if loc == "" {
			loc = "Europe/Rome"
		}
		y := rfc3164.Year{YYYY: c.Opt.Year}
		return []setting{
			{machine: rfc3164.WithBestEffort(), call: callBE},
			{machine: rfc3164.WithRFC3339(), call: func(m syslog.Machine) bool {
				x, ok := m.(interface{ WithRFC3339() })
				if ok {
					x.WithRFC3339()
				}
				return ok
			}},
			{machine: rfc3164.WithYear(y), call: func(m syslog.Machine) bool {
				x, ok := m.(interface{ WithYear(rfc3164.YearOperator) })
				if ok {
					x.WithYear(y)
				}
				return ok
			}},
			{machine: rfc3164.WithTimezone(zones[string(tz)]), call: func(m syslog.Machine) bool {
				x, ok := m.(interface{ WithTimezone(*time.Location) })
				if ok {
					x.WithTimezone(zones[string(tz)])
				}
				return ok
			}},
			{machine: rfc3164.WithLocaleTimezone(zones[string(loc)]), call: func(m syslog.Machine) bool {
				x, ok := m.(interface{ WithLocaleTimezone(*time.Location) })
				if ok {
					x.WithLocaleTimezone(zones[string(loc)])
				}
				return ok
			}},
		}
	case 2:
		return streams
	default:
		t := nontransparent.LF
		if c.NUL {
			t = nontransparent.NUL
		}
		return append(streams, setting{stream: nontransparent.WithTrailer(t), late: func(p syslog.Parser) { nontransparent.WithTrailer(t)(p) }})
	}
}

// results gives the outcome with the options of the set in the given order. bestEffort is what is reported.
func (c Case28) results(order []int, byCall int) (out string, bestEffort bool, bad error) {
	col := &collector{}
	all := c.settings(col.listen)
	silent := 0
	first := c.others().settings(func(*syslog.Result) { silent++ })
	if len(first) > 0 {
		// There is only one value of best effort.
		first[0] = setting{}
	}
	if c.Kind < 2 {
		var given []syslog.MachineOption
		var later []func(m syslog.Machine) bool
		for _, k := range order {
			if k < 0 || k >= len(all) || c.Set&c.Twice&(1<<k) == 0 || first[k].machine == nil {
				continue
			}
			if f := first[k].call; f != nil && byCall&(2<<k) != 0 && byCall&(1<<k) != 0 {
				later = append(later, f)
			} else {
				given = append(given, first[k].machine)
			}
		}
		for _, k := range order {
			if k < 0 || k >= len(all) || c.Set&(1<<k) == 0 {
				continue
			}
			if byCall&(1<<k) != 0 && all[k].call != nil {
				later = append(later, all[k].call)
			} else {
				given = append(given, all[k].machine)
			}
		}
		mk := func() syslog.Machine {
			switch {
			case c.Kind == 0 && c.Locking:
				return rfc5424.NewParser(given...)
			case c.Kind == 0:
				return rfc5424.NewMachine(given...)
			case c.Locking:
				return rfc3164.NewParser(given...)
			}
			return rfc3164.NewMachine(given...)
		}
		// Two more parsers are made from the same option values, and changed then.
		disturb := func(m syslog.Machine) {
			m.Parse([]byte(c.Before))
			m.WithBestEffort()
			if x, ok := m.(interface{ WithRFC3339() }); ok {
				x.WithRFC3339()
			}
		}
		disturb(mk())
		m := mk()
		disturb(mk())
		if len(later) > 0 && len(c.Before) > 0 {
			m.Parse([]byte(c.Before))
		}
		for _, f := range later {
			if !f(m) {
				return "", false, fmt.Errorf("%T has no method for an option", m)
			}
		}
		be := m.HasBestEffort()
		out = outcome(m.Parse([]byte(c.In)))
		if m.HasBestEffort() != be {
			return "", false, fmt.Errorf("best effort is %v, and then %v", be, m.HasBestEffort())
		}
		return out, be, nil
	}
	var given []syslog.ParserOption
	var later []func(p syslog.Parser)
	for _, k := range order {
		if k < 0 || k >= len(all) || c.Set&c.Twice&(1<<k) == 0 || first[k].stream == nil {
			continue
		}
		if byCall&(2<<k) != 0 && byCall&(1<<k) != 0 {
			later = append(later, first[k].late)
		} else {
			given = append(given, first[k].stream)
		}
	}
	for _, k := range order {
		if k < 0 || k >= len(all) || c.Set&(1<<k) == 0 {
			continue
		}
		if byCall&(1<<k) != 0 {
			later = append(later, all[k].late)
		} else {
			given = append(given, all[k].stream)
		}
	}
	mk := func() syslog.Parser {
		if c.Kind == 2 {
			return octetcounting.NewParser(given...)
		}
		return nontransparent.NewParser(given...)
	}
	disturb := func(p syslog.Parser) {
		p.WithListener(func(*syslog.Result) {})
		p.Parse(&reader{data: string(c.Before)})
		p.WithBestEffort()
		p.WithMaxMessageLength(1)
		if c.Kind == 3 {
			nontransparent.WithTrailer(nontransparent.NUL)(p)
		}
	}
	disturb(mk())
	p := mk()
	disturb(mk())
	if len(later) > 0 && len(c.Before) > 0 {
		if _, bad := col.run(p, &reader{data: string(c.Before)}); bad != nil {
			return "", false, bad
		}
	}
	for _, f := range later {
		f(p)
	}
	be := p.HasBestEffort()
	silent = 0
	res, bad := col.run(p, &reader{data: string(c.In)})
	if silent > 0 {
		return "", false, fmt.Errorf("%d results go to a listener given before the last one", silent)
	}
	if p.HasBestEffort() != be {
		return "", false, fmt.Errorf("best effort is %v, and then %v", be, p.HasBestEffort())
	}
	return fmt.Sprint(res), be, bad
}

func registerC28() {
	gen := func(r *Rand, t Tier) Case28 {
		c := Case28{Kind: r.IntN(4), Locking: r.P(50), Opt: r.opt3164(), Limit: pick(r, []int{0, 20, 40, 100, 8192, 100000}), NUL: r.P(50)}
		if c.Opt.Year == -1 {
			c.Opt.Year = 2021
		}
		n := []int{2, 5, 3, 4}[c.Kind]
		c.Set = r.IntN(1 << n)
		if c.Kind >= 2 && r.P(90) {
			c.Set |= 4 // the listener
		}
		c.ByCall = r.IntN(1 << n)
		for k := 0; k < n; k++ {
			c.Order = append(c.Order, k)
			if r.P(30) {
				c.Order = append(c.Order, r.IntN(n))
			}
		}
		r.Shuffle(len(c.Order), func(i, j int) { c.Order[i], c.Order[j] = c.Order[j], c.Order[i] })
		switch c.Kind {
		case 0:
			c.In = B(r.any5424())
		case 1:
			c.In = B(r.any3164())
		case 2:
			s, _ := r.octetStream(4)
			c.In = B(s)
			if r.P(40) {
				c.In = genOctetBad(r, t).Data
			}
		default:
			c.In = B(r.ntStream(SOpt{NUL: c.NUL}.trailer(), 4) + r.ntStream(SOpt{NUL: !c.NUL}.trailer(), 2))
		}
		if r.P(50) {
			c.Twice, c.Other = r.IntN(1<<n), r.IntN(100)
			if r.P(30) {
				c.Other = -1 - r.IntN(100000)
			}
		}
		if r.P(50) {
			c.Before = pick(r, []B{c.In, B(r.any5424()), B(genOctetGood(r, t).Data), B(r.ntStream('\n', 3)), c.In + c.In})
		}
		return c
	}
	register(Def[Case28]{
		ID:   "C28",
		Rule: "cases are every subset of the options of each parser in every order, and random ones with repetitions and other values given before, given at construction or by methods, with random inputs; the outcome is compared with that of the same set in canonical order; options which do not concern the input are added; non-trivial: at least two options",
		N:    150000,
		Systematic: func(t Tier, do func(mk func() Case28)) {
			inputs := [][]string{
				{"<1>1 - - - - - -", "<1>1 - h - - - - " + bom + "\xff", "<1>1 - h x", "<1", "<1>1 2003-10-11T22:14:15.003Z h - - - [a b=\"c\"] m"},
				{"<1>Oct 11 22:14:15 h m", "<1>2019-10-11T22:14:15+01:00 h a: m", "<1>Oct 11 22:14:15 h", "<1>2019-10-11T22:14:1", "<1", "<1>Feb 30 10:10:10 h a[1]: m"},
				{"16 <1>1 - - - - - -" + "16 <1>1 - - - - - -", "5 <1>1 " + "16 <1>1 - - - - - -", "25 <1>1 - - - - - - xyz", "x", "60 <1>1 - - - - - - x"},
				{"<1>1 - - - - - -\n<1>1 - - - - - -\n", "<1>1 - - - - - -\x00<1>1 - - - - - -\x00", "<1>1 -\x00<1>1 - - - - - -\x00<1>1 - - -", "<1>1 -\n<1>1 - - - - - -\n<1>1 - - -"},
			}
			for kind, n := range []int{2, 5, 3, 4} {
				perms(n, func(order []int) {
					order = append([]int(nil), order...)
					for set := 0; set < 1<<n; set++ {
						for _, in := range inputs[kind] {
							for v := 0; v < 4; v++ {
								do(func() Case28 {
									c := Case28{Kind: kind, Locking: v&1 != 0, Set: set, Order: order, Limit: 30, NUL: v&2 != 0, In: B(in), Opt: Opt3164{Year: 2020, TZ: "Asia/Tokyo", Locale: "America/New_York"}}
									if v&2 != 0 {
										c.ByCall = (set*7 + len(in)) % (1 << n)
									}
									if v&1 != 0 {
										c.Twice, c.Other = 1<<n-1-set%2*(set/2), len(in)+set+order[0]
									}
									if v == 3 {
										c.Before = B(inputs[kind][(set+len(order))%len(inputs[kind])])
									}
									return c
								})
							}
						}
					}
				})
			}
			// Every pair of limits, the last one counts; also of the other options with a value.
			limits := []int{0, 1, 30, 100, 1000, 4096, 8191, 8192, 8193, 10000, 65536, 100000}
			for _, a := range limits {
				for _, b := range limits {
					for _, n := range limits {
						for v := 0; v < 8; v++ {
							do(func() Case28 {
								return Case28{Kind: 2, Set: 6 | v&1, Order: []int{0, 1, 2}, ByCall: []int{0, 2, 6, 4}[v>>1], Limit: b, Twice: 2, Other: -a - 1,
									In: B(octetFrame("<1>1 - - - - - - "+filler(n)) + octetFrame("<1>1 - - - - - -"))}
							})
						}
					}
				}
			}
			for kind, n := range []int{2, 5, 3, 4} {
				for k := 0; k < n; k++ {
					for _, in := range inputs[kind] {
						for v := 0; v < 64; v++ {
							do(func() Case28 {
								c := Case28{Kind: kind, Locking: v&1 != 0, Set: 1<<k | v>>1&1, Order: []int{k, 0}, Limit: 30, NUL: v&4 != 0, In: B(in), Twice: 1 << k, Other: v >> 3,
									Opt: Opt3164{Year: 2020, TZ: "Asia/Tokyo", Locale: "America/New_York"}}
								if kind >= 2 {
									c.Set |= 4
									c.Order = append(c.Order, 2)
								}
								if v&8 != 0 {
									c.ByCall = 1<<n - 1
								}
								return c
							})
						}
					}
				}
			}
		},
		Gen: gen,
		Eval: func(c Case28, o *Obs) error {
			c.Kind = min(max(c.Kind, 0), 3)
			var canonical []int
			listed := 0
			n := []int{2, 5, 3, 4}[c.Kind]
			for k := 0; k < n; k++ {
				for _, x := range c.Order {
					if x == k && c.Set&(1<<k) != 0 {
						canonical = append(canonical, k)
						listed |= 1 << k
						break
					}
				}
			}
			if len(canonical) >= 2 {
				o.NonTrivial()
			}
			o.Label([]string{"RFC 5424", "RFC 3164", "octet counting", "non transparent"}[c.Kind])
			once := c
			once.Twice = 0
			want, be, bad := once.results(canonical, 0)
			if bad != nil {
				return bad
			}
			if wantBE := listed&1 != 0; be != wantBE {
				return fmt.Errorf("best effort is reported as %v, requested: %v", be, wantBE)
			}
			got, be2, bad := c.results(c.Order, c.ByCall)
			if bad != nil {
				return bad
			}
			if be2 != be {
				return fmt.Errorf("best effort is reported as %v, requested: %v", be2, be)
			}
			if got != want {
				return fmt.Errorf("options %v (by methods: %b) give %s, options %v give %s", c.Order, c.ByCall, got, canonical, want)
			}
			if c.Twice&listed > 1 {
				o.Label("an option given with another value before")
			}
			// Options which do not concern the input.
			add := func(bits int, what string) error {
				d := once
				d.Set = (c.Set & listed) | bits
				var order []int
				for k := 0; k < n; k++ {
					if d.Set&(1<<k) != 0 {
						order = append(order, k)
					}
				}
				got, _, bad := d.results(order, 0)
				if bad != nil {
					return bad
				}
				o.Label("with an option that does not concern the input")
				if got != want {
					return fmt.Errorf("%s: options %v give %s, options %v give %s", what, order, got, canonical, want)
				}
				return nil
			}
			switch c.Kind {
			case 0:
				if !strings.Contains(string(c.In), bom) {
					if w := model5424(string(c.In), false); w.ok {
						return add(2, "MSG without BOM")
					}
				}
			case 1:
				w := model3164(string(c.In), opts3164{rfc3339: true})
				if w.isRFC3339 && listed&2 != 0 {
					return add(4|8|16, "RFC 3339 timestamp")
				}
				if !w.isRFC3339 && w.hasPri && w.ts != nil {
					return add(2, "timestamp not as in RFC 3339")
				}
			case 2:
				if listed&2 == 0 && c.Limit >= 8192 {
					if m, bad := modelOctet(string(c.In), be, 8192); bad == nil && m.how != endTooLong {
						return add(2, "limit not exceeded")
					}
				}
			case 3:
				return add(2, "limit for the other framing")
			}
			return nil
		},
	})
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}
