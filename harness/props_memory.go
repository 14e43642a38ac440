package main

import (
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// What is done again and again in a memory case.
const (
	memParse       = iota // messages parsed with one parser
	memParsers            // messages parsed with a new parser each
	memStream             // one endless stream
	memStreams            // streams parsed with one stream parser
	memStreamsEach        // streams parsed with a new stream parser each
	memBuild              // messages built and serialized
	memLarge              // one input, and another of twice the size
	memAnnounced          // a frame announcing more than there is
	memKinds
)

// Case32 is work done again and again.
type Case32 struct {
	Kind   int `shrink:"-"`
	Opt    POpt
	S      SOpt
	Shape  int // which messages
	Large  int // which large input
	Length int // announced, as a power of two
	Given  int // how many bytes of the announced ones there are
	Sizes  int // of the reads
	Rounds int // how much is done before memory is looked at
}

// memValue is a value of up to n bytes that no other message has; short ones are in shape 3.
func memValue(shape, i, n int) string {
	s := fmt.Sprintf("%07d", i)
	if shape%4 == 3 {
		return s[:min(len(s), n)]
	}
	return s + fillerWord((i*37)%1000, n-len(s))
}

// memText is message number i, having nothing but the form in common with the others.
func memText(shape, i int, bsd bool) string {
	x := func(n int) string { return memValue(shape, i, n) }
	var s string
	if bsd {
		s = fmt.Sprintf("<%d>%s %s %s[%s]: %s %d", i%192, []string{"Jan 12 06:30:00", "Dec 31 23:59:59", "Feb  3 01:02:03"}[i%3], x(200), x(30), x(20), x(200), i)
	} else {
		s = fmt.Sprintf("<%d>%d 20%02d-01-02T03:04:05.%06dZ %s %s %s %s [%s %s=\"%s\" b=\"\\]%d\"][e%d] %s", i%192, 1+i%999, i%100, i%1000000, x(250), x(48), x(128), x(32), x(32), x(30), x(100), i, i, x(200))
	}
	switch shape % 4 {
	case 1:
		// Rejected somewhere.
		at := 3 + (i*7919)%(len(s)-3)
		s = s[:at] + "\x01" + s[at:]
	case 2:
		if i%2 == 0 {
			at := 3 + (i*7919)%(len(s)-3)
			s = s[:at]
		}
	case 3:
		s += fillerWord(i%1000, 1000)
	}
	return s
}

func fillerWord(at, n int) string {
	b := []byte(fillers[at : at+max(n, 0)])
	for i := range b {
		if c := b[i]; c == '"' || c == '=' || c == ']' || c == '[' || c == '\\' || c == '<' || c == ':' {
			b[i] = 'x'
		}
	}
	return string(b)
}

func memFrame(o SOpt, s string) string {
	if o.Octet {
		return octetFrame(s)
	}
	return strings.ReplaceAll(s, string([]byte{o.trailer()}), "x") + string([]byte{o.trailer()})
}

// held is how much memory is in use, and how many goroutines there are.
func held() (heap int64, goroutines int) {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc), runtime.NumGoroutine()
}

// endless gives frames until it is told to stop.
type endless struct {
	next func() (string, bool)
	rest string
	size int
}

func (e *endless) Read(p []byte) (int, error) {
	for e.rest == "" {
		s, ok := e.next()
		if !ok {
			return 0, io.EOF
		}
		e.rest = s
	}
	n := len(e.rest)
	if e.size > 0 {
		n = min(n, e.size)
	}
	n = copy(p, e.rest[:n])
	e.rest = e.rest[n:]
	return n, nil
}

// allocated is how much memory f takes from the heap, given back or not.
func allocated(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

// memAllowed is how much more memory may be held after a round, and after one of the longer rounds which decide.
// What is held varies by some hundred bytes.
const (
	memAllowed = 4 << 10
	memDecides = 16 << 10
	memLonger  = 6
	memRound   = 6000
)

func (c Case32) rounds() int { return max(2000, min(c.Rounds, 200000)) }

// growth tells whether each of two rounds, after a first one, leaves more memory in use.
type growth struct {
	heap  [4]int64
	gos   [4]int
	count int
}

func (g *growth) look() bool {
	if g.count < len(g.heap) {
		g.heap[g.count], g.gos[g.count] = held()
		g.count++
	}
	return g.count == len(g.heap)
}

func (g *growth) judge(allowed int64, what string) error {
	if g.count < len(g.heap) {
		return nil // the stream has ended before
	}
	grows, more := true, true
	for i := 1; i < g.count; i++ {
		grows = grows && g.heap[i]-g.heap[i-1] > allowed
		more = more && g.gos[i] > g.gos[i-1]+2
	}
	if grows {
		return fmt.Errorf("the memory in use grows with each %s: %v bytes", what, g.heap)
	}
	if more {
		return fmt.Errorf("there are more goroutines after each %s: %v", what, g.gos)
	}
	return nil
}

func eval32(c Case32, o *Obs) error {
	err := rounds32(c, o, c.rounds(), memAllowed)
	if err != nil && c.Kind != memLarge && c.Kind != memAnnounced {
		// It must be the same with longer rounds.
		return rounds32(c, o, memLonger*c.rounds(), memDecides)
	}
	return err
}

func rounds32(c Case32, o *Obs, n int, allowed int64) error {
	o.NonTrivial()
	var g growth
	what := fmt.Sprintf("%d messages", n)
	switch c.Kind {
	case memParse, memParsers:
		o.Label("messages parsed")
		m := c.Opt.build()
		for i := 0; !g.look(); {
			for end := i + n; i < end; i++ {
				if c.Kind == memParsers {
					m = c.Opt.build()
				}
				m.Parse([]byte(memText(c.Shape, i, c.Opt.BSD)))
			}
		}
		runtime.KeepAlive(m)
	case memBuild:
		o.Label("messages built")
		for i := 0; !g.look(); {
			for end := i + n; i < end; i++ {
				x := func(n int) string { return memValue(c.Shape, i, n) }
				sm := &rfc5424.SyslogMessage{}
				sm.SetPriority(uint8(i)).SetVersion(1).SetHostname(x(250)).SetAppname(x(48)).SetProcID(x(128)).SetMsgID(x(32)).SetElementID(x(30)).SetParameter(x(32), x(31), "]"+x(100)).SetParameter("id", "n", x(50)).SetMessage(x(200)).SetTimestamp(fmt.Sprintf("20%02d-01-02T03:04:05.%06dZ", i%100, i%1000000))
				switch c.Shape % 4 {
				case 1:
					sm.SetHostname(x(256)).SetParameter(x(33), "n", "").SetParameter("x", "n", x(20)+"\xff").SetTimestamp(x(20))
				case 2:
					sm.String()
					sm.SetMessage(x(1000))
				}
				sm.String()
			}
		}
	case memStream:
		o.Label("endless stream")
		emitted, sent, over := 0, 0, false
		p := newStream(c.S.Octet, c.S.options(func(*syslog.Result) {
			if emitted%n == 0 {
				over = g.look()
			}
			emitted++
		})...)
		p.Parse(&endless{size: c.Sizes, next: func() (string, bool) {
			sent++
			return memFrame(c.S, memText(c.Shape, sent, false)), !over && sent < n*len(g.heap)+10
		}})
		runtime.KeepAlive(p)
	case memStreams, memStreamsEach:
		o.Label("streams")
		n = (n + 3) / 4
		what = fmt.Sprintf("%d streams", n)
		var p syslog.Parser
		for i := 0; !g.look(); {
			for end := i + n; i < end; i++ {
				if p == nil || c.Kind == memStreamsEach {
					p = newStream(c.S.Octet, c.S.options(func(*syslog.Result) {})...)
				}
				var b strings.Builder
				for j := 0; j < 3; j++ {
					b.WriteString(memFrame(c.S, memText(c.Shape, i*3+j, false)))
				}
				s := b.String()
				if i%3 == 1 {
					s = s[:len(s)-i%100]
				}
				p.Parse(&reader{data: s, spec: Reading{Fail: i%2 == 0, FailAs: i % 5}})
			}
		}
		runtime.KeepAlive(p)
	case memLarge:
		o.Label("twice the size")
		k := Case27{}
		if c.Large >= 0 && c.Large < len(large27) {
			k = large27[c.Large]
		}
		size := func(bytes int) (took [4]int64, length int64) {
			k.Times = max(1, bytes/len(k.Piece))
			in := string(k.large().In)
			for i, f := range []func(){
				func() { c.Opt.build().Parse([]byte(in)) },
				func() { newStream(c.S.Octet, c.S.options(func(*syslog.Result) {})...).Parse(strings.NewReader(in)) },
				func() {
					newStream(c.S.Octet, c.S.options(func(*syslog.Result) {})...).Parse(&reader{data: in, spec: Reading{Sizes: []int{4096}}})
				},
				func() {
					m, _ := rfc5424.NewMachine(rfc5424.WithBestEffort()).Parse([]byte(in))
					if sm, ok := m.(*rfc5424.SyslogMessage); ok && sm != nil {
						sm.String()
					}
				},
			} {
				took[i] = allocated(f)
			}
			return took, int64(len(in))
		}
		size(1000)
		a, la := size(200 << 10)
		b, lb := size(800 << 10)
		for i := range a {
			if b[i] > 10*a[i] && b[i] > 40*lb {
				return fmt.Errorf("use %d: an input of %d bytes takes %d bytes of memory, one of %d takes %d", i, la, a[i], lb, b[i])
			}
		}
		return nil
	case memAnnounced:
		o.Label("announced length")
		length := uint64(1) << uint(max(0, min(c.Length, 63)))
		given := max(0, min(c.Given, 1<<20))
		in := fmt.Sprintf("%d %s", length, ("<1>1 - - - - - - " + filler(given))[:given])
		s := c.S
		s.Octet = true
		took := allocated(func() {
			newStream(true, s.options(func(*syslog.Result) {})...).Parse(&reader{data: in, spec: Reading{Sizes: []int{c.Sizes}}})
		})
		if most := int64(100*len(in) + 400<<10); took > most {
			return fmt.Errorf("%d bytes of memory taken for %d bytes of a frame announcing %d", took, len(in), length)
		}
		return nil
	}
	return g.judge(allowed, what)
}

func init() {
	register(Def[Case32]{
		ID:   "C32",
		Rule: "cases are rounds of thousands of distinct messages (accepted, rejected, cut, long) parsed with one parser or each with a new one, built and serialized, or sent over one endless stream or over many streams, with the memory in use and the goroutines counted after each of four rounds (more after each of them, and again with longer rounds, is a leak), large inputs of each shape in two sizes, whose allocations are compared, and frames announcing up to 2^63 octets of which few are there; non-trivial: all of them",
		N:    60, MaxScale: 20,
		Systematic: func(t Tier, do func(mk func() Case32)) {
			n := memRound
			if t.Name == "thorough" {
				n *= 8
			}
			for shape := 0; shape < 4; shape++ {
				for i := 0; i < 4; i++ {
					p := POpt{BestEffort: i&1 != 0, BSD: i&2 != 0}
					do(func() Case32 { return Case32{Kind: memParse, Opt: p, Shape: shape, Rounds: n} })
					s := SOpt{BestEffort: i&1 != 0 || shape == 1 || shape == 2, Octet: i&2 != 0, Limit: []int{-1, 10000, 65537, 1 << 20}[(shape+i)%4]}
					do(func() Case32 { return Case32{Kind: memStream, S: s, Shape: shape, Rounds: n, Sizes: 0} })
					do(func() Case32 { return Case32{Kind: memStreams, S: s, Shape: shape, Rounds: n} })
				}
				do(func() Case32 { return Case32{Kind: memBuild, Shape: shape, Rounds: n} })
				do(func() Case32 { return Case32{Kind: memParsers, Shape: shape, Rounds: n} })
				do(func() Case32 { return Case32{Kind: memParsers, Shape: shape, Rounds: n, Opt: POpt{BSD: true}} })
				do(func() Case32 {
					return Case32{Kind: memStreamsEach, Shape: shape, Rounds: n, S: SOpt{Limit: -1, NUL: shape%2 == 1, BestEffort: shape > 1}}
				})
				do(func() Case32 {
					return Case32{Kind: memStreamsEach, Shape: shape, Rounds: n, S: SOpt{Octet: true, BestEffort: shape%2 == 1, NUL: shape%2 == 1, Limit: []int{-1, 10000, 65537, 1 << 20}[shape]}}
				})
			}
			for k := range large27 {
				for i := 0; i < 4; i++ {
					do(func() Case32 {
						return Case32{Kind: memLarge, Large: k, Opt: POpt{BestEffort: i&1 != 0, BSD: i&2 != 0}, S: SOpt{Octet: i&1 != 0, BestEffort: i&2 != 0, Limit: pick(newRand(k, i), []int{-1, 2000000, math.MaxInt})}}
					})
				}
			}
			for _, limit := range []int{-1, 0, 100, 65535, 65536, 65537, 1 << 20, wide(1 << 31), wide(1 << 40), math.MaxInt} {
				for l := 0; l <= 63; l++ {
					for _, given := range []int{0, 17, 5000, 70000} {
						do(func() Case32 {
							return Case32{Kind: memAnnounced, Length: l, Given: given, Sizes: 512, S: SOpt{BestEffort: l%2 == 0, Limit: limit}}
						})
					}
				}
			}
		},
		Gen: func(r *Rand, t Tier) Case32 {
			c := Case32{Kind: r.IntN(memKinds), Opt: r.popt(), Shape: r.IntN(4), Large: r.IntN(len(large27)), Length: r.IntN(64), Given: r.IntN(3000), Sizes: r.In(1, 9000), Rounds: memRound}
			c.S = r.ntOpt()
			c.S.Limit = -1
			if r.P(50) {
				c.S = r.octetOpt(8192)
			}
			return c
		},
		Eval: eval32,
	})
}
