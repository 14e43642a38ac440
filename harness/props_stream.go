package main

import (
	"fmt"
	"math"
	"strings"

	syslog "github.com/influxdata/go-syslog/v3"
)

// SCase is a stream to be parsed.
type SCase struct {
	Opt  SOpt
	Data B
	Read Reading
}

// frameText is a message to be put in a frame.
func (r *Rand) frameText() string {
	switch r.IntN(12) {
	case 0:
		return r.any5424()
	case 1, 2:
		return r.valid5424()
	case 3:
		return "<" + r.text(3)
	case 4:
		return pick(r, []string{"<", "<1", "<1>", "<1>1", "<1>1 ", "<1>1 - - - - - -", "<1>1 - - - - - - ", "<1>1 - - - - - - 3 <1", "<1>1 - h - - - - x\x00y", "<1>1 - h - - - - x\ny", "<1>1 - - - - -", "<1>0 - - - - - -", "<1>1 - - - - - [a b=\"\n\"]", "<200>1 - - - - - -", "<<1>1 - - - - - -"})
	case 5:
		return r.mutate(r.valid5424Small(), r.valid5424Small)
	case 6:
		return "<1>1 - - - - - - " + r.text(12)
	case 7:
		if r.P(15) {
			return "<1>1 - - - - - - " + strings.Repeat("x", pick(r, []int{200, 4060, 4080, 4095, 4096, 5000, 8000, 8160, 8174, 8175}))
		}
		fallthrough
	default:
		return r.valid5424Small()
	}
}

func octetFrame(s string) string { return fmt.Sprintf("%d %s", len(s), s) }

// sopt are options for octet counting streams of messages of at most longest bytes.
func (r *Rand) octetOpt(longest int) SOpt {
	o := SOpt{Octet: true, BestEffort: r.P(50), Limit: -1}
	if longest > 8192 || r.P(30) {
		o.Limit = pick(r, []int{longest, longest + 1, longest + r.IntN(100), 8192, 65536, 1 << 20, r.hugeLimit()})
		o.Limit = max(o.Limit, longest)
	}
	return o
}

// hugeLimit is a maximum message length given to mean that there is none.
func (r *Rand) hugeLimit() int {
	return pick(r, hugeLimits)
}

var hugeLimits = []int{math.MaxInt, math.MaxInt - 1, math.MaxInt - 19, math.MaxInt - 20, wide(1 << 62), wide(1 << 48), wide(1<<32 + 17), wide(1 << 32), wide(1<<32 - 1), wide(1 << 31), 1<<31 - 1}

func (r *Rand) octetStream(maxFrames int) (data string, longest int) {
	var b strings.Builder
	n := r.In(1, maxFrames)
	if r.P(1) {
		n = r.In(1, 100)
	}
	for ; n > 0; n-- {
		f := r.frameText()
		for f == "" || f[0] != '<' {
			f = r.valid5424Small()
		}
		longest = max(longest, len(f))
		b.WriteString(octetFrame(f))
	}
	return b.String(), longest
}

// historyCounts are the numbers of messages that come before something else in a stream.
var historyCounts = append(func() (out []int) {
	for n := 1; n <= 70; n++ {
		out = append(out, n)
	}
	return out
}(), append(sweptCounts, 10000, 33000, 65536, 70000)...)

const historyKinds = 6

// history is n messages, one after the other.
func history(n, kind int, frame func(string) string) string {
	const head = "<1>1 - - - - - - "
	var b strings.Builder
	for i := 0; i < n; i++ {
		m := head + "x"
		switch kind % historyKinds {
		case 0:
			m = head + fmt.Sprint(i)
		case 1: // all of them are bad
			m = pickAt([]string{"<1>1 - x", "<1>", "<", "<1>1 - - - - - [", "<200>1 - - - - - -"}, i)
		case 2: // every second one is
			m = pickAt([]string{head + "x", "<1>1 - - - - - x"}, i)
		case 3: // the first one is
			if i == 0 {
				m = "<1>1 - - - - - [a b"
			}
		case 4:
			m = fmt.Sprintf("<%d>%d 2003-10-11T22:14:15.003Z h%d a p i [id a=\"%d\" b=\"\\]\"]", i%192, i%999+1, i, i)
		case 5: // of all lengths
			m = head + filler(i%100)
		}
		b.WriteString(frame(m))
	}
	return b.String()
}

func pickAt[T any](l []T, i int) T { return l[i%len(l)] }

// histories calls do with what comes before, for all of the counts and kinds.
func histories(do func(n, kind int)) {
	for _, n := range historyCounts {
		for kind := 0; kind < historyKinds; kind++ {
			if n <= 5000 || kind == n%historyKinds || kind == 0 {
				do(n, kind)
			}
		}
	}
}

func genOctetGood(r *Rand, t Tier) SCase {
	data, longest := r.octetStream(pick(r, []int{1, 2, 3, 6, 12}))
	return SCase{r.octetOpt(longest), B(data), r.reading()}
}

// violations of the framing.
func genOctetBad(r *Rand, t Tier) SCase {
	data, longest := "", 10
	if r.P(70) {
		data, longest = r.octetStream(4)
	}
	next := octetFrame(r.valid5424Small())
	switch r.IntN(12) {
	case 0:
		data += r.text(2) + next
	case 1:
		data += "0" + next
	case 2:
		data += pick(r, []string{"/", "1/", ":", "5:", "-5", "+5", " ", "\n", "\x00", "0", "00", "0 ", "7", "16", "16 ", "16  <", "x", "<", "<1>1 - - - - - -", "16\t", "1 2 <", "1.5 <", "0x10 <", "7\x00<1>1 - - - - - -", "7 \x00", "0 <", "1_0 <"}) + pick(r, []string{"", next, "<1>1 - - - - - -", " <1>1 - - - - - -"})
	case 3:
		data += next[:r.IntN(len(next))]
	case 4:
		// Announces more than there is.
		f := r.frameText()
		data += fmt.Sprintf("%d %s", len(f)+r.In(1, 20), f)
		longest = max(longest, len(f)+20)
	case 5:
		// Announces less than there is.
		f := r.valid5424Small()
		data += fmt.Sprintf("%d %s", r.In(1, len(f)), f) + next
	case 6:
		data += fmt.Sprintf("%d  %s", len(next), next)
	case 7:
		data = data[:len(data)-min(len(data), r.In(1, 10))] + next
	case 8:
		data = r.mutate(data+next, func() string { return next })
	case 9:
		data += pick(r, []string{"\n", " ", "\r\n", "\x00", "x"}) + next
	case 10:
		data += next + pick(r, []string{"\n", " ", "\x00", "1", "9 ", "0"})
	case 11:
		c := string([]byte{byte(r.IntN(256))})
		data += pick(r, []string{c + next, "1" + c, "16" + c + next, "16 " + c + next, "16 <" + c, next + c})
	}
	o := r.octetOpt(longest + 100)
	return SCase{o, B(data), r.reading()}
}

var earlierStreams = []string{"", "17 <1>1 - - - - - -\n\x0017 <1>1 - - - - - -", "<1>1 - - - - - -\n<1>1 - - - - - - m\n", "<1>1 - - - - - -\x00<1>1 - - - - - - m", "18 <1>1 - - -", "99999999999999999999999 <", "8193 <1>1 - - - - - - m", "8192 <1>1 - - - - - - " + strings.Repeat("m", 8192-18), "<1>1 - - - - - - m\n\n", "3 <1>3 <1", "1x"}

// usedBefore judges the stream with a parser that has parsed another stream, some options being set between the two. What
// comes before depends on the stream, so that it does not take many cases.
func usedBefore(c SCase, want []wantRes) error {
	if len(c.Data) > 40000 {
		return nil
	}
	k := hash64([]byte(c.Data))
	if k%2 != 0 {
		return nil
	}
	how := func(n int) int { k /= 31; return int(k % uint64(n)) }
	col := &collector{}
	opt := c.Opt
	var late []func(p syslog.Parser)
	if opt.Octet && opt.Limit != -1 && how(3) > 0 {
		opt.Limit = pickAt([]int{-1, 0, 20, opt.Limit / 2, 100, 1 << 20}, how(6))
		late = append(late, func(p syslog.Parser) { p.WithMaxMessageLength(c.Opt.Limit) })
	}
	if opt.BestEffort && how(3) > 0 {
		opt.BestEffort = false
		late = append(late, func(p syslog.Parser) { p.WithBestEffort() })
	}
	p := newStream(opt.Octet, opt.options(col.listen)...)
	before := pickAt(earlierStreams, how(len(earlierStreams)))
	if _, bad := col.run(p, strings.NewReader(before)); bad != nil {
		return bad
	}
	for _, f := range late {
		f(p)
	}
	got, bad := col.run(p, c.Read.open(string(c.Data)))
	if bad == nil {
		bad = compareResults(got, want)
	}
	if bad != nil {
		return fmt.Errorf("with a parser made with %+v that parsed %+q before, then set to %+v: %w", opt, before, c.Opt, bad)
	}
	return nil
}

func evalOctet(c SCase, o *Obs, counts func(m *octetModel) bool) error {
	if !c.Opt.Octet {
		return nil
	}
	m, bad := modelOctet(string(c.Data), c.Opt.BestEffort, c.Opt.limit())
	if bad != nil {
		return bad
	}
	o.Label("stream " + m.how)
	if !counts(&m) {
		return nil
	}
	got, bad := runStream(c.Opt, string(c.Data), c.Read)
	if bad != nil {
		return bad
	}
	if bad := compareResults(got, m.want); bad != nil {
		return bad
	}
	return usedBefore(c, m.want)
}

func isFramingViolation(how string) bool {
	switch how {
	case endEmpty, endLen, endZero, endSpace, endLT, endShort:
		return true
	}
	return false
}

// ntMessage is a message for a non transparent stream: after its first byte there is no trailer followed by '<'.
func (r *Rand) ntMessage(trailer byte) string {
	s := r.frameText()
	if s == "" || s[0] != '<' {
		s = "<" + s
	}
	if r.P(25) {
		at := r.In(1, len(s))
		s = s[:at] + strings.Repeat(string([]byte{trailer}), r.In(1, 3)) + s[at:]
	}
	if r.P(10) {
		s += strings.Repeat(string([]byte{trailer}), r.In(1, 3))
	}
	if r.P(15) {
		other := "\x00"
		if trailer == 0 {
			other = "\n"
		}
		at := r.In(1, len(s))
		s = s[:at] + other + pick(r, []string{"", "<"}) + s[at:]
	}
	t := string([]byte{trailer})
	for strings.Contains(s, t+"<") {
		s = strings.ReplaceAll(s, t+"<", t+"x")
	}
	return s
}

func (r *Rand) ntStream(trailer byte, maxFrames int) string {
	var b strings.Builder
	for n := r.IntN(maxFrames + 1); n > 0; n-- {
		b.WriteString(r.ntMessage(trailer))
		b.WriteByte(trailer)
	}
	return b.String()
}

func (r *Rand) ntOpt() SOpt {
	o := SOpt{BestEffort: r.P(50), NUL: r.P(50), Limit: -1}
	if r.P(15) {
		o.Limit = pick(r, []int{0, 1, 10, 8192})
	}
	return o
}

func genNT(r *Rand, t Tier) SCase {
	c := SCase{Opt: r.ntOpt(), Read: r.reading()}
	c.Data = B(r.ntStream(c.Opt.trailer(), pick(r, []int{1, 2, 3, 6, 15})))
	return c
}

func genNTTail(r *Rand, t Tier) SCase {
	c := genNT(r, t)
	if r.P(90) {
		tail := r.ntMessage(c.Opt.trailer())
		if r.P(30) {
			tail = r.frameText()
		}
		if r.P(40) {
			tail = tail[:r.IntN(len(tail)+1)]
		}
		c.Data += B(tail)
	}
	if r.P(15) {
		c.Data = c.Data[:r.IntN(len(c.Data)+1)]
	}
	c.Read.Fail = r.P(40)
	return c
}

// evalNT judges a non transparent stream.
func evalNT(c SCase, o *Obs, counts func(m *ntModel) bool) error {
	m, bad := modelNT(string(c.Data), c.Opt.BestEffort, c.Opt.trailer(), c.Read)
	if bad != nil {
		return bad
	}
	if m.outside {
		o.Label("does not start with <: nothing is specified")
		return nil
	}
	if !counts(&m) {
		return nil
	}
	got, bad := runStream(c.Opt, string(c.Data), c.Read)
	if bad != nil {
		return bad
	}
	if bad := compareResults(got, m.want); bad != nil {
		return bad
	}
	return usedBefore(c, m.want)
}

// frameLabels names interesting contents.
func frameLabels(o *Obs, data string) {
	if strings.ContainsRune(data, 0) {
		o.Label("NUL in the stream")
	}
	if strings.Contains(data, "\n") {
		o.Label("LF in the stream")
	}
	if len(data) > 4096 {
		o.Label("stream longer than 4096 bytes")
	}
}

// longOnes are numbers of messages and lengths of theirs.
var longOnes = [][2]int{{300, 250}, {120, 700}, {70, 1500}, {50, 4100}, {30, 8100}, {20, 20000}, {8, 70000}, {5, 140000}}

// innerStreams are texts which look like streams of either framing, complete or cut somewhere.
func innerStreams() (out []string) {
	seen := map[string]bool{}
	for _, x := range []string{
		"16 <1>1 - - - - - -", "10 <1>1 - - -10 <1>1 - - -", "17 <1>1 - - - - - - 17 <1>1 - - - - - - ", "18 <1>1 - - - - - - x18 <1>1 - - - - - - y7 <34>1 2", "3 <1>", "1 <1 <2 <>", "9 <165>1 - 0 <", "999 <1>1 - - - - - -", "99999999999 <1>1 -",
		"\n<1>1 - - - - - -\n<1>1 - - - - - - x\n", "\x00<1>1 - - - - - -\x00<2>1 - - - - - - y\x00", "\r\n<13>1 - - - - - - x\r\n", "\n16 <1>1 - - - - - -\n", "<1>1 - - - - - -<1>1 - - - - - -",
		"<13>Oct 11 22:14:15 h app[1]: x\n<13>Oct 11 22:14:15 h app: y\n", "30 <13>Oct 11 22:14:15 h app: yz\n",
	} {
		for i := range x {
			for _, y := range []string{x[:i+1], x[i:]} {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
		}
	}
	return out
}

func sysOctetGood(t Tier, do func(mk func() SCase)) {
	one := func(o SOpt, spec Reading, f func() string) {
		for _, be := range []bool{false, true} {
			o.BestEffort = be
			do(func() SCase { return SCase{o, B(f()), spec} })
		}
	}
	def := SOpt{Octet: true, Limit: -1}
	const head = "<1>1 - - - - - - "
	// Every byte in a message, then another message.
	for b := 0; b < 256; b++ {
		c := string([]byte{byte(b)})
		one(def, Reading{}, func() string {
			return octetFrame(head+c) + octetFrame(head+c+c+"x") + octetFrame("<"+c) + octetFrame(head+"y")
		})
		one(def, Reading{Sizes: []int{1}}, func() string { return octetFrame(head+c) + octetFrame(head+"12 <"+c) })
		one(def, Reading{Sizes: []int{7}}, func() string { return octetFrame("<1>1 - "+c) + octetFrame(head) + octetFrame(head+"z") })
	}
	// Every length, with what comes after at every alignment.
	for n := 1; n <= 300; n++ {
		f := func() string { return (head + strings.Repeat("<1 ", n))[:n] }
		one(def, Reading{}, func() string { return octetFrame(f()) + octetFrame(head+"a") + octetFrame(f()) + octetFrame(head) })
		one(def, Reading{Sizes: []int{n}}, func() string { return octetFrame(f()) + octetFrame(head+"a") + octetFrame(f()) })
		one(SOpt{Octet: true, Limit: max(n, 30)}, Reading{Sizes: []int{1}}, func() string { return octetFrame(f()) + octetFrame(head+"a") })
	}
	for _, n := range sweptLengths {
		if n > 300 {
			do(func() SCase {
				f := octetFrame(head + filler(n-len(head)))
				c := SCase{def, B(f + octetFrame(head+"x") + f), Reading{}}
				c.Opt.Limit, c.Opt.BestEffort = max(8192, n), n%2 == 0
				if n%3 == 0 {
					c.Read.Sizes = []int{1000 + n%777}
				}
				return c
			})
		}
	}
	// Messages about as long as the one before.
	for n := 17; n < 1100; n++ {
		do(func() SCase {
			f := func(n int) string { return octetFrame(head + filler(n-len(head))) }
			c := SCase{def, B(f(n) + f(n+1) + f(n) + f(n) + f(2*n) + f(n) + f(n+10)), Reading{}}
			c.Opt.BestEffort = n%2 == 0
			return c
		})
	}
	for _, x := range longOnes {
		one(SOpt{Octet: true, Limit: 1 << 20}, Reading{}, func() string {
			var b strings.Builder
			for i := 0; i < x[0]; i++ {
				b.WriteString(octetFrame(head + filler(x[1]+i%3)))
			}
			return b.String()
		})
	}
	// Streams within messages.
	for _, x := range innerStreams() {
		one(def, Reading{}, func() string {
			return octetFrame(head+x) + octetFrame(head+"a "+x+x) + octetFrame(`<1>1 - - - - - [a b="`+x+`"] `+x) + octetFrame(head+"z")
		})
		one(def, Reading{}, func() string {
			return octetFrame("<"+x) + octetFrame("<1>1 - "+x) + octetFrame(head+x+"\n") + octetFrame(head+"z")
		})
	}
	for _, n := range []int{4095, 4096, 4097, 8171, 8172, 8173, 8190, 8191, 8192} {
		for _, s := range []Reading{{}, {Sizes: []int{1}}, {Sizes: []int{4096}}, {Sizes: []int{n}}, {Sizes: []int{n + 5, 1}}} {
			one(def, s, func() string {
				f := octetFrame(head + filler(n-len(head)))
				return f + f + octetFrame(head+"x") + f
			})
		}
	}
	// Large frames, the limit allowing them.
	for _, n := range []int{8193, 16384, 32768, 65514, 65515, 65516, 65534, 65535, 65536, 65537, 65555, 65556, 65557, 100000, 131071, 131072, 131073, 1 << 18, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20} {
		for k, s := range []Reading{{}, {Sizes: []int{4096}, WithEnd: true}, {Sizes: []int{n, 1, 65536}}} {
			for _, limit := range []int{n, n + 1, 4 << 20, math.MaxInt} {
				if k > 0 && (n > 1<<18 || limit != n && limit != math.MaxInt) {
					continue
				}
				one(SOpt{Octet: true, Limit: limit}, s, func() string {
					f := octetFrame(head + filler(n-len(head)))
					return octetFrame(head+"a") + f + octetFrame(head+"x") + f + octetFrame("<1>1 - x") + octetFrame(head+"z")
				})
			}
		}
	}
	histories(func(n, kind int) {
		next := pickAt([]string{"<1>1 - y", "<", "<1>1 - - - - - - y", "<1>1 - - - - - [a", "<1>1 - - - - - - 5 <1>1"}, n+kind)
		one(def, Reading{}, func() string {
			return history(n, kind, octetFrame) + octetFrame(next) + octetFrame(head+"z") + octetFrame(next)
		})
	})
	// Many frames.
	for _, n := range []int{10, 100, 1000, 5000, 33000, 70000} {
		one(def, Reading{}, func() string {
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(octetFrame(fmt.Sprintf("%s%d", head, i)))
			}
			return b.String()
		})
	}
}

func sysOctetBad(t Tier, do func(mk func() SCase)) {
	one := func(data string) {
		for _, be := range []bool{false, true} {
			do(func() SCase {
				return SCase{SOpt{Octet: true, Limit: -1, BestEffort: be}, B(data), Reading{WithEnd: len(data)%2 == 0}}
			})
		}
	}
	first := octetFrame("<1>1 - - - - - - x")
	base := octetFrame("<34>12 - h - - - [a b=\"c\"] m") + first
	for _, pre := range []string{"", first, octetFrame("<1>1 - x"), first + first + first} {
		one(pre)
		for b := 0; b < 256; b++ {
			c := string([]byte{byte(b)})
			one(pre + c)
			for b2 := 0; b2 < 256; b2++ {
				c2 := string([]byte{byte(b), byte(b2)})
				one(pre + c2)
				one(pre + c2 + first)
				one(pre + "1" + c2 + first)
				one(pre + "17" + c2 + "1>1 - - - - - - m")
			}
		}
		for n := 0; n < 40; n++ {
			one(pre + fmt.Sprintf("%d ", n) + "<1>1 - - - - - - xyz")
			one(pre + fmt.Sprintf("%d", n))
			one(pre + fmt.Sprintf("%d ", n))
			one(pre + fmt.Sprintf("%03d ", n) + "<1>1 - - - - - - xyz")
		}
		for i := 0; i < len(base); i++ {
			one(pre + base[:i])
		}
	}
	variations(base, func(kind, at int, b byte) {
		one(variation(base, kind, at, b))
	})
	ends := []string{"", "x", "0", "017 <1>1 - - - - - - m" + first, " ", "17", "17 ", "17 <1>1 - - -", "18 <1>1 - - - - - -", "17\n<1>1 - - - - - - m", "17  <1>1 - - - - - - m", "\n" + first, "17 x1>1 - - - - - - m", "\x00", "16 <1>1 - - - - - - mm", "0 <1>1 - - - - - -" + first}
	histories(func(n, kind int) {
		for k := 0; k < 3; k++ {
			if end := pickAt(ends, n*5+kind*3+k*7); n < 5000 || k == 0 {
				for _, be := range []bool{false, true} {
					do(func() SCase {
						return SCase{SOpt{Octet: true, Limit: -1, BestEffort: be}, B(history(n, kind, octetFrame) + end), Reading{WithEnd: k == 0}}
					})
				}
			}
		}
	})
	const head = "<1>1 - - - - - - "
	// Frames cut short, with every limit.
	for _, n := range sweptLengths {
		if n > 16400 || n > 2100 && n%512 > 1 {
			continue
		}
		for _, k := range []int{0, 1, n / 2, n - 1} {
			for v := 0; v < 4; v++ {
				do(func() SCase {
					f := (head + filler(n))[:n]
					c := SCase{SOpt{Octet: true, Limit: n, BestEffort: v&1 != 0}, B(fmt.Sprintf("%d %s", n, f[:k])), Reading{WithEnd: k > 1}}
					if v&2 != 0 {
						c.Data = B(octetFrame(f)) + c.Data
					}
					return c
				})
			}
		}
	}
	// Large frames cut short.
	for _, n := range []int{4096, 8192, 65536, 65556, 65557, 70000, 131112, 131113, 200000} {
		for _, k := range []int{0, 1, 3, 100, 4095, 4096, 65534, 65535, 65536, 65537, 65555, 65556, 65557, 65558, 131111, 131112, n - 2, n - 1} {
			if k >= n {
				continue
			}
			for v := 0; v < 4; v++ {
				do(func() SCase {
					f := head + filler(n-len(head))
					c := SCase{SOpt{Octet: true, Limit: n, BestEffort: v&1 != 0}, B(first + fmt.Sprintf("%d %s", n, f[:k])), Reading{}}
					if v&2 != 0 {
						c.Read = Reading{Sizes: []int{1000, 1, 65556}, WithEnd: k%2 == 0}
					}
					return c
				})
			}
		}
	}
}

func init() {
	register(Def[SCase]{
		ID: "C18", Raw: true,
		Rule: "cases are streams of octet counted frames (every byte within messages, every length, random valid and bad messages) with random read sizes, limits and modes; non-trivial: at least two frames, or a message holding a bad message",
		N:    300000, Systematic: sysOctetGood, Gen: genOctetGood,
		Eval: func(c SCase, o *Obs) error {
			return evalOctet(c, o, func(m *octetModel) bool {
				if m.how != endClean && m.how != endMessage {
					return false
				}
				if m.frames >= 2 || m.bad > 0 {
					o.NonTrivial()
				}
				if m.bad > 0 {
					o.Label("with bad messages")
				}
				frameLabels(o, string(c.Data))
				return true
			})
		},
	})
	register(Def[SCase]{
		ID: "C19", Raw: true,
		Rule: "cases are octet counted streams broken at some place (every one and two byte string where a frame must start, one byte variations, truncations at every place, wrong lengths, random ones) with random read sizes, limits and modes; non-trivial: the framing is violated after at least one byte",
		N:    200000, Systematic: sysOctetBad,
		Gen: func(r *Rand, t Tier) SCase {
			c := genOctetBad(r, t)
			if r.P(10) {
				c.Read.Fail = true
			}
			return c
		},
		Eval: func(c SCase, o *Obs) error {
			return evalOctet(c, o, func(m *octetModel) bool {
				if isFramingViolation(m.how) && len(c.Data) > 0 {
					o.NonTrivial()
				}
				if m.how == endShort && c.Opt.BestEffort {
					if m.want[len(m.want)-1].msg != "nil" {
						o.Label("underflow with a message")
					} else {
						o.Label("underflow without a message")
					}
				}
				return m.how != endTooLong && m.how != endMessage
			})
		},
	})
	register(Def[SCase]{
		ID: "C20", Raw: true,
		Rule: "cases are octet counted streams with limits from 0 to the largest integer (also below zero, and the default) and message lengths at the limit, one off, with up to 40 digits and around the powers of two, in both modes, with the octets there or not; non-trivial: a message within one of the limit, or one that is too long",
		N:    40000,
		Systematic: func(t Tier, do func(mk func() SCase)) {
			const head = "<1>1 - - - - - - "
			text := func(n int) string {
				if n <= len(head) {
					return (head)[:n]
				}
				return head + filler(n-len(head))
			}
			one := func(limit int, f func() string) {
				for i := 0; i < 4; i++ {
					if limit > 20000 && (i == 1 || i == 2) {
						continue
					}
					spec := Reading{}
					if i&2 != 0 {
						spec = Reading{Sizes: []int{13, 1}, WithEnd: true}
					}
					do(func() SCase { return SCase{SOpt{Octet: true, Limit: limit, BestEffort: i&1 != 0}, B(f()), spec} })
				}
			}
			for _, l := range hugeLimits {
				for _, n := range []int{16, 17, 18, 40, 8000, 65536, 65555, 65556, 65557, 70000, 131112, 131113, 200000} {
					one(l, func() string { return octetFrame(text(n)) + octetFrame(text(18)) + octetFrame(text(n)) })
					one(l, func() string { return octetFrame(text(20)) + octetFrame(text(n))[:n-10] })
				}
			}
			histories(func(n, kind int) {
				for i := 0; i < 2; i++ {
					do(func() SCase {
						longest := 0
						h := history(n, kind, func(m string) string { longest = max(longest, len(m)); return octetFrame(m) })
						if i == 0 {
							h += octetFrame(text(longest))
						}
						h += pickAt([]string{octetFrame(text(longest + 1)), fmt.Sprint(longest + 1), fmt.Sprint(longest+1000) + " <1>1 - - - - - - m", "99999999999999999999 <1>1"}, n+kind) + octetFrame(text(longest))
						return SCase{SOpt{Octet: true, Limit: longest, BestEffort: i == 0 || kind > 0 && kind < 4}, B(h), Reading{}}
					})
				}
			})
			// A limit below zero lets nothing pass.
			for _, l := range []int{-2, -20, -21, -22, -8192, math.MinInt + 1, math.MinInt} {
				for _, n := range []int{1, 2, 17, 18, 100} {
					one(l, func() string { return octetFrame(text(n)) })
					one(l, func() string { return fmt.Sprint(n) })
				}
				one(l, func() string { return "" })
				one(l, func() string { return "x" })
			}
			var limits []int
			for n := 0; n <= 130; n++ {
				limits = append(limits, n)
			}
			limits = append(limits, 255, 256, 999, 1000, 1001, 1023, 1024, 2048, 4075, 4076, 4077, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 16384, 32768, 65515, 65516, 65535, 65536, 65537, 70000, 100000, 1<<20)
			for _, l := range append(limits, -1) {
				lim := l
				if l < 0 {
					lim = 8192
				}
				for _, n := range []int{1, lim - 1, lim, lim + 1, lim + 2, lim + 19, lim + 20, lim + 21, 2 * lim, 10 * lim} {
					if n < 1 || n > 1<<21 || lim > 20000 && n > lim+21 {
						continue
					}
					one(l, func() string { return octetFrame(text(n)) })
					one(l, func() string {
						return octetFrame(text(min(max(lim, 1), 20))) + octetFrame(text(n)) + octetFrame(text(min(max(lim, 1), 20)))
					})
					one(l, func() string { return fmt.Sprintf("%d", n) })
					one(l, func() string { return fmt.Sprintf("%d ", n) })
					one(l, func() string { return fmt.Sprintf("%d %s", n, text(min(n, 30))) })
					one(l, func() string { return fmt.Sprintf("%d  <", n) })
				}
			}
			// Announced sizes with many digits, around the powers of two.
			var sizes []string
			for d := 1; d <= 40; d++ {
				sizes = append(sizes, strings.Repeat("9", d), "1"+strings.Repeat("0", d-1), "2"+strings.Repeat("0", d-1)+"5")
			}
			sizes = append(sizes, "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "4294967313", "9223372036854775807", "9223372036854775808", "9223372036854775809",
				"18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551633", "36893488147419103249", "340282366920938463463374607431768211473", "79228162514264337593543950353")
			for _, s := range sizes {
				for _, l := range []int{-1, 0, 17, 18, 8192, 65536} {
					one(l, func() string { return s + " " + text(18) })
					one(l, func() string { return s })
					one(l, func() string { return octetFrame(text(17)) + s + " " + text(18) + octetFrame(text(17)) })
				}
			}
		},
		Gen: func(r *Rand, t Tier) SCase {
			limit := pick(r, []int{r.IntN(30), r.IntN(200), r.IntN(10000), 8192, -1})
			if r.P(10) {
				limit = r.hugeLimit()
			}
			c := SCase{SOpt{Octet: true, BestEffort: r.P(50), Limit: limit}, "", r.reading()}
			lim := min(c.Opt.limit(), 10000)
			var b strings.Builder
			for k := r.In(1, 5); k > 0; k-- {
				n := pick(r, []int{lim, lim - 1, lim - 2, lim / 2, 17, r.In(1, max(2, lim)), lim})
				if r.P(20) {
					n = pick(r, []int{lim + 1, lim + 2, lim + r.In(1, 100), lim * 2, lim * 10})
				}
				n = max(1, n)
				f := r.frameText()
				if f == "" || f[0] != '<' {
					f = "<1>1 - - - - - - "
				}
				if r.P(70) {
					f = "<1>1 - - - - - - " + f
				}
				if len(f) < n {
					fill := r.graphs(r.In(1, 60))
					f += strings.Repeat(fill, (n-len(f))/len(fill)+1)
				}
				f = f[:n]
				if r.P(10) {
					b.WriteString(fmt.Sprintf("%d%s", n, pick(r, []string{"", " ", " <", "x", " x"})))
				} else {
					b.WriteString(octetFrame(f))
				}
			}
			c.Data = B(b.String())
			return c
		},
		Eval: func(c SCase, o *Obs) error {
			return evalOctet(c, o, func(m *octetModel) bool {
				if m.how == endTooLong {
					o.NonTrivial()
					return true
				}
				p := 0
				if c.Opt.limit() > 1<<30 && len(m.ends) > 0 {
					o.NonTrivial()
					o.Label("no frame is ever too long")
				}
				for _, e := range m.ends {
					if n := e - p; n >= c.Opt.limit()-1 {
						o.NonTrivial()
						o.Label("a frame at the limit")
					}
					p = e
				}
				return m.how == endClean || m.how == endMessage || m.how == endShort
			})
		},
	})
	register(Def[SCase]{
		ID: "C21", Raw: true,
		Rule: "cases are streams of messages starting with '<' ended by the trailer (every byte at every place of short messages, trailers within messages, random valid and bad messages), both trailers and modes, random read sizes; non-trivial: at least two messages, or a trailer within a message, or a bad message",
		N:    300000,
		Systematic: func(t Tier, do func(mk func() SCase)) {
			one := func(spec Reading, f func(t string) string) {
				for i := 0; i < 4; i++ {
					opt := SOpt{NUL: i&1 != 0, BestEffort: i&2 != 0, Limit: -1}
					do(func() SCase { return SCase{opt, B(f(string([]byte{opt.trailer()}))), spec} })
				}
			}
			const head = "<1>1 - - - - - - "
			for b := 0; b < 256; b++ {
				c := string([]byte{byte(b)})
				one(Reading{}, func(t string) string { return head + c + t + head + "x" + t })
				one(Reading{Sizes: []int{1}}, func(t string) string { return head + c + "y" + t + head + c + t + "<" + t })
				one(Reading{}, func(t string) string { return head + t + c + t + head + t })
				one(Reading{Sizes: []int{3}}, func(t string) string { return "<" + c + t + "<" + c + c + t + head + "z" + t })
				one(Reading{WithEnd: true}, func(t string) string { return head + c + t + t + "<1>1 - " + c + t + t + t })
			}
			for n := 17; n < 1100; n++ {
				f := func(t string, n int) string { return head + filler(n-len(head)) + t }
				do(func() SCase {
					opt := SOpt{NUL: n&1 != 0, BestEffort: n&2 != 0, Limit: -1}
					t := string([]byte{opt.trailer()})
					return SCase{Opt: opt, Data: B(f(t, n) + f(t, n+1) + f(t, n) + f(t, n) + f(t, 2*n) + f(t, n) + f(t, n+10))}
				})
			}
			for _, x := range longOnes {
				one(Reading{}, func(t string) string {
					var b strings.Builder
					for i := 0; i < x[0]; i++ {
						b.WriteString(head + filler(x[1]+i%3) + t)
					}
					return b.String()
				})
			}
			for _, x := range innerStreams() {
				one(Reading{}, func(t string) string {
					return head + x + t + head + "a " + x + x + t + `<1>1 - - - - - [a b="` + x + `"] ` + x + t + head + "z" + t
				})
				one(Reading{}, func(t string) string { return "<" + x + t + "<1>1 - " + x + t + head + x + t + head + "z" })
			}
			for n := 1; n <= 300; n++ {
				one(Reading{}, func(t string) string {
					f := (head + strings.Repeat("<1 ", n))[:n]
					return f + t + head + "a" + t + f + t
				})
				one(Reading{Sizes: []int{n}}, func(t string) string {
					f := (head + strings.Repeat("<1 ", n))[:n]
					return f + t + head + t + f + t
				})
			}
			for i, n := range sweptLengths {
				if n > 300 {
					for j := 0; j < 2; j++ {
						do(func() SCase {
							opt := SOpt{NUL: j != 0, BestEffort: i&2 != 0, Limit: -1}
							f := head + filler(n-len(head)) + string([]byte{opt.trailer()})
							c := SCase{Opt: opt, Data: B(f + head + "x" + string([]byte{opt.trailer()}) + f)}
							if n%3 == 0 {
								c.Read.Sizes = []int{1000 + n%777}
							}
							return c
						})
					}
				}
			}
			for _, n := range []int{500, 511, 512, 513, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 70000} {
				for _, s := range []Reading{{}, {Sizes: []int{1000}}, {Sizes: []int{n}, WithEnd: true}, {Sizes: []int{n, 1}}} {
					one(s, func(t string) string {
						f := head + filler(n-len(head)-1) + t
						return f + head + "x" + t + f + f
					})
				}
			}
			// Many trailers within a message, one after the other or not.
			for _, n := range append([]int{2, 3, 5, 8, 16, 31, 32, 33, 64}, sweptCounts...) {
				for _, x := range []string{"", "x", " 1"} {
					one(Reading{}, func(t string) string {
						return head + "a" + strings.Repeat(t+x, n) + "b" + t + head + "c" + t
					})
				}
			}
			histories(func(n, kind int) {
				next := pickAt([]string{"<1>1 - y", "<", "<1>1 - - - - - - y", "<1>1 - - - - - [a"}, n+kind)
				do(func() SCase {
					o := SOpt{NUL: (n+kind)%3 == 0, BestEffort: kind%2 == n%2, Limit: -1}
					t := string([]byte{o.trailer()})
					return SCase{o, B(history(n, kind, func(m string) string { return m + t }) + next + t + t + head + "z" + t + next + t), Reading{}}
				})
			})
			for _, n := range []int{10, 100, 1000, 3000, 33000, 70000} {
				one(Reading{}, func(t string) string {
					var b strings.Builder
					for i := 0; i < n; i++ {
						b.WriteString(fmt.Sprintf("%s%d%s", head, i, t))
					}
					return b.String()
				})
			}
			base := "<1>1 - h a - - [i k=\"v\"] m\x00n\no"
			variations(base, func(kind, at int, b byte) {
				one(Reading{}, func(t string) string { return variation(base, kind, at, b) + t + head + "x" + t })
			})
		},
		Gen: genNT,
		Eval: func(c SCase, o *Obs) error {
			return evalNT(c, o, func(m *ntModel) bool {
				if m.tail > 0 {
					return false
				}
				if m.frames >= 2 || m.inner > 0 || m.bad > 0 {
					o.NonTrivial()
				}
				if m.inner > 0 {
					o.Label("trailer within a message")
				}
				if m.bad > 0 {
					o.Label("bad message")
				}
				frameLabels(o, string(c.Data))
				return true
			})
		},
	})
	register(Def[SCase]{
		ID: "C22", Raw: true,
		Rule: "cases are non transparent streams cut at every place (also by a failing reader), with enumerated and random unterminated last pieces, both trailers and modes; non-trivial: the stream ends with bytes not followed by the trailer",
		N:    300000,
		Systematic: func(t Tier, do func(mk func() SCase)) {
			one := func(f func(t string) string) {
				for i := 0; i < 16; i++ {
					opt := SOpt{NUL: i&1 != 0, BestEffort: i&2 != 0, Limit: -1}
					spec := Reading{Fail: i&4 != 0, WithEnd: i&8 != 0, FailAs: i}
					do(func() SCase { return SCase{opt, B(f(string([]byte{opt.trailer()}))), spec} })
				}
			}
			const msg = "<34>12 2003-10-11T22:14:15.003Z h a p i [a b=\"c\"] m"
			for k := 0; k < 3; k++ {
				for i := 0; i <= len(msg); i++ {
					one(func(t string) string { return strings.Repeat(msg+t, k) + msg[:i] })
					one(func(t string) string { return strings.Repeat("<1>1 - x"+t, k) + msg[:i] })
					one(func(t string) string { return strings.Repeat(msg+"x"+t+"y"+t, k) + msg[:i] })
					one(func(t string) string { return strings.Repeat(msg+t, k) + msg[:i] + t })
					one(func(t string) string { return "<1>1 - - - - - - " + strings.Repeat(msg+t, k) + "x" + msg[:i] })
				}
			}
			for b := 0; b < 256; b++ {
				c := string([]byte{byte(b)})
				one(func(t string) string { return msg + t + c })
				one(func(t string) string { return msg + c })
				one(func(t string) string { return msg + t + msg + c })
				one(func(t string) string { return msg + t + t + c + msg })
			}
			for i, n := range sweptLengths {
				do(func() SCase {
					opt := SOpt{NUL: i&1 != 0, BestEffort: i&2 != 0, Limit: -1}
					return SCase{opt, B(msg + string([]byte{opt.trailer()}) + "<1>1 - - - - - - " + filler(max(0, n-17))), Reading{Fail: i&4 != 0, FailAs: i, WithEnd: i&8 != 0}}
				})
			}
			histories(func(n, kind int) {
				for k := 0; k < 2; k++ {
					do(func() SCase {
						i := n + 3*kind + 7*k
						o := SOpt{NUL: i%3 == 0, BestEffort: kind%2 == n%2, Limit: -1}
						t := string([]byte{o.trailer()})
						end := pickAt([]string{"", msg, "<", "<1>1 -", msg + t + "x", "<1>1 - - - - - - ", msg + t + t, "<1>1 - - - - - -"}, i)
						return SCase{o, B(history(n, kind, func(m string) string { return m + t }) + end), Reading{Fail: i%4 == 1, FailAs: i, WithEnd: i%8 < 2}}
					})
				}
			})
			for _, n := range []int{1000, 4095, 4096, 4097, 9000, 70000} {
				one(func(t string) string { return msg + filler(n) })
				one(func(t string) string { return msg + t + msg + filler(n) })
				one(func(t string) string { return msg + filler(n) + t + msg })
				one(func(t string) string { return msg + filler(n) + t })
			}
			one(func(t string) string { return "" })
		},
		Gen: genNTTail,
		Eval: func(c SCase, o *Obs) error {
			return evalNT(c, o, func(m *ntModel) bool {
				if m.tail > 0 {
					o.NonTrivial()
					o.Label(fmt.Sprintf("tail is valid: %v, reader fails: %v", m.tailOK, c.Read.Fail))
				} else {
					o.Label(fmt.Sprintf("no tail, reader fails: %v", c.Read.Fail))
				}
				return true
			})
		},
	})
	registerC23()
	registerC24()
	registerC29()
}

// anyStream is a stream of any kind, good or bad.
func (r *Rand) anyStream(t Tier) SCase {
	switch r.IntN(6) {
	case 0, 1:
		return genOctetGood(r, t)
	case 2:
		return genOctetBad(r, t)
	case 3:
		c := genNT(r, t)
		return c
	case 4:
		return genNTTail(r, t)
	default:
		c := genNT(r, t)
		if r.P(50) {
			c = genOctetGood(r, t)
		}
		c.Data = B(r.mutate(string(c.Data), func() string { return r.text(3) }))
		if r.P(20) {
			c.Data = B(r.text(5)) + c.Data
		}
		if c.Opt.Octet {
			c.Read.Fail = false
		}
		return c
	}
}

// Case23 is a stream and two ways to read it.
type Case23 struct {
	S     SCase
	Other Reading
}

func sameResults(got, want []sres) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("there are %d results instead of %d: one more is %v", len(got), len(want), got[i])
		}
		if got[i].String() != want[i].String() {
			return fmt.Errorf("result %d of %d is %v instead of %v", i+1, len(want), got[i], want[i])
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("there are %d results instead of %d: the first one missing is %v", len(got), len(want), want[len(got)])
	}
	return nil
}

func registerC23() {
	register(Def[Case23]{
		ID:   "C23",
		Rule: "cases are random good and bad streams of both framings, read in two ways (at once; one byte at a time; random sizes; with empty reads; the end with the last bytes or after them; from readers of the standard library, connections and files, which must not be used for anything but reading; from readers which use the space they are given as scratch space); systematically every split in two of some streams; non-trivial: there is at least one result, and the second way makes more than one read",
		N:    300000,
		Systematic: func(t Tier, do func(mk func() Case23)) {
			head := "<1>1 - - - - - - "
			for i := 0; i < 8; i++ {
				opt := SOpt{Octet: i&1 != 0, BestEffort: i&2 != 0, NUL: i&4 != 0, Limit: -1}
				tr := string([]byte{opt.trailer()})
				streams := []string{head + "a" + tr + head + "b" + tr + tr + "c" + tr + "<1>1 - " + tr + head + "d", head + tr, ""}
				big := head + filler(5000) + tr + head + "n" + tr
				if opt.Octet {
					streams = []string{octetFrame(head+"a") + octetFrame(head+"b\n<") + octetFrame("<1>1 - x") + octetFrame(head+"d"), octetFrame(head) + "12 <1", octetFrame(head) + "99999 <", ""}
					big = octetFrame(head+filler(8000)) + octetFrame(head+"n") + octetFrame(head+filler(8192-len(head)))
				}
				for _, s := range streams {
					for k := 1; k <= len(s)+1; k++ {
						for w := 0; w < 4; w++ {
							do(func() Case23 {
								return Case23{SCase{opt, B(s), Reading{WithEnd: w&1 != 0}}, Reading{Sizes: []int{k}, WithEnd: w&2 != 0, Scratch: w&1 != 0}}
							})
							do(func() Case23 {
								return Case23{SCase{opt, B(s), Reading{}}, Reading{Sizes: []int{k, len(s)}, WithEnd: w&2 != 0, Empty: w % 2}}
							})
						}
					}
				}
				for _, s := range append(streams, big) {
					for std := 1; std <= 11; std++ {
						do(func() Case23 {
							return Case23{SCase{opt, B(s), Reading{}}, Reading{Std: std, WithEnd: std%2 == 0, Scratch: std%3 == 0}}
						})
					}
				}
				for _, k := range []int{1, 2, 3, 100, 511, 512, 513, 4000, 4095, 4096, 4097, 8191, 8192, 8193, 8212, 10000} {
					do(func() Case23 {
						return Case23{SCase{opt, B(big), Reading{}}, Reading{Sizes: []int{k}, WithEnd: k%2 == 0, Empty: 3}}
					})
				}
				for _, sz := range []int{70000, 1 << 18} {
					for _, k := range []int{0, 1000, 4096, 65536} {
						do(func() Case23 {
							o := opt
							o.Limit = sz
							s := head + filler(sz-len(head)) + tr
							if o.Octet {
								s = octetFrame(s[:sz]) + octetFrame(head)
							}
							c := Case23{SCase{o, B(s), Reading{}}, Reading{WithEnd: true}}
							if k > 0 {
								c.Other.Sizes = []int{k, 7}
							}
							return c
						})
					}
				}
			}
		},
		Gen: func(r *Rand, t Tier) Case23 {
			c := Case23{r.anyStream(t), r.reading()}
			if r.P(30) {
				c.S.Read = Reading{}
			}
			c.Other.Fail, c.S.Read.Fail = false, false
			c.Other.FailAs = c.S.Read.FailAs
			if !c.S.Opt.Octet && r.P(20) {
				c.Other.Fail, c.S.Read.Fail = true, true
			}
			return c
		},
		Eval: func(c Case23, o *Obs) error {
			a, bad := readOnly(c.S.Opt, string(c.S.Data), c.S.Read)
			if bad != nil {
				return bad
			}
			b, bad := readOnly(c.S.Opt, string(c.S.Data), c.Other)
			if bad != nil {
				return bad
			}
			if len(a) > 0 && len(c.Other.Sizes) > 0 && len(c.S.Data) > c.Other.Sizes[0] {
				o.NonTrivial()
			}
			if c.S.Opt.Octet {
				o.Label("octet counting")
			} else {
				o.Label("non transparent")
			}
			if err := sameResults(b, a); err != nil {
				return fmt.Errorf("read in another way: %w", err)
			}
			return nil
		},
	})
}

// Stream24 is a stream for one of the parsers.
type Stream24 struct {
	Which int
	Data  B
	Read  Reading
	Same  bool // read with the very reader the parser had before, which has got new data
	Panic int  // 1: the reader panics instead of telling the end, 2: so does the listener, at its first result (the caller recovers)
	Nest  bool // while the first result is being listened to, the stream before is parsed with another parser
}

// Case24 are streams parsed one after the other with some parsers.
type Case24 struct {
	Parsers []SOpt
	Streams []Stream24
}

func registerC24() {
	register(Def[Case24]{
		ID:   "C24",
		Rule: "cases are 2 to 8 random good and bad streams parsed one after the other with 1 to 3 parsers used in turn, also ending within messages, with a failing reader or with a panic of the reader or the listener, read with new readers or with the same one holding new data, and with other parsers used from within the listener; systematically every pair (thorough: triple) of a set of streams, and systematic streams of the other checks, each followed by streams which show what was kept; non-trivial: some parser parses at least two streams which are not empty",
		N:    60000, Systematic: func(t Tier, do func(mk func() Case24)) {
			head := "<1>1 - - - - - - "
			// Many streams.
			for i := 0; i < 8; i++ {
				opt := SOpt{Octet: i&1 != 0, BestEffort: i&2 != 0, NUL: i&4 != 0, Limit: 100}
				for _, n := range []int{40, 300, 1100, 70000} {
					if n > 1100 && i > 1 {
						continue
					}
					do(func() Case24 {
						c := Case24{Parsers: []SOpt{opt}}
						for k := 0; k < n; k++ {
							s := fmt.Sprintf("%sn%d", head, k)
							if k%3 == 1 {
								s = "<1>1 - bad"
							}
							if opt.Octet {
								s = octetFrame(s)
								if k%5 == 2 {
									s += "17 <1>"
								}
							} else if k%5 != 2 {
								s += string([]byte{opt.trailer()})
							}
							c.Streams = append(c.Streams, Stream24{Data: B(s), Read: Reading{Sizes: []int{1 + k}}, Same: k%2 == 0})
						}
						return c
					})
				}
			}
			sweep24(t, do)
			// Many parsers, used in turn.
			for i := 0; i < 8; i++ {
				opt := SOpt{Octet: i&1 != 0, BestEffort: i&2 != 0, NUL: i&4 != 0, Limit: 100}
				for _, n := range []int{9, 70, 300} {
					do(func() Case24 {
						var c Case24
						for k := 0; k < n; k++ {
							c.Parsers = append(c.Parsers, opt)
						}
						for k := 0; k < 3*n; k++ {
							s := fmt.Sprintf("%sn%d", head, k)
							if opt.Octet {
								s = octetFrame(s)
								s += s[:k%len(s)]
							} else {
								s += string([]byte{opt.trailer()}) + s[:k%len(s)]
							}
							c.Streams = append(c.Streams, Stream24{Which: k * 7 % n, Data: B(s), Read: Reading{Sizes: []int{1 + k%50}}, Nest: k%11 == 0})
						}
						return c
					})
				}
			}
			for i := 0; i < 8; i++ {
				opt := SOpt{Octet: i&1 != 0, BestEffort: i&2 != 0, NUL: i&4 != 0, Limit: 100}
				tr := string([]byte{opt.trailer()})
				streams := []string{"", head + "a" + tr, head + "b" + tr + head + "c", head, tr, "x", "x" + tr, "<1" + tr, "<1>1 - " + tr + head + "d" + tr, head + "e" + tr + "f" + tr + "g", head + strings.Repeat("h", 5000) + tr, tr + tr + head + tr, head + "x\x00y\nz"}
				if opt.Octet {
					f := octetFrame(head + "a")
					streams = []string{"", f, f + octetFrame(head+"b"), f + "1", f + "17", f + "17 ", f + "17 <1>", "x", f + " ", f + "\n", octetFrame("<1>1 - y") + f, "101 <" + f, "99999999999999999999 <", f + "0", f + f + "<", "9", "9 ", " ", "<", octetFrame(head + strings.Repeat("h", 80)), "17 " + head[:15], octetFrame("<1>1 x") + "5", "0 ", f + "3 x"}
				}
				for _, a := range streams {
					for _, b := range streams {
						for f := 0; f < 4; f++ {
							mk := func(ss ...string) func() Case24 {
								return func() Case24 {
									c := Case24{Parsers: []SOpt{opt}}
									for k, s := range ss {
										c.Streams = append(c.Streams, Stream24{Data: B(s), Read: Reading{Fail: f&1 == 1 && k == 0}, Same: f >= 2, Nest: f == 3})
									}
									return c
								}
							}
							do(mk(a, b, a))
							if f > 0 && f < 3 {
								do(func() Case24 { c := mk(a, b)(); c.Streams[0].Panic = f; return c })
							}
							if t.Name == "thorough" {
								for _, x := range streams {
									do(mk(a, b, x))
								}
							}
						}
					}
				}
			}
		},
		Gen: func(r *Rand, t Tier) (c Case24) {
			np := pick(r, []int{1, 1, 2, 3})
			for i := 0; i < np; i++ {
				if r.P(50) {
					c.Parsers = append(c.Parsers, SOpt{Octet: true, BestEffort: r.P(50), Limit: pick(r, []int{-1, -1, 30, 100, 9000})})
				} else {
					c.Parsers = append(c.Parsers, r.ntOpt())
				}
			}
			for n := r.In(2, 8); n > 0; n-- {
				s := Stream24{Which: r.IntN(np)}
				o := c.Parsers[s.Which]
				var x SCase
				for {
					if x = r.anyStream(t); x.Opt.Octet == o.Octet {
						break
					}
				}
				if !o.Octet {
					// Generated for the other trailer, perhaps.
					x.Data = B(strings.ReplaceAll(string(x.Data), string([]byte{x.Opt.trailer()}), string([]byte{o.trailer()})))
				}
				s.Data, s.Read = x.Data, x.Read
				s.Read.Fail = r.P(15)
				s.Same, s.Nest = r.P(40), r.P(10)
				if r.P(6) {
					s.Panic = r.In(1, 2)
				}
				c.Streams = append(c.Streams, s)
			}
			return c
		},
		Eval: func(c Case24, o *Obs) error {
			if len(c.Parsers) == 0 {
				return nil
			}
			cs := make([]*collector, len(c.Parsers))
			ps := make([]syslog.Parser, len(c.Parsers))
			used := make([]int, len(c.Parsers))
			rds := make([]*reader, len(c.Parsers))
			for i, po := range c.Parsers {
				cs[i] = &collector{}
				ps[i] = newStream(po.Octet, po.options(cs[i].listen)...)
			}
			type kept struct {
				at  int
				res []sres
			}
			var all []kept
			for i, s := range c.Streams {
				w := ((s.Which % len(ps)) + len(ps)) % len(ps)
				if s.Panic == 1 || s.Panic == 2 {
					// Like any other way for a stream to end.
					var outs [2][]sres
					for k := range outs {
						co, p := cs[w], ps[w]
						if k == 1 {
							co = &collector{}
							p = newStream(c.Parsers[w].Octet, c.Parsers[w].options(co.listen)...)
						}
						if s.Panic == 2 {
							co.first = func() { panic(deliberate) }
						}
						res, panicked, bad := co.runPanicky(p, &reader{data: string(s.Data), spec: s.Read, panics: s.Panic == 1})
						if bad != nil {
							return bad
						}
						if panicked {
							o.Label("ended by a panic")
						}
						outs[k] = res
					}
					if err := sameResults(outs[0], outs[1]); err != nil {
						return fmt.Errorf("stream %d, compared with a new parser: %w", i+1, err)
					}
					if len(s.Data) > 0 {
						used[w]++
					}
					continue
				}
				want, bad := runStream(c.Parsers[w], string(s.Data), s.Read)
				if bad != nil {
					return bad
				}
				if rds[w] == nil || !s.Same {
					rds[w] = &reader{}
				}
				*rds[w] = reader{data: string(s.Data), spec: s.Read}
				var nested error
				if s.Nest {
					x := s
					if i > 0 {
						x = c.Streams[i-1]
					}
					po := c.Parsers[w]
					a, bad := runStream(po, string(x.Data), x.Read)
					if bad != nil {
						return bad
					}
					cs[w].first = func() {
						b, bad := runStream(po, string(x.Data), x.Read)
						if bad == nil {
							bad = sameResults(b, a)
						}
						nested = bad
					}
				}
				got, bad := cs[w].run(ps[w], rds[w])
				if bad != nil {
					return bad
				}
				if nested != nil {
					return fmt.Errorf("stream parsed from within the listener: %w", nested)
				}
				if err := sameResults(got, want); err != nil {
					return fmt.Errorf("stream %d, compared with a new parser: %w", i+1, err)
				}
				all = append(all, kept{i, got})
				if len(s.Data) > 0 {
					used[w]++
				}
				if used[w] >= 2 {
					o.NonTrivial()
				}
			}
			for _, k := range all {
				for j, g := range k.res {
					now, bad := record(g.res)
					if bad != nil {
						return bad
					}
					if now.String() != g.String() {
						return fmt.Errorf("result %d of stream %d was %v when delivered, and is %v after more parsing", j+1, k.at+1, g, now)
					}
				}
			}
			return nil
		},
	})
}

func registerC29() {
	register(Def[SCase]{
		ID: "C29", Raw: true,
		Rule: "cases are random and enumerated streams of both framings read through a reader that notes, at each read, how many results have been delivered for the bytes it has given so far; non-trivial: at least two results and at least three reads",
		N:    300000,
		Systematic: func(t Tier, do func(mk func() SCase)) {
			head := "<1>1 - - - - - - "
			// What ends the parsing, with more after it.
			for _, be := range []bool{false, true} {
				for _, bad := range []string{"x", "\n", " ", "<", "0", "00", "016 <1>1 - - - - - -", "16x", "16<", "16\n", "16  <", "16 x", "16 0", "99999 <", "8193 <1>1 ", "99999999999999999999 <", "16 <1>x - - - - - -", "3 <1>", "1 <"} {
					for _, after := range []int{0, 1, 2, 10, 100, 5000, 9000, 20000, 70000} {
						for _, k := range []int{0, 1, 7, 4096, 8212} {
							if k == 1 && after > 9000 {
								continue
							}
							for _, good := range []int{0, 1, 3} {
								do(func() SCase {
									c := SCase{Opt: SOpt{Octet: true, BestEffort: be, Limit: -1}}
									if k > 0 {
										c.Read.Sizes = []int{k}
									}
									if after == 100 {
										// Nothing is lost when the rest can't be read.
										c.Read.Sizes, c.Read.Fail = []int{len(bad)}, true
									}
									b := strings.Repeat(octetFrame(head), good) + bad
									if good == 1 {
										b += strings.Repeat(octetFrame(head), after/len(head))
									} else {
										b += filler(after)
									}
									c.Data = B(b)
									return c
								})
							}
						}
					}
				}
			}
			for i := 0; i < 8; i++ {
				opt := SOpt{Octet: i&1 != 0, BestEffort: i&2 != 0, NUL: i&4 != 0, Limit: -1}
				for n := 1; n <= 30; n++ {
					for k := 1; k <= 60; k++ {
						do(func() SCase {
							var b strings.Builder
							for j := 0; j < n; j++ {
								m := head + filler((j*k)%40)
								if opt.Octet {
									b.WriteString(octetFrame(m))
								} else {
									b.WriteString(m)
									b.WriteByte(opt.trailer())
								}
							}
							return SCase{opt, B(b.String()), Reading{Sizes: []int{k}, WithEnd: (n+k)%2 == 0}}
						})
					}
				}
				// Long streams, of messages which are all alike or not.
				for _, n := range []int{99, 100, 101, 150, 256, 257, 300, 520, 1030, 1500, 4200} {
					for _, k := range []int{1, 5, 17, 18, 19, 20, 21, 22, 64, 333, 4096} {
						if k == 1 && n > 300 || t.Scale == 1 && n > 1500 && k != 20 && k != 64 {
							continue
						}
						for v := 0; v < 3; v++ {
							do(func() SCase {
								var b strings.Builder
								for j := 0; j < n; j++ {
									m := head
									if v > 0 {
										m += filler(j % 7)
									}
									if v == 2 && opt.BestEffort && j%5 == 3 {
										m = "<1>1 x"
									}
									if opt.Octet {
										b.WriteString(octetFrame(m))
									} else {
										b.WriteString(m)
										b.WriteByte(opt.trailer())
									}
								}
								return SCase{opt, B(b.String()), Reading{Sizes: []int{k}}}
							})
						}
					}
				}
				for _, sz := range []int{1000, 4096, 8000, 8175} {
					for _, k := range []int{1, 100, 4096, 9000} {
						do(func() SCase {
							m := head + filler(sz)
							f := m + string([]byte{opt.trailer()})
							if opt.Octet {
								f = octetFrame(m)
							}
							return SCase{opt, B(f + f + f), Reading{Sizes: []int{k}}}
						})
						// Each frame in a read of its own.
						do(func() SCase {
							m := head + filler(sz/10)
							f := m + string([]byte{opt.trailer()})
							if opt.Octet {
								f = octetFrame(m)
							}
							return SCase{opt, B(f + f + f + f), Reading{Sizes: []int{len(f)}, Empty: k % 3}}
						})
					}
				}
			}
		},
		Gen: func(r *Rand, t Tier) SCase {
			c := genOctetGood(r, t)
			switch r.IntN(4) {
			case 0:
				c = genOctetBad(r, t)
			case 1, 2:
				c = genNT(r, t)
				if r.P(20) {
					c = genNTTail(r, t)
				}
			}
			for len(c.Read.Sizes) == 0 || r.P(10) {
				c.Read.Sizes = append(c.Read.Sizes, r.In(1, 50))
			}
			return c
		},
		Eval: func(c SCase, o *Obs) error {
			var ends []int // of the frames having a result
			total, stopAt := 0, -1
			if c.Opt.Octet {
				m, bad := modelOctet(string(c.Data), c.Opt.BestEffort, c.Opt.limit())
				if bad != nil {
					return bad
				}
				ends, total, stopAt = m.ends, len(m.want), m.stopAt
			} else {
				m, bad := modelNT(string(c.Data), c.Opt.BestEffort, c.Opt.trailer(), c.Read)
				if bad != nil {
					return bad
				}
				if m.outside {
					return nil
				}
				ends, total = m.ends, len(m.want)
			}
			col := &collector{}
			p := newStream(c.Opt.Octet, c.Opt.options(col.listen)...)
			var late error
			reads, done := 0, 0
			rd := &reader{data: string(c.Data), spec: c.Read}
			rd.onRead = func(given int) {
				reads++
				for done < len(ends) && ends[done] <= given {
					done++
				}
				must := done
				if !c.Opt.Octet {
					must--
				}
				if len(col.out) < must && late == nil {
					late = fmt.Errorf("after %d bytes, holding %d complete messages, the reader is asked for more and only %d results have been delivered", given, done, len(col.out))
				}
				if stopAt >= 0 && given >= stopAt && late == nil {
					late = fmt.Errorf("the reader is asked for more after %d bytes, though the first %d ones end the parsing", given, stopAt)
				}
				if col.within.Load() != 0 && late == nil {
					late = fmt.Errorf("the reader is asked for more while the listener is being called")
				}
			}
			got, bad := col.run(p, rd)
			n := len(got)
			if bad != nil {
				return bad
			}
			if total >= 2 && reads >= 3 {
				o.NonTrivial()
			}
			if c.Opt.Octet {
				o.Label("octet counting")
				if stopAt >= 0 && stopAt < len(c.Data) {
					o.Label("more data after what ends the parsing")
				}
			} else {
				o.Label("non transparent")
			}
			if late != nil {
				return late
			}
			settle()
			if n < total {
				return fmt.Errorf("%d results have been delivered when the parse call returns, want %d", n, total)
			}
			if len(col.out) != n || col.bad != nil {
				return fmt.Errorf("results are delivered after the parse call has returned (%v)", col.bad)
			}
			return nil
		},
	})
}
