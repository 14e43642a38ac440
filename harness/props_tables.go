package main

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// Names of RFC 5427 (facility 13, whose keyword is not the same everywhere, as documented by the library).
var facilityNames = [24][2]string{
	{"kern", "kernel messages"}, {"user", "user-level messages"}, {"mail", "mail system messages"}, {"daemon", "system daemons messages"},
	{"auth", "authorization messages"}, {"syslog", "messages generated internally by syslogd"}, {"lpr", "line printer subsystem messages"}, {"news", "network news subsystem messages"},
	{"uucp", "UUCP subsystem messages"}, {"cron", "clock daemon messages"}, {"authpriv", "security/authorization messages"}, {"ftp", "ftp daemon messages"},
	{"ntp", "NTP subsystem messages"}, {"security", "audit messages"}, {"console", "console messages"}, {"cron2", "clock daemon messages"},
	{"local0", "local use 0 (local0)"}, {"local1", "local use 1 (local1)"}, {"local2", "local use 2 (local2)"}, {"local3", "local use 3 (local3)"},
	{"local4", "local use 4 (local4)"}, {"local5", "local use 5 (local5)"}, {"local6", "local use 6 (local6)"}, {"local7", "local use 7 (local7)"},
}

var severityNames = [8][3]string{
	{"emergency", "emerg", "system is unusable"}, {"alert", "alert", "action must be taken immediately"}, {"critical", "crit", "critical conditions"}, {"error", "err", "error conditions"},
	{"warning", "warning", "warning conditions"}, {"notice", "notice", "normal but significant condition"}, {"informational", "info", "informational messages"}, {"debug", "debug", "debug-level messages"},
}

// checkNames checks what the accessors tell for the priority (-1: absent).
func checkNames(m syslog.Message, pri int) error {
	fac, sev := -1, -1
	if pri >= 0 {
		fac, sev = pri/8, pri%8
	}
	if err := namesOf(m, fac, sev); err != nil {
		return fmt.Errorf("priority %d: %w", pri, err)
	}
	return nil
}

// namesOf checks what the accessors tell for the facility and the severity (-1: absent).
func namesOf(m syslog.Message, fac, sev int) error {
	var want [5]*string
	if fac >= 0 {
		f := facilityNames[fac]
		want[0], want[1] = &f[1], &f[0]
	}
	if sev >= 0 {
		s := severityNames[sev]
		want[2], want[3], want[4] = &s[2], &s[0], &s[1]
	}
	for i, g := range []*string{m.FacilityMessage(), m.FacilityLevel(), m.SeverityMessage(), m.SeverityLevel(), m.SeverityShortLevel()} {
		if err := sameStr([]string{"facility message", "facility level", "severity message", "severity level", "severity short level"}[i], g, want[i]); err != nil {
			return err
		}
		if g != nil {
			*g = "changed by its owner"
		}
	}
	return nil
}

// assignedCodes checks what the accessors tell when the owner of the message assigns its facility and severity.
func assignedCodes(m syslog.Message, b *syslog.Base, n int) error {
	f, s, v := b.Facility, b.Severity, m.Valid()
	defer func() { b.Facility, b.Severity = f, s }()
	for _, c := range [][2]int{{n % 24, n / 24 % 8}, {n / 8 % 24, (n + 5) % 8}, {(n + 1) % 24, n % 8}, {(n + 11) % 24, -1}, {-1, (n + 3) % 8}, {-1, -1}} {
		b.Facility, b.Severity = nil, nil
		if c[0] >= 0 {
			x := uint8(c[0])
			b.Facility = &x
		}
		if c[1] >= 0 {
			x := uint8(c[1])
			b.Severity = &x
		}
		if err := namesOf(m, c[0], c[1]); err != nil {
			return fmt.Errorf("facility %d and severity %d assigned to %s: %w", c[0], c[1], showBase(b), err)
		}
		if m.Valid() != v {
			return fmt.Errorf("facility %d and severity %d assigned to %s: valid is %v", c[0], c[1], showBase(b), !v)
		}
		if t, ok := m.(*rfc5424.SyslogMessage); ok {
			t.String()
		}
		if (b.Facility != nil) != (c[0] >= 0) || (b.Severity != nil) != (c[1] >= 0) || c[0] >= 0 && int(*b.Facility) != c[0] || c[1] >= 0 && int(*b.Severity) != c[1] {
			return fmt.Errorf("facility %d and severity %d assigned, and after the message has been inspected the codes are %s", c[0], c[1], showBase(b))
		}
		if b.Priority != nil {
			// The same priority again.
			m.ComputeFromPriority(*b.Priority)
			if err := checkPri(b, int(*b.Priority)); err != nil {
				return fmt.Errorf("the priority computed again, the facility being %d and the severity %d: %w", c[0], c[1], err)
			}
		}
	}
	return nil
}

// Case25 is a way to get a message.
type Case25 struct {
	Via        int
	Pri        int
	Ver        int
	First      int // priority that the message had before (-1: none)
	In         B
	BestEffort bool
}

// otherFields are what the owner of a message can give to it.
var otherFields = func() (all []struct {
	name string
	set  func(m *rfc5424.SyslogMessage, b *syslog.Base)
}) {
	add := func(name string, set func(m *rfc5424.SyslogMessage, b *syslog.Base)) {
		all = append(all, struct {
			name string
			set  func(m *rfc5424.SyslogMessage, b *syslog.Base)
		}{name, set})
	}
	for _, p := range []int{-1, 0, 7, 8, 23, 24, 255} {
		var f *uint8
		if p >= 0 {
			x := uint8(p)
			f = &x
		}
		add(fmt.Sprintf("and facility %d", p), func(_ *rfc5424.SyslogMessage, b *syslog.Base) { b.Facility = f })
		add(fmt.Sprintf("and severity %d", p), func(_ *rfc5424.SyslogMessage, b *syslog.Base) { b.Severity = f })
	}
	for _, y := range []int{-5, 0, 1, 1969, 9999, 10000, 200000} {
		t := time.Date(y, 2, 3, 4, 5, 6, 7, time.FixedZone("", 86399))
		add(fmt.Sprintf("and a timestamp in year %d", y), func(_ *rfc5424.SyslogMessage, b *syslog.Base) { b.Timestamp = &t })
	}
	add("and a zero timestamp", func(_ *rfc5424.SyslogMessage, b *syslog.Base) { b.Timestamp = &time.Time{} })
	add("and no timestamp", func(_ *rfc5424.SyslogMessage, b *syslog.Base) { b.Timestamp = nil })
	for i, sd := range []map[string]map[string]string{nil, {}, {"a": nil}, {"a b": {"c]": "\xff"}}, {"": {"": ""}}} {
		add(fmt.Sprintf("and the structured data number %d", i), func(m *rfc5424.SyslogMessage, _ *syslog.Base) {
			if m != nil {
				m.StructuredData = &sd
			}
		})
	}
	add("and no structured data", func(m *rfc5424.SyslogMessage, _ *syslog.Base) {
		if m != nil {
			m.StructuredData = nil
		}
	})
	for i, s := range []string{"", "-", " ", "a", "\xff\x00\n", bom, strings.Repeat("h", 32), strings.Repeat("h", 33), strings.Repeat("h", 48), strings.Repeat("h", 49), strings.Repeat("h", 128), strings.Repeat("h", 129), strings.Repeat("h", 255), strings.Repeat("h", 256), strings.Repeat("m", 1024), strings.Repeat("m", 8193), strings.Repeat("m", 70000)} {
		for k, name := range []string{"hostname", "appname", "procid", "msgid", "message"} {
			add(fmt.Sprintf("and the %s number %d", name, i), func(_ *rfc5424.SyslogMessage, b *syslog.Base) {
				*[]**string{&b.Hostname, &b.Appname, &b.ProcID, &b.MsgID, &b.Message}[k] = &s
			})
		}
	}
	return all
}()

func checkCodes(m syslog.Message, b *syslog.Base, pri int) error {
	if pri < 0 {
		if b.Priority != nil || b.Facility != nil || b.Severity != nil {
			return fmt.Errorf("codes are %s, want none", showBase(b))
		}
		if err := checkNames(m, -1); err != nil {
			return err
		}
		return assignedCodes(m, b, 100)
	}
	if err := checkPri(b, pri); err != nil {
		return err
	}
	if err := ownCodes(b); err != nil {
		return fmt.Errorf("message with %s: %w", showBase(b), err)
	}
	if pri <= 191 {
		if err := checkNames(m, pri); err != nil {
			return err
		}
	}
	return assignedCodes(m, b, pri)
}

// Case26 is a text and a number for the trailer types.
type Case26 struct {
	Text B
	Num  int
}

func trailerOf(s string) (nontransparent.TrailerType, bool) {
	l := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' {
			c -= 32
		}
		l = append(l, c)
	}
	u := string(l)
	for _, quote := range []string{"", "'", "\""} {
		switch u {
		case quote + "LF" + quote:
			return nontransparent.LF, true
		case quote + "NUL" + quote:
			return nontransparent.NUL, true
		}
	}
	return 0, false
}

// Case27 is anything.
type Case27 struct {
	In   B
	Opt  POpt
	S    SOpt
	Read Reading
	Ops  []BOp
	// A large case: In is followed by so many pieces, in which '#' stands for a number, and the tail.
	Times       int
	Piece, Tail B
}

// large gives the case with its input written out.
func (c Case27) large() Case27 {
	if c.Times <= 0 {
		return c
	}
	var b strings.Builder
	b.WriteString(string(c.In))
	before, after, numbered := strings.Cut(string(c.Piece), "#")
	for i := 0; i < min(c.Times, 1<<20); i++ {
		b.WriteString(before)
		if numbered {
			b.WriteString(strconv.Itoa(i))
			b.WriteString(after)
		}
	}
	b.WriteString(string(c.Tail))
	c.In, c.Times = B(b.String()), 0
	return c
}

var large27 = []Case27{
	{In: "<1>1 - - - - - [a b=\"", Piece: "\\]", Tail: "\"] m"},
	{In: "<1>1 - - - - - [a b=\"", Piece: "x\\\"yy", Tail: "\"]"},
	{In: "<1>1 - - - - - [a b=\"", Piece: "\\\\", Tail: "\"] m"},
	{In: "<1>1 - - - - - [a b=\"", Piece: "\u20ac", Tail: "\"]"},
	{In: "<1>1 - - - - - [a b=\"", Piece: "\\]", Tail: "\x00"},
	{In: "<1>1 - - - - - ", Piece: "[a# b=\"c\"]", Tail: ""},
	{In: "<1>1 - - - - - ", Piece: "[a#]", Tail: " m"},
	{In: "<1>1 - - - - - ", Piece: "[a# b=\"\\]\"]", Tail: "["},
	{In: "<1>1 - - - - - [a", Piece: " b#=\"c\"", Tail: "]"},
	{In: "<1>1 - - - - - [a", Piece: " b=\"c\\\"\"", Tail: "]"},
	{In: "<1>1 - - - - - - ", Piece: "\n"},
	{In: "<1>1 - - - - - - ", Piece: "<\n"},
	{In: "<1>1 - - - - - - ", Piece: "\n\x00<"},
	{In: "<1>1 - - - - - - " + bom, Piece: "\u20ac", Tail: "\xff"},
	{In: "", Piece: "<1>1 - - - - - - m#\n"},
	{In: "", Piece: "<1>1 - - - - - - m\x00"},
	{In: "", Piece: "17 <1>1 - - - - - -m"},
	{In: "", Piece: "18 <1>1 - - - - - - m"},
	{In: "", Piece: "5 <1>1 "},
	{In: "", Piece: "1"},
	{In: "2000000 <1>1 - - - - - - ", Piece: "12345"},
	{In: "1999995 <1>1 - - - - - - ", Piece: "12345"},
	{In: "<1>Oct 11 22:14:15 h ", Piece: "a:[b]"},
	{In: "<1>Oct 11 22:14:15 h ", Piece: "a"},
	{In: "<1>Oct 11 22:14:15 h ", Piece: "["},
	{In: "<1>Oct 11 22:14:15 h a[", Piece: "1", Tail: "]: m"},
	{In: "<1>Oct 11 22:14:15 ", Piece: "h", Tail: " m"},
	{In: "<", Piece: "1"},
	{In: "", Piece: "<"},
}

// threadTime is the processor time the calling thread took.
func threadTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(1, &u) != nil { // RUSAGE_THREAD
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// timeGrowth compares the time taken by eight times as much with the time taken.
func timeGrowth(what string, run func(times int), times int) error {
	took := func(n int) time.Duration {
		runtime.GC()
		start := threadTime()
		run(n)
		return threadTime() - start
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	large := took(times)
	// What takes this short a time may take any share of it.
	for try := 0; large > 700*time.Millisecond; try++ {
		small := took(times / 8)
		if large < 32*small+600*time.Millisecond {
			return nil
		}
		if try == 2 {
			return fmt.Errorf("%s: eight times the size takes %v instead of %v", what, large, small)
		}
		large = min(large, took(times))
	}
	return nil
}

func (c Case27) evalGrowth(o *Obs) error {
	o.NonTrivial()
	o.Label("large")
	p := c.Opt
	for _, f := range []struct {
		what string
		run  func(c Case27, in []byte)
	}{
		{"parsing a message", func(c Case27, in []byte) { p.build().Parse(in) }},
		{"parsing a stream", func(c Case27, in []byte) {
			newStream(c.S.Octet, c.S.options(func(*syslog.Result) {})...).Parse(&reader{data: string(in), spec: c.Read})
		}},
		{"building a message", func(c Case27, in []byte) {
			if c.Tail == "" || len(c.Ops) == 0 {
				return
			}
			m := &rfc5424.SyslogMessage{}
			m.SetPriority(1).SetVersion(1).SetParameter("id", "name", string(in)).SetMessage(string(in)).SetHostname(string(in)).SetTimestamp(string(in))
			m.String()
		}},
		{"setting many parameters", func(c Case27, in []byte) {
			if c.Tail == "" || len(c.Ops) == 0 {
				return
			}
			m := &rfc5424.SyslogMessage{}
			m.SetPriority(1).SetVersion(1)
			for i := 0; i < c.Times/4; i++ {
				m.SetParameter("id", strconv.Itoa(i), "v").SetElementID(strconv.Itoa(i))
			}
			m.String()
		}},
		{"serializing", func(c Case27, in []byte) {
			if c.S.Octet || p.BSD {
				return
			}
			m, _ := rfc5424.NewMachine(rfc5424.WithBestEffort()).Parse(in)
			if sm, ok := m.(*rfc5424.SyslogMessage); ok && sm != nil {
				sm.String()
			}
		}},
	} {
		if err := timeGrowth(f.what, func(times int) {
			d := c
			d.Times = times
			in := []byte(d.large().In)
			f.run(d, in)
		}, c.Times); err != nil {
			return err
		}
	}
	return nil
}

func eval27(c Case27, o *Obs) error {
	if c.Times >= 100000 {
		if err := c.evalGrowth(o); err != nil {
			return err
		}
	}
	c = c.large()
	p := c.Opt
	for i := 0; i < 2; i++ {
		p.Locking = i == 1
		m := p.build()
		msg, err := m.Parse([]byte(c.In))
		if msg == nil && err == nil {
			return errors.New("no message and no error")
		}
		if msg != nil {
			o.Label("message parser: message")
			if s := showAny(msg); strings.HasPrefix(s, "a nil") || strings.HasPrefix(s, "*") {
				return fmt.Errorf("message is %s", s)
			}
			if !msg.Valid() {
				return fmt.Errorf("message is not valid: %s, %v", showAny(msg), err)
			}
			if err != nil && !p.BestEffort {
				return fmt.Errorf("both a message and an error without best effort: %s, %v", showAny(msg), err)
			}
			if sm, ok := msg.(*rfc5424.SyslogMessage); ok {
				if _, err := sm.String(); err != nil {
					return fmt.Errorf("%s does not serialize: %v", showAny(msg), err)
				}
			}
		}
		if err != nil {
			o.Label("message parser: error")
			if err.Error() == "" {
				return errors.New("error without a text")
			}
		}
		if !p.BSD {
			if sm, ok := msg.(*rfc5424.SyslogMessage); ok && sm != nil {
				for _, op := range c.Ops {
					op.apply(sm)
				}
				sm.String()
				inspect(sm)
			}
		}
	}
	if len(c.Ops) > 0 {
		b := rfc5424.Builder(&rfc5424.SyslogMessage{})
		for _, op := range c.Ops {
			if b = op.apply(b); b == nil {
				return fmt.Errorf("%v returns nil", op)
			}
		}
		sm := b.(*rfc5424.SyslogMessage)
		s, err := sm.String()
		if (err == nil) != sm.Valid() || (err == nil) == (s == "") {
			return fmt.Errorf("serializing %s gives (%+q, %v)", show5424(sm), s, err)
		}
		inspect(sm)
	}
	n := 0
	var bad error
	sp := newStream(c.S.Octet, c.S.options(func(res *syslog.Result) {
		n++
		if n > len(c.In)+2 && bad == nil {
			panic("there are more results than bytes")
		}
		if s, b := record(res); b != nil {
			bad = b
		} else if s.msg == "nil" && s.err == "nil" {
			bad = fmt.Errorf("result %d has neither a message nor an error", n)
		} else if s.raw != nil && !s.raw.Valid() {
			bad = fmt.Errorf("result %d has a message which is not valid: %v", n, s)
		}
	})...)
	sp.Parse(&reader{data: string(c.In), spec: c.Read})
	if bad != nil {
		return bad
	}
	if n > 0 {
		o.Label("stream parser: results")
	}
	if len(c.In) > 0 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	register(Def[Case25]{
		ID:   "C25",
		Rule: "cases are all the 256 priority codes through both message parsers, the builder and the base method, on new messages and on messages having another priority, with many version codes, and random inputs parsed in both modes; each message is given odd values for its other fields; non-trivial: the message has a priority",
		N:    150000,
		Systematic: func(t Tier, do func(mk func() Case25)) {
			for p := 0; p < 256; p++ {
				for via := 0; via < 6; via++ {
					for _, first := range []int{-1, 0, 13, 191} {
						for _, v := range []int{0, 1, 2, 99, 500, 999, 1000, 65535} {
							do(func() Case25 { return Case25{Via: via, Pri: p, Ver: v, First: first} })
						}
					}
				}
			}
			for v := 0; v < 65536; v++ {
				do(func() Case25 { return Case25{Via: 3, Pri: v % 192, Ver: v, First: -1} })
			}
			for via := 2; via < 6; via++ {
				for v := 0; v < 1100; v++ {
					do(func() Case25 { return Case25{Via: via, Pri: -1, Ver: v, First: -1} })
				}
			}
		},
		Gen: func(r *Rand, t Tier) Case25 {
			c := Case25{Via: 6 + r.IntN(2), First: -1, BestEffort: r.P(70)}
			if c.Via == 6 {
				c.In = B(r.any5424())
			} else {
				c.In = B(r.any3164())
			}
			return c
		},
		Eval: func(c Case25, o *Obs) error {
			b, err := evalCodes(c, o)
			if err != nil || b == nil {
				return err
			}
			// Whether a message is valid does not depend on what else it has.
			ver := c.Ver
			if len(c.In) > 0 {
				ver = 1 + len(c.In)%999
			}
			m5 := &rfc5424.SyslogMessage{Base: *b, Version: uint16(ver)}
			m3 := &rfc3164.SyslogMessage{Base: *b}
			for i, f := range otherFields {
				if i >= 100 && (c.First != -1 || len(c.In) > 0) {
					break
				}
				old5, old3 := *m5, *m3
				f.set(m5, &m5.Base)
				f.set(nil, &m3.Base)
				base := m3.Base
				valid := b.Priority != nil && *b.Priority <= 191
				if v := valid && ver >= 1 && ver <= 999; m5.Valid() != v {
					return fmt.Errorf("RFC 5424 message with %s %s: valid is %v", showBase(b), f.name, !v)
				}
				if m3.Valid() != valid || base.Valid() != valid {
					return fmt.Errorf("message with %s %s: valid is not %v", showBase(b), f.name, valid)
				}
				if i%3 != ver%3 { // every third one is kept for those that follow
					*m5, *m3 = old5, old3
				}
			}
			// Changing the codes of that message changes nothing for another one.
			for _, p := range []*uint8{b.Priority, b.Facility, b.Severity} {
				if p != nil {
					*p ^= 0x55
				}
			}
			if _, err := evalCodes(c, o); err != nil {
				return fmt.Errorf("after the codes of another message have been changed: %w", err)
			}
			return nil
		},
	})
	register26()
}

// evalCodes makes the message of the case and judges its codes; it returns its base when there is one.
func evalCodes(c Case25, o *Obs) (*syslog.Base, error) {
	pri := c.Pri
	valid := pri >= 0 && pri <= 191
	switch c.Via {
	case 0: // RFC 5424 parser
		r, bad := parse5424(new5424(true, false, false), []byte(fmt.Sprintf("<%d>%d - - - - - -", c.Pri, c.Ver)))
		if bad != nil || r.msg == nil {
			return nil, bad
		}
		o.NonTrivial()
		if !r.msg.Valid() {
			return nil, fmt.Errorf("parsed message %s is not valid", show5424(r.msg))
		}
		return &r.msg.Base, checkCodes(r.msg, &r.msg.Base, pri)
	case 1: // RFC 3164 parser
		r, bad := parse3164(new3164(true, false, Opt3164{}), []byte(fmt.Sprintf("<%d>Oct 11 22:14:15 h m", c.Pri)))
		if bad != nil || r.msg == nil {
			return nil, bad
		}
		o.NonTrivial()
		if !r.msg.Valid() {
			return nil, fmt.Errorf("parsed message %s is not valid", show3164(r.msg))
		}
		return &r.msg.Base, checkCodes(r.msg, &r.msg.Base, pri)
	case 2: // builder
		m := &rfc5424.SyslogMessage{}
		want := -1
		if c.First >= 0 {
			m.SetPriority(uint8(c.First))
			want = c.First
		}
		if c.Pri >= 0 {
			m.SetPriority(uint8(c.Pri))
		}
		m.SetVersion(uint16(c.Ver))
		if valid {
			want = pri
		}
		if want >= 0 {
			o.NonTrivial()
		}
		if v := want >= 0 && c.Ver >= 1 && c.Ver <= 999; m.Valid() != v {
			return nil, fmt.Errorf("%s: valid is %v", show5424(m), m.Valid())
		}
		return &m.Base, checkCodes(m, &m.Base, want)
	case 3, 4, 5: // codes given without a check
		m5 := &rfc5424.SyslogMessage{Version: uint16(c.Ver)}
		m3 := &rfc3164.SyslogMessage{}
		var m syslog.Message = m5
		b := &m5.Base
		verOK := c.Ver >= 1 && c.Ver <= 999
		if c.Via == 4 {
			m, b, verOK = m3, &m3.Base, true
		}
		if c.Via == 5 {
			b = &syslog.Base{}
			m, verOK = b, true
		}
		if c.First >= 0 {
			m.ComputeFromPriority(uint8(c.First))
			if err := checkCodes(m, b, c.First); err != nil {
				return nil, err
			}
		}
		if c.Pri >= 0 {
			o.NonTrivial()
			m.ComputeFromPriority(uint8(c.Pri))
		} else if c.First < 0 {
			pri = -1
		}
		if m.Valid() != (valid && verOK) {
			return nil, fmt.Errorf("priority %d, version %d: valid is %v", pri, c.Ver, m.Valid())
		}
		return b, checkCodes(m, b, pri)
	case 6:
		r, bad := parse5424(new5424(false, c.BestEffort, false), []byte(c.In))
		if bad != nil || r.msg == nil {
			o.Label("no message")
			return nil, bad
		}
		o.NonTrivial()
		if r.msg.Priority == nil || *r.msg.Priority > 191 || !validMsg(r.msg) || !r.msg.Valid() {
			return nil, fmt.Errorf("message %s is not valid", show5424(r.msg))
		}
		return &r.msg.Base, checkCodes(r.msg, &r.msg.Base, int(*r.msg.Priority))
	case 7:
		r, bad := parse3164(new3164(false, c.BestEffort, Opt3164{RFC3339: true}), []byte(c.In))
		if bad != nil || r.msg == nil {
			o.Label("no message")
			return nil, bad
		}
		o.NonTrivial()
		if r.msg.Priority == nil || *r.msg.Priority > 191 || !r.msg.Valid() {
			return nil, fmt.Errorf("message %s is not valid", show3164(r.msg))
		}
		return &r.msg.Base, checkCodes(r.msg, &r.msg.Base, int(*r.msg.Priority))
	}
	return nil, nil
}

func register26() {
	// Another rune somewhere in a name.
	runes26 := func(do func(mk func() Case26)) {
		for c := rune(1); c < 0x11000; c++ {
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			for i, s := range []string{"%cLF%c", "'LF%c", "%cNUL\"", "N%cL", "%cF", "L%c", "NU%c", "%[1]cNUL%[1]c", "LF%c", "%cLF"} {
				if i < 2 || i == 7 || int(c)%8 == i%8 || c < 0x3000 || c >= 0xfe00 && c <= 0x10000 {
					do(func() Case26 {
						t := strings.ReplaceAll(s, "[1]", "")
						return Case26{B(strings.ReplaceAll(t, "%c", string(c))), 2}
					})
				}
			}
		}
	}
	register(Def[Case26]{
		ID:   "C26",
		Rule: "cases are all the texts of up to 5 characters out of \"lfLFnuNU'\\\" x\", names in several pairs of quotes and other surroundings, other texts that could mean a trailer, all the letter cases and one byte variations of the names, random texts, and numbers from -300 to 300 and at the limits of int; non-trivial: the text names a trailer or differs from one that does in one byte, or the number is a trailer type",
		N:    30000,
		Systematic: func(t Tier, do func(mk func() Case26)) {
			alphabet := "lfLFnuNU'\" x"
			maxLen := 4
			if t.Name == "thorough" {
				maxLen = 5
			}
			var rec func(s string)
			rec = func(s string) {
				do(func() Case26 { return Case26{B(s), len(s)} })
				if len(s) < maxLen {
					for _, c := range alphabet {
						rec(s + string(c))
					}
				}
			}
			rec("")
			for _, name := range []string{"LF", "NUL"} {
				for cas := 0; cas < 1<<len(name); cas++ {
					b := []byte(name)
					for i := range b {
						if cas&(1<<i) != 0 {
							b[i] += 32
						}
					}
					for _, q1 := range []string{"", "'", "\"", "`", " "} {
						for _, q2 := range []string{"", "'", "\"", "`", " ", "\x00", "\n"} {
							s := q1 + string(b) + q2
							do(func() Case26 { return Case26{B(s), 0} })
						}
					}
				}
				for _, base := range []string{name, "'" + name + "'", "\"" + name + "\""} {
					variations(base, func(kind, at int, b byte) {
						do(func() Case26 { return Case26{B(variation(base, kind, at, b)), int(b)} })
					})
				}
			}
			// Names in several pairs of quotes, or in other surroundings, and what else could be meant for a trailer.
			around := []string{"'", "\"", "`", " ", "\t", "\n", "\x00", "\\", "(", "[", "=", "'''", "\"\"\"", "\\\"", "\ufeff", "\u201c", "&quot;"}
			for _, name := range []string{"LF", "NUL", "lf", "nul", "Lf", "nUl", "", "\n", "\x00", "x"} {
				for _, a := range around {
					do(func() Case26 { return Case26{B(a + name + a), 0} })
					for _, b := range around {
						do(func() Case26 { return Case26{B(a + name + b), 0} })
						do(func() Case26 { return Case26{B(a + b + name + b + a), 0} })
						do(func() Case26 { return Case26{B(a + b + name + a + b), 0} })
						do(func() Case26 { return Case26{B(a + b + name), 1} })
						do(func() Case26 { return Case26{B(name + a + b), 1} })
						for _, c := range around[:4] {
							do(func() Case26 { return Case26{B(a + b + c + name + c + b + a), 1} })
						}
					}
				}
				for n := 1; n < 70; n++ {
					for _, a := range []string{" ", "\"", "'", "\x00", name} {
						do(func() Case26 { return Case26{B(strings.Repeat(a, n) + name), 1} })
						do(func() Case26 { return Case26{B(name + strings.Repeat(a, n)), 1} })
						do(func() Case26 { return Case26{B(strings.Repeat(a, n) + name + strings.Repeat(a, n)), 1} })
					}
				}
			}
			for _, s := range []string{"\\n", "\\0", "\\x00", "\\x0a", "0", "1", "10", "00", "0x0A", "0x00", "U+000A", "CR", "CRLF", "LFCR", "NL", "EOL", "ETX", "NULL", "NIL", "null", "nil", "none", "newline", "linefeed", "line feed", "line-feed", "zero", "default",
				"\u240a", "\u2400", "\uff2c\uff26", "\uff2e\uff35\uff2c", "LF,NUL", "NUL LF", "LF|NUL", "trailer=LF", "TrailerType(0)", "<LF>", "^J", "^@", "lf;", "LF\r\n", "NUL\r\n", "\u212af", "\u1e3cf", "nu\u0142", "true", "false", "-1", "L", "F", "N", "UL", "NU"} {
				for _, q := range []string{"", "'", "\""} {
					for _, v := range []string{s, strings.ToLower(s), strings.ToUpper(s)} {
						do(func() Case26 { return Case26{B(q + v + q), 2} })
					}
				}
			}
			runes26(do)
			for n := -300; n <= 300; n++ {
				do(func() Case26 { return Case26{"lf", n} })
			}
			for _, n := range []int{math.MinInt, math.MaxInt, math.MinInt32, math.MaxInt32, wide(math.MaxUint32), 256, 257, 1 << 16, 1<<16 + 1, wide(1 << 32), wide(1<<32 + 1), wide(-1 << 32)} {
				do(func() Case26 { return Case26{"nul", n} })
			}
		},
		Gen: func(r *Rand, t Tier) Case26 {
			return Case26{B(r.mutate(pick(r, []string{"LF", "NUL", "lf", "nul", "'LF'", "\"nul\"", "'Nul'", "\u017f", "\u0131"}), func() string { return r.text(3) })), int(r.Int64())}
		},
		Eval: func(c Case26, o *Obs) error {
			text := string(c.Text)
			want, ok := trailerOf(text)
			if ok {
				o.Label("text of a trailer")
				o.NonTrivial()
			} else if len(text) >= 1 && len(text) <= 6 && strings.ContainsAny(text, "lLnN") {
				o.NonTrivial()
			}
			t, err := nontransparent.TrailerTypeFromString(text)
			if (err == nil) != ok || ok && t != want {
				return fmt.Errorf("TrailerTypeFromString(%+q) gives (%d, %v), want trailer: %v (%d)", text, t, err, ok, want)
			}
			if err != nil && (t == nontransparent.LF || t == nontransparent.NUL) {
				return fmt.Errorf("TrailerTypeFromString(%+q) gives %v and the error %v", text, t, err)
			}
			for _, toml := range []bool{false, true} {
				for _, before := range []nontransparent.TrailerType{nontransparent.LF, nontransparent.NUL} {
					u := before
					data := []byte(text)
					if toml {
						err = u.UnmarshalTOML(data)
					} else {
						err = u.UnmarshalText(data)
					}
					if (err == nil) != ok || ok && u != want {
						return fmt.Errorf("unmarshaling %+q (TOML: %v) gives (%d, %v), want trailer: %v (%d)", text, toml, u, err, ok, want)
					}
					if err != nil && u != before && (u == nontransparent.LF || u == nontransparent.NUL) {
						return fmt.Errorf("unmarshaling %+q gives the error %v, and %v instead of %v", text, err, u, before)
					}
					if string(data) != text {
						return fmt.Errorf("unmarshaling modified its input: %+q, was %+q", data, text)
					}
				}
			}
			for _, n := range []int{c.Num, int(want)} {
				tt := nontransparent.TrailerType(n)
				s := tt.String()
				v, verr := tt.Value()
				mt, merr := tt.MarshalText()
				if tt == nontransparent.LF || tt == nontransparent.NUL {
					o.Label("number of a trailer")
					ws, wv := "LF", 10
					if tt == nontransparent.NUL {
						ws, wv = "NUL", 0
					}
					if s != ws || verr != nil || v != wv || merr != nil || string(mt) != ws {
						return fmt.Errorf("trailer type %d has string %q, value (%d, %v), text (%q, %v)", n, s, v, verr, mt, merr)
					}
					// The owner of a text can change it.
					for i := range mt {
						mt[i] ^= 0x55
					}
					if mt, merr = tt.MarshalText(); merr != nil || string(mt) != ws || tt.String() != ws {
						return fmt.Errorf("after the first text of trailer type %d has been changed it has text (%q, %v)", n, mt, merr)
					}
					back, err := nontransparent.TrailerTypeFromString(string(mt))
					if err != nil || back != tt {
						return fmt.Errorf("text %q of trailer type %d is trailer type (%d, %v)", mt, n, back, err)
					}
				} else if s != "" || verr == nil || merr == nil || v == 10 || v == 0 || len(mt) > 0 {
					return fmt.Errorf("unknown trailer type %d has string %q, value (%d, %v), text (%q, %v)", n, s, v, verr, mt, merr)
				}
				// The option.
				for _, set := range []int{-1, 0, 1} {
					var res []sres
					col := &collector{}
					opts := []syslog.ParserOption{syslog.WithListener(col.listen)}
					expect := nontransparent.LF
					if set >= 0 {
						expect = nontransparent.TrailerType(set)
						opts = append(opts, nontransparent.WithTrailer(expect))
					}
					opts = append(opts, nontransparent.WithTrailer(tt))
					if tt == nontransparent.LF || tt == nontransparent.NUL {
						expect = tt
					}
					const m = "<1>1 - - - - - - "
					data := m + "a\n" + m + "b\x00" + m + "c\n\x00"
					res, bad := col.run(nontransparent.NewParser(opts...), &reader{data: data})
					if bad != nil {
						return bad
					}
					w, bad := modelNT(data, false, SOpt{NUL: expect == nontransparent.NUL}.trailer(), Reading{})
					if bad != nil {
						return bad
					}
					if err := compareResults(res, w.want); err != nil {
						return fmt.Errorf("trailer option %d (after option %d), the trailer must be %d: %w", n, set, expect, err)
					}
					// The option given to a constructed parser.
					if n == c.Num && (c.Text == "lf" || c.Text == "nul") {
						late := &collector{}
						p := nontransparent.NewParser(append(opts[:len(opts)-1:len(opts)-1], syslog.WithListener(late.listen))...)
						if got := nontransparent.WithTrailer(tt)(p); got != p {
							return fmt.Errorf("trailer option %d gives another parser", n)
						}
						res, bad := late.run(p, &reader{data: data})
						if bad != nil {
							return bad
						}
						if err := compareResults(res, w.want); err != nil {
							return fmt.Errorf("trailer option %d given to a constructed parser having option %d, the trailer must be %d: %w", n, set, expect, err)
						}
					}
				}
			}
			return nil
		},
	})

	register(Def[Case27]{
		ID: "C27", Raw: true,
		Rule: "cases are inputs of all the other checks, mutated messages and streams, and any bytes, given to a message parser of any configuration, to a stream parser (with readers that fail, split reads anywhere or return nothing), and to the builder after any sequence of calls; large ones of each shape (some MB), to which an answer takes well below a second when the time is proportional to the size; a case that does not end within 60 s or takes 3 GiB is a violation when it does so again; non-trivial: the input is not empty",
		N:    250000,
		Systematic: func(t Tier, do func(mk func() Case27)) {
			i := 0
			mk := func(in func() string) {
				k := i
				i++
				do(func() Case27 {
					s := in()
					h := caseKey(&[]string{s})
					return Case27{In: B(s), Opt: POpt{BSD: h&1 != 0, BestEffort: h&2 != 0, Compliant: h&4 != 0 && h&1 == 0, Opt: Opt3164{RFC3339: h&8 != 0}},
						S: SOpt{Octet: h&16 != 0, BestEffort: h&32 != 0, NUL: h&64 != 0, Limit: []int{-1, 0, 1, 20, 9000}[h>>8%5]}, Read: Reading{Fail: h&128 != 0, WithEnd: k%2 == 0}}
				})
			}
			n := 0
			thin := func(m func() string) {
				n++
				if t.Name == "thorough" || n%6 == 0 {
					mk(m)
				}
			}
			systematic5424(t, thin)
			systematic3164(t, thin)
			for a := 0; a < 256; a++ {
				mk(func() string { return string([]byte{byte(a)}) })
				for b := 0; b < 256; b++ {
					mk(func() string { return string([]byte{byte(a), byte(b)}) })
				}
			}
			for _, piece := range []string{"<", "<1>1 - ", "[a ", "\\", "\"", " ", "0", "9", "1 ", "\n", "\x00", "\xff", "[a]", "[a b=\"c\"]", "-", bom, ": ", "<1>1 - - - - - [a b=\"\\\\"} {
				for _, k := range []int{1, 2, 10, 100, 1000, 10000} {
					mk(func() string { return strings.Repeat(piece, k) })
					mk(func() string { return "<1>1 - - - - - " + strings.Repeat(piece, k) })
					mk(func() string { return "<1>Oct 11 22:14:15 h " + strings.Repeat(piece, k) })
					mk(func() string { return "<1>1 - - - - - [a b=\"" + strings.Repeat(piece, k) })
					mk(func() string { return fmt.Sprintf("%d %s", k, strings.Repeat(piece, k)) })
					mk(func() string { return strings.Repeat("5 "+piece, k) })
				}
			}
			// Large inputs.
			for k, c := range large27 {
				for v := 0; v < 8; v++ {
					do(func() Case27 {
						c.Times = 400000
						c.Opt = POpt{BSD: strings.Contains(string(c.In), "Oct"), BestEffort: v&1 != 0, Compliant: v&2 != 0}
						c.S = SOpt{Octet: c.In == "" && c.Piece[0] < '<' || strings.HasPrefix(string(c.In), "1999995") || strings.HasPrefix(string(c.In), "2000000"), BestEffort: v&4 != 0, NUL: v&2 != 0, Limit: 1 << 24}
						switch (k + v) % 4 {
						case 0:
							c.Read.Sizes = []int{1}
						case 1:
							c.Read.Sizes = []int{100}
						}
						if v == 0 {
							c.Ops = []BOp{{Kind: opParameter, A: "x", B: "y", C: "z"}}
						}
						return c
					})
				}
			}
			// Unusual limits.
			for _, l := range []int{0, 1, 2, 16, -1, math.MaxInt16} {
				for k := 0; k < 60; k++ {
					for f := 0; f < 8; f++ {
						do(func() Case27 {
							in := octetFrame("<1>1 - - - - - -") + octetFrame("<1>1 - - x") + "40 <1>1 - - - - - - xyz"
							return Case27{In: B(in[:min(k, len(in))]), S: SOpt{Octet: true, Limit: l, BestEffort: f&1 != 0}, Read: Reading{Fail: f&2 != 0, WithEnd: f&4 != 0, Sizes: []int{1 + k%4}}}
						})
					}
				}
			}
		},
		Gen: func(r *Rand, t Tier) Case27 {
			c := Case27{Opt: r.popt(), Read: r.reading()}
			c.Read.Fail = r.P(40)
			s := r.anyStream(t)
			c.S = s.Opt
			c.S.BestEffort = r.P(50)
			if r.P(20) {
				c.S.Limit = pick(r, []int{0, 1, 2, 10, 100, 1 << 16})
			}
			switch r.IntN(5) {
			case 0:
				c.In = B(r.text(30))
			case 1:
				b := make([]byte, r.IntN(60))
				for i := range b {
					b[i] = byte(r.IntN(256))
				}
				c.In = B(b)
			case 2:
				c.In = s.Data
			default:
				c.In = B(r.inputFor(c.Opt.BSD))
				if r.P(40) {
					c.In = B(r.mutate(string(c.In), r.valid3164))
				}
				if c.S.Octet && r.P(50) {
					c.In = B(octetFrame(string(c.In)))
				}
			}
			if r.P(40) {
				c.Ops = r.bops(r.In(1, 6))
			}
			if r.P(30) && len(c.In) > 0 {
				c.In = c.In[:r.IntN(len(c.In)+1)]
			}
			return c
		},
		Eval: eval27,
	})
}
