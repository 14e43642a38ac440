package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// BOp is a call of a setter of the builder.
type BOp struct {
	Kind    int // see below
	N       int
	A, B, C B
	M       int // which of two messages it is called on, where that matters
	D       int // C13, C14: its value is not set, but assigned to the field: 1 when it is valid, 2 whatever it is
}

const (
	opPriority = iota
	opVersion
	opTimestamp
	opHostname
	opAppname
	opProcID
	opMsgID
	opMessage
	opElement
	opParameter
	nOps
	opCode = nOps // not a setter: assigns to the field N/512 of the priority, the facility and the severity, nil when N has the bit 256
)

var opNames = []string{"SetPriority", "SetVersion", "SetTimestamp", "SetHostname", "SetAppname", "SetProcID", "SetMsgID", "SetMessage", "SetElementID", "SetParameter", "code"}

func (op BOp) String() string {
	switch op.Kind {
	case opPriority, opVersion, opCode:
		return fmt.Sprintf("%s(%d)", opNames[op.Kind], op.N)
	case opParameter:
		return fmt.Sprintf("SetParameter(%+q, %+q, %+q)", op.A, op.B, op.C)
	}
	return fmt.Sprintf("%s(%+q)", opNames[op.Kind], op.A)
}

func (op BOp) apply(m rfc5424.Builder) rfc5424.Builder {
	switch op.Kind {
	case opPriority:
		return m.SetPriority(uint8(op.N))
	case opVersion:
		return m.SetVersion(uint16(op.N))
	case opTimestamp:
		return m.SetTimestamp(string(op.A))
	case opHostname:
		return m.SetHostname(string(op.A))
	case opAppname:
		return m.SetAppname(string(op.A))
	case opProcID:
		return m.SetProcID(string(op.A))
	case opMsgID:
		return m.SetMsgID(string(op.A))
	case opMessage:
		return m.SetMessage(string(op.A))
	case opElement:
		return m.SetElementID(string(op.A))
	case opParameter:
		return m.SetParameter(string(op.A), string(op.B), string(op.C))
	}
	return m
}

func validField(s string, limit int) bool {
	if len(s) < 1 || len(s) > limit || s == "-" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !isGraph(s[i]) {
			return false
		}
	}
	return true
}

func validSDName(s string) bool {
	if len(s) < 1 || len(s) > 32 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !isSDName(s[i]) {
			return false
		}
	}
	return true
}

// unescape tells whether s is UTF-8 with '"', '\' and ']' escaped, and what it stands for.
func unescape(s string) (string, bool) {
	if !utf8.ValidString(s) {
		return "", false
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"', ']':
			return "", false
		case '\\':
			i++
			if i == len(s) || s[i] != '"' && s[i] != '\\' && s[i] != ']' {
				return "", false
			}
		}
		b.WriteByte(s[i])
	}
	return b.String(), true
}

// model applies the operation to a message, as specified.
func (op BOp) model(m *rfc5424.SyslogMessage) {
	s := string(op.A)
	element := func() bool {
		if m.StructuredData != nil {
			if _, ok := (*m.StructuredData)[s]; ok {
				return true
			}
		}
		if !validSDName(s) {
			return false
		}
		if m.StructuredData == nil {
			m.StructuredData = &map[string]map[string]string{}
		}
		(*m.StructuredData)[s] = map[string]string{}
		return true
	}
	switch op.Kind {
	case opPriority:
		if n := int(uint8(op.N)); n <= 191 {
			p, f, v := uint8(n), uint8(n/8), uint8(n%8)
			m.Priority, m.Facility, m.Severity = &p, &f, &v
		}
	case opVersion:
		if n := int(uint16(op.N)); n >= 1 && n <= 999 {
			m.Version = uint16(n)
		}
	case opTimestamp:
		if ts := refParseTS(s); ts != nil {
			m.Timestamp = &ts.t
		}
	case opHostname:
		if validField(s, 255) {
			m.Hostname = &s
		}
	case opAppname:
		if validField(s, 48) {
			m.Appname = &s
		}
	case opProcID:
		if validField(s, 128) {
			m.ProcID = &s
		}
	case opMsgID:
		if validField(s, 32) {
			m.MsgID = &s
		}
	case opMessage:
		if s != "" {
			m.Message = &s
		}
	case opElement:
		element()
	case opParameter:
		if element() && validSDName(string(op.B)) {
			if v, ok := unescape(string(op.C)); ok {
				e := (*m.StructuredData)[s]
				if _, there := e[string(op.B)]; !there {
					e[string(op.B)] = v
				}
			}
		}
	}
}

// refParseTS is the timestamp written in s, nil when it is not one.
func refParseTS(s string) *refTS {
	r := model5424("<1>1 "+s+" - - - - -", false)
	if !r.ok || r.ts == nil || s == "-" || strings.ContainsRune(s, ' ') {
		return nil
	}
	return r.ts
}

func copyMsg(m *rfc5424.SyslogMessage) *rfc5424.SyslogMessage {
	c := *m
	str := func(p **string) {
		if *p != nil {
			v := strings.Clone(**p)
			*p = &v
		}
	}
	u8 := func(p **uint8) {
		if *p != nil {
			v := **p
			*p = &v
		}
	}
	u8(&c.Priority)
	u8(&c.Facility)
	u8(&c.Severity)
	str(&c.Hostname)
	str(&c.Appname)
	str(&c.ProcID)
	str(&c.MsgID)
	str(&c.Message)
	if c.Timestamp != nil {
		t := *c.Timestamp
		c.Timestamp = &t
	}
	if c.StructuredData != nil {
		sd := map[string]map[string]string{}
		for id, e := range *c.StructuredData {
			ne := map[string]string{}
			for n, v := range e {
				ne[strings.Clone(n)] = strings.Clone(v)
			}
			sd[strings.Clone(id)] = ne
		}
		c.StructuredData = &sd
	}
	return &c
}

// BCase is a sequence of setter calls on a message, which is new or the outcome of parsing an input.
type BCase struct {
	Start B
	Ops   []BOp
	Then  []BOp // C15: afterwards the owner assigns these to the fields of the message
}

// assign puts the value of the operation into the field itself, when the setter would take it. An empty value unsets the
// field. The timestamp gets op.N nanoseconds more. An element which is there already is deleted.
func (op BOp) assign(m *rfc5424.SyslogMessage) {
	s := string(op.A)
	field := func(p **string, limit int) {
		if s == "" {
			*p = nil
		} else if limit == 0 || validField(s, limit) {
			*p = &s
		}
	}
	switch op.Kind {
	case opPriority:
		if n := uint8(op.N); n <= 191 {
			m.ComputeFromPriority(n)
		}
	case opVersion:
		if n := uint16(op.N); n >= 1 && n <= 999 {
			m.Version = n
		}
	case opTimestamp:
		if s == "" {
			m.Timestamp = nil
		} else if ts := refParseTS(s); ts != nil {
			t := located(ts.t.Add(time.Duration(uint(op.N)%1000)), uint(op.N)/1000)
			m.Timestamp = &t
		}
	case opHostname:
		field(&m.Hostname, 255)
	case opAppname:
		field(&m.Appname, 48)
	case opProcID:
		field(&m.ProcID, 128)
	case opMsgID:
		field(&m.MsgID, 32)
	case opMessage:
		field(&m.Message, 0)
	case opElement, opParameter:
		if !validSDName(s) {
			return
		}
		if m.StructuredData == nil {
			m.StructuredData = &map[string]map[string]string{}
		}
		sd := *m.StructuredData
		e, there := sd[s]
		if op.Kind == opElement && there {
			delete(sd, s)
			return
		}
		if !there {
			e = map[string]string{}
			sd[s] = e
		}
		if op.Kind == opParameter && validSDName(string(op.B)) {
			if v, ok := unescape(string(op.C)); ok {
				if old, there := e[string(op.B)]; there && old == v {
					delete(e, string(op.B))
				} else {
					e[string(op.B)] = v
				}
			}
		}
	}
}

// located is the same instant in another kind of location, unless that cannot be written.
func located(t time.Time, how uint) time.Time {
	u := t
	switch how % 6 {
	case 1:
		u = t.In(time.Local)
	case 2:
		u = t.In(zones[zoneNames[int(how/6)%len(zoneNames)]])
	case 3:
		// With a reading of the monotonic clock, as that of time.Now.
		now := time.Now()
		if u = now.Add(t.Sub(now)); !u.Equal(t) {
			return t
		}
	case 4:
		_, off := t.Zone()
		u = t.In(time.FixedZone("Somewhere", off))
	case 5:
		u = t.UTC()
	}
	if _, off := u.Zone(); off%60 != 0 || u.Year() < 0 || u.Year() > 9999 {
		return t
	}
	return u
}

// assignAny puts the value of the operation into the field, whatever it is.
func (op BOp) assignAny(m *rfc5424.SyslogMessage) {
	s := string(op.A)
	switch op.Kind {
	case opCode:
		f := []**uint8{&m.Priority, &m.Facility, &m.Severity}[op.N/512%3]
		v := uint8(op.N)
		*f = &v
		if op.N&256 != 0 {
			*f = nil
		}
	case opPriority:
		v := uint8(op.N)
		m.Priority = &v
	case opVersion:
		m.Version = uint16(op.N)
	case opHostname:
		m.Hostname = &s
	case opAppname:
		m.Appname = &s
	case opProcID:
		m.ProcID = &s
	case opMsgID:
		m.MsgID = &s
	case opMessage:
		m.Message = &s
	case opElement, opParameter:
		if m.StructuredData == nil {
			m.StructuredData = &map[string]map[string]string{}
		}
		e := (*m.StructuredData)[s]
		if e == nil || op.Kind == opElement {
			e = map[string]string{}
			(*m.StructuredData)[s] = e
		}
		if op.Kind == opParameter {
			e[string(op.B)] = string(op.C)
		}
	default:
		op.assign(m)
	}
}

// asSent is the message as it arrives: the timestamp in microseconds, no structured data when there are no elements.
func asSent(m *rfc5424.SyslogMessage) *rfc5424.SyslogMessage {
	c := copyMsg(m)
	if c.Timestamp != nil {
		_, off := c.Timestamp.Zone()
		t := c.Timestamp
		u := time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/1000*1000, time.FixedZone("", off))
		c.Timestamp = &u
	}
	if c.StructuredData != nil && len(*c.StructuredData) == 0 {
		c.StructuredData = nil
	}
	return c
}

// undisturbed serializes messages close to m, and then m again, which was serialized as s.
func undisturbed(m *rfc5424.SyslogMessage, s string) error {
	kept := strings.Clone(s)
	for i := 0; i < 3; i++ {
		x := copyMsg(m)
		if x.Timestamp != nil {
			var t time.Time
			switch i {
			case 0: // The same instant in another zone.
				_, off := x.Timestamp.Zone()
				t = x.Timestamp.In(time.FixedZone("", off%43200+3600))
			case 1: // The same time of another zone.
				o := x.Timestamp
				t = time.Date(o.Year(), o.Month(), o.Day(), o.Hour(), o.Minute(), o.Second(), o.Nanosecond(), time.FixedZone("", 5400))
			case 2:
				t = x.Timestamp.Add(time.Microsecond)
			}
			if t.Year() >= 0 && t.Year() <= 9999 {
				x.Timestamp = &t
			}
		}
		for k, f := range []**string{&x.Hostname, &x.Appname, &x.ProcID, &x.MsgID, &x.Message} {
			if *f != nil && len(**f) > 0 && i != k {
				v := (**f)[1:] + "z"
				*f = &v
			}
		}
		if x.StructuredData != nil && i != 0 {
			for id, e := range *x.StructuredData {
				for n, v := range e {
					e[n] = v + "z"
				}
				if i == 2 {
					delete(*x.StructuredData, id)
				}
				break
			}
		}
		sd := map[string]map[string]string{}
		if x.StructuredData != nil {
			sd = *x.StructuredData
		}
		want := refSerialize5424(int(*x.Priority), int(x.Version), tsOf(x), x.Hostname, x.Appname, x.ProcID, x.MsgID, sd, len(sd) > 0, x.Message)
		if got, err := x.String(); err != nil || got != want {
			return fmt.Errorf("after another message, %s is serialized as (%+q, %v), want %+q", show5424(x), got, err, want)
		}
		if s != kept {
			return fmt.Errorf("the text of a message was %+q, and is %+q after another has been serialized", kept, s)
		}
	}
	if again, err := m.String(); err != nil || again != kept {
		return fmt.Errorf("after other messages, the message is serialized as (%+q, %v), at first %+q", again, err, kept)
	}
	return nil
}

// roundTrip serializes a message and parses it back.
func roundTrip(m *rfc5424.SyslogMessage, o *Obs) error {
	before := copyMsg(m)
	s, err := m.String()
	if e := sameMessage(m, before); e != nil {
		return fmt.Errorf("serializing changed the message: %w", e)
	}
	if m.Priority == nil || m.Version == 0 {
		o.Label("priority or version missing")
		if err == nil || s != "" {
			return fmt.Errorf("serializing %s without priority or version gives (%+q, %v)", show5424(m), s, err)
		}
		return nil
	}
	o.NonTrivial()
	if err != nil {
		return fmt.Errorf("serializing %s: %v", show5424(m), err)
	}
	r, bad := parse5424(new5424(false, false, false), []byte(s))
	if bad != nil {
		return bad
	}
	if r.err != nil || r.msg == nil {
		return fmt.Errorf("%s is serialized as %+q, parsed as %v", show5424(m), s, r)
	}
	if e := sameMessage(r.msg, asSent(m)); e != nil {
		return fmt.Errorf("serialized as %+q, and then parsed: %w", s, e)
	}
	return nil
}

func (c BCase) start() *rfc5424.SyslogMessage {
	if c.Start != "" {
		if r, _ := parse5424(new5424(false, true, false), []byte(c.Start)); r.msg != nil {
			return r.msg
		}
	}
	return &rfc5424.SyslogMessage{}
}

func (r *Rand) bop(known *[]BOp) (op BOp) {
	op.Kind = r.IntN(nOps)
	if r.P(35) {
		op.Kind = pick(r, []int{opElement, opParameter, opParameter})
	}
	field := func(limit int) B {
		s := r.again(r.graphs(r.length(limit)), limit, graphChars)
		switch r.IntN(8) {
		case 0:
			s = pick(r, []string{"", "-", "--", " ", "a b", "a ", " a", "\x7f", "a\x00", "\u00e9", "a\n", "\x80"})
		case 1:
			s = r.graphs(limit + r.In(0, 2))
		case 2:
			s = r.mutate(s, func() string { return "x" })
		}
		return B(s)
	}
	name := func() B {
		s := r.sdName(r.length(32))
		switch r.IntN(10) {
		case 0:
			s = pick(r, []string{"", "=", " ", "]", "\"", "a=b", "a b", "a]", "\"a", "\u00e9", "a\x00", "\x7f"})
		case 1:
			s = r.sdName(32 + r.In(0, 2))
		case 2:
			s = r.mutate(s, func() string { return "x" })
		case 3, 4, 5, 6:
			s = pick(r, []string{"a", "b", "c", "aa", "-", "ID@1"})
		}
		return B(s)
	}
	switch op.Kind {
	case opPriority:
		op.N = r.pri()
		if r.P(20) {
			op.N = r.In(185, 255)
		}
	case opVersion:
		op.N = r.version()
		if r.P(20) {
			op.N = pick(r, []int{0, 1000, 1001, 999, 1024, 65535, 65536 - 24, r.IntN(65536)})
		}
	case opTimestamp:
		s := r.rfc3339(6)
		switch r.IntN(6) {
		case 0:
			s = r.mutate(s, func() string { return "-" })
		case 1:
			s = pick(r, []string{"", "-", s + " ", " " + s, s + s, strings.Replace(s, "T", "t", 1), strings.Replace(s, "Z", "z", 1), r.rfc3339(9)})
		}
		op.A = B(s)
	case opHostname:
		op.A = field(255)
	case opAppname:
		op.A = field(48)
	case opProcID:
		op.A = field(128)
	case opMsgID:
		op.A = field(32)
	case opMessage:
		op.A = B(r.text(6))
		if r.P(10) {
			op.A = B(pick(r, []string{"", " ", "-", "\n", bom, "\x00", " -"}))
		}
	case opElement:
		op.A = name()
	case opParameter:
		op.A, op.B = name(), name()
		op.C = B(r.sdValueRaw())
		if r.P(25) {
			op.C = B(pick(r, []string{"", "\"", "]", "\\", "\\n", "a\"", "a]", "a\\", "\\\\\\", r.text(4), r.mutate(string(op.C), func() string { return "]" })}))
		}
	}
	if len(*known) > 0 && r.P(30) {
		// Once more, or with something changed.
		o := pick(r, *known)
		switch {
		case o.Kind == op.Kind && op.Kind == opParameter:
			op.A = o.A
			if r.P(50) {
				op.B = o.B
			}
			switch r.IntN(4) {
			case 0:
				op.A = B(r.relative(string(op.A)))
			case 1:
				op.B = B(r.relative(string(op.B)))
			}
		case o.Kind == opTimestamp:
			op = o
			if t := refParseTS(string(o.A)); t != nil && r.P(70) {
				op.A = B(t.t.In(time.FixedZone("", 60*r.In(-1439, 1439))).Format("2006-01-02T15:04:05.999999Z07:00"))
			}
		case isSDOp(o.Kind) && isSDOp(op.Kind):
			op.A = B(r.relative(string(o.A)))
		default:
			op = o
			if r.P(50) {
				op.A = B(r.relative(string(o.A)))
			}
		}
	}
	*known = append(*known, op)
	return op
}

// relative is a text close to s.
func (r *Rand) relative(s string) string {
	switch r.IntN(10) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		return s + pick(r, []string{" ", "\n", "\x00", "\t", "=", "]", "\"", "-", "."})
	case 4:
		return pick(r, []string{" ", "\n", "\x00", "\t", "=", "]", "\"", "-", "."}) + s
	case 5:
		return s + s
	case 6:
		return s[:r.IntN(len(s)+1)]
	case 7:
		return s[r.IntN(len(s)+1):]
	}
	return r.mutate(s, func() string { return "x" })
}

func (r *Rand) bops(n int) (out []BOp) {
	var known []BOp
	for i := 0; i < n; i++ {
		out = append(out, r.bop(&known))
	}
	return out
}

func genBCase(r *Rand, t Tier) BCase {
	c := BCase{Ops: r.bops(pick(r, []int{1, 2, 3, 5, 8, 12, 20}))}
	if r.P(30) {
		c.Start = B(r.any5424())
	}
	if r.P(30) {
		for i := range c.Ops {
			c.Ops[i].M = r.IntN(2)
		}
	}
	if r.P(30) {
		// The owner assigns to fields as well, and then the same value, or a close one, is set.
		var ops []BOp
		for _, op := range c.Ops {
			if r.P(40) {
				d := op
				d.D = 1 + r.IntN(2)
				if d.Kind == opTimestamp && r.P(50) {
					d.N = 1000 * r.IntN(6*len(zoneNames))
				}
				switch {
				case r.P(20):
					d.A = B(r.relative(string(d.A)))
				case r.P(10):
					d.A = ""
				case d.Kind == opPriority && r.P(70):
					ops = append(ops, op)
					d.Kind, d.N = opCode, r.IntN(3)*512+r.IntN(512)
				}
				ops = append(ops, d)
			}
			ops = append(ops, op)
		}
		c.Ops = ops
	}
	return c
}

// sysBuilder gives single calls with systematic values, on an empty and on a filled message.
func sysBuilder(kinds ...int) func(t Tier, do func(mk func() BCase)) {
	return func(t Tier, do func(mk func() BCase)) {
		filled := []BOp{{Kind: opPriority, N: 77}, {Kind: opVersion, N: 7}, {Kind: opTimestamp, A: "2001-02-03T04:05:06.789012+03:04"}, {Kind: opHostname, A: "hh"}, {Kind: opAppname, A: "aa"},
			{Kind: opProcID, A: "pp"}, {Kind: opMsgID, A: "mm"}, {Kind: opElement, A: "e"}, {Kind: opParameter, A: "f", B: "n", C: "v"}, {Kind: opMessage, A: "some message"}}
		k := 0
		after := append([]BOp{{Kind: opHostname, A: "h"}, {Kind: opAppname, A: "a"}, {Kind: opProcID, A: "1"}, {Kind: opMsgID, A: "m"}, {Kind: opElement, A: "a"}, {Kind: opParameter, A: "a", B: "b", C: "c"},
			{Kind: opParameter, A: "a", B: "b", C: ""}, {Kind: opMessage, A: "x"}, {Kind: opMessage, A: "a rather long message"}, {Kind: opTimestamp, A: "2003-10-11T22:14:15Z"}, {Kind: opHostname, A: "a b"}}, filled...)
		one := func(f func() BOp) {
			do(func() BCase { return BCase{Ops: []BOp{f()}} })
			do(func() BCase { return BCase{Ops: append(append([]BOp(nil), filled...), f())} })
			// What is set afterwards is not affected.
			k++
			next := after[k%len(after)]
			do(func() BCase { return BCase{Ops: []BOp{f(), next}} })
		}
		// What is refused, at any place of a value of any length, and then each of the others.
		for _, kind := range kinds {
			if kind == opPriority || kind == opVersion {
				continue
			}
			for _, n := range []int{1, 2, 5, 21, 31, 32, 33, 48, 64, 128, 129, 255, 256, 300, 1000} {
				for _, bad := range []string{" ", "\x00", "\x7f", "\x80", "\xff", "\"", "="} {
					for place := 0; place < 3; place++ {
						for i, next := range after {
							do(func() BCase {
								at := []int{0, n / 2, n - 1}[place]
								v := B(strings.Repeat("v", at) + bad + strings.Repeat("w", n-1-at))
								op := BOp{Kind: kind, A: v}
								if kind == opParameter {
									op = [3]BOp{{Kind: kind, A: "a", B: "b", C: v}, {Kind: kind, A: "a", B: v, C: "c"}, {Kind: kind, A: v, B: "b", C: "c"}}[(n+i)%3]
									if bad[0] >= 0x7f {
										op = BOp{Kind: kind, A: "a", B: "b", C: v}
									}
								}
								return BCase{Ops: []BOp{op, next}}
							})
						}
					}
				}
			}
		}
		// Long sequences on two messages.
		for v := 0; v < 4; v++ {
			do(func() BCase {
				c := BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}}}
				for i := 0; i < 500; i++ {
					op := BOp{Kind: kinds[i%len(kinds)], N: 1 + i%191, M: i / 3 % 2}
					switch {
					case op.Kind == opElement || op.Kind == opParameter:
						op.A, op.B, op.C = B(fmt.Sprintf("e%d", i/(1+v*40))), B(fmt.Sprintf("p%d", i)), B(fmt.Sprintf("v%d\\]", i))
					case op.Kind == opTimestamp:
						op.A = B(fmt.Sprintf("%04d-01-02T03:04:05.%06d+%02d:00", 1900+i, i*31, i%24))
					default:
						op.A = B(fmt.Sprintf("v%d", i))
					}
					if i%(5+v) == 4 {
						op.A = "a b"
					}
					c.Ops = append(c.Ops, op)
				}
				return c
			})
		}
		for _, k := range kinds {
			// Values close to the one that is there.
			for _, f := range filled {
				if f.Kind != k || k == opPriority || k == opVersion {
					continue
				}
				near := func(at func(op *BOp) *B) {
					v := string(*at(&f))
					for _, s := range []string{strings.ToUpper(v), v + v, v + " ", " " + v, v + "\n", v + "\x00", "" + v} {
						one(func() BOp { op := f; *at(&op) = B(s); op.C += "2"; return op })
					}
					variations(v, func(kind, i int, b byte) {
						one(func() BOp { op := f; *at(&op) = B(variation(v, kind, i, b)); op.C += "2"; return op })
					})
				}
				near(func(op *BOp) *B { return &op.A })
				if k == opParameter {
					near(func(op *BOp) *B { return &op.B })
				}
				if k == opTimestamp {
					t := refParseTS(string(f.A))
					for off := -1439; off <= 1439; off++ {
						one(func() BOp {
							return BOp{Kind: k, A: B(t.t.In(time.FixedZone("", 60*off)).Format("2006-01-02T15:04:05.999999Z07:00"))}
						})
					}
				}
			}
			switch k {
			case opPriority:
				for n := 0; n < 256; n++ {
					one(func() BOp { return BOp{Kind: k, N: n} })
					for _, c := range []int{256, 512 + 256, 512, 512 + n/8, 512 + n/8 + 1, 1024 + 256, 1024, 1024 + n%8, 1024 + (n+1)%8} {
						do(func() BCase {
							return BCase{Ops: []BOp{{Kind: k, N: n}, {Kind: opCode, N: c, D: 2}, {Kind: k, N: n}, {Kind: opCode, N: c, D: 2}, {Kind: k, N: n ^ 1}, {Kind: k, N: n}}}
						})
					}
				}
			case opVersion:
				for n := 0; n < 65536; n++ {
					if n < 1100 || n%7 == 0 {
						one(func() BOp { return BOp{Kind: k, N: n} })
					}
				}
			case opTimestamp:
				str := func(s string) { one(func() BOp { return BOp{Kind: k, A: B(s)} }) }
				for _, y := range specialYears {
					for m := 0; m <= 13; m++ {
						for _, d := range []int{0, 1, 28, 29, 30, 31, 32} {
							str(fmt.Sprintf("%04d-%02d-%02dT01:02:03Z", y, m, d))
						}
					}
				}
				for h := 0; h <= 24; h++ {
					for m := 0; m <= 60; m++ {
						str(fmt.Sprintf("2000-01-01T%02d:%02d:59.5+00:00", h, m))
						str(fmt.Sprintf("2000-01-01T00:00:%02d%c%02d:%02d", m, "+-"[m%2], h, m))
					}
				}
				// One after another one.
				for i, x := range extremeStamps {
					for n := range 12 {
						y := extremeStamps[(i*7+n*n*389+n)%len(extremeStamps)]
						do(func() BCase { return BCase{Ops: []BOp{{Kind: k, A: B(x)}, {Kind: k, A: B(y)}, {Kind: k, A: B(x)}}} })
					}
				}
				for _, x := range pairedStamps {
					for _, y := range pairedStamps {
						do(func() BCase { return BCase{Ops: []BOp{{Kind: k, A: B(x)}, {Kind: k, A: B(y)}, {Kind: k, A: B(x)}}} })
					}
				}
				for n := 0; n < 9; n++ {
					str("2000-01-01T00:00:00." + strings.Repeat("3", n) + "Z")
				}
				variations("2004-02-29T23:59:59.123456-07:00", func(kind, at int, b byte) {
					one(func() BOp {
						return BOp{Kind: k, A: B(variation("2004-02-29T23:59:59.123456-07:00", kind, at, b))}
					})
				})
			case opHostname, opAppname, opProcID, opMsgID, opMessage, opElement, opParameter:
				limit := map[int]int{opHostname: 255, opAppname: 48, opProcID: 128, opMsgID: 32, opMessage: 300, opElement: 32, opParameter: 32}[k]
				str := func(f func() string) {
					one(func() BOp {
						op := BOp{Kind: k, A: B(f())}
						if k == opParameter {
							op.A, op.B, op.C = "e", op.A, "x"
						}
						return op
					})
				}
				for _, list := range [][]string{hostWords, appWords, procWords, msgidWords, nullWords, sdIDWords, paramWords, valueWords, msgWords} {
					for _, x := range list {
						str(func() string { return x })
						if k == opParameter {
							one(func() BOp { return BOp{Kind: k, A: B(x), B: "n", C: "v"} })
							one(func() BOp { return BOp{Kind: k, A: "e", B: "n", C: B(x)} })
							one(func() BOp { return BOp{Kind: k, A: "meta", B: B(x), C: B(x)} })
							for _, id := range []string{"origin", "meta", "timeQuality", "ex@32473"} {
								for _, name := range paramWords {
									one(func() BOp { return BOp{Kind: k, A: B(id), B: B(name), C: B(x)} })
								}
							}
						}
					}
				}
				if k != opParameter && k != opElement {
					// One after another one.
					ws := append(append(append([]string(nil), hostWords...), nullWords...), "h", "hh", "a b", "\u00e9", bom, bom+"x", strings.Repeat("z", limit), strings.Repeat("z", limit-1), strings.Repeat("y", limit))
					for _, x := range ws {
						for _, y := range ws {
							do(func() BCase { return BCase{Ops: []BOp{{Kind: k, A: B(x)}, {Kind: k, A: B(y)}, {Kind: k, A: B(x)}}} })
						}
					}
				}
				for n := 0; n <= limit+3; n++ {
					str(func() string { return strings.Repeat("z", n) })
					str(func() string { return strings.Repeat("-", n) })
				}
				for b := 0; b < 256; b++ {
					str(func() string { return string([]byte{byte(b)}) })
					for _, base := range []string{"x", "-", strings.Repeat("y", limit-1), strings.Repeat("y", limit)} {
						str(func() string { return base + string([]byte{byte(b)}) })
						str(func() string { return string([]byte{byte(b)}) + base })
						str(func() string { return base + string([]byte{byte(b)}) + base })
						str(func() string { return base[1:] + string([]byte{byte(b)}) })
					}
				}
				if k == opMessage {
					for _, n := range sweptLengths {
						str(func() string { return filler(n) })
					}
					for _, n := range []int{1000, 4096, 32768, 65535, 65536, 65537, 200000} {
						str(func() string { return strings.Repeat("m", n) })
					}
				}
				if k == opParameter {
					for _, n := range sweptLengths {
						one(func() BOp { return BOp{Kind: k, A: "e", B: "n", C: B(fillerWord(n, n))} })
						do(func() BCase {
							return BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}, {Kind: k, A: "exampleSDID@32473", B: "eventSource", C: B(fillerWord(n, n))}, {Kind: k, A: "meta", B: "eventSource", C: B(fillerWord(0, n))}}}
						})
						one(func() BOp { return BOp{Kind: k, A: "e", B: "n", C: B(fillerWord(0, n-1) + `\]`)} })
						one(func() BOp { return BOp{Kind: k, A: "e", B: "n", C: B(`\"` + fillerWord(n, max(0, n-2)))} })
						if n%100 == 0 {
							one(func() BOp { return BOp{Kind: k, A: "e", B: "n", C: B(fillerWord(0, n-1) + "]")} })
						}
					}
					for _, n := range []int{1000, 4096, 32768, 65535, 65536, 65537} {
						one(func() BOp { return BOp{Kind: k, A: "e", B: "n", C: B(strings.Repeat("m", n))} })
						one(func() BOp { return BOp{Kind: k, A: "e", B: "n", C: B(strings.Repeat("m", n) + "]")} })
						one(func() BOp { return BOp{Kind: k, A: "e", B: "n", C: B(strings.Repeat("m", n) + "\\]")} })
					}
				}
				if k == opElement || k == opParameter {
					for _, n := range []int{40, 130, 260, 520, 1100, 1250, 2500, 5030, 10020, 20000} {
						do(func() BCase {
							var c BCase
							for j := 0; j < n; j++ {
								op := BOp{Kind: k, A: B(fmt.Sprintf("e%d", j)), B: "n", C: "v"}
								if k == opParameter && n%20 != 0 {
									op.A, op.B = "e", B(fmt.Sprintf("n%d", j))
								}
								c.Ops = append(c.Ops, op)
							}
							c.Ops = append(c.Ops, BOp{Kind: k, A: "e0", B: "n", C: "w"}, BOp{Kind: k, A: "e", B: "n0", C: "w"}, BOp{Kind: opPriority, N: 1}, BOp{Kind: opVersion, N: 1})
							return c
						})
					}
				}
				if k == opParameter {
					// So many elements having so many parameters each, and then one more in each.
					for _, ne := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 20, 31, 32, 33, 40, 64, 65} {
						for _, np := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40} {
							for v := range 3 {
								if ne*np > 600 || v == 2 && ne*np > 200 {
									continue
								}
								do(func() BCase {
									c := BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}}}
									if v > 0 {
										c.Ops = append(c.Ops, BOp{Kind: opMessage, A: "m"})
									}
									for i := range ne * np {
										e, n := i/np, i%np
										if v == 1 {
											e, n = i%ne, i/ne // In turns.
										}
										op := BOp{Kind: k, A: B(fmt.Sprintf("e%d", e)), B: B(fmt.Sprintf("n%d", n)), C: B(fmt.Sprintf("v%d", i))}
										if v == 2 {
											op.A, op.B, op.C = B(fmt.Sprintf("element%d@32473", e)), B(fmt.Sprintf("parameter%d-%d", e, n)), B(strings.Repeat("value ", 1+i%9))
										}
										c.Ops = append(c.Ops, op)
									}
									for e := range ne {
										c.Ops = append(c.Ops, BOp{Kind: k, A: B(fmt.Sprintf("e%d", e)), B: "more", C: "v"}, BOp{Kind: k, A: B(fmt.Sprintf("e%d", e)), B: "n0", C: "w"})
									}
									return c
								})
							}
						}
					}
					val := func(s string) { one(func() BOp { return BOp{Kind: k, A: "e", B: "n", C: B(s)} }) }
					for b := 0; b < 256; b++ {
						val(string([]byte{'\\', byte(b)}))
						for b2 := 0; b2 < 256; b2++ {
							val(string([]byte{byte(b), byte(b2)}))
						}
					}
					for _, s := range utf8Seqs() {
						val(s)
						val("x" + s + "y")
					}
					for n := 0; n < 300; n++ {
						val(strings.Repeat("v", n))
						val(strings.Repeat(`\]`, n))
						val(strings.Repeat(`\\`, n) + strings.Repeat("\u00e9", n%5))
						val(strings.Repeat(`\`, n))
					}
					one(func() BOp { return BOp{Kind: k, A: "", B: "n", C: "v"} })
					one(func() BOp { return BOp{Kind: k, A: "", B: "", C: ""} })
					one(func() BOp { return BOp{Kind: k, A: "f", B: "n", C: "w"} })
					one(func() BOp { return BOp{Kind: k, A: "f", B: "n", C: "\""} })
					one(func() BOp { return BOp{Kind: k, A: "f", B: "m", C: "\""} })
					one(func() BOp { return BOp{Kind: k, A: "g", B: "m", C: "\""} })
					one(func() BOp { return BOp{Kind: k, A: "g", B: "=", C: "v"} })
				}
			}
		}
	}
}

// pairedStamps are timestamps set one after the other.
var pairedStamps = []string{"0000-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "0001-01-01T00:00:00+00:00", "0001-01-01T01:00:00+01:00", "0001-01-01T00:00:00.000001Z", "1970-01-01T00:00:00Z", "1970-01-01T00:00:00.000000Z", "1970-01-01T00:00:00.000001Z", "1970-01-01T01:00:00+01:00", "1969-12-31T23:59:59Z", "1969-12-31T23:59:59.999999Z", "2000-02-29T12:00:00Z", "2003-10-11T22:14:15.003Z", "2003-10-11T22:14:15.003000Z", "2003-10-11T22:14:15.003-00:00", "2003-10-11T15:14:15.003-07:00", "2003-10-11T22:14:15Z", "2003-10-11T22:14:14.003Z", "2003-10-12T22:14:15.003Z", "2038-01-19T03:14:07Z", "2038-01-19T03:14:08Z", "9999-12-31T23:59:59Z", "9999-12-31T23:59:59.999999Z", "9999-12-31T23:59:59-23:59", "2003-10-11T22:14:15.0000001Z", "2003-02-30T00:00:00Z", "", "-"}

func isSDOp(k int) bool { return k == opElement || k == opParameter }

func withoutSD(m *rfc5424.SyslogMessage) *rfc5424.SyslogMessage {
	c := *m
	c.StructuredData = nil
	return &c
}

func onlySD(m *rfc5424.SyslogMessage) *rfc5424.SyslogMessage {
	return &rfc5424.SyslogMessage{StructuredData: m.StructuredData}
}

// evalSetters applies the operations and judges those selected.
func evalSetters(c BCase, o *Obs, sdOps bool) error {
	if len(c.Ops) > 600 {
		return evalMany(c, o, sdOps)
	}
	both := [2]*rfc5424.SyslogMessage{c.start(), {}}
	for i, op := range c.Ops {
		m, other := both[op.M&1], both[1-op.M&1]
		if op.D == 1 {
			op.assign(m)
			continue
		} else if op.D == 2 {
			op.assignAny(m)
			o.Label("a value is assigned")
			continue
		}
		otherBefore := show5424(other)
		before := copyMsg(m)
		want := copyMsg(m)
		op.model(want)
		taken := withoutSD(m)
		b := op.apply(m)
		if e := sameMessage(taken, withoutSD(before)); e != nil && !sdOps {
			return fmt.Errorf("call %d: %v changed values taken from the message before: %w", i, op, e)
		}
		if rm, ok := b.(*rfc5424.SyslogMessage); !ok || rm != m {
			return fmt.Errorf("call %d: %v does not return its message", i, op)
		}
		g, w := m, want
		if isSDOp(op.Kind) != sdOps {
			// An operation of the other property: it must leave what this one is about alone.
			w = before
			if sdOps {
				g, w = onlySD(g), onlySD(w)
			} else {
				g, w = withoutSD(g), withoutSD(w)
			}
		} else {
			o.NonTrivial()
			if show5424(before) == show5424(want) {
				o.Label(opNames[op.Kind] + ": must be ignored or changes nothing")
			} else {
				o.Label(opNames[op.Kind] + ": takes effect")
			}
		}
		if show5424(g) != show5424(w) {
			return fmt.Errorf("call %d: %v gives %s, want %s, on %s", i, op, show5424(g), show5424(w), show5424(before))
		}
		own := ownFields(&m.Base)
		if sdOps {
			own = ownElements(m)
		}
		if own != nil {
			return fmt.Errorf("call %d: after %v, %w", i, op, own)
		}
		if s := show5424(other); s != otherBefore {
			return fmt.Errorf("call %d: %v on one message changed another: %s became %s", i, op, otherBefore, s)
		}
	}
	return nil
}

// evalMany applies many operations to one message and judges it now and then.
func evalMany(c BCase, o *Obs, sdOps bool) error {
	o.NonTrivial()
	o.Label("more than 600 calls")
	m, want := c.start(), c.start()
	for i, op := range c.Ops {
		op.apply(m)
		op.model(want)
		if i%(len(c.Ops)/5) != 0 && i < len(c.Ops)-4 {
			continue
		}
		g, w := m, want
		if sdOps {
			g, w = onlySD(g), onlySD(w)
		} else {
			g, w = withoutSD(g), withoutSD(w)
		}
		if gs, ws := show5424(g), show5424(w); gs != ws {
			at := 0
			for at < len(gs) && at < len(ws) && gs[at] == ws[at] {
				at++
			}
			at = max(0, at-100)
			return fmt.Errorf("after %d calls, the last one %v: from byte %d on it is %.300s, want %.300s", i+1, op, at, gs[min(at, len(gs)):], ws[min(at, len(ws)):])
		}
	}
	return nil
}

func buildAll(start *rfc5424.SyslogMessage, ops []BOp) *rfc5424.SyslogMessage {
	for _, op := range ops {
		op.apply(start)
	}
	return start
}

func validMsg(m *rfc5424.SyslogMessage) bool {
	return m.Priority != nil && *m.Priority <= 191 && m.Version >= 1 && m.Version <= 999
}

// sameMessage compares every field, timestamps as instants with their offset.
func sameMessage(got, want *rfc5424.SyslogMessage) error {
	if g, w := show5424(got), show5424(want); g != w {
		return fmt.Errorf("got %s, want %s", g, w)
	}
	return nil
}

func tsOf(m *rfc5424.SyslogMessage) *refTS {
	if m.Timestamp == nil {
		return nil
	}
	_, off := m.Timestamp.Zone()
	return &refTS{*m.Timestamp, off}
}

// Case16 is an input to be parsed and serialized.
type Case16 struct {
	In       B
	Pri, Ver int // when not negative they are put in the message afterwards
}

func init() {
	register(Def[BCase]{
		ID:   "C13",
		Rule: "cases are single setter calls with every priority and version code, enumerated dates, times, offsets, lengths and bytes, on an empty and on a filled message, and random sequences of setter calls on new and on parsed messages; non-trivial: at least one setter of the header or of the message is called",
		N:    120000, Systematic: sysBuilder(opPriority, opVersion, opTimestamp, opHostname, opAppname, opProcID, opMsgID, opMessage), Gen: genBCase,
		Eval: func(c BCase, o *Obs) error { return evalSetters(c, o, false) },
	})
	register(Def[BCase]{
		ID:   "C14",
		Rule: "cases are single calls with enumerated ids, names and values (lengths, every byte, pairs of bytes, sequences around the limits of UTF-8) on an empty and on a filled message, and random sequences of setter calls on new and on parsed messages; non-trivial: at least one setter of the structured data is called",
		N:    120000, Systematic: sysBuilder(opElement, opParameter), Gen: genBCase,
		Eval: func(c BCase, o *Obs) error { return evalSetters(c, o, true) },
	})
	register(Def[BCase]{
		ID:   "C15",
		Rule: "cases are single setter calls with enumerated values on an empty and on a filled message, and random sequences of setter calls; non-trivial: the built message has priority and version, thus it is serialized",
		N:    150000,
		Systematic: func(t Tier, do func(mk func() BCase)) {
			sysBuilder(opPriority, opTimestamp, opHostname, opMsgID, opMessage, opElement, opParameter)(t, do)
			for _, n := range sweptLengths {
				do(func() BCase {
					return BCase{Ops: []BOp{{Kind: opPriority, N: n % 192}, {Kind: opVersion, N: 1 + n%999}}, Then: []BOp{{Kind: opParameter, A: "e", B: "n", C: B(fillerWord(n, n-1) + `\]`)}, {Kind: opParameter, A: "e", B: "o", C: B(`\"` + fillerWord(0, n) + `\\`)}}}
				})
			}
			for _, x := range extremeStamps {
				do(func() BCase {
					return BCase{Ops: []BOp{{Kind: opPriority, N: 1}, {Kind: opVersion, N: 1}, {Kind: opTimestamp, A: B(x)}}}
				})
			}
			for b := 0; b < 256; b++ {
				for b2 := 0; b2 < 256; b2++ {
					do(func() BCase {
						return BCase{Ops: []BOp{{Kind: opPriority, N: b % 192}, {Kind: opVersion, N: 1 + b2}, {Kind: opMessage, A: B([]byte{byte(b), byte(b2)})}}}
					})
				}
			}
		},
		Gen: func(r *Rand, t Tier) BCase {
			c := genBCase(r, t)
			if r.P(90) {
				i := r.IntN(len(c.Ops) + 1)
				c.Ops = append(c.Ops[:i:i], append([]BOp{{Kind: opPriority, N: r.pri()}, {Kind: opVersion, N: r.version()}}, c.Ops[i:]...)...)
			}
			if r.P(40) {
				known := append([]BOp(nil), c.Ops...)
				for n := r.In(1, 6); n > 0; n-- {
					op := r.bop(&known)
					if op.Kind > opVersion && op.Kind < opElement && r.P(20) {
						op.A = ""
					}
					if op.Kind == opTimestamp {
						op.N = r.IntN(1000) * r.IntN(2)
						if r.P(50) {
							op.N += 1000 * r.IntN(6*len(zoneNames))
						}
					}
					c.Then = append(c.Then, op)
				}
			}
			return c
		},
		Eval: func(c BCase, o *Obs) error {
			m := buildAll(c.start(), c.Ops)
			if err := roundTrip(m, o); err != nil {
				return err
			}
			for i, op := range c.Then {
				op.assign(m)
				if i%2 == 0 || i == len(c.Then)-1 {
					if err := roundTrip(m, o); err != nil {
						return fmt.Errorf("after %d assignments to fields: %w", i+1, err)
					}
				}
			}
			if m.Timestamp != nil {
				o.Label("with timestamp")
			}
			if m.StructuredData != nil {
				o.Label("with structured data")
			}
			if m.Message != nil {
				o.Label("with message")
			}
			return nil
		},
	})
	register(Def[Case16]{
		ID: "C16", Raw: true,
		Rule: "cases are systematic one byte variations of base messages, enumerated field values and lengths, random structured messages with mutations, parsed (also in best effort mode) and serialized, and messages given any priority and version code; non-trivial: the input is a valid message with at least one field that is not nil",
		N:    150000,
		Systematic: func(t Tier, do func(mk func() Case16)) {
			systematic5424(t, func(mk func() string) { do(func() Case16 { return Case16{B(mk()), -1, -1} }) })
			for p := 0; p < 256; p++ {
				for _, v := range []int{0, 1, 2, 99, 100, 101, 255, 256, 999, 1000, 1001, 65535} {
					do(func() Case16 { return Case16{"<9>3 - h - - - [a b=\"c\"] m", p, v} })
				}
			}
			for v := 0; v < 65536; v += 1 + v/2000 {
				do(func() Case16 { return Case16{"<9>3 - - - - - -", v % 200, v} })
			}
		},
		Gen: func(r *Rand, t Tier) Case16 {
			s := r.valid5424()
			if r.P(25) {
				s = r.mutate(s, r.valid5424)
			}
			c := Case16{B(s), -1, -1}
			if r.P(3) {
				c.Pri, c.Ver = r.IntN(256), r.IntN(1100)
			}
			return c
		},
		Eval: func(c Case16, o *Obs) error {
			r, bad := parse5424(new5424(false, true, false), []byte(c.In))
			if bad != nil {
				return bad
			}
			m := r.msg
			if m == nil {
				o.Label("no message")
				return nil
			}
			if c.Pri >= 0 {
				m.ComputeFromPriority(uint8(c.Pri))
			}
			if c.Ver >= 0 {
				m.Version = uint16(c.Ver)
			}
			before := copyMsg(m)
			s, err := m.String()
			if e := sameMessage(m, before); e != nil {
				return fmt.Errorf("serializing changed the message: %w", e)
			}
			if (err == nil) != validMsg(m) {
				return fmt.Errorf("serializing %s: error is %v, valid: %v", show5424(m), err, validMsg(m))
			}
			if err != nil {
				o.Label("not valid")
				if s != "" {
					return fmt.Errorf("serializing %s gives %+q and the error %v", show5424(m), s, err)
				}
				return nil
			}
			s2, err := m.String()
			if err != nil || s2 != s {
				return fmt.Errorf("serializing again gives (%+q, %v), at first %+q", s2, err, s)
			}
			if r.err != nil {
				o.Label("partial message")
			} else {
				o.Label("complete message")
			}
			sd := map[string]map[string]string{}
			if m.StructuredData != nil {
				sd = *m.StructuredData
			}
			if m.Hostname != nil || m.Message != nil || m.Timestamp != nil || len(sd) > 0 {
				o.NonTrivial()
			}
			if len(sd) > 1 {
				o.Label("two or more elements")
			}
			for _, e := range sd {
				if len(e) > 1 {
					o.Label("two or more parameters in an element")
					break
				}
			}
			// The fields of the message are judged by C02 and C03: here they are as parsed.
			want := refSerialize5424(int(*m.Priority), int(m.Version), tsOf(m), m.Hostname, m.Appname, m.ProcID, m.MsgID, sd, m.StructuredData != nil, m.Message)
			if s != want {
				return fmt.Errorf("%s is serialized as %+q, want %+q", show5424(m), s, want)
			}
			if r.err == nil && c.Pri < 0 {
				// Nothing of the input is lost.
				if w := model5424(string(c.In), false); w.ok {
					want := refSerialize5424(w.pri, w.ver, w.ts, w.host, w.app, w.proc, w.mid, w.sd, w.sd != nil, w.ms)
					if s != want {
						return fmt.Errorf("input is serialized as %+q, want %+q", s, want)
					}
				}
			}
			again, bad := parse5424(new5424(false, false, false), []byte(s))
			if bad != nil {
				return bad
			}
			if again.err != nil || again.msg == nil {
				return fmt.Errorf("serialized as %+q, which is not accepted: %v", s, again.err)
			}
			if e := sameMessage(again.msg, m); e != nil {
				return fmt.Errorf("serialized as %+q, then parsed: %w", s, e)
			}
			if e := undisturbed(m, s); e != nil {
				return e
			}
			s3, err := again.msg.String()
			if err != nil || s3 != s {
				return fmt.Errorf("serialized, parsed and serialized gives (%+q, %v), at first %+q", s3, err, s)
			}
			// The same fields in another order of elements and parameters.
			if len(sd) > 0 {
				rev := reversed5424(m, sd)
				x, bad := parse5424(new5424(false, false, false), []byte(rev))
				if bad != nil {
					return bad
				}
				if x.err == nil && x.msg != nil {
					if sx, err := x.msg.String(); err != nil || sx != s {
						return fmt.Errorf("%+q is serialized as (%+q, %v), but with another order as %+q", rev, sx, err, s)
					}
				}
			}
			return nil
		},
	})

	registerC17()
}

// reversed5424 writes the message with elements and parameters in reverse order.
func reversed5424(m *rfc5424.SyslogMessage, sd map[string]map[string]string) string {
	var b strings.Builder
	one := func(id string) {
		var names []string
		for n := range sd[id] {
			names = append(names, n)
		}
		sort.Sort(sort.Reverse(sort.StringSlice(names)))
		b.WriteString("[" + id)
		for _, n := range names {
			b.WriteString(" " + n + `="`)
			for _, c := range []byte(sd[id][n]) {
				if c == '"' || c == '\\' || c == ']' {
					b.WriteByte('\\')
				}
				b.WriteByte(c)
			}
			b.WriteByte('"')
		}
		b.WriteString("]")
	}
	b.WriteString(refSerialize5424(int(*m.Priority), int(m.Version), tsOf(m), m.Hostname, m.Appname, m.ProcID, m.MsgID, nil, true, nil))
	var idl []string
	for id := range sd {
		idl = append(idl, id)
	}
	sort.Sort(sort.Reverse(sort.StringSlice(idl)))
	for _, id := range idl {
		one(id)
	}
	if m.Message != nil {
		b.WriteString(" " + *m.Message)
	}
	return b.String()
}

// inspect writes down all that can be asked about a message.
func inspect(m syslog.Message) string {
	return fmt.Sprintf("%v %s %s %s %s %s", m.Valid(), q(m.FacilityMessage()), q(m.FacilityLevel()), q(m.SeverityMessage()), q(m.SeverityLevel()), q(m.SeverityShortLevel()))
}

func serialized(m *rfc5424.SyslogMessage) string {
	s, err := m.String()
	return fmt.Sprintf("%s | %s | %+q %v", show5424(m), inspect(m), s, err)
}

// Case17 are messages being built at the same time.
type Case17 struct {
	Builds   []BCase
	Schedule []int
	Each     bool // the messages are looked at after each call
}

func (c Case17) run(m *rfc5424.SyslogMessage, ops []BOp) string {
	if !c.Each {
		return serialized(buildAll(m, ops))
	}
	h := fnv.New64a()
	for i, op := range ops {
		op.apply(m)
		io.WriteString(h, serialized(m))
		// Codes out of the ranges.
		x := &rfc5424.SyslogMessage{Version: uint16(i * 13)}
		x.ComputeFromPriority(uint8(255 - i))
		io.WriteString(h, inspect(x))
	}
	return fmt.Sprintf("%s (with what was seen before: %x)", serialized(m), h.Sum64())
}

func registerC17() {
	register(Def[Case17]{
		ID:   "C17",
		Race: true,
		Rule: "cases are 2 to 8 (sometimes up to 300) random sequences of setter calls, each for a message of its own, run alone, interleaved call by call by a random schedule in one goroutine, and all at once in goroutines of their own (built with the race detector); also the systematic calls of C13 and C14 by three goroutines at once, which look at their message after each call; non-trivial: at least two messages have two or more calls each",
		N:    6000, MaxScale: 12,
		Systematic: sweep17,
		Gen: func(r *Rand, t Tier) (c Case17) {
			for n := r.several(); n > 0; n-- {
				b := genBCase(r, t)
				if r.P(60) {
					b.Ops = append([]BOp{{Kind: opPriority, N: r.pri()}, {Kind: opVersion, N: r.version()}}, b.Ops...)
				}
				c.Builds = append(c.Builds, b)
			}
			if r.P(20) {
				// Twins: the very same calls with values that differ.
				b := c.Builds[0]
				b.Ops = append([]BOp(nil), b.Ops...)
				for i := range b.Ops {
					if b.Ops[i].Kind == opParameter {
						b.Ops[i].C += "z"
					}
				}
				c.Builds = append(c.Builds, b)
			}
			for i, b := range c.Builds {
				for range b.Ops {
					c.Schedule = append(c.Schedule, i)
				}
			}
			r.Shuffle(len(c.Schedule), func(i, j int) { c.Schedule[i], c.Schedule[j] = c.Schedule[j], c.Schedule[i] })
			return c
		},
		Eval: func(c Case17, o *Obs) error {
			busy := 0
			if len(c.Builds) == 0 {
				return nil
			}
			want := make([]string, len(c.Builds))
			for _, b := range c.Builds {
				if len(b.Ops) >= 2 {
					busy++
				}
			}
			if busy >= 2 {
				o.NonTrivial()
			}
			o.Label(fmt.Sprintf("%d messages", len(c.Builds)))
			// At the same time, before any of it is done by one goroutine alone.
			atOnce := func() []string {
				got := make([]string, len(c.Builds))
				var wg sync.WaitGroup
				gate := make(chan struct{})
				for i, b := range c.Builds {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								got[i] = fmt.Sprint("panic: ", r)
							}
						}()
						m := b.start()
						<-gate
						got[i] = c.run(m, b.Ops)
					}()
				}
				close(gate)
				wg.Wait()
				return got
			}
			first := atOnce()
			second := atOnce()
			for i, b := range c.Builds {
				want[i] = c.run(b.start(), b.Ops)
				for _, got := range [][]string{first, second} {
					if got[i] != want[i] {
						return fmt.Errorf("message %d built at the same time as others is %s, alone it is %s", i, got[i], want[i])
					}
				}
			}
			// Interleaved.
			ms := make([]*rfc5424.SyslogMessage, len(c.Builds))
			next := make([]int, len(c.Builds))
			for i, b := range c.Builds {
				if c.Each {
					break
				}
				ms[i] = b.start()
			}
			for _, i := range c.Schedule {
				if i >= 0 && i < len(ms) && !c.Each && next[i] < len(c.Builds[i].Ops) {
					c.Builds[i].Ops[next[i]].apply(ms[i])
					next[i]++
				}
			}
			for i, b := range c.Builds {
				if c.Each {
					break
				}
				buildAll(ms[i], b.Ops[next[i]:])
				if got := serialized(ms[i]); got != want[i] {
					return fmt.Errorf("message %d built while others are being built is %s, alone it is %s", i, got, want[i])
				}
			}
			// One message read by several goroutines, also without a facility or a severity.
			for variant := 0; variant < 2; variant++ {
				got := make([]string, 4)
				var wg sync.WaitGroup
				gate := make(chan struct{})
				b := c.Builds[0]
				m := buildAll(b.start(), b.Ops)
				if variant == 1 {
					if m.Priority == nil {
						break
					}
					m.Facility = nil
					m.Severity = nil
				}
				alone := copyMsg(m)
				for i := range got {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								got[i] = fmt.Sprint("panic: ", r)
							}
						}()
						<-gate
						got[i] = serialized(m)
					}()
				}
				close(gate)
				wg.Wait()
				want[0] = serialized(alone)
				for i := range got {
					if got[i] != want[0] {
						return fmt.Errorf("a message read by several goroutines at once is %s, alone it is %s", got[i], want[0])
					}
				}
			}
			return nil
		},
	})
}

var _ = errors.New
