package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// The reference model of RFC 5424 messages: a recursive descent recogniser written from RFC 5424 section 6 (with the
// documented choices of the library: VERSION 1-999, nothing but calendar-valid timestamps, unique SD-IDs), independent
// from the generated automaton.

// Parts of a message, where errors occur.
const (
	partPri     = "priority"
	partVersion = "version"
	partTS      = "timestamp"
	partHost    = "hostname"
	partApp     = "app-name"
	partProc    = "procid"
	partMid     = "msgid"
	partSD      = "structured data"
	partSDID    = "structured data id"
	partDup     = "duplicated structured data id"
	partParam   = "structured data param"
	partValue   = "structured data value"
	partMsg     = "message"
)

type refTS struct {
	t   time.Time
	off int // seconds east of UTC
}

// ref5424 is what the model says about an input.
type ref5424 struct {
	ok   bool
	pos  int    // where the error is
	part string // what the error is about
	// Fields, complete before the error (or before the end).
	hasPri, hasVer           bool
	pri, ver                 int
	ts                       *refTS
	host, app, proc, mid, ms *string
	sd                       map[string]map[string]string // nil: no structured data
	errRepeated              bool                         // the error occurs in a parameter whose name is there already
	// Features, for classification.
	msgAt    int // offset of MSG, -1 when there is none
	repeated bool
	escapes  int
	params   int
}

func isGraph(b byte) bool { return b >= 33 && b <= 126 }

func isSDName(b byte) bool { return isGraph(b) && b != '=' && b != ']' && b != '"' }

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// utf8Scan checks the bytes of s from p on against RFC 3629, until stop(b) holds at a character boundary.
// It returns the position where it stopped and whether the bytes before it are valid; when they are not the position
// is that of the first byte which makes them invalid (or the length when s ends within a character).
func utf8Scan(s string, p int, stop func(b byte) bool) (int, bool) {
	for p < len(s) {
		b := s[p]
		if stop(b) {
			return p, true
		}
		need, lo, hi := 0, byte(0x80), byte(0xBF)
		switch {
		case b <= 0x7F:
		case b >= 0xC2 && b <= 0xDF:
			need = 1
		case b >= 0xE0 && b <= 0xEF:
			need = 2
			if b == 0xE0 {
				lo = 0xA0
			}
			if b == 0xED {
				hi = 0x9F
			}
		case b >= 0xF0 && b <= 0xF4:
			need = 3
			if b == 0xF0 {
				lo = 0x90
			}
			if b == 0xF4 {
				hi = 0x8F
			}
		default:
			return p, false
		}
		p++
		for ; need > 0; need-- {
			if p == len(s) || s[p] < lo || s[p] > hi {
				return p, false
			}
			lo, hi = 0x80, 0xBF
			p++
		}
	}
	return p, true
}

const bom = "\xEF\xBB\xBF"

// scanTS recognises an RFC 3339 timestamp at p with up to maxFrac fractional digits.
// It returns the end and true, or the position of the first wrong byte and false; complete tells whether an offset has
// been recognised entirely.
func scanTS(s string, p, maxFrac int) (end int, ok bool, y, mo, d, h, mi, sec, nano, off int) {
	at := p
	var digits []int
	get := func(lo, hi byte) bool {
		if at < len(s) && s[at] >= lo && s[at] <= hi {
			digits = append(digits, int(s[at]-'0'))
			at++
			return true
		}
		return false
	}
	lit := func(c byte) bool {
		if at < len(s) && s[at] == c {
			at++
			return true
		}
		return false
	}
	two := func() int { n := len(digits); return digits[n-2]*10 + digits[n-1] }
	fail := func() (int, bool, int, int, int, int, int, int, int, int) {
		return at, false, 0, 0, 0, 0, 0, 0, 0, 0
	}
	hour := func() bool {
		switch {
		case get('0', '1'):
			return get('0', '9')
		case get('2', '2'):
			return get('0', '3')
		}
		return false
	}
	sixty := func() bool { return get('0', '5') && get('0', '9') }
	if !(get('0', '9') && get('0', '9') && get('0', '9') && get('0', '9')) {
		return fail()
	}
	y = digits[0]*1000 + digits[1]*100 + digits[2]*10 + digits[3]
	if !lit('-') {
		return fail()
	}
	if get('0', '0') {
		if !get('1', '9') {
			return fail()
		}
	} else if !(get('1', '1') && get('0', '2')) {
		return fail()
	}
	mo = two()
	if !lit('-') {
		return fail()
	}
	switch {
	case get('0', '0'):
		if !get('1', '9') {
			return fail()
		}
	case get('1', '2'):
		if !get('0', '9') {
			return fail()
		}
	case get('3', '3'):
		if !get('0', '1') {
			return fail()
		}
	default:
		return fail()
	}
	d = two()
	if !lit('T') || !hour() {
		return fail()
	}
	h = two()
	if !lit(':') || !sixty() {
		return fail()
	}
	mi = two()
	if !lit(':') || !sixty() {
		return fail()
	}
	sec = two()
	if maxFrac > 0 && lit('.') {
		if !get('0', '9') {
			return fail()
		}
		n := 1
		nano = digits[len(digits)-1]
		for n < maxFrac && get('0', '9') {
			nano = nano*10 + digits[len(digits)-1]
			n++
		}
		for ; n < 9; n++ {
			nano *= 10
		}
	}
	if lit('Z') {
		return at, true, y, mo, d, h, mi, sec, nano, 0
	}
	sign := 1
	if lit('-') {
		sign = -1
	} else if !lit('+') {
		return fail()
	}
	if !hour() {
		return fail()
	}
	off = two() * 3600
	if !lit(':') || !sixty() {
		return fail()
	}
	off = sign * (off + two()*60)
	return at, true, y, mo, d, h, mi, sec, nano, off
}

func model5424(in string, compliant bool) (r ref5424) {
	r.msgAt = -1
	p := 0
	fail := func(part string) ref5424 {
		r.ok, r.pos, r.part = false, p, part
		return r
	}
	peek := func() int {
		if p < len(in) {
			return int(in[p])
		}
		return -1
	}
	// PRI
	if peek() != '<' {
		return fail(partPri)
	}
	p++
	val, nd := 0, 0
	for p < len(in) && in[p] >= '0' && in[p] <= '9' {
		if nd > 0 && val == 0 || val*10+int(in[p]-'0') > 191 {
			break
		}
		val = val*10 + int(in[p]-'0')
		nd++
		p++
	}
	if nd == 0 || peek() != '>' {
		return fail(partPri)
	}
	p++
	r.hasPri, r.pri = true, val
	// VERSION
	if b := peek(); b < '1' || b > '9' {
		return fail(partVersion)
	}
	for n := 0; n < 3 && p < len(in) && in[p] >= '0' && in[p] <= '9'; n++ {
		r.ver = r.ver*10 + int(in[p]-'0')
		p++
	}
	r.hasVer = true
	if peek() != ' ' {
		return fail(partVersion)
	}
	p++
	// TIMESTAMP
	if peek() == '-' {
		p++
	} else {
		end, ok, y, mo, d, h, mi, s, ns, off := scanTS(in, p, 6)
		p = end
		if !ok {
			return fail(partTS)
		}
		if d > daysIn(y, mo) {
			return fail(partTS)
		}
		r.ts = &refTS{time.Date(y, time.Month(mo), d, h, mi, s, ns, time.FixedZone("", off)), off}
	}
	if peek() != ' ' {
		return fail(partTS)
	}
	p++
	// HOSTNAME APP-NAME PROCID MSGID
	for _, f := range []struct {
		part string
		max  int
		to   **string
	}{{partHost, 255, &r.host}, {partApp, 48, &r.app}, {partProc, 128, &r.proc}, {partMid, 32, &r.mid}} {
		start := p
		for p < len(in) && p-start < f.max && isGraph(in[p]) {
			p++
		}
		if p == start || peek() != ' ' {
			return fail(f.part)
		}
		if v := in[start:p]; v != "-" {
			*f.to = &v
		}
		p++
	}
	// STRUCTURED-DATA
	switch peek() {
	case '-':
		p++
	case '[':
		r.sd = map[string]map[string]string{}
		for peek() == '[' {
			p++
			start := p
			for p < len(in) && p-start < 32 && isSDName(in[p]) {
				p++
			}
			id := in[start:p]
			_, dup := r.sd[id]
			if c := peek(); p == start || c != ' ' && c != ']' {
				if len(r.sd) == 0 {
					r.sd = nil
				}
				if dup && p > start {
					return fail(partDup)
				}
				return fail(partSDID)
			}
			if dup {
				return fail(partDup)
			}
			elem := map[string]string{}
			r.sd[id] = elem
			for peek() == ' ' {
				p++
				start := p
				for p < len(in) && p-start < 32 && isSDName(in[p]) {
					p++
				}
				name := in[start:p]
				_, rep := elem[name]
				if p == start || peek() != '=' {
					return fail(partParam)
				}
				p++
				r.errRepeated = rep // so far
				if peek() != '"' {
					return fail(partParam)
				}
				p++
				var val strings.Builder
				for {
					at := p
					end, ok := utf8Scan(in, p, func(b byte) bool { return b == '"' || b == '\\' || b == ']' })
					p = end
					if !ok || p == len(in) || in[p] == ']' {
						return fail(partValue)
					}
					val.WriteString(in[at:p])
					if in[p] == '"' {
						break
					}
					p++
					if c := peek(); c != '"' && c != '\\' && c != ']' {
						return fail(partValue)
					}
					val.WriteByte(in[p])
					r.escapes++
					p++
				}
				p++
				if c := peek(); c != ' ' && c != ']' {
					return fail(partParam)
				}
				if rep {
					r.repeated = true
				}
				r.errRepeated = false
				r.params++
				elem[name] = val.String()
			}
			if peek() != ']' {
				return fail(partParam)
			}
			p++
		}
	default:
		return fail(partSD)
	}
	if p == len(in) {
		r.ok, r.pos = true, p
		return r
	}
	if in[p] != ' ' {
		return fail(partSD)
	}
	p++
	// MSG
	r.msgAt = p
	msg := in[p:]
	if compliant && strings.HasPrefix(msg, bom) {
		end, ok := utf8Scan(msg, 0, func(byte) bool { return false })
		if !ok {
			if part := msg[:end]; part != "" {
				r.ms = &part
			}
			p += end
			return fail(partMsg)
		}
	}
	if msg != "" {
		r.ms = &msg
	}
	r.ok, r.pos = true, len(in)
	return r
}

// refSerialize5424 is the canonical form of the given fields.
func refSerialize5424(pri, ver int, ts *refTS, host, app, proc, mid *string, sd map[string]map[string]string, hasSD bool, ms *string) string {
	var b strings.Builder
	opt := func(s *string) {
		if s == nil {
			b.WriteString(" -")
		} else {
			b.WriteString(" " + *s)
		}
	}
	fmt.Fprintf(&b, "<%d>%d ", pri, ver)
	if ts == nil {
		b.WriteString("-")
	} else {
		b.WriteString(refFormatTS(*ts))
	}
	opt(host)
	opt(app)
	opt(proc)
	opt(mid)
	if !hasSD {
		b.WriteString(" -")
	} else {
		b.WriteString(" ")
		var idl []string
		for id := range sd {
			idl = append(idl, id)
		}
		sort.Strings(idl)
		for _, id := range idl {
			b.WriteString("[" + id)
			var names []string
			for n := range sd[id] {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				b.WriteString(" " + n + `="`)
				v := sd[id][n]
				for i := 0; i < len(v); i++ {
					if v[i] == '"' || v[i] == '\\' || v[i] == ']' {
						b.WriteByte('\\')
					}
					b.WriteByte(v[i])
				}
				b.WriteByte('"')
			}
			b.WriteString("]")
		}
	}
	if ms != nil {
		b.WriteString(" " + *ms)
	}
	return b.String()
}

func refFormatTS(ts refTS) string {
	t := ts.t
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second())
	if ns := t.Nanosecond(); ns/1000 != 0 {
		s += "." + strings.TrimRight(fmt.Sprintf("%06d", ns/1000), "0")
	}
	if ts.off == 0 {
		return s + "Z"
	}
	o, sign := ts.off, "+"
	if o < 0 {
		o, sign = -o, "-"
	}
	return s + fmt.Sprintf("%s%02d:%02d", sign, o/3600, o/60%60)
}
