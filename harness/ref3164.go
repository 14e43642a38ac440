package main

import (
	"time"
)

// The reference model of RFC 3164 messages, as documented by the library.

const (
	part3Msg = "message"
)

type opts3164 struct {
	rfc3339 bool
	year    int            // 0: none
	tz      *time.Location // WithTimezone
	locale  *time.Location // WithLocaleTimezone
}

type ref3164 struct {
	ok                  bool
	pos                 int
	part                string
	hasPri              bool
	pri                 int
	ts                  *refTS
	tsZone              *time.Location
	tsMaybe             bool // the timestamp is complete but not followed by a space: it may or may not be reported
	isRFC3339           bool
	skipTS              bool    // 29 February in a year that is not a leap year, or a local time which does not exist or exists twice
	tsEither            []refTS // the moments which a local time that exists twice may mean
	host, tag, cont, ms *string
	msgAt               int
	split               bool
}

var months = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

func isVisible(b byte) bool { return b >= 32 && b <= 126 || b >= 128 }

// scanStamp recognises "Mmm dd hh:mm:ss" at p.
func scanStamp(s string, p int) (end int, ok bool, mo, d, h, mi, sec int) {
	at := p
	// The longest prefix of s which is a prefix of some month.
	best := 0
	for i, m := range months {
		n := 0
		for n < 3 && p+n < len(s) && s[p+n] == m[n] {
			n++
		}
		if n > best {
			best = n
		}
		if n == 3 {
			mo = i + 1
		}
	}
	at = p + best
	if mo == 0 {
		return at, false, 0, 0, 0, 0, 0
	}
	is := func(lo, hi byte) bool {
		if at < len(s) && s[at] >= lo && s[at] <= hi {
			at++
			return true
		}
		return false
	}
	dig := func(i int) int {
		if s[i] == ' ' {
			return 0
		}
		return int(s[i] - '0')
	}
	fail := func() (int, bool, int, int, int, int, int) { return at, false, 0, 0, 0, 0, 0 }
	if !is(' ', ' ') {
		return fail()
	}
	switch {
	case is(' ', ' '):
		if !is('1', '9') {
			return fail()
		}
	case is('1', '2'):
		if !is('0', '9') {
			return fail()
		}
	case is('3', '3'):
		if !is('0', '1') {
			return fail()
		}
	default:
		return fail()
	}
	d = dig(at-2)*10 + dig(at-1)
	if !is(' ', ' ') {
		return fail()
	}
	switch {
	case is('0', '1'):
		if !is('0', '9') {
			return fail()
		}
	case is('2', '2'):
		if !is('0', '3') {
			return fail()
		}
	default:
		return fail()
	}
	h = dig(at-2)*10 + dig(at-1)
	if !is(':', ':') || !is('0', '5') || !is('0', '9') {
		return fail()
	}
	mi = dig(at-2)*10 + dig(at-1)
	if !is(':', ':') || !is('0', '5') || !is('0', '9') {
		return fail()
	}
	sec = dig(at-2)*10 + dig(at-1)
	return at, true, mo, d, h, mi, sec
}

func model3164(in string, o opts3164) (r ref3164) {
	r.msgAt = -1
	p := 0
	fail := func(part string) ref3164 {
		r.ok, r.pos, r.part = false, p, part
		return r
	}
	peek := func() int {
		if p < len(in) {
			return int(in[p])
		}
		return -1
	}
	if peek() != '<' {
		return fail(partPri)
	}
	p++
	val, nd := 0, 0
	for p < len(in) && in[p] >= '0' && in[p] <= '9' {
		if nd > 0 && val == 0 || val*10+int(in[p]-'0') > 191 {
			break
		}
		val = val*10 + int(in[p]-'0')
		nd++
		p++
	}
	if nd == 0 || peek() != '>' {
		return fail(partPri)
	}
	p++
	r.hasPri, r.pri = true, val
	// Timestamp
	var complete *refTS
	var zone *time.Location
	if c := peek(); o.rfc3339 && c >= '0' && c <= '9' {
		r.isRFC3339 = true
		end, ok, y, mo, d, h, mi, s, _, off := scanTS(in, p, 0)
		p = end
		if !ok {
			return fail(partTS)
		}
		if d > daysIn(y, mo) {
			return fail(partTS)
		}
		complete = &refTS{time.Date(y, time.Month(mo), d, h, mi, s, 0, time.FixedZone("", off)), off}
	} else {
		end, ok, mo, d, h, mi, s := scanStamp(in, p)
		p = end
		if !ok {
			return fail(partTS)
		}
		if d > daysIn(0, mo) {
			return fail(partTS)
		}
		if mo == 2 && d == 29 && daysIn(o.year, 2) != 29 {
			r.skipTS = true
		}
		loc := time.UTC
		if o.locale != nil {
			loc = o.locale
		}
		t := time.Date(o.year, time.Month(mo), d, h, mi, s, 0, loc)
		// Local times which do not exist or exist twice have no single right answer.
		wall := time.Date(o.year, time.Month(mo), d, h, mi, s, 0, time.UTC)
		seen := map[int]bool{}
		var means []refTS
		for _, dt := range []time.Duration{0, -26 * time.Hour, 26 * time.Hour} {
			_, off := t.Add(dt).Zone()
			u := wall.Add(-time.Duration(off) * time.Second).In(loc)
			if _, at := u.Zone(); at == off && !seen[off] {
				seen[off] = true
				if o.tz != nil {
					u = u.In(o.tz)
				}
				_, at := u.Zone()
				means = append(means, refTS{u, at})
			}
		}
		if len(means) != 1 {
			if len(means) > 1 && !r.skipTS {
				r.tsEither = means
			}
			r.skipTS = true
		}
		if o.tz != nil {
			t = t.In(o.tz)
		}
		_, off := t.Zone()
		complete = &refTS{t, off}
		zone = t.Location()
	}
	if peek() != ' ' {
		r.tsMaybe = true
		r.ts, r.tsZone = complete, zone
		return fail(partTS)
	}
	r.ts, r.tsZone = complete, zone
	p++
	// Hostname
	start := p
	for p < len(in) && p-start < 255 && isGraph(in[p]) {
		p++
	}
	if p == start || peek() != ' ' {
		return fail(partHost)
	}
	if v := in[start:p]; v != "-" {
		r.host = &v
	}
	p++
	// Message
	r.msgAt = p
	msg := in[p:]
	tag, cont, rest, split := splitMsg3164(msg)
	if split {
		r.split = true
		if tag != "-" {
			r.tag = &tag
		}
		if cont != "" && cont != "-" {
			r.cont = &cont
		}
	}
	for p < len(in) && isVisible(in[p]) {
		p++
	}
	if p < len(in) || msg == "" {
		return fail(part3Msg)
	}
	if split {
		r.ms = &rest
	} else {
		r.ms = &msg
	}
	r.ok, r.pos = true, len(in)
	return r
}

// splitMsg3164 tells the tag, the content and the rest of a message when it has them.
func splitMsg3164(s string) (tag, cont, rest string, ok bool) {
	i := 0
	for i < len(s) && i < 32 && isGraph(s[i]) && s[i] != ':' && s[i] != '[' {
		i++
	}
	if i == 0 {
		return
	}
	tag = s[:i]
	if i < len(s) && s[i] == '[' {
		j := i + 1
		for j < len(s) && isVisible(s[j]) && s[j] != ']' {
			j++
		}
		if j == len(s) || s[j] != ']' {
			return
		}
		cont = s[i+1 : j]
		i = j + 1
	}
	if i+2 >= len(s) || s[i] != ':' || s[i+1] != ' ' || !isVisible(s[i+2]) {
		return
	}
	return tag, cont, s[i+2:], true
}
