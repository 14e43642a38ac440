package main

import (
	"fmt"
	"strings"
	"time"
)

// Generators of messages. They build valid messages part by part (with lengths and values at and around the limits) and
// then, often, mutate them.

const graphChars = "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

var interesting = []byte("\x00\x01\t\n\r\x1f !\"#'(*+,-./0123456789:;<=>?@AFJMNSTZ[\\]^_`abcdefz{|}~\x7f\x80\x81\x8f\x90\x9f\xa0\xbb\xbf\xc0\xc1\xc2\xc3\xdf\xe0\xe1\xec\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xf8\xfe\xff")

var utf8Pieces = []string{"\u00e9", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\uffff", "\ufeff", "\U00010000", "\U0003ffff", "\U00040000", "\U000fffff", "\U00100000", "\U0010ffff", "\u65e5\u672c", "\U0001f600"}

var badUTF8Pieces = []string{"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2", "\xc2A", "\xdf\xc0", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xe1\x80", "\xe1\x80A", "\xed\xa0\x80", "\xed\xbf\xbf", "\xee\x80", "\xef\xbb", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80", "\xf1\x80\x80A", "\xf4\x90\x80\x80", "\xf4\x8f\xbf", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff"}

func (r *Rand) graph() byte { return graphChars[r.IntN(len(graphChars))] }

func (r *Rand) graphs(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = r.graph()
	}
	return string(b)
}

const sdNameChars = "!#$%&'()*+,-./0123456789:;<>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\^_`abcdefghijklmnopqrstuvwxyz{|}~"

func (r *Rand) sdName(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sdNameChars[r.IntN(len(sdNameChars))]
	}
	return r.again(string(b), 32, sdNameChars)
}

// again gives s or, now and then, a text given lately, or one which differs from that only at an end. It is no longer
// than limit and has only characters of the set.
func (r *Rand) again(s string, limit int, set string) string {
	if len(r.seen) > 0 && r.P(7) {
		x := pick(r, r.seen)
		switch r.IntN(8) {
		case 0:
			x += "x"
		case 1:
			x = x[:len(x)-1]
		case 2:
			x = strings.ToUpper(x)
		}
		ok := x != "" && len(x) <= limit
		for i := 0; ok && i < len(x); i++ {
			ok = strings.IndexByte(set, x[i]) >= 0
		}
		if ok {
			return x
		}
	}
	if len(s) > 0 && len(s) <= 48 {
		if len(r.seen) == 6 {
			r.seen = append(r.seen[:0], r.seen[1:]...)
		}
		r.seen = append(r.seen, s)
	}
	return s
}

// length is a field length from 1 to limit, often at the limits.
func (r *Rand) length(limit int) int {
	switch r.IntN(10) {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return limit
	case 3:
		return limit - 1
	case 4:
		return r.In(1, limit)
	default:
		return r.In(1, min(limit, 9))
	}
}

func (r *Rand) field(limit int) string {
	switch r.IntN(12) {
	case 0, 1:
		return "-"
	case 2:
		return "--"
	case 3:
		return "-" + r.graphs(1)
	case 4:
		return pick(r, append([]string{"host", "app", "1234", "ID47", "mymachine.example.com", "0", "<", "[", "\"", "]"}, pick(r, [][]string{hostWords, appWords, procWords, msgidWords, nullWords})...))
	default:
		return r.again(r.graphs(r.length(limit)), limit, graphChars)
	}
}

func (r *Rand) pri() int {
	if r.P(50) {
		return pick(r, []int{0, 1, 7, 8, 9, 10, 19, 20, 99, 100, 101, 119, 165, 180, 189, 190, 191})
	}
	return r.IntN(192)
}

func (r *Rand) version() int {
	if r.P(50) {
		return pick(r, []int{1, 2, 9, 10, 19, 99, 100, 101, 255, 256, 511, 512, 998, 999})
	}
	return r.In(1, 999)
}

var specialYears = []int{0, 1, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2004, 2019, 2020, 2023, 2024, 2038, 2100, 2400, 9996, 9999}

// date is mostly an existing one.
func (r *Rand) date() (y, m, d int) {
	y = r.IntN(10000)
	if r.P(60) {
		y = pick(r, specialYears)
	}
	m = r.In(1, 12)
	if r.P(15) {
		m = 2
	}
	d = r.In(1, daysIn(y, m))
	switch r.IntN(10) {
	case 0:
		d = daysIn(y, m)
	case 1:
		d = 1
	case 2:
		if r.P(30) {
			d = r.In(28, 31)
		}
	}
	return
}

func (r *Rand) clock() string {
	if r.P(15) {
		return pick(r, []string{"00:00:00", "23:59:59", "00:00:00", "23:59:59", "23:00:00", "00:00:59", "00:59:59", "09:59:09", "19:09:59", "20:00:00", "12:34:56"})
	}
	return fmt.Sprintf("%02d:%02d:%02d", r.IntN(24), r.IntN(60), r.IntN(60))
}

func (r *Rand) offset() string {
	switch r.IntN(8) {
	case 0, 1, 2:
		return "Z"
	case 3:
		return pick(r, []string{"+00:00", "-00:00", "+23:59", "-23:59", "+14:00", "-12:00", "+05:30", "-03:30", "+00:01", "-00:01", "+20:00", "+19:00"})
	default:
		return fmt.Sprintf("%s%02d:%02d", pick(r, []string{"+", "-"}), r.IntN(24), r.IntN(60))
	}
}

func (r *Rand) frac(maxDigits int) string {
	n := r.IntN(maxDigits + 1)
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.IntN(10))
		if r.P(25) {
			b[i] = pick(r, []byte("09"))
		}
	}
	return "." + string(b)
}

func (r *Rand) rfc3339(maxFrac int) string {
	y, m, d := r.date()
	if r.P(15) {
		// Where dates, seconds and fractions end and begin.
		s := pick(r, []string{"12-31", "01-01", "02-28", "03-01", "06-30", "10-31"}) + "T" + pick(r, []string{"23:59:59", "00:00:00", "00:00:00", "12:59:59", "00:00:01", "23:00:00"})
		if maxFrac >= 6 {
			s += pick(r, append([]string{"", ".999999", ".000001"}, extremeFracs...))
		}
		return fmt.Sprintf("%04d-%s%s", y, s, r.offset())
	}
	return fmt.Sprintf("%04d-%02d-%02dT%s%s%s", y, m, d, r.clock(), r.frac(maxFrac), r.offset())
}

var extremeFracs = []string{"", ".0", ".000000", ".000001", ".000999", ".001", ".000010", ".1", ".5", ".500000", ".499999", ".9", ".999", ".999000", ".999999", ".999990"}

// extremeStamps are the moments at which the parts of a time go from the largest value to the smallest.
var extremeStamps = func() (out []string) {
	for _, day := range []string{"0000-01-01", "0000-12-31", "0001-01-01", "1969-12-31", "1970-01-01", "1999-12-31", "2000-02-29", "2023-02-28", "2024-06-30", "9999-12-31"} {
		for _, clock := range []string{"00:00:00", "00:00:59", "00:59:59", "11:59:59", "12:00:00", "23:59:59", "01:02:03"} {
			for i, frac := range extremeFracs {
				for k, offset := range []string{"Z", "+00:00", "-00:00", "+23:59", "-23:59", "+00:01", "-00:01", "-08:00"} {
					if day == "1999-12-31" || (i+k)%4 == 0 {
						out = append(out, day+"T"+clock+frac+offset)
					}
				}
			}
		}
	}
	// What counts the time since 1970, or since 1900, goes beyond a power of two or of ten.
	for _, at := range []int64{0, -2208988800, 2085978496, 1 << 30, 1 << 31, 1 << 32, 1 << 33, 1 << 34, 1 << 35, 1 << 36, 1 << 37, -1 << 30, -1 << 31, -1 << 32, -1 << 33, -1 << 34, -1 << 35, 1000000000, 1234567890, 10000000000, 100000000000, -1000000000, -10000000000,
		9223372036, 9223372037, -9223372036, -9223372037, 9007199254, 9007199255, 4294967, 2147483, 281474976, 253402300799, -62135596800} {
		for d := int64(-1); d <= 1; d++ {
			for i, offset := range []int{0, 0, 3600, -3600, 86340, -86340, 19800} {
				t := time.Unix(at+d, 0).In(time.FixedZone("", offset))
				if t.Year() < 0 || t.Year() > 9999 {
					continue
				}
				z := t.Format("Z07:00")
				if i == 1 {
					z = "+00:00"
				}
				for _, frac := range []string{"", ".000000", ".999999", ".854775", ".854776"} {
					out = append(out, t.Format("2006-01-02T15:04:05")+frac+z)
				}
			}
		}
	}
	return out
}()

// equalParts5424 are messages having the same text, or nearly the same, in two parts.
func equalParts5424(do func(mk func() string)) {
	for n := 1; n <= 40; n++ {
		texts := []string{fillerWord(n, n), strings.Repeat("a", n), strings.Repeat("-", n)}
		for _, x := range texts {
			for _, y := range []string{x, x + "b", x[:n-1], strings.ToUpper(x), "b" + x[1:]} {
				if y == "" {
					continue
				}
				for i := 0; i < 8; i++ {
					for k := 0; k < 8; k++ {
						if i == k {
							continue
						}
						do(func() string {
							p := [8]string{"-", "-", "-", "-", "e", "p", "v", "m"}
							p[i], p[k] = x, y
							return fmt.Sprintf(`<1>1 - %s %s %s %s [%s %s="%s"] %s`, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])
						})
					}
				}
				do(func() string { return fmt.Sprintf(`<1>1 - - - - - [%s p="1"][%s p="2"]`, x, y) })
				do(func() string { return fmt.Sprintf(`<1>1 - - - - - [e %s="1" %s="2"]`, x, y) })
				do(func() string { return fmt.Sprintf(`<1>1 - - - - - [e p="%s" q="%s"]`, x, y) })
				do(func() string { return fmt.Sprintf(`<1>1 - - - - - [e p="%s"][f p="%s"]`, x, y) })
				do(func() string { return fmt.Sprintf(`<1>1 - - - - - [e %s="1"][f %s="2"]`, x, y) })
			}
			if n <= 32 {
				s := fmt.Sprintf(`<1>1 - %s %s %s %s [%s %s="%s"] %s`, x, x, x, x, x, x, x, x)
				do(func() string { return s })
			}
		}
	}
}

func equalParts3164(do func(mk func() string)) {
	for n := 1; n <= 40; n++ {
		for _, x := range []string{fillerWord(n, n), strings.Repeat("a", n), strings.Repeat("-", n)} {
			for _, y := range []string{x, x + "b", x[:n-1], strings.ToUpper(x), "b" + x[1:]} {
				if y == "" {
					continue
				}
				for i := 0; i < 4; i++ {
					for k := 0; k < 4; k++ {
						if i != k {
							do(func() string {
								p := [4]string{"h", "t", "c", "m"}
								p[i], p[k] = x, y
								return fmt.Sprintf("<1>Oct 11 22:14:15 %s %s[%s]: %s", p[0], p[1], p[2], p[3])
							})
							do(func() string {
								p := [4]string{"h", "t", "c", "m"}
								p[i], p[k] = x, y
								return fmt.Sprintf("<1>Oct 11 22:14:15 %s %s: %s%s", p[0], p[1], p[3], p[2])
							})
						}
					}
				}
			}
			do(func() string { return fmt.Sprintf("<1>Oct 11 22:14:15 %s %s[%s]: %s", x, x, x, x) })
			do(func() string { return fmt.Sprintf("<1>Oct 11 22:14:15 %s %s: %s", x, x, x) })
			do(func() string { return fmt.Sprintf("<1>Oct 11 22:14:15 %s %s", x, x) })
		}
	}
}

// Values of the kinds real messages have.
var (
	hostWords  = []string{"localhost", "127.0.0.1", "::1", "0.0.0.0", "192.0.2.1", "255.255.255.255", "fe80::1%eth0", "2001:db8::1", "[::1]", "mymachine", "mymachine.example.com", "HOST.EXAMPLE.COM", "host.example.com.", "localhost.localdomain", "-host", "host-1", "web_01", "localhost4", "localhost6"}
	appWords   = []string{"su", "sudo", "sshd", "CRON", "cron", "kernel", "kern", "systemd", "systemd-logind", "postfix/smtpd", "dhcpd", "evntslog", "evntsys", "myproc", "/usr/sbin/cron", "rsyslogd", "rsyslogd-2177", "syslog", "syslogd", "java.lang.Thread", "%ASA-6-302013", "app.exe", "nginx", "haproxy", "docker/0a1b2c"}
	procWords  = []string{"0", "1", "00", "01", "-1", "10", "8710", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "0x1f", "1e3", "1.5", "+1", "111-222"}
	msgidWords = []string{"ID47", "TCPIN", "TCPOUT", "MSGID", "NOMSGID", "mark", "--MARK--", "audit"}
	nullWords  = []string{"-", "--", "NIL", "nil", "NILVALUE", "null", "NULL", "none", "None", "N/A", "n/a", "undefined", "unknown", "true", "false", "NaN", "?", "_", ".", "*", "%s", "%d", "%!s(MISSING)", "$1", "{}", "[]", "()", "<nil>", "\\n", "\\", "''"}
	sdIDWords  = []string{"timeQuality", "origin", "meta", "exampleSDID@32473", "examplePriority@32473", "ex@0", "@1", "a@", "a@b@c", "ID@", "timequality", "Origin", "META", "relay", "x-", "x_y", "-@1"}
	paramWords = []string{"tzKnown", "isSynced", "syncAccuracy", "ip", "enterpriseId", "software", "swVersion", "sequenceId", "sysUpTime", "language", "iut", "eventSource", "eventID", "class", "key", "id", "name", "value", "_", "a.b", "TZKNOWN"}
	valueWords = []string{"", "0", "1", "true", "60000000", "192.0.2.1", "2147483647", "en-US", "i-default", "Application", "1011", "high", "a b", " ", "=", "a=b", "[x]", "<1>1 - - - - - -", "\\\\", `\"\"`, `\]`, "%d", "\n", "\t", "\x00", "caf\u00e9"}
	msgWords   = []string{"", " ", "  ", "-", "- -", "--- MARK ---", "-- MARK --", "last message repeated 2 times", "message repeated 5 times: [x]", "'su root' failed for lonvick on /dev/pts/8", "%% It's time to make the do-nuts.", "An application event log entry...", "{\"a\": [1, \"b\"]}", "@cee: {\"a\":1}", "CEF:0|a|b|c|d|e|f|", "key=value k2=\"v 2\"", "<1>1 - - - - - -", "<13>Oct 11 22:14:15 h a: b", "1 2003-10-11T22:14:15Z h", "[e p=\"v\"]", "[1]", "#12", "line one\nline two", "\ttab", "#012", "su: x", "su[1]: x", "0", "12 <1>1", "\u65e5\u672c"}
)

// ordinary5424 are messages having these values, some of them cut or with something wrong in a later part.
func ordinary5424(do func(mk func() string)) {
	lists := [8][]string{hostWords, appWords, procWords, msgidWords, sdIDWords, paramWords, valueWords, msgWords}
	send := func(p [8]string) {
		do(func() string {
			return fmt.Sprintf(`<13>1 2003-10-11T22:14:15Z %s %s %s %s [%s %s="%s"] %s`, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])
		})
	}
	start := [8]string{"h", "a", "p", "i", "e", "n", "v", "m"}
	for i, list := range lists {
		for _, x := range append(append([]string(nil), list...), nullWords...) {
			p := start
			p[i] = x
			send(p)
			for k := range p {
				for _, bad := range []string{"\x01", "\xff", "a\u00e9 ] \" ", ""} {
					if k != i {
						y := p
						y[k] += bad
						if bad == "" {
							y[k] = ""
						}
						send(y)
					}
				}
			}
			for k, other := range lists {
				for n, x := range other {
					if k > i && (k == i+1 || n%5 == i%5) {
						y := p
						y[k] = x
						send(y)
					}
				}
			}
			do(func() string { return fmt.Sprintf("<13>1 - %s %s %s %s - %s", p[0], p[1], p[2], p[3], p[7]) })
			do(func() string { return fmt.Sprintf("<13>1 - %s %s %s %s -", p[0], p[1], p[2], p[3]) })
			do(func() string { return fmt.Sprintf("<13>1 - %s %s %s %s", p[0], p[1], p[2], p[3]) })
			do(func() string {
				return fmt.Sprintf(`<13>1 - - - - - [%s][%s %s="%s" %s="%s"]`, p[4], "z", p[5], p[6], "z", p[6])
			})
			do(func() string { return fmt.Sprintf(`<13>1 - - - - - [%s %s="%s`, p[4], p[5], p[6]) })
			do(func() string { return fmt.Sprintf(`<13>1 - - - - - [%s %s="%s"`, p[4], p[5], p[6]) })
		}
	}
}

func ordinary3164(do func(mk func() string)) {
	lists := [4][]string{hostWords, appWords, procWords, msgWords}
	send := func(p [4]string) {
		do(func() string { return fmt.Sprintf("<13>Oct 11 22:14:15 %s %s[%s]: %s", p[0], p[1], p[2], p[3]) })
		do(func() string { return fmt.Sprintf("<13>2003-10-11T22:14:15Z %s %s: %s", p[0], p[1], p[3]) })
	}
	for i, list := range lists {
		for _, x := range append(append([]string(nil), list...), nullWords...) {
			p := [4]string{"h", "a", "1", "m"}
			p[i] = x
			send(p)
			for k := range p {
				for _, bad := range []string{"\x01", "\xff", " ", ""} {
					if k != i {
						y := p
						y[k] += bad
						if bad == "" {
							y[k] = ""
						}
						send(y)
					}
				}
			}
			for k, other := range lists {
				for _, x := range other {
					if k > i {
						y := p
						y[k] = x
						send(y)
					}
				}
			}
			do(func() string { return fmt.Sprintf("<13>Oct 11 22:14:15 %s %s", p[0], p[3]) })
			do(func() string { return fmt.Sprintf("<13>Oct 11 22:14:15 %s %s", p[1], p[3]) })
			do(func() string { return fmt.Sprintf("<13>Oct 11 22:14:15 h %s", x) })
			do(func() string { return fmt.Sprintf("<13>Oct 11 22:14:15 h %s:", x) })
			do(func() string { return fmt.Sprintf("<13>Oct 11 22:14:15 h %s[%s", p[1], p[2]) })
			do(func() string { return fmt.Sprintf("<13>Oct 11 22:14:15 %s", x) })
		}
	}
}

// text is any byte string.
func (r *Rand) text(maxPieces int) string {
	var b strings.Builder
	n := r.IntN(maxPieces + 1)
	for i := 0; i < n; i++ {
		switch r.IntN(9) {
		case 0:
			b.WriteString(pick(r, utf8Pieces))
		case 1:
			b.WriteString(pick(r, badUTF8Pieces))
		case 2:
			b.WriteByte(byte(r.IntN(256)))
		case 3:
			b.WriteByte(pick(r, interesting))
		case 4:
			b.WriteString(pick(r, []string{" ", "\n", "\x00", "<", "12 <", ": ", "[1]: ", bom, "\r\n", "-"}))
		default:
			b.WriteString(r.graphs(r.In(1, 6)))
		}
	}
	return b.String()
}

// utf8Text is a valid UTF-8 string.
func (r *Rand) utf8Text(maxPieces int) string {
	var b strings.Builder
	n := r.IntN(maxPieces + 1)
	for i := 0; i < n; i++ {
		switch r.IntN(5) {
		case 0, 1:
			b.WriteString(pick(r, utf8Pieces))
		case 2:
			b.WriteRune(r.anyRune())
		case 3:
			b.WriteByte(byte(r.IntN(128)))
		default:
			b.WriteString(r.graphs(r.In(1, 5)))
		}
	}
	return b.String()
}

func (r *Rand) anyRune() rune {
	for {
		var c rune
		switch r.IntN(4) {
		case 0:
			c = rune(r.IntN(0x80))
		case 1:
			c = rune(r.In(0x80, 0x7ff))
		case 2:
			c = rune(r.In(0x800, 0xffff))
		default:
			c = rune(r.In(0x10000, 0x10ffff))
		}
		if c < 0xd800 || c > 0xdfff {
			return c
		}
	}
}

// sdValueRaw is a PARAM-VALUE as written in a message (escaped).
func (r *Rand) sdValueRaw() string {
	if r.P(25) {
		const valueChars = "!#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[^_`abcdefghijklmnopqrstuvwxyz{|}~"
		b := make([]byte, r.In(1, 8))
		for i := range b {
			b[i] = valueChars[r.IntN(len(valueChars))]
		}
		return r.again(string(b), 255, valueChars)
	}
	var b strings.Builder
	n := r.IntN(7)
	if r.P(10) {
		n = r.IntN(40)
	}
	for i := 0; i < n; i++ {
		switch r.IntN(8) {
		case 0, 1:
			b.WriteString(pick(r, []string{`\"`, `\\`, `\]`}))
		case 2:
			b.WriteString(pick(r, utf8Pieces))
		case 3:
			b.WriteString(pick(r, []string{" ", "=", "[", "\n", "\x00", "\x7f", "-", `\\\\`, `\"\"`, `\]\]`, "n", " x"}))
		case 4:
			b.WriteRune(r.anyRuneNoDelim())
		default:
			for k := r.In(1, 4); k > 0; k-- {
				b.WriteByte(sdNameChars[r.IntN(len(sdNameChars)-27)])
			}
		}
	}
	return b.String()
}

func (r *Rand) anyRuneNoDelim() rune {
	for {
		if c := r.anyRune(); c != '"' && c != '\\' && c != ']' {
			return c
		}
	}
}

func (r *Rand) sd() string {
	if r.P(20) {
		return "-"
	}
	var b strings.Builder
	ne := pick(r, []int{1, 1, 1, 2, 2, 3, 4})
	if r.P(2) {
		ne = r.In(5, 40)
	}
	var idl []string
	for i := 0; i < ne; i++ {
		id := r.sdName(r.length(32))
		if r.P(40) {
			id = pick(r, append([]string{"a", "b", "id", "ID", "ex@32473", "-", "1"}, sdIDWords...)) + pick(r, []string{"", "", "x", "1", "2"})
		}
		if len(idl) > 0 && r.P(10) {
			id = pick(r, idl)
		}
		if len(idl) > 0 && r.P(8) {
			// Differs only a little from another one.
			id = idl[len(idl)-1]
			switch {
			case len(id) < 32 && r.P(50):
				id += "x"
			case len(id) > 1:
				id = id[:len(id)-1]
			default:
				id = "zz"
			}
		}
		if !r.P(10) {
			dup := false
			for _, x := range idl {
				dup = dup || x == id
			}
			if dup {
				id = fmt.Sprintf("u%d-%d", i, r.IntN(1000))
			}
		}
		idl = append(idl, id)
		b.WriteString("[" + id)
		np := pick(r, []int{0, 0, 1, 1, 2, 3, 4})
		if r.P(2) {
			np = r.In(5, 40)
		}
		var names []string
		for k := 0; k < np; k++ {
			name := r.sdName(r.length(32))
			if r.P(40) {
				name = pick(r, append([]string{"a", "b", "x", "key", "-", "eventSource"}, paramWords...))
			}
			if len(names) > 0 && r.P(15) {
				name = pick(r, names)
			}
			names = append(names, name)
			b.WriteString(" " + name + `="` + r.sdValueRaw() + `"`)
		}
		b.WriteString("]")
	}
	return b.String()
}

func (r *Rand) msg5424() string {
	switch r.IntN(12) {
	case 0, 1:
		return ""
	case 2:
		return " "
	case 3:
		return " " + bom
	case 4, 5:
		return " " + bom + r.utf8Text(6)
	case 6:
		return " " + bom + r.utf8Text(3) + pick(r, badUTF8Pieces) + r.utf8Text(2)
	case 7:
		return " " + pick(r, []string{"\xef", "\xef\xbb", "\xef\xbb\xbe", "x" + bom, " " + bom, "\xef\xbb\xc0"}) + r.text(4)
	case 8:
		return " " + pick(r, []string{" ", "  x", "-", "x ", "\n", "a\nb", "\x00", "x\n", "\t"})
	case 9:
		if r.P(30) {
			return " " + strings.Repeat(r.graphs(1)+r.text(1), r.In(1, 600))
		}
		fallthrough
	default:
		if r.P(10) {
			return " " + r.again(r.graphs(r.In(1, 6)), 255, graphChars)
		}
		return " " + r.text(8)
	}
}

// valid5424 is a valid message (but for a few impossible days, duplicated ids and MSGs that are not compliant).
func (r *Rand) valid5424() string {
	ts := "-"
	if !r.P(25) {
		ts = r.rfc3339(6)
	}
	return fmt.Sprintf("<%d>%d %s %s %s %s %s %s%s", r.pri(), r.version(), ts, r.field(255), r.field(48), r.field(128), r.field(32), r.sd(), r.msg5424())
}

// valid5424Small is a short one.
func (r *Rand) valid5424Small() string {
	return fmt.Sprintf("<%d>%d %s %s %s %s %s %s%s", r.pri(), r.version(), pick(r, []string{"-", "2003-10-11T22:14:15.003Z"}), r.graphs(r.In(1, 2)), "a", "-", pick(r, []string{"-", "m"}),
		pick(r, []string{"-", "[a]", `[a b="c"]`}), pick(r, []string{"", " ", " x", " <1>2", " 3 <", " \n", " \x00"}))
}

// largeSizes are around the sizes which buffers have.
var largeSizes = []int{511, 512, 1024, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 70000}

// sweptLengths are all the lengths up to about 2000, and above it the round ones with those next to them.
var sweptLengths = func() (out []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for n := 1; n <= 2100; n++ {
		add(n)
	}
	near := func(n int) {
		for d := -1; d <= 1; d++ {
			add(n + d)
		}
	}
	for n := 2100; n <= 10000; n += 100 {
		near(n)
	}
	for n := 2560; n <= 16384; n += 512 {
		near(n)
	}
	for n := 11000; n <= 40000; n += 1000 {
		near(n)
	}
	for n := 50000; n <= 100000; n += 10000 {
		near(n)
	}
	for _, n := range []int{32767, 32768, 65535, 65536, 98304, 131072, 150000, 200000} {
		near(n)
	}
	return out
}()

// sweptCounts are numbers of things.
var sweptCounts = func() (out []int) {
	for n := 71; n <= 260; n++ {
		out = append(out, n)
	}
	return append(out, 299, 300, 301, 399, 400, 499, 500, 501, 511, 512, 513, 600, 700, 750, 767, 768, 800, 900, 1001, 1023, 1025, 1500, 2000, 2047, 2048, 2049, 4096, 5000, 10000, 20000, 33000, 66000)
}()

// many is s repeated up to a large size, sometimes with something else in between.
func (r *Rand) many(s string) string {
	n := pick(r, largeSizes) + r.In(-4, 4)
	s = strings.Repeat(s, n/len(s)+1)
	if r.P(40) {
		at := r.IntN(len(s))
		s = s[:at] + string([]byte{pick(r, interesting)}) + s[at:]
	}
	return s
}

// mutate changes a few things.
func (r *Rand) mutate(s string, other func() string) string {
	n := pick(r, []int{1, 1, 1, 2, 3})
	for ; n > 0; n-- {
		if s == "" {
			return other()
		}
		// Often near a delimiter, where the parts meet.
		at := r.IntN(len(s))
		if r.P(40) {
			for k := at; k < len(s) && k < at+60; k++ {
				if isStructural(s[k]) {
					at = min(len(s)-1, max(0, k+r.In(-1, 1)))
					break
				}
			}
		}
		c := pick(r, interesting)
		if r.P(15) {
			c = byte(r.IntN(256))
		}
		end := min(len(s), at+r.In(1, 12))
		switch r.IntN(12) {
		case 11:
			s += pick(r, separators) + other()
		case 0, 1:
			s = s[:at] + string([]byte{c}) + s[at+1:]
		case 2, 3:
			s = s[:at] + string([]byte{c}) + s[at:]
		case 4:
			s = s[:at] + s[at+1:]
		case 5:
			s = s[:at]
		case 6:
			s = s[:at] + s[end:]
		case 7:
			s = s[:end] + s[at:]
		case 8:
			o := other()
			k := 0
			if len(o) > 0 {
				k = r.IntN(len(o))
			}
			s = s[:at] + o[k:]
		case 9:
			s = s[:at] + string([]byte{s[at] + byte(r.In(-1, 1))}) + s[at+1:]
		case 10:
			if r.P(4) {
				s = s[:at] + r.many(s[at:end]) + s[at:]
			} else {
				s = s[:at] + strings.Repeat(s[at:at+1], r.In(2, 140)) + s[at:]
			}
		}
	}
	return s
}

// any5424 is a message that is valid about half of the times.
func (r *Rand) any5424() string {
	switch {
	case r.P(3):
		return r.soup([]string{"<", ">", "1", "13", "191", ">1 ", "<34>1 ", " - - - - - ", "-", " ", "[", "]", "a", "=", "\"", "\\", "b=\"c\"", "2003-10-11T22:14:15Z", bom, "x"})
	case r.P(50):
		return r.mutate(r.valid5424(), r.valid5424)
	}
	return r.valid5424()
}

func (r *Rand) soup(tokens []string) string {
	var b strings.Builder
	for n := r.IntN(12); n > 0; n-- {
		b.WriteString(pick(r, tokens))
	}
	return b.String()
}

// stamp is mostly an existing date.
func (r *Rand) stamp() string {
	_, m, d := r.date()
	if m == 2 && d == 29 && r.P(70) {
		d = 28
	}
	return fmt.Sprintf("%s %2d %s", months[m-1], d, r.clock())
}

func (r *Rand) visible(maxLen int) string {
	n := r.IntN(maxLen + 1)
	b := make([]byte, n)
	for i := range b {
		switch r.IntN(6) {
		case 0:
			b[i] = byte(r.In(128, 255))
		case 1:
			b[i] = pick(r, []byte(" :[]-<>"))
		default:
			b[i] = byte(r.In(32, 126))
		}
	}
	return string(b)
}

func (r *Rand) tag() string {
	const tagChars = "!\"#$%&'()*+,-./0123456789;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
	if r.P(25) {
		return pick(r, append([]string{"-", "su", "app", "my-app", "a", "%ASA-1-106021", "]", "--"}, appWords...))
	}
	n := pick(r, []int{1, 2, 3, 5, 8, 31, 32, 33, r.In(1, 40)})
	b := make([]byte, n)
	for i := range b {
		b[i] = tagChars[r.IntN(len(tagChars))]
	}
	return r.again(string(b), 40, tagChars)
}

func (r *Rand) msg3164() string {
	switch r.IntN(10) {
	case 0, 1:
		m := r.visible(20)
		if r.P(10) {
			m = r.again(m, 60, graphChars)
		}
		return r.tag() + ": " + m
	case 2, 3:
		c := r.visible(8)
		if r.P(20) {
			t := r.tag()
			return t + "[" + r.again(t, 40, graphChars) + "]: " + r.again(r.visible(20), 60, graphChars)
		}
		if r.P(60) {
			c = pick(r, []string{"", "1", "123", "-", "a b", "[", ":", ": ", "a[b", "\xff", " ", "--", strings.Repeat("9", 40)})
		}
		return r.tag() + "[" + c + "]: " + r.visible(20)
	case 4:
		return r.tag() + pick(r, []string{":", "[1]:", "[1]", "[1", "[", "[]:", "[1] :", " :", "[1]]:", ": :", "::", ":\t"}) + r.visible(6)
	case 5:
		return pick(r, []string{":", " ", "[", "a", "-", " a: b", "[1]: x", ": x", "a:b: c", "a[b[c]: d", "a]: b", "\xe9: x", "a\xe9: x", "a: ", "a[1]: ", "a:  ", "a: -", "-: -"})
	case 6:
		return r.visible(60)
	case 7:
		return r.graphs(r.In(28, 36)) + r.visible(4)
	case 8:
		return r.text(6)
	default:
		return r.tag() + ": " + r.tag() + "[" + r.visible(3) + "]: " + r.visible(10)
	}
}

// valid3164 is mostly a valid message.
func (r *Rand) valid3164() string {
	ts := r.stamp()
	if r.P(35) {
		ts = r.rfc3339(0)
	}
	return fmt.Sprintf("<%d>%s %s %s", r.pri(), ts, r.field(255), r.msg3164())
}

func (r *Rand) any3164() string {
	switch {
	case r.P(3):
		return r.soup([]string{"<", ">", "1", "13", "<34>", "Oct ", "11 ", " 1 ", "22:14:15 ", "host ", "su: ", "a", "[1]: ", "-", " ", ":", "Jan 10 00:00:00 "})
	case r.P(45):
		return r.mutate(r.valid3164(), r.valid3164)
	}
	return r.valid3164()
}

// ------------------------------------------------------------------------------------------------ systematic cases

// bases5424 are messages which, prefix by prefix, go through every situation of the grammar.
func bases5424(t Tier) []string {
	seq := func(n int, from byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + byte(int(from)+i)%26
		}
		return string(b)
	}
	long := "<191>999 2003-10-11T22:14:15.003007+23:59 " + seq(255, 0) + " " + seq(48, 3) + " " + seq(128, 5) + " " + seq(32, 9) +
		" [" + seq(32, 1) + " " + seq(32, 2) + `="v\"\\\]w"][` + seq(32, 4) + " " + seq(32, 7) + `=""] m`
	out := []string{
		"<0>1 - - - - - -",
		"<9>1 - - - - - - ",
		"<34>1 2003-10-11T22:14:15.003Z mymachine.example.com su - ID47 - " + bom + "'su root' failed for lonvick on /dev/pts/8",
		"<165>12 2003-08-24T05:14:15.000003-07:00 192.0.2.1 myproc 8710 - - %% It's time",
		`<165>1 2003-10-11T22:14:15Z - evntslog 1 ID47 [exampleSDID@32473 iut="3" eventSource="App" eventID="1011"][b][c x="y"] ` + bom + "An \u00e9\u65e5\U0001f600 entry",
		`<7>123 1999-12-31T23:59:59.9+00:00 h a p m [a b="\]\\\"z" b="2" c=""]`,
		`<19>9 2004-02-29T00:00:00.123456-23:59 - - - - [1@2 a="` + "\u00e9\u0800\ud7ff\ue000\U00010000\U00040000\U0010ffff" + `"][2 x=" "] <1>2 - x`,
		`<1>10 - a b c d [x][y][z] ` + bom,
		"<199>1 - - - - - -",
		"<19a>1 - - - - - -",
		`<20>100 2020-02-30T12:00:00Z - - - - -`,
		`<20>100 2020-06-30T12:00:00Z - - - - [a][b][a x="y"]`,
		`<20>100 2020-06-30T12:00:00Z - - - - [a x="y" x="\]\]"][a]`,
		"<34>1 - - - - - - " + "x\x00\xff\xef\xbb\xbf\xc3(",
		"<34>1 - - - - - - \xef\xbbx",
		long,
	}
	if t.Name == "thorough" {
		r := newRand("bases5424", 1)
		for i := 0; i < 60; i++ {
			out = append(out, r.valid5424())
		}
	}
	return out
}

func bases3164(t Tier) []string {
	seq := func(n int, from byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + byte(int(from)+i)%26
		}
		return string(b)
	}
	out := []string{
		"<34>Oct 11 22:14:15 mymachine su: 'su root' failed for lonvick on /dev/pts/8",
		"<0>Jan  1 00:00:00 - -",
		"<13>Dec  2 16:31:03 host app[123]: Test",
		"<191>Feb 28 23:59:59 h my-app[]: x",
		"<9>Jun 30 20:10:20 h a[b[c: d]: e",
		"<9>Jul 31 20:10:20 h [1]: e",
		"<9>Apr 09 09:09:09 h x",
		"<9>Aug 10 19:29:39 h a: b: c[1]: d",
		"<19>Sep 19 10:00:00 \xff x",
		"<100>Nov 30 10:00:00 h \xe9t\xe9: x",
		"<100>Mar 31 10:00:00 h a:b c",
		"<100>May 20 10:00:00 h a[1] b",
		"<28>2019-12-02T16:49:23+02:00 host app[23410]: Test",
		"<28>2020-02-29T16:49:23Z - a: b",
		"<28>2021-02-29T16:49:23-23:59 - a: b",
		"<28>2021-11-20T06:09:03.5Z - a: b",
		"<29>Apr 31 10:00:00 h x",
		"<29>Oct 12 10:00:00 " + seq(255, 0) + " " + seq(32, 3) + "[" + seq(8, 3) + "]: m",
		"<29>Oct 12 10:00:00 h " + seq(33, 3) + ": m",
		"<29>Oct 12 10:00:00 h " + seq(32, 3) + ": m",
		"<29>Oct 12 10:00:00 h a: ",
		"<29>Oct 12 10:00:00 h a[x]:",
	}
	for _, m := range months {
		out = append(out, "<1>"+m+" 10 10:10:10 h m")
	}
	if t.Name == "thorough" {
		r := newRand("bases3164", 1)
		for i := 0; i < 60; i++ {
			out = append(out, r.valid3164())
		}
	}
	return out
}

// variations calls f on every one byte variation of the base: a byte replaced or inserted, and the prefix followed by the
// byte alone. It also gives every prefix.
func variations(base string, f func(kind, at int, b byte)) {
	for at := 0; at <= len(base); at++ {
		f(3, at, 0)
		for b := 0; b < 256; b++ {
			if at < len(base) {
				f(0, at, byte(b))
			}
			f(1, at, byte(b))
			f(2, at, byte(b))
		}
		if at < len(base) {
			f(4, at, 0)
		}
	}
}

func variation(base string, kind, at int, b byte) string {
	switch kind {
	case 0:
		return base[:at] + string([]byte{b}) + base[at+1:]
	case 1:
		return base[:at] + string([]byte{b}) + base[at:]
	case 2:
		return base[:at] + string([]byte{b})
	case 3:
		return base[:at]
	default:
		return base[:at] + base[at+1:]
	}
}

// enumerated5424 gives the enumerated inputs which do not depend on bases.
func enumerated5424(do func(mk func() string)) {
	s := func(format string, a ...any) {
		do(func() string { return fmt.Sprintf(format, a...) })
	}
	// Every PRI of up to three digits, and some longer ones.
	for i := 0; i < 1000; i++ {
		s("<%d>1 - - - - - -", i)
		s("<%02d>1 - - - - - -", i)
		s("<%03d>1 - - - - - -", i)
		s("<%d>1 - - - - - - x", i+1000)
		s("<%d", i)
		s("<%d>", i)
	}
	// Every VERSION of up to four digits.
	for i := 0; i < 10000; i++ {
		s("<1>%d - - - - - -", i)
		if i < 1000 {
			s("<1>%03d - - - - - -", i)
			s("<1>%d", i)
			s("<1>%dx", i)
		}
	}
	// Every day of the special years, and every day from 1 to 31 of each month.
	for _, y := range specialYears {
		for m := 0; m <= 13; m++ {
			for d := 0; d <= 32; d++ {
				s("<1>1 %04d-%02d-%02dT01:02:03Z - - - - -", y, m, d)
			}
		}
	}
	// The last day of February of every year.
	for y := 0; y < 10000; y++ {
		s("<1>1 %04d-02-29T01:02:03Z - - - - -", y)
	}
	// Every time of day and every offset.
	for h := 0; h <= 25; h++ {
		for m := 0; m <= 61; m++ {
			s("<1>1 2000-01-31T%02d:%02d:59Z - - - - -", h, m)
			s("<1>1 2000-12-31T23:%02d:%02d.1Z - - - - -", m, h)
			s("<1>1 2000-12-31T23:59:%02d%c%02d:00 - - - - -", m, "+-"[m%2], h)
			s("<1>1 2000-01-01T00:00:00+%02d:%02d - - - - -", h, m)
			s("<1>1 2000-01-01T00:00:00.9-%02d:%02d - - - - -", h, m)
		}
	}
	// Fractions.
	for n := 0; n <= 9; n++ {
		for _, d := range "0123456789" {
			s("<1>1 2000-01-01T00:00:00.%sZ - - - - -", strings.Repeat(string(d), n))
			s("<1>1 2000-01-01T00:00:00.%s%cZ - - - - -", strings.Repeat("0", n), d)
			s("<1>1 2000-01-01T00:00:00.%c%s+01:00 - - - - -", d, strings.Repeat("0", n))
		}
	}
	// Field lengths.
	for i, limit := range []int{255, 48, 128, 32} {
		for n := 0; n <= limit+3; n++ {
			f := []any{"-", "-", "-", "-"}
			f[i] = strings.Repeat("a", n)
			s("<1>1 - %s %s %s %s -", f...)
			f[i] = "-" + strings.Repeat("~", n)
			s("<1>1 - %s %s %s %s - m", f...)
		}
	}
	for n := 0; n <= 36; n++ {
		x := strings.Repeat("i", n)
		s("<1>1 - - - - - [%s]", x)
		s("<1>1 - - - - - [a][%s] m", x)
		s("<1>1 - - - - - [a][b%s x=\"y\"] m", x)
		s(`<1>1 - - - - - [a %s="v"]`, x)
		s(`<1>1 - - - - - [a %s="v" b%s="w"][c %s="v"]`, x, x, x)
	}
	// Numbers of elements and of parameters, lengths of values.
	for n := 1; n <= 70; n++ {
		do(func() string {
			b := "<1>1 - - - - - "
			for i := 0; i < n; i++ {
				b += fmt.Sprintf("[e%d]", i)
			}
			return b
		})
		do(func() string {
			b := "<1>1 - - - - - [e"
			for i := 0; i < n; i++ {
				b += fmt.Sprintf(` p%d="%d"`, i, i)
			}
			return b + "] m"
		})
		s(`<1>1 - - - - - [e p="%s" q="1"]`, strings.Repeat(`\]`, n))
		s(`<1>1 - - - - - [e p="%s" q="1"]`, strings.Repeat(`x`, n*37))
		s(`<1>1 - - - - - - %s`, strings.Repeat(`x`, n*137))
	}
	for sec := 0; sec < 62; sec++ {
		s("<1>1 2000-06-30T12:34:%02d.%06dZ - - - - -", sec, sec*16127)
		s("<1>1 2000-06-30T12:34:%02d-00:%02d - - - - -", sec, sec)
	}
	// Many elements, parameters and escapes, large values and messages, also with an error at their end.
	for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 999, 1000, 1024, 3000} {
		elems := func() string {
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, `[e%d n%d="v%d"]`, i, i, i)
			}
			return b.String()
		}
		params := func() string {
			var b strings.Builder
			b.WriteString("[e")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, ` p%d="%d\]"`, i, i)
			}
			return b.String()
		}
		for _, end := range []string{"", " m", "[e0]", "[x", "[x a=\"b", "]"} {
			do(func() string { return "<1>1 - - - - - " + elems() + end })
			do(func() string { return "<1>1 - - - - - " + params() + "]" + end })
		}
		for _, end := range []string{"", " ", ` a="\x`, ` p0="again"]`, ` p0="`} {
			do(func() string { return "<1>1 - - - - - " + params() + end })
		}
		for _, esc := range []string{`\]`, `\"`, `\\`, `x\]`, `\\\"`} {
			for _, end := range []string{`" q="1"] m`, `\`, `]`, "\xff"} {
				do(func() string { return `<1>1 - - - - - [e p="` + strings.Repeat(esc, n) + end })
			}
		}
	}
	for _, n := range []int{4095, 4096, 8192, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200000} {
		for _, x := range []string{"x", "\u00e9", "- ", "1"} {
			for _, end := range []string{`" q="1"] m`, `\x"]`, "\xff", `\]"`, `"`} {
				do(func() string { return `<1>1 - - - - - [e p="` + strings.Repeat(x, n/len(x)) + end })
			}
			do(func() string { return "<1>1 - - - - - - " + strings.Repeat(x, n/len(x)) })
			do(func() string { return "<1>1 - - - - - - " + bom + strings.Repeat(x, n/len(x)) })
			do(func() string { return "<1>1 - - - - - - " + bom + strings.Repeat(x, n/len(x)) + "\xff" })
			do(func() string { return "<1>1 - - - - - - " + bom + strings.Repeat(x, n/len(x)) + "\xc3" })
		}
		do(func() string { return "<1>1 - " + strings.Repeat("h", n) + " - - - -" })
		do(func() string { return "<1>1 - - - - - [" + strings.Repeat("h", n) + "]" })
	}
	for _, n := range sweptLengths {
		const head = "<1>1 - - - - - - "
		do(func() string { return head + filler(n) })
		do(func() string { return head + filler(max(0, n-len(head))) })
		do(func() string { return head + bom + filler(max(0, n-5)) + "\u20acz" })
		do(func() string { return `<1>1 - - - - - [e p="` + fillerWord(0, n) + `" q="1"] m` })
		do(func() string { return `<1>1 - - - - - [e p="` + fillerWord(n, n-1) + `\]" q="1"] m` })
		do(func() string { return `<1>1 - - - - - [e p="\\` + fillerWord(n, n-2) + `"] m` })
		if n <= 5000 || n%100 == 0 {
			do(func() string { return `<1>1 - - - - - [e p="` + fillerWord(0, n) + `\x"]` })
			do(func() string { return head + filler(n/2) + "\xff" + filler(n-n/2-1) })
		}
		// The input ends, or is wrong, exactly there.
		const value = `<1>1 2003-10-11T22:14:15Z h a p i [e p="`
		if n > len(value) {
			do(func() string { return value + fillerWord(n, n-len(value)) })
			do(func() string { return value + fillerWord(0, n-len(value)) + `]" q="r"] m` })
			do(func() string { return value + `1"] ` + bom + filler(max(0, n-len(value)-7)) + "\xff" })
		}
	}
	for _, n := range sweptCounts {
		do(func() string {
			var b strings.Builder
			b.WriteString("<1>1 - - - - - ")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "[x%d n=\"%d\"]", i, i)
			}
			return b.String()
		})
		do(func() string {
			var b strings.Builder
			b.WriteString("<1>1 - - - - - [x")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, " n%d=\"%d\"", i, i)
			}
			return b.String() + "] m"
		})
		s(`<1>1 - - - - - [e p="%s" q="1"]`, strings.Repeat(`x\]y`, n))
	}
	for _, x := range extremeStamps {
		s("<1>1 %s - - - - -", x)
	}
	equalParts5424(do)
	ordinary5424(do)
	// Sequences after the backslash, and pairs of bytes in values.
	for b := 0; b < 256; b++ {
		c := string([]byte{byte(b)})
		s(`<1>1 - - - - - [e p="\%s"]`, c)
		s(`<1>1 - - - - - [e p="x\\%s"]`, c)
		s(`<1>1 - - - - - [e p="x\]%s"]`, c)
		for b2 := 0; b2 < 256; b2++ {
			s(`<1>1 - - - - - [e p="%s"]`, c+string([]byte{byte(b2)}))
		}
	}
	for _, mid := range utf8Seqs() {
		s(`<1>1 - - - - - [e p="%s" q="r"] m`, mid)
		s(`<1>1 - - - - - [e p="%s`, mid)
		s("<1>1 - - - - - - %s%s", bom, mid)
		s("<1>1 - - - - - - %sa%sb", bom, mid)
	}
}

// utf8Seqs are sequences of three and four bytes around the limits of UTF-8.
func utf8Seqs() (out []string) {
	edge := []byte{0x00, 0x22, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xff}
	for l := 0xC0; l < 256; l++ {
		for _, b := range edge {
			out = append(out, string([]byte{byte(l), b}))
			for _, c := range edge {
				out = append(out, string([]byte{byte(l), b, c}))
				if l >= 0xEF {
					for _, d := range edge {
						out = append(out, string([]byte{byte(l), b, c, d}))
					}
				}
			}
		}
	}
	return out
}

// systematic5424 are all of the systematic inputs.
var separators = []string{"\n", "\x00\n", "\r\n", "\n\n", "\x7f\r", "\x00", " ", ""}

func systematic5424(t Tier, do func(mk func() string)) {
	enumerated5424(do)
	for _, base := range bases5424(t) {
		variations(base, func(kind, at int, b byte) {
			do(func() string { return variation(base, kind, at, b) })
		})
		// Cut, and another message after it.
		for at := 0; at <= len(base); at++ {
			for _, sep := range separators {
				do(func() string { return base[:at] + sep + "<2>2 2001-01-01T00:00:00Z h2 a2 p2 i2 [n2 x2=\"y2\"] m2" })
			}
		}
	}
}

// variations3 are like variations, for long bases only in the kinds that matter.
func enumerated3164(do func(mk func() string)) {
	s := func(format string, a ...any) {
		do(func() string { return fmt.Sprintf(format, a...) })
	}
	for i := 0; i < 1000; i++ {
		s("<%d>Oct 11 22:14:15 h m", i)
		s("<%02d>Oct 11 22:14:15 h m", i)
		s("<%03d>Oct 11 22:14:15 h m", i)
		s("<%d>Oct 11 22:14:15 h m", i+1000)
		s("<%d", i)
		s("<%d>", i)
	}
	for _, m := range append([]string{"jan", "JAN", "Jen", "Ma", "Ju", "Okt"}, months...) {
		for d := 0; d <= 32; d++ {
			s("<1>%s %2d 22:14:15 h m", m, d)
			s("<1>%s %02d 22:14:15 h m", m, d)
			s("<1>%s %d 22:14:15 h m", m, d)
		}
		s("<1>%s", m)
	}
	for h := 0; h <= 25; h++ {
		for m := 0; m <= 61; m++ {
			s("<1>Oct 11 %02d:%02d:09 h m", h, m)
			s("<1>Oct 11 %02d:01:%02d h m", h, m)
			s("<1>2000-01-31T%02d:%02d:59Z h m", h, m)
			s("<1>2000-01-01T00:00:00+%02d:%02d h m", h, m)
			s("<1>2000-01-01T00:00:00-%02d:%02d h m", h, m)
		}
	}
	for _, y := range specialYears {
		for m := 0; m <= 13; m++ {
			for d := 0; d <= 32; d++ {
				s("<1>%04d-%02d-%02dT01:02:03Z h a: b", y, m, d)
			}
		}
	}
	for _, x := range extremeStamps {
		s("<1>%s h m", x)
	}
	equalParts3164(do)
	ordinary3164(do)
	for n := 0; n <= 258; n++ {
		s("<1>Oct 11 22:14:15 %s m", strings.Repeat("h", n))
		s("<1>Oct 11 22:14:15 %s a: m", "-"+strings.Repeat("~", n))
	}
	for n := 0; n <= 40; n++ {
		x := strings.Repeat("t", n)
		s("<1>Oct 11 22:14:15 h %s: m", x)
		s("<1>Oct 11 22:14:15 h %s[1]: m", x)
		s("<1>Oct 11 22:14:15 h %s", x)
		s("<1>Oct 11 22:14:15 h %s:", x)
		s("<1>Oct 11 22:14:15 h %s: ", x)
		s("<1>Oct 11 22:14:15 h a[%s]: m", strings.Repeat(x, 3))
		s("<1>Oct 11 22:14:15 h a: %s", strings.Repeat(x, 31))
	}
	for _, n := range []int{1000, 1023, 1024, 1025, 4095, 4096, 8192, 32768, 65535, 65536, 65537, 131072, 200000} {
		for _, end := range []string{"", "\x01", "\x7f", ": x", "[1]: y", " "} {
			for _, x := range []string{"m", "\u00e9", "a: ", "[1]"} {
				s("<1>Oct 11 22:14:15 h t: %s%s", strings.Repeat(x, n/len(x)), end)
				s("<1>Oct 11 22:14:15 h %s%s", strings.Repeat(x, n/len(x)), end)
			}
			s("<1>Oct 11 22:14:15 h t[%s%s", strings.Repeat("p", n), end)
			s("<1>Oct 11 22:14:15 h t[%s]%s", strings.Repeat("p", n), end)
		}
		s("<1>Oct 11 22:14:15 %s m", strings.Repeat("h", n))
	}
	for _, n := range sweptLengths {
		const head = "<1>Oct 11 22:14:15 h "
		do(func() string { return head + filler(n) })
		do(func() string { return head + filler(max(0, n-len(head))) })
		do(func() string { return head + "t: " + filler(n) })
		do(func() string { return head + "t: " + filler(max(0, n-len(head)-3)) })
		do(func() string { return head + "t[1]: " + filler(n-1) + "\x01" })
		if n > len(head)+6 {
			// The input ends, or is wrong, exactly there.
			do(func() string { return head + "t[1" + fillerWord(n, n-len(head)-3) })
			do(func() string { return head + "t[1]: " + filler(n-len(head)-6) + "\x01z" })
		}
		if n <= 5000 || n%100 == 0 {
			do(func() string { return head + "t[" + fillerWord(n, n) + "]: m" })
			do(func() string { return head + "t[" + fillerWord(n, n) })
			do(func() string { return "<1>" + filler(n) })
		}
	}
	for b := 0; b < 256; b++ {
		c := string([]byte{byte(b)})
		for b2 := 0; b2 < 256; b2++ {
			c2 := c + string([]byte{byte(b2)})
			s("<1>Oct 11 22:14:15 h t%sx", c2)
			s("<1>Oct 11 22:14:15 h t:%s", c2)
			s("<1>Oct 11 22:14:15 h t[1%s x", c2)
			s("<1>Oct 11 22:14:15 h t[1]%sx", c2)
			s("<1>Oct 11 22:14:15 h t[%s]: x", c2)
		}
	}
}

func systematic3164(t Tier, do func(mk func() string)) {
	enumerated3164(do)
	for _, base := range bases3164(t) {
		variations(base, func(kind, at int, b byte) {
			do(func() string { return variation(base, kind, at, b) })
		})
		// Cut, and another message after it.
		for at := 0; at <= len(base); at++ {
			for _, sep := range separators {
				do(func() string { return base[:at] + sep + "<2>Jan  2 02:02:02 h2 t2[2]: m2" })
			}
		}
	}
}

// several is a number of things used at the same time.
func (r *Rand) several() int {
	if r.P(4) {
		return r.In(9, 40)
	}
	if r.IntN(250) == 0 {
		return pick(r, []int{66, 130, 300})
	}
	return r.In(2, 8)
}
