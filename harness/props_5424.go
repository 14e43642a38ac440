package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"strings"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// Case5424 is an input for the RFC 5424 parsers.
type Case5424 struct {
	In        B
	Compliant bool
}

func opts5424(bestEffort, compliant bool) (o []syslog.MachineOption) {
	if bestEffort {
		o = append(o, rfc5424.WithBestEffort())
	}
	if compliant {
		o = append(o, rfc5424.WithCompliantMsg())
	}
	return o
}

func new5424(locking, bestEffort, compliant bool) syslog.Machine {
	if locking {
		return rfc5424.NewParser(opts5424(bestEffort, compliant)...)
	}
	return rfc5424.NewMachine(opts5424(bestEffort, compliant)...)
}

// result5424 is an outcome; a nil pointer within an interface is reported as an error of its own.
type result5424 struct {
	msg *rfc5424.SyslogMessage
	err error
}

// priors5424 are parsed before with the same parser.
var priors5424 = []string{"<1>1 2003-02-30T22:14:15Z h - - - - m", "<1>1 - h a p i [x y=\"z\"] " + bom + "m\xff", "x", "<191>999 - h a p i [x y=\"\\]\"] m", "<1>1 - h a p i [x y=\"z\"][x"}

// prior is what a parser has parsed before in: one of the list, or something close to in itself.
func prior(list []string, in string, bestEffort bool) string {
	h := fnv.New32a()
	h.Write([]byte(in))
	k := int(h.Sum32() >> 1)
	if bestEffort {
		k++
	}
	n := k / 8
	switch k % 8 {
	case 0, 1, 2:
		if len(in) > 0 {
			at := n % len(in)
			b := in[at]
			switch {
			case b >= '0' && b < '9' || b >= 'a' && b < 'z' || b >= 'A' && b < 'Z':
				b++
			case b == '9' || b == 'z' || b == 'Z':
				b--
			default:
				b ^= 1
			}
			return in[:at] + string([]byte{b}) + in[at+1:]
		}
	case 3:
		if len(in) > 0 {
			return in[:n%len(in)]
		}
	case 4:
		if len(in) > 0 {
			at := n % len(in)
			return in[:at] + in[at+1:]
		}
	}
	return list[n%len(list)]
}

// used5424 is a new machine, or a locking parser which has parsed something before parsing in.
func used5424(locking, bestEffort, compliant bool, in string) syslog.Machine {
	m := new5424(locking, bestEffort, compliant)
	if locking {
		parse5424(m, []byte(prior(priors5424, in, bestEffort)))
	}
	return m
}

func parse5424(m syslog.Machine, in []byte) (r result5424, bad error) {
	msg, err := m.Parse(in)
	r.err = err
	if msg != nil {
		sm, ok := msg.(*rfc5424.SyslogMessage)
		if !ok {
			return r, fmt.Errorf("message has type %T", msg)
		}
		if sm == nil {
			return r, errors.New("message is a nil pointer in a not nil interface")
		}
		r.msg = sm
	}
	return r, nil
}

func (r result5424) String() string {
	return fmt.Sprintf("(%s, %v)", show5424(r.msg), r.err)
}

func q(s *string) string {
	if s == nil {
		return "nil"
	}
	return fmt.Sprintf("%+q", *s)
}

func showTime(t *time.Time) string {
	if t == nil {
		return "nil"
	}
	_, off := t.Zone()
	return fmt.Sprintf("%s(offset %d)", t.Format("2006-01-02T15:04:05.999999999"), off)
}

func showU8(p *uint8) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprint(*p)
}

func showBase(b *syslog.Base) string {
	return fmt.Sprintf("pri=%s fac=%s sev=%s ts=%s host=%s app=%s proc=%s msgid=%s msg=%s",
		showU8(b.Priority), showU8(b.Facility), showU8(b.Severity), showTime(b.Timestamp), q(b.Hostname), q(b.Appname), q(b.ProcID), q(b.MsgID), q(b.Message))
}

// show5424 writes all of a message down; equal messages give equal texts.
func show5424(m *rfc5424.SyslogMessage) string {
	if m == nil {
		return "nil"
	}
	sd := "nil"
	if m.StructuredData != nil {
		sd = fmt.Sprintf("%+q", *m.StructuredData)
		if *m.StructuredData == nil {
			sd = "nil map"
		}
	}
	return fmt.Sprintf("{ver=%d %s sd=%s}", m.Version, showBase(&m.Base), sd)
}

func showErr(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

func sameStr(what string, got, want *string) error {
	if (got == nil) != (want == nil) || got != nil && *got != *want {
		return fmt.Errorf("%s is %s, want %s", what, q(got), q(want))
	}
	return nil
}

func checkTS(got *time.Time, want *refTS) error {
	if (got == nil) != (want == nil) {
		return fmt.Errorf("timestamp is %s, want %v", showTime(got), want)
	}
	if got == nil {
		return nil
	}
	if !got.Equal(want.t) {
		return fmt.Errorf("timestamp is %s, want the instant %v", showTime(got), want.t)
	}
	if _, off := got.Zone(); off != want.off {
		return fmt.Errorf("timestamp is %s, want the offset %d", showTime(got), want.off)
	}
	return nil
}

func checkPri(b *syslog.Base, pri int) error {
	if b.Priority == nil || int(*b.Priority) != pri {
		return fmt.Errorf("priority is %s, want %d", showU8(b.Priority), pri)
	}
	if b.Facility == nil || int(*b.Facility) != pri/8 {
		return fmt.Errorf("facility is %s, want %d", showU8(b.Facility), pri/8)
	}
	if b.Severity == nil || int(*b.Severity) != pri%8 {
		return fmt.Errorf("severity is %s, want %d", showU8(b.Severity), pri%8)
	}
	return nil
}

func checkHeader5424(m *rfc5424.SyslogMessage, w *ref5424) error {
	if err := checkPri(&m.Base, w.pri); err != nil {
		return err
	}
	if int(m.Version) != w.ver {
		return fmt.Errorf("version is %d, want %d", m.Version, w.ver)
	}
	if err := checkTS(m.Timestamp, w.ts); err != nil {
		return err
	}
	for _, f := range []struct {
		what      string
		got, want *string
	}{{"hostname", m.Hostname, w.host}, {"app-name", m.Appname, w.app}, {"procid", m.ProcID, w.proc}, {"msgid", m.MsgID, w.mid}, {"message", m.Message, w.ms}} {
		if err := sameStr(f.what, f.got, f.want); err != nil {
			return err
		}
	}
	return nil
}

func checkSD(m *rfc5424.SyslogMessage, w *ref5424) error {
	if (m.StructuredData == nil) != (w.sd == nil) {
		return fmt.Errorf("structured data is %s, want %+q (nil: %v)", show5424(m), w.sd, w.sd == nil)
	}
	if w.sd == nil {
		return nil
	}
	got := *m.StructuredData
	for id, params := range w.sd {
		g, ok := got[id]
		if !ok {
			return fmt.Errorf("element %+q is missing in %+q", id, got)
		}
		for n, v := range params {
			gv, ok := g[n]
			if !ok {
				return fmt.Errorf("parameter %+q of element %+q is missing in %+q", n, id, got)
			}
			if gv != v {
				return fmt.Errorf("parameter %+q of element %+q is %+q, want %+q", n, id, gv, v)
			}
		}
		for n := range g {
			if _, ok := params[n]; !ok {
				return fmt.Errorf("parameter %+q of element %+q is not in the input: %+q, want %+q", n, id, g, params)
			}
		}
	}
	for id := range got {
		if _, ok := w.sd[id]; !ok {
			return fmt.Errorf("element %+q is not there in the input", id)
		}
	}
	return nil
}

func gen5424(r *Rand, t Tier) Case5424 {
	return Case5424{B(r.any5424()), r.P(50)}
}

func sys5424(both bool) func(t Tier, do func(mk func() Case5424)) {
	return func(t Tier, do func(mk func() Case5424)) {
		systematic5424(t, func(mk func() string) {
			do(func() Case5424 {
				s := mk()
				return Case5424{B(s), len(s)%2 == 0}
			})
			if both {
				do(func() Case5424 {
					s := mk()
					return Case5424{B(s), len(s)%2 == 1}
				})
			}
		})
	}
}

func classify5424(o *Obs, w *ref5424, in string) {
	if w.ok {
		o.Label("valid")
		switch {
		case w.ms == nil:
			o.Label("valid: no message")
		case strings.HasPrefix(*w.ms, bom):
			o.Label("valid: message with BOM")
		default:
			o.Label("valid: message without BOM")
		}
		switch n := len(w.sd); {
		case n == 0:
			o.Label("valid: no structured data")
		case n == 1:
			o.Label("valid: one element")
		default:
			o.Label("valid: more elements")
		}
		if w.escapes > 0 {
			o.Label("valid: escapes in values")
		}
		if w.repeated {
			o.Label("valid: repeated parameter")
		}
	} else {
		o.Label("invalid: " + w.part)
	}
}

// plain5424 tells whether an accepted message is no more than a trivial one.
func plain5424(w *ref5424) bool {
	return w.ts == nil && w.host == nil && w.app == nil && w.proc == nil && w.mid == nil && w.ms == nil && w.sd == nil
}

// Descriptions of each part of the message, as documented by the library.
var texts5424 = map[string][]string{
	partPri:     {rfc5424.ErrPri, rfc5424.ErrPrival},
	partVersion: {rfc5424.ErrVersion},
	partTS:      {rfc5424.ErrTimestamp},
	partHost:    {rfc5424.ErrHostname},
	partApp:     {rfc5424.ErrAppname},
	partProc:    {rfc5424.ErrProcID},
	partMid:     {rfc5424.ErrMsgID},
	partSD:      {rfc5424.ErrStructuredData},
	partSDID:    {rfc5424.ErrSdID},
	partDup:     {rfc5424.ErrSdIDDuplicated},
	partParam:   {rfc5424.ErrSdParam},
	partValue:   {rfc5424.ErrSdParam, rfc5424.ErrEscape},
	partMsg:     {rfc5424.ErrMsg, rfc5424.ErrMsgNotCompliant},
}

func init() {
	const common5424 = "cases are systematic one byte variations of base messages covering the grammar, enumerated field values and lengths, and random structured messages with mutations; "

	register(Def[Case5424]{
		ID: "C01", Raw: true,
		Rule: common5424 + "non-trivial: the input goes beyond PRI and VERSION by the reference model",
		N:    240000, Systematic: sys5424(false), Gen: gen5424,
		Eval: func(c Case5424, o *Obs) error {
			in := string(c.In)
			w := model5424(in, c.Compliant)
			classify5424(o, &w, in)
			if w.hasVer {
				o.NonTrivial()
			}
			for _, locking := range []bool{false, true} {
				r, bad := parse5424(used5424(locking, false, c.Compliant, in), []byte(in))
				if bad != nil {
					return bad
				}
				if w.ok && (r.msg == nil || r.err != nil) {
					return fmt.Errorf("valid message is not accepted (locking parser: %v): got %v", locking, r)
				}
				if !w.ok && (r.msg != nil || r.err == nil) {
					return fmt.Errorf("input with an error in the %s at %d is not rejected (locking parser: %v): got %v", w.part, w.pos, locking, r)
				}
			}
			return nil
		},
	})

	accepted := func(c Case5424, o *Obs, f func(m *rfc5424.SyslogMessage, w *ref5424) error) error {
		in := string(c.In)
		w := model5424(in, c.Compliant)
		if !w.ok {
			o.Label("not a valid message")
			return nil
		}
		classify5424(o, &w, in)
		for i := 0; i < 4; i++ {
			r, bad := parse5424(used5424(i&1 != 0, i&2 != 0, c.Compliant, in), []byte(in))
			if bad != nil {
				return bad
			}
			if r.msg == nil || r.err != nil {
				o.Label("not accepted")
				continue // C01 and C06
			}
			if err := f(r.msg, &w); err != nil {
				return fmt.Errorf("locking %v, best effort %v: %w", i&1 != 0, i&2 != 0, err)
			}
		}
		return nil
	}
	genValid := func(r *Rand, t Tier) Case5424 {
		s := r.valid5424()
		if r.P(20) {
			s = r.mutate(s, r.valid5424)
		}
		return Case5424{B(s), r.P(40)}
	}

	register(Def[Case5424]{
		ID: "C02", Raw: true,
		Rule: common5424 + "non-trivial: a valid message with at least one field that is not nil",
		N:    300000, Systematic: sys5424(false), Gen: genValid,
		Eval: func(c Case5424, o *Obs) error {
			return accepted(c, o, func(m *rfc5424.SyslogMessage, w *ref5424) error {
				if !plain5424(w) {
					o.NonTrivial()
				}
				return checkHeader5424(m, w)
			})
		},
	})

	register(Def[Case5424]{
		ID: "C03", Raw: true,
		Rule: common5424 + "non-trivial: a valid message with structured data",
		N:    300000, Systematic: sys5424(false), Gen: genValid,
		Eval: func(c Case5424, o *Obs) error {
			return accepted(c, o, func(m *rfc5424.SyslogMessage, w *ref5424) error {
				if w.sd != nil {
					o.NonTrivial()
				}
				return checkSD(m, w)
			})
		},
	})

	register(Def[Case5424]{
		ID: "C05", Raw: true,
		Rule: common5424 + "non-trivial: the input is rejected beyond its first byte",
		N:    240000, Systematic: sys5424(false), Gen: func(r *Rand, t Tier) Case5424 {
			s := r.valid5424()
			if r.P(85) {
				s = r.mutate(s, r.valid5424)
			}
			return Case5424{B(s), r.P(50)}
		},
		Eval: func(c Case5424, o *Obs) error {
			in := string(c.In)
			w := model5424(in, c.Compliant)
			classify5424(o, &w, in)
			if !w.ok && w.pos > 0 {
				o.NonTrivial()
			}
			for i := 0; i < 4; i++ {
				m := used5424(i&1 != 0, i&2 != 0, c.Compliant, in)
				r, bad := parse5424(m, []byte(in))
				if bad != nil {
					return bad
				}
				le, ok := m.(interface{ Err() error })
				if !ok {
					return errors.New("no accessor for the last error")
				}
				last := le.Err()
				if r.err == nil {
					if last != nil && r.msg != nil {
						return fmt.Errorf("last error is %v after an accepted message", last)
					}
					continue // acceptance: C01
				}
				if last == nil || last.Error() != r.err.Error() {
					return fmt.Errorf("last error is %v, the error returned %v", last, r.err)
				}
				if w.ok {
					continue // C01
				}
				if err := checkErr(r.err.Error(), w.pos, w.part, texts5424, rfc5424.ErrParse); err != nil {
					return err
				}
			}
			return nil
		},
	})

	register(Def[Case5424]{
		ID: "C06", Raw: true,
		Rule: common5424 + "non-trivial: the input is rejected after its VERSION, thus with a partial message",
		N:    240000, Systematic: sys5424(true), Gen: func(r *Rand, t Tier) Case5424 {
			s := r.valid5424()
			if r.P(80) {
				s = r.mutate(s, r.valid5424)
			}
			return Case5424{B(s), r.P(50)}
		},
		Eval: func(c Case5424, o *Obs) error {
			in := string(c.In)
			w := model5424(in, c.Compliant)
			classify5424(o, &w, in)
			if !w.ok && w.hasVer {
				o.NonTrivial()
			}
			if w.errRepeated {
				o.Label("error within a repeated parameter")
			}
			for _, locking := range []bool{false, true} {
				strict, bad := parse5424(used5424(locking, false, c.Compliant, in), []byte(in))
				if bad != nil {
					return bad
				}
				be, bad := parse5424(used5424(locking, true, c.Compliant, in), []byte(in))
				if bad != nil {
					return bad
				}
				if showErr(strict.err) != showErr(be.err) {
					return fmt.Errorf("error is %v in strict mode, %v in best effort mode", strict.err, be.err)
				}
				if strict.err == nil {
					if show5424(strict.msg) != show5424(be.msg) {
						return fmt.Errorf("accepted message is %s in strict mode, %s in best effort mode", show5424(strict.msg), show5424(be.msg))
					}
					continue
				}
				if w.ok {
					continue // C01
				}
				if (be.msg != nil) != (w.hasPri && w.hasVer) {
					return fmt.Errorf("partial message is %s; priority complete: %v, version: %v", show5424(be.msg), w.hasPri, w.hasVer)
				}
				if be.msg != nil {
					if err := checkHeader5424(be.msg, &w); err != nil {
						return fmt.Errorf("partial message %s: %w", show5424(be.msg), err)
					}
					if err := checkSD(be.msg, &w); err != nil {
						return fmt.Errorf("partial message %s: %w", show5424(be.msg), err)
					}
				}
			}
			return nil
		},
	})

	register(Def[Case5424]{
		ID: "C04",
		Rule: "cases are messages with a MSG made of the BOM and: every one and two byte string, three and four byte sequences around the limits of UTF-8, random valid and invalid UTF-8, " +
			"and messages without the BOM; non-trivial: the MSG starts with the BOM and has more bytes after it",
		N: 300000,
		Systematic: func(t Tier, do func(mk func() Case5424)) {
			s := func(pre, rest string) {
				do(func() Case5424 { return Case5424{In: B("<34>1 - - - - - " + pre + rest)} })
			}
			for a := 0; a < 256; a++ {
				s("- "+bom, string([]byte{byte(a)}))
				s("- ", string([]byte{byte(a)}))
				s(`[a b="c"] `+bom+"x", string([]byte{byte(a)}))
				for b := 0; b < 256; b++ {
					s("- "+bom, string([]byte{byte(a), byte(b)}))
					s("- ", string([]byte{byte(a), byte(b)}))
					s("- \xef", string([]byte{byte(a), byte(b)}))
					if t.Name == "thorough" {
						for c := 0; c < 256; c++ {
							s("- "+bom, string([]byte{byte(a), byte(b), byte(c)}))
						}
					}
				}
			}
			for _, x := range utf8Seqs() {
				s("- "+bom, x)
				s("- "+bom, x+"z")
				s("[a] "+bom+"\u00e9", x)
				s("- ", x)
			}
			for _, n := range append([]int{100, 200000}, largeSizes...) {
				for _, x := range []string{"x", "\u00e9", "\u20ac", "\U0001f600", "ab\u00e9"} {
					for d := -2; d <= 2; d++ {
						fill := strings.Repeat(x, n/len(x)) + "wxyz"[:2+d]
						for _, end := range []string{"", "\xff", "\xffz", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xff" + fill, "\xc3" + fill, "\U0001f600", bom} {
							do(func() Case5424 { return Case5424{In: B("<34>1 - - - - - - " + bom + fill + end)} })
							if d == 0 {
								do(func() Case5424 { return Case5424{In: B("<34>1 - - - - - - " + fill + end)} })
							}
						}
					}
				}
			}
		},
		Gen: func(r *Rand, t Tier) Case5424 {
			if r.P(20) {
				return Case5424{In: B(r.any5424())}
			}
			ms := bom + r.utf8Text(8)
			if r.P(50) {
				ms += pick(r, badUTF8Pieces) + r.utf8Text(4)
			}
			if r.P(1) {
				ms = bom + r.many(ms[len(bom):]+"a") + ms[len(bom):]
			}
			if r.P(20) {
				ms = r.mutate(ms, func() string { return bom })
			}
			return Case5424{In: B(fmt.Sprintf("<%d>1 - %s a - - %s %s", r.pri(), r.field(255), pick(r, []string{"-", "[a]", r.sd()}), ms))}
		},
		Eval: func(c Case5424, o *Obs) error {
			in := string(c.In)
			for i := 0; i < 4; i++ {
				plain, bad := parse5424(used5424(i&1 != 0, i&2 != 0, false, in), []byte(in))
				if bad != nil {
					return bad
				}
				comp, bad := parse5424(used5424(i&1 != 0, i&2 != 0, true, in), []byte(in))
				if bad != nil {
					return bad
				}
				if plain.err != nil {
					o.Label("rejected in both modes")
					if comp.err == nil {
						return fmt.Errorf("rejected without the option (%v), accepted with it", plain.err)
					}
					continue
				}
				if plain.msg == nil {
					return errors.New("no message and no error")
				}
				ms := ""
				if w := model5424(in, false); w.ok && w.msgAt >= 0 {
					ms = in[w.msgAt:]
					if got := plain.msg.Message; (got == nil) != (ms == "") || got != nil && *got != ms {
						return fmt.Errorf("message is %s, want %+q", q(got), ms)
					}
				} else if w.ok && plain.msg.Message != nil {
					return fmt.Errorf("message is %s, want none", q(plain.msg.Message))
				} else if plain.msg.Message != nil {
					ms = *plain.msg.Message
				}
				valid := true
				if strings.HasPrefix(ms, bom) {
					if len(ms) > 3 {
						o.NonTrivial()
					}
					_, valid = utf8Scan(ms, 0, func(byte) bool { return false })
					o.Label(fmt.Sprintf("BOM, valid UTF-8: %v", valid))
				} else {
					o.Label("no BOM")
				}
				if valid != (comp.err == nil) {
					return fmt.Errorf("MSG %+q: must be accepted with the option: %v; error is %v", ms, valid, comp.err)
				}
				if comp.err == nil && show5424(plain.msg) != show5424(comp.msg) {
					return fmt.Errorf("message is %s without the option, %s with it", show5424(plain.msg), show5424(comp.msg))
				}
				if comp.err != nil && i&2 == 0 && comp.msg != nil {
					return fmt.Errorf("message %s together with the error %v in strict mode", show5424(comp.msg), comp.err)
				}
			}
			return nil
		},
	})
}

// checkErr checks the column and the text of an error.
func checkErr(got string, pos int, part string, texts map[string][]string, generic string) error {
	i := strings.LastIndex(got, " [col ")
	if i < 0 || !strings.HasSuffix(got, "]") {
		return fmt.Errorf("error %q does not tell the column", got)
	}
	if want := fmt.Sprintf(" [col %d]", pos); got[i:] != want {
		return fmt.Errorf("error is %q, want column %d (in the %s)", got, pos, part)
	}
	text := got[:i]
	if texts == nil || text == generic {
		return nil
	}
	for _, t := range texts[part] {
		if t == text {
			return nil
		}
	}
	if part == partTS {
		// For impossible days any text that does not describe another part.
		for p, ts := range texts {
			for _, t := range ts {
				if t == text && p != partTS {
					return fmt.Errorf("error is %q, but it is in the %s", got, part)
				}
			}
		}
		return nil
	}
	return fmt.Errorf("error is %q, but it is in the %s", got, part)
}
