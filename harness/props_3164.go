package main

import (
	"errors"
	"fmt"
	"strings"
	"time"
	_ "time/tzdata"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
)

// Opt3164 are the options of the RFC 3164 parsers.
type Opt3164 struct {
	RFC3339 bool
	Year    int // 0: option not given, -1: current year, otherwise the year
	TZ      B   // name of a zone, "" when the option is not given
	Locale  B
}

// Case3164 is an input for the RFC 3164 parsers.
type Case3164 struct {
	In  B
	Opt Opt3164
}

var zoneNames = []string{"UTC", "America/New_York", "Europe/Rome", "Asia/Kolkata", "Asia/Kathmandu", "Pacific/Apia", "Pacific/Chatham", "Australia/Lord_Howe", "America/St_Johns", "Africa/Casablanca", "Asia/Tokyo", "Pacific/Kiritimati", "fixed+1", "fixed-11:30", "fixed+0", "fixed+2", "fixed-4", "fixed+5:30"}

var zones = map[string]*time.Location{
	"fixed+1":     time.FixedZone("one", 3600),
	"fixed-11:30": time.FixedZone("", -(11*3600 + 1800)),
	"fixed+0":     time.FixedZone("zero", 0),
	"fixed+2":     time.FixedZone("one", 7200), // a name that another one has
	"fixed-4":     time.FixedZone("UTC", -4*3600),
	"fixed+5:30":  time.FixedZone("", 5*3600+1800),
}

func init() {
	for _, n := range zoneNames {
		if zones[n] == nil {
			l, err := time.LoadLocation(n)
			if err != nil {
				panic(err)
			}
			zones[n] = l
		}
	}
}

func (o Opt3164) model(year int) opts3164 {
	m := opts3164{rfc3339: o.RFC3339, year: year}
	if o.TZ != "" {
		m.tz = zones[string(o.TZ)]
	}
	if o.Locale != "" {
		m.locale = zones[string(o.Locale)]
	}
	return m
}

func (o Opt3164) options(bestEffort bool) (l []syslog.MachineOption) {
	if bestEffort {
		l = append(l, rfc3164.WithBestEffort())
	}
	if o.RFC3339 {
		l = append(l, rfc3164.WithRFC3339())
	}
	if o.Year == -1 {
		l = append(l, rfc3164.WithYear(rfc3164.CurrentYear{}))
	} else if o.Year != 0 {
		l = append(l, rfc3164.WithYear(rfc3164.Year{YYYY: o.Year}))
	}
	if o.TZ != "" {
		l = append(l, rfc3164.WithTimezone(zones[string(o.TZ)]))
	}
	if o.Locale != "" {
		l = append(l, rfc3164.WithLocaleTimezone(zones[string(o.Locale)]))
	}
	return l
}

func new3164(locking, bestEffort bool, o Opt3164) syslog.Machine {
	if locking {
		return rfc3164.NewParser(o.options(bestEffort)...)
	}
	return rfc3164.NewMachine(o.options(bestEffort)...)
}

type result3164 struct {
	msg *rfc3164.SyslogMessage
	err error
}

// priors3164 are parsed before with the same parser.
var priors3164 = []string{"<1>Feb 30 10:10:10 h m", "<1>Oct 11 22:14:15 h a[1]: m", "x", "<191>Oct 11 22:14:15 h \x00"}

// used3164 is a new machine, or a locking parser which has parsed something before parsing in.
func used3164(locking, bestEffort bool, o Opt3164, in string) syslog.Machine {
	m := new3164(locking, bestEffort, o)
	if locking {
		parse3164(m, []byte(prior(priors3164, in, bestEffort)))
	}
	return m
}

func parse3164(m syslog.Machine, in []byte) (r result3164, bad error) {
	msg, err := m.Parse(in)
	r.err = err
	if msg != nil {
		sm, ok := msg.(*rfc3164.SyslogMessage)
		if !ok {
			return r, fmt.Errorf("message has type %T", msg)
		}
		if sm == nil {
			return r, errors.New("message is a nil pointer in a not nil interface")
		}
		r.msg = sm
	}
	return r, nil
}

func show3164(m *rfc3164.SyslogMessage) string {
	if m == nil {
		return "nil"
	}
	return "{" + showBase(&m.Base) + "}"
}

func (r result3164) String() string { return fmt.Sprintf("(%s, %v)", show3164(r.msg), r.err) }

// checkFields3164 checks everything but the timestamp.
func checkFields3164(m *rfc3164.SyslogMessage, w *ref3164) error {
	if err := checkPri(&m.Base, w.pri); err != nil {
		return err
	}
	for _, f := range []struct {
		what      string
		got, want *string
	}{{"hostname", m.Hostname, w.host}, {"app name", m.Appname, w.tag}, {"procid", m.ProcID, w.cont}, {"message", m.Message, w.ms}, {"msgid", m.MsgID, nil}} {
		if err := sameStr(f.what, f.got, f.want); err != nil {
			return err
		}
	}
	return nil
}

// movingYear is a strategy of the caller: the year may change between messages.
type movingYear struct{ y int }

func (m *movingYear) Apply() int { return m.y }

// yearAtParse checks that the strategy is asked for the year of each message.
func yearAtParse(c Case3164) error {
	w := model3164(string(c.In), c.Opt.model(c.Opt.Year))
	if w.skipTS {
		return nil
	}
	for _, locking := range []bool{false, true} {
		moving := &movingYear{c.Opt.Year%9999 + 1}
		o := c.Opt
		o.Year = 0
		options := append(o.options(false), rfc3164.WithYear(moving))
		var m syslog.Machine
		if locking {
			m = rfc3164.NewParser(options...)
		} else {
			m = rfc3164.NewMachine(options...)
		}
		parse3164(m, []byte(c.In))
		moving.y = c.Opt.Year
		r, bad := parse3164(m, []byte(c.In))
		if bad != nil {
			return bad
		}
		if r.msg == nil || r.err != nil {
			continue // C09
		}
		if err := checkTS(r.msg.Timestamp, w.ts); err != nil {
			return fmt.Errorf("with a strategy that gave the year %d before and gives %d now: %w", c.Opt.Year%9999+1, c.Opt.Year, err)
		}
	}
	return nil
}

func gen3164(r *Rand, t Tier) Case3164 {
	return Case3164{B(r.any3164()), r.opt3164()}
}

func (r *Rand) opt3164() (o Opt3164) {
	o.RFC3339 = r.P(60)
	switch r.IntN(6) {
	case 0, 1:
		o.Year = pick(r, specialYears)
	case 2, 3:
		o.Year = r.In(1, 9999)
	case 4:
		o.Year = -1
		if r.P(10) {
			o.Year = pick(r, []int{-2, -4, -44, -100, -400, -1000, 10000, 10001, 12345, 40000, 65536})
		}
	}
	if r.P(40) {
		o.TZ = B(pick(r, zoneNames))
	}
	if r.P(40) {
		o.Locale = B(pick(r, zoneNames))
	}
	return o
}

func sys3164(t Tier, do func(mk func() Case3164)) {
	systematic3164(t, func(mk func() string) {
		for i := 0; i < 2; i++ {
			do(func() Case3164 { return Case3164{B(mk()), Opt3164{RFC3339: i == 1}} })
		}
	})
}

func classify3164(o *Obs, w *ref3164) {
	switch {
	case !w.ok:
		o.Label("invalid: " + w.part)
	case w.cont != nil:
		o.Label("valid: tag and content")
	case w.split:
		o.Label("valid: tag")
	default:
		o.Label("valid: message only")
	}
	if w.isRFC3339 {
		o.Label("RFC 3339 timestamp")
	}
}

type transition struct {
	zone             string
	at, wall1, wall2 time.Time // as UTC: the moment, and the local times at it before and after the change
}

// transitions are the changes of offset of the zones in some years.
func transitions() (out []transition) {
	for _, z := range zoneNames {
		loc := zones[z]
		for _, y := range []int{1883, 1945, 1975, 1999, 2008, 2011, 2019, 2024} {
			for t := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC); t.Year() == y; t = t.Add(24 * time.Hour) {
				_, o1 := t.In(loc).Zone()
				_, o2 := t.Add(24 * time.Hour).In(loc).Zone()
				if o1 == o2 {
					continue
				}
				lo, hi := 0, 24*3600
				for lo+1 < hi {
					mid := (lo + hi) / 2
					if _, o := t.Add(time.Duration(mid) * time.Second).In(loc).Zone(); o == o1 {
						lo = mid
					} else {
						hi = mid
					}
				}
				at := t.Add(time.Duration(hi) * time.Second)
				out = append(out, transition{z, at, at.Add(time.Duration(o1) * time.Second), at.Add(time.Duration(o2) * time.Second)})
			}
		}
	}
	return out
}

// year is the year given, or 0.
func (o Opt3164) year() int {
	if o.Year == -1 {
		return 0
	}
	return o.Year
}

// years gives the years that the option may stand for.
func (o Opt3164) years(f func(year int) error) error {
	if o.Year != -1 {
		return f(o.Year)
	}
	now := time.Now()
	err := f(now.Year())
	for _, y := range []int{now.Add(-26 * time.Hour).Year(), now.Add(26 * time.Hour).Year()} {
		if err != nil && y != now.Year() {
			err = f(y)
		}
	}
	return err
}

func init() {
	const common3164 = "cases are systematic one byte variations of base messages covering the grammar, enumerated field values and lengths, and random structured messages with mutations; "

	register(Def[Case3164]{
		ID: "C09", Raw: true,
		Rule: common3164 + "non-trivial: the input goes beyond PRI by the reference model",
		N:    400000, Systematic: sys3164, Gen: gen3164,
		Eval: func(c Case3164, o *Obs) error {
			w := model3164(string(c.In), c.Opt.model(c.Opt.year()))
			classify3164(o, &w)
			if w.hasPri {
				o.NonTrivial()
			}
			for _, locking := range []bool{false, true} {
				r, bad := parse3164(used3164(locking, false, c.Opt, string(c.In)), []byte(c.In))
				if bad != nil {
					return bad
				}
				if w.ok && (r.msg == nil || r.err != nil) {
					return fmt.Errorf("valid message is not accepted (locking parser: %v): got %v", locking, r)
				}
				if !w.ok && (r.msg != nil || r.err == nil) {
					return fmt.Errorf("input with an error in the %s at %d is not rejected (locking parser: %v): got %v", w.part, w.pos, locking, r)
				}
			}
			return nil
		},
	})

	accepted := func(c Case3164, o *Obs, f func(m *rfc3164.SyslogMessage) error) error {
		for i := 0; i < 4; i++ {
			r, bad := parse3164(used3164(i&1 != 0, i&2 != 0, c.Opt, string(c.In)), []byte(c.In))
			if bad != nil {
				return bad
			}
			if r.msg == nil || r.err != nil {
				o.Label("not accepted")
				continue // C09
			}
			if err := f(r.msg); err != nil {
				return fmt.Errorf("locking %v, best effort %v: %w", i&1 != 0, i&2 != 0, err)
			}
		}
		return nil
	}

	register(Def[Case3164]{
		ID: "C10", Raw: true,
		Rule: common3164 + "non-trivial: a valid message in which there is a tag, or a ':' or '[' in the part after the hostname",
		N:    400000, Systematic: sys3164, Gen: func(r *Rand, t Tier) Case3164 {
			c := Case3164{B(r.valid3164()), r.opt3164()}
			if r.P(25) {
				c.In = B(r.mutate(string(c.In), r.valid3164))
			}
			return c
		},
		Eval: func(c Case3164, o *Obs) error {
			w := model3164(string(c.In), c.Opt.model(c.Opt.year()))
			classify3164(o, &w)
			if !w.ok {
				return nil
			}
			if w.split {
				o.NonTrivial()
			} else {
				for _, b := range []byte(c.In[w.msgAt:]) {
					if b == ':' || b == '[' {
						o.NonTrivial()
					}
				}
			}
			return accepted(c, o, func(m *rfc3164.SyslogMessage) error { return checkFields3164(m, &w) })
		},
	})

	register(Def[Case3164]{
		ID:   "C11",
		Rule: "cases are messages with every day of the year, every time of day and RFC 3339 timestamps in every combination of options (year, current year, two kinds of zones out of 18, RFC 3339), with the local times around the changes of the offset of each zone, and random ones; non-trivial: a valid message together with at least one option",
		N:    500000,
		Systematic: func(t Tier, do func(mk func() Case3164)) {
			// Every day with every zone and some years.
			years := []int{0, 1, 1900, 1999, 2000, 2023, 2024, 9999, -4, 10000}
			if t.Name == "thorough" {
				years = append(specialYears[1:], 0)
			}
			for m := 1; m <= 12; m++ {
				for d := 1; d <= daysIn(0, m); d++ {
					for zi, z := range append(zoneNames, "") {
						for yi, y := range years {
							for k := 0; k < 4; k++ {
								do(func() Case3164 {
									c := Case3164{In: B(fmt.Sprintf("<%d>%s %2d %02d:%02d:%02d h m", (m*31+d)%192, months[m-1], d, (d*7+zi+m)%24, (d*11+yi)%60, (m*13+d*3+yi)%60)), Opt: Opt3164{Year: y}}
									switch k {
									case 0:
										c.Opt.TZ = B(z)
									case 1:
										c.Opt.Locale = B(z)
									case 2:
										c.Opt.TZ, c.Opt.Locale = B(z), B(zoneNames[(d+m+yi)%len(zoneNames)])
										c.Opt.RFC3339 = true
									case 3:
										c.Opt.TZ = B(z)
										c.Opt.RFC3339 = true
										c.In = B(fmt.Sprintf("<%d>%04d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d h m", (m*31+d)%192, y+1, m, min(d, 28), d%24, m*4, yi*7, "+-"[d%2], zi, d))
									}
									return c
								})
							}
						}
					}
				}
			}
			// The local times around the changes of offset.
			for _, x := range transitions() {
				for i, d := range []int{-7200, -3601, -3600, -1800, -1, 0, 1, 1800, 3599, 3600, 5400, 7200} {
					for _, base := range []time.Time{x.wall1, x.wall2} {
						do(func() Case3164 {
							w := base.Add(time.Duration(d) * time.Second)
							c := Case3164{In: B("<9>" + w.Format(time.Stamp) + " h m"), Opt: Opt3164{Year: w.Year(), Locale: B(x.zone)}}
							if i%3 == 1 {
								c.Opt.TZ = B(zoneNames[(i+w.Year())%len(zoneNames)])
							}
							return c
						})
						do(func() Case3164 {
							w := base.Add(time.Duration(d) * time.Second)
							return Case3164{In: B("<9>" + w.Format(time.Stamp) + " h m"), Opt: Opt3164{Year: w.Year(), TZ: B(x.zone)}}
						})
						do(func() Case3164 {
							w := x.at.Add(time.Duration(d) * time.Second)
							return Case3164{In: B("<9>" + w.Format(time.Stamp) + " h m"), Opt: Opt3164{Year: w.Year(), TZ: B(x.zone)}}
						})
					}
				}
			}
			sys3164(t, do)
		},
		Gen: func(r *Rand, t Tier) Case3164 {
			ts := r.stamp()
			c := Case3164{Opt: r.opt3164()}
			if r.P(30) {
				ts = r.rfc3339(0)
				c.Opt.RFC3339 = true
			}
			c.In = B(fmt.Sprintf("<%d>%s h m", r.pri(), ts))
			return c
		},
		Eval: func(c Case3164, o *Obs) error {
			w := model3164(string(c.In), c.Opt.model(c.Opt.year()))
			classify3164(o, &w)
			if !w.ok {
				return nil
			}
			if c.Opt != (Opt3164{}) {
				o.NonTrivial()
			}
			if c.Opt.year() != 0 {
				if err := yearAtParse(c); err != nil {
					return err
				}
			}
			return accepted(c, o, func(m *rfc3164.SyslogMessage) error {
				return c.Opt.years(func(y int) error {
					w := model3164(string(c.In), c.Opt.model(y))
					if len(w.tsEither) > 0 {
						o.Label("local time that exists twice")
						err := checkTS(m.Timestamp, &w.tsEither[0])
						for i := range w.tsEither {
							if err != nil {
								err = checkTS(m.Timestamp, &w.tsEither[i])
							}
						}
						return err
					}
					if w.skipTS {
						o.Label("29 February of another year, or a local time that does not exist: skipped")
						if m.Timestamp == nil {
							return errors.New("no timestamp")
						}
						return nil
					}
					return checkTS(m.Timestamp, w.ts)
				})
			})
		},
	})

	register(Def[Case3164]{
		ID: "C12", Raw: true,
		Rule: common3164 + "non-trivial: the input is rejected after its PRI, thus with a partial message",
		N:    400000, Systematic: sys3164, Gen: func(r *Rand, t Tier) Case3164 {
			c := Case3164{B(r.valid3164()), r.opt3164()}
			if r.P(80) {
				c.In = B(r.mutate(string(c.In), r.valid3164))
			}
			return c
		},
		Eval: func(c Case3164, o *Obs) error {
			w := model3164(string(c.In), c.Opt.model(c.Opt.year()))
			classify3164(o, &w)
			if !w.ok && w.hasPri {
				o.NonTrivial()
			}
			for _, locking := range []bool{false, true} {
				var rs [2]result3164
				for i := range rs {
					m := used3164(locking, i == 1, c.Opt, string(c.In))
					r, bad := parse3164(m, []byte(c.In))
					if bad != nil {
						return bad
					}
					rs[i] = r
					le, ok := m.(interface{ Err() error })
					if !ok {
						return errors.New("no accessor for the last error")
					}
					if last := le.Err(); showErr(last) != showErr(r.err) {
						return fmt.Errorf("last error is %v, the error returned %v (after another message: %v)", last, r.err, locking)
					}
				}
				strict, be := rs[0], rs[1]
				if showErr(strict.err) != showErr(be.err) {
					return fmt.Errorf("error is %v in strict mode, %v in best effort mode", strict.err, be.err)
				}
				if strict.err == nil {
					if show3164(strict.msg) != show3164(be.msg) {
						return fmt.Errorf("accepted message is %s in strict mode, %s in best effort mode", show3164(strict.msg), show3164(be.msg))
					}
					if w.ok {
						continue
					}
				}
				if w.ok {
					continue // C09
				}
				if strict.err == nil {
					if strict.msg == nil {
						return fmt.Errorf("neither message nor error, want an error at %d in the %s", w.pos, w.part)
					}
					continue // C09
				}
				if err := checkErr(strict.err.Error(), w.pos, w.part, nil, ""); err != nil {
					return err
				}
				if err := checkPart3164(strict.err.Error(), w.part); err != nil {
					return err
				}
				if (be.msg != nil) != w.hasPri {
					return fmt.Errorf("partial message is %s; priority complete: %v", show3164(be.msg), w.hasPri)
				}
				if be.msg == nil {
					continue
				}
				if err := checkFields3164(be.msg, &w); err != nil {
					return fmt.Errorf("partial message %s: %w", show3164(be.msg), err)
				}
				if w.tsMaybe {
					o.Label("timestamp complete but without delimiter")
					if be.msg.Timestamp != nil {
						return fmt.Errorf("partial message %s has a timestamp which was not followed by its delimiter", show3164(be.msg))
					}
					continue
				}
				err := c.Opt.years(func(y int) error {
					w := model3164(string(c.In), c.Opt.model(y))
					if w.skipTS {
						return nil
					}
					return checkTS(be.msg.Timestamp, w.ts)
				})
				if err != nil {
					return fmt.Errorf("partial message %s: %w", show3164(be.msg), err)
				}
			}
			return nil
		},
	})
}

// words3164 are those by which the errors tell the part of the message.
var words3164 = map[string][]string{
	partPri:  {"priority"},
	partTS:   {"timestamp", "time"},
	partHost: {"hostname"},
	part3Msg: {" tag ", " content "},
}

// checkPart3164 tells whether an error describes the part, or is the generic one.
func checkPart3164(text, part string) error {
	if strings.HasPrefix(text, "parsing error [col ") {
		return nil
	}
	for p, l := range words3164 {
		for _, w := range l {
			if strings.Contains(text, w) {
				if p == part {
					return nil
				}
				return fmt.Errorf("error is %q, but it is in the %s", text, part)
			}
		}
	}
	return fmt.Errorf("error %q does not tell that it is in the %s", text, part)
}
