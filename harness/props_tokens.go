//go:build !basic

package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/influxdata/go-syslog/v3/octetcounting"
)

// Case33 is a stream for the scanner, or a number for the token types.
type Case33 struct {
	Data   B
	Length int // of the longest message, as the scanner is told
	Read   Reading
	Num    int
}

// tokens is the reference for what the scanner gives, up to the first token that is not in its place.
func tokens(data string) (out []string, frames int) {
	tok := func(t octetcounting.TokenType, lit string) {
		name := [...]string{"ILLEGAL", "EOF", "WS", "MSGLEN", "SYSLOGMSG"}[t]
		if t != octetcounting.EOF && t != octetcounting.WS {
			name += "(" + lit + ")"
		}
		out = append(out, name)
	}
	p := 0
	digits := func() string {
		start := p
		for p < len(data) && data[p] >= '0' && data[p] <= '9' {
			p++
		}
		return data[start:p]
	}
	// other is the token of what is not in its place.
	other := func() {
		switch {
		case p == len(data):
			tok(octetcounting.EOF, "")
		case data[p] >= '1' && data[p] <= '9':
			tok(octetcounting.MSGLEN, digits())
		case data[p] == ' ':
			tok(octetcounting.WS, "")
		default:
			tok(octetcounting.ILLEGAL, data[p:p+1])
		}
	}
	for {
		if p == len(data) || data[p] < '1' || data[p] > '9' {
			other()
			return out, frames
		}
		number := digits()
		tok(octetcounting.MSGLEN, number)
		n, err := strconv.ParseUint(number, 10, 64)
		if err != nil {
			n = math.MaxUint64
		}
		if p == len(data) || data[p] != ' ' {
			other()
			return out, frames
		}
		tok(octetcounting.WS, "")
		p++
		if p == len(data) || data[p] != '<' {
			other()
			return out, frames
		}
		if uint64(len(data)-p) < n {
			tok(octetcounting.EOF, "")
			return out, frames
		}
		tok(octetcounting.SYSLOGMSG, data[p:p+int(n)])
		p += int(n)
		frames++
	}
}

func init() {
	gen := func(r *Rand, t Tier) Case33 {
		var c SCase
		if r.P(50) {
			c = genOctetGood(r, t)
		} else {
			c = genOctetBad(r, t)
		}
		out := Case33{Data: c.Data, Read: c.Read, Num: r.In(-10, 300)}
		out.Length = pick(r, []int{0, 1, 16, 8192, 8192, 65536, 65537, 1 << 20, -20, -1, math.MaxInt, r.IntN(10000)})
		return out
	}
	register(Def[Case33]{
		ID: "C33", Raw: true,
		Rule: "cases are octet counted streams, good and with violations, all strings of one to four characters of an alphabet, numbers of up to 40 digits, read in any way by scanners told any maximum length, and all numbers around those of the token types; non-trivial: at least three tokens",
		N:    200000,
		Systematic: func(t Tier, do func(mk func() Case33)) {
			alphabet := "<0159 x\n\x00\xff"
			for _, length := range []int{0, 8192} {
				for n := 0; n <= 5; n++ {
					k := 1
					for i := 0; i < n; i++ {
						k *= len(alphabet)
					}
					for j := 0; j < k; j++ {
						do(func() Case33 {
							b := make([]byte, n)
							for i, x := 0, j; i < n; i++ {
								b[i] = alphabet[x%len(alphabet)]
								x /= len(alphabet)
							}
							return Case33{Data: B(b), Length: length, Read: Reading{Sizes: []int{1 + j%5}, WithEnd: j%2 == 0}, Num: j - 100}
						})
					}
				}
				for b := 0; b < 256; b++ {
					c := string([]byte{byte(b)})
					for _, s := range []string{c, "1" + c, "1 " + c, "1 <" + c, "2 <" + c, "3 <" + c, "16 <1>1 - - - - - -" + c, "10" + c + "<1>1 - - - - - -"} {
						do(func() Case33 { return Case33{Data: B(s + "5 <1>1 "), Length: length} })
						do(func() Case33 { return Case33{Data: B(s), Length: length, Read: Reading{Sizes: []int{1}}} })
					}
				}
				for digits := 1; digits <= 40; digits++ {
					for _, d := range []string{"1", "9", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808"} {
						do(func() Case33 {
							n := (d + strings.Repeat("0", 40))[:digits]
							return Case33{Data: B(n + " <1>1 - - - - - -"), Length: length}
						})
					}
				}
				for _, n := range []int{1, 19, 20, 21, 512, 4095, 4096, 4097, 8191, 8192, 8193, 8211, 8212, 8213, 16424, 65535, 65536, 65537, 65556, 65557, 131112, 200000} {
					for _, k := range []int{1, 100, 4096, 100000} {
						for cut := 0; cut < 3; cut++ {
							do(func() Case33 {
								s := "<" + filler(n-1)
								d := "7 <1>1 xx" + octetFrame(s)
								d = d[:len(d)-cut*min(n/2, 1)]
								if cut == 0 {
									d += "3 <1> "
								}
								return Case33{Data: B(d), Length: length, Read: Reading{Sizes: []int{k}}}
							})
						}
					}
				}
			}
			for _, n := range []int{math.MinInt, math.MaxInt, math.MinInt32, math.MaxInt32, wide(1 << 32), wide(1<<32 + 1), wide(-1 << 32), 1 << 8, 1<<8 + 2, 1 << 16, -1} {
				do(func() Case33 { return Case33{Num: n} })
			}
		},
		Gen: gen,
		Eval: func(c Case33, o *Obs) error {
			want, frames := tokens(string(c.Data))
			s := octetcounting.NewScanner(c.Read.open(string(c.Data)), c.Length)
			if s == nil {
				return fmt.Errorf("no scanner")
			}
			for i, w := range want {
				if g := s.Scan().String(); g != w {
					return fmt.Errorf("token %d of %d is %s, want %s", i+1, len(want), tail(fmt.Sprintf("%+q", g), 300), tail(fmt.Sprintf("%+q", w), 300))
				}
				if w == "EOF" && len(want) > 2 && frames*3 == len(want)-1 {
					// Nothing comes after the end.
					if g := s.Scan().String(); g != "EOF" {
						return fmt.Errorf("token %s after EOF", g)
					}
				}
			}
			if len(want) >= 3 {
				o.NonTrivial()
			}
			o.Label(fmt.Sprintf("%d frames", min(frames, 5)))
			names := map[int]string{0: "ILLEGAL", 1: "EOF", 2: "WS", 3: "MSGLEN", 4: "SYSLOGMSG"}
			name, ok := names[c.Num]
			if !ok {
				name = "TokenType(" + strconv.Itoa(c.Num) + ")"
			}
			if g := octetcounting.TokenType(c.Num).String(); g != name {
				return fmt.Errorf("token type %d is named %q, want %q", c.Num, g, name)
			}
			return nil
		},
	})
}
