//go:build !basic

package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/influxdata/go-syslog/v3/common"
)

// Case34 is an input for each of the helpers of package common.
type Case34 struct {
	Digits B   // a decimal number of up to 18 digits, leading zeros not counted
	Text   B   // any bytes
	Skip   B   // the bytes of Text standing at the places where it is not '0' are removed
	Offset int // of the first byte of Text
	Value  int
	Low    int
	High   int
}

func init() {
	numbers := []int{math.MinInt, math.MinInt + 1, math.MinInt32, -1 << 16, -257, -256, -1, 0, 1, 2, 9, 10, 127, 128, 190, 191, 192, 255, 256, 998, 999, 1000, 1024, 65535, 65536, math.MaxInt32, wide(1<<32 + 5), math.MaxInt - 1, math.MaxInt}
	special := "\"\\]"
	skips := func(r *Rand, n int) B {
		b := make([]byte, n)
		p := pick(r, []int{0, 2, 20, 50, 98, 100})
		for i := range b {
			b[i] = '0'
			if r.P(p) {
				b[i] = '1'
			}
		}
		return B(b)
	}
	register(Def[Case34]{
		ID: "C34", Raw: true,
		Rule: "cases are a number in digits, a text of any bytes with some places of it from an offset, and a value with a range; all numbers of up to 5 digits with leading zeros, all texts of one or two bytes and of up to 6 characters with escapes, all places of texts up to 10 bytes, and all priorities and versions; non-trivial: the text has a character to escape or a place to remove, or the number has two digits or more",
		N:    300000,
		Systematic: func(t Tier, do func(mk func() Case34)) {
			for n := 0; n < 100000; n++ {
				do(func() Case34 {
					return Case34{Digits: B(strings.Repeat("0", n%7) + fmt.Sprint(n)), Value: n % 300, Low: n / 300, High: 191 + n%11}
				})
			}
			for i := 0; i < 65536; i++ {
				do(func() Case34 {
					return Case34{Text: B([]byte{byte(i >> 8), byte(i)}), Skip: "00", Value: i, Low: 1, High: 999}
				})
			}
			for i := 0; i < 256; i++ {
				do(func() Case34 { return Case34{Text: B([]byte{byte(i)}), Skip: "1", Value: i, Low: 0, High: 191} })
			}
			alphabet := "a\"\\]é\x00"
			for n := 3; n <= 6; n++ {
				k := 1
				for i := 0; i < n; i++ {
					k *= len(alphabet)
				}
				for j := 0; j < k; j++ {
					do(func() Case34 {
						b := make([]byte, n)
						for i, x := 0, j; i < n; i++ {
							b[i] = alphabet[x%len(alphabet)]
							x /= len(alphabet)
						}
						return Case34{Text: B(b)}
					})
				}
			}
			for n := 0; n <= 10; n++ {
				for j := 0; j < 1<<n; j++ {
					do(func() Case34 {
						b := make([]byte, n)
						for i := range b {
							b[i] = '0' + byte(j>>i&1)
						}
						return Case34{Text: B("abcdefghij"[:n]), Skip: B(b), Offset: j % 30}
					})
				}
			}
			for _, n := range sweptLengths {
				do(func() Case34 {
					s := filler(n)
					return Case34{Text: B(s), Skip: B(strings.Repeat("1", n)), Offset: n}
				})
				do(func() Case34 {
					s := strings.Repeat(special, n/3+1)[:n]
					return Case34{Text: B(s), Skip: B(strings.Repeat("100", n/3+1)[:n]), Offset: 1}
				})
				do(func() Case34 {
					return Case34{Text: B(filler(n) + "]" + filler(3)), Skip: B(strings.Repeat("0", n) + "1")}
				})
			}
			for _, a := range numbers {
				for _, b := range numbers {
					for _, c := range numbers {
						do(func() Case34 { return Case34{Value: a, Low: b, High: c} })
					}
				}
			}
		},
		Gen: func(r *Rand, t Tier) Case34 {
			var c Case34
			d := strings.Repeat("0", pick(r, []int{0, 0, 0, 1, 3, 40}))
			for i := r.IntN(19); i > 0; i-- {
				d += string(rune('0' + r.IntN(10)))
			}
			c.Digits = B(d)
			n := pick(r, []int{3, 20, 100, 300, 1000})
			b := make([]byte, r.IntN(n))
			for i := range b {
				switch r.IntN(3) {
				case 0:
					b[i] = byte(r.IntN(256))
				case 1:
					b[i] = special[r.IntN(3)]
				default:
					b[i] = "abc é="[r.IntN(7)]
				}
			}
			c.Text = B(b)
			c.Skip = skips(r, len(b))
			c.Offset = pick(r, []int{0, 0, 1, 7, 300, 1 << 20})
			for _, p := range []*int{&c.Value, &c.Low, &c.High} {
				if r.P(50) {
					*p = pick(r, numbers)
				} else {
					*p = r.In(-2000, 2000)
				}
			}
			return c
		},
		Eval: func(c Case34, o *Obs) error {
			// Numbers.
			digits := strings.Map(func(b rune) rune {
				if b < '0' || b > '9' {
					return -1
				}
				return b
			}, string(c.Digits))
			if len(strings.TrimLeft(digits, "0")) > 18 {
				digits = digits[:18]
			}
			in := append(make([]byte, 0, len(digits)+3), digits...)
			want := 0
			for _, d := range []byte(digits) {
				want = 10*want + int(d-'0')
			}
			if g := common.UnsafeUTF8DecimalCodePointsToInt(in); g != want {
				return fmt.Errorf("the digits %q are %d", digits, g)
			}
			if string(in) != digits {
				return fmt.Errorf("the digits %q became %q", digits, in)
			}
			if len(digits) > 1 {
				o.NonTrivial()
				o.Label("number")
			}
			// Removing.
			text := []byte(c.Text)
			data := append(make([]byte, 0, len(text)+5), text...)
			var places []int
			var left []byte
			for i, b := range text {
				if i < len(c.Skip) && c.Skip[i] != '0' {
					places = append(places, i+c.Offset)
				} else {
					left = append(left, b)
				}
			}
			kept := append([]int(nil), places...)
			g := common.RemoveBytes(data, places, c.Offset)
			if !bytes.Equal(g, left) {
				return fmt.Errorf("removing %v (offset %d) from %q gives %q, want %q", cutInts(places), c.Offset, tail(string(text), 200), tail(string(g), 200), tail(string(left), 200))
			}
			full := data[:cap(data)]
			if !bytes.Equal(data, text) || !bytes.Equal(full[len(text):], make([]byte, cap(data)-len(data))) {
				return fmt.Errorf("removing changed the data %q to %q", tail(string(text), 200), tail(string(full), 200))
			}
			for i := range kept {
				if kept[i] != places[i] {
					return fmt.Errorf("removing changed the positions %v to %v", cutInts(kept), cutInts(places))
				}
			}
			for i := range g {
				g[i] ^= 0xff
			}
			if len(places) > 0 && !bytes.Equal(data, text) {
				return fmt.Errorf("what is left of %q shares its bytes", tail(string(text), 200))
			}
			if len(places) > 0 {
				o.NonTrivial()
				o.Label("bytes removed")
			}
			// Escaping.
			var esc []byte
			for _, b := range text {
				if strings.IndexByte(special, b) >= 0 {
					esc = append(esc, '\\')
				}
				esc = append(esc, b)
			}
			if g := common.EscapeBytes(string(text)); g != string(esc) {
				return fmt.Errorf("escaping %q gives %q, want %q", tail(string(text), 200), tail(g, 200), tail(string(esc), 200))
			}
			if len(esc) > len(text) {
				o.NonTrivial()
				o.Label("bytes escaped")
			}
			// Ranges.
			v, lo, hi := c.Value, c.Low, c.High
			if g := common.InBetween(v, lo, hi); g != (lo <= v && v <= hi) {
				return fmt.Errorf("%d in [%d, %d]: %v", v, lo, hi, g)
			}
			if p := uint8(v); common.ValidPriority(p) != (p <= 191) {
				return fmt.Errorf("priority %d valid: %v", p, p > 191)
			}
			if n := uint16(v); common.ValidVersion(n) != (n >= 1 && n <= 999) {
				return fmt.Errorf("version %d valid: %v", n, n == 0 || n > 999)
			}
			return nil
		},
	})
}

func cutInts(l []int) []int { return l[:min(len(l), 20)] }
