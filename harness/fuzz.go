package main

import (
	"encoding/json"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
)

// Coverage guided fuzzing (thorough tier): the bytes which the fuzzing engine mutates either drive the random choices
// of the generator of the check, or are the input of a case themselves.

// byteSource gives the bytes of the fuzzer as random numbers, and pseudo random ones when they are used up.
type byteSource struct {
	in   []byte
	rest *rand.PCG
}

func (s *byteSource) Uint64() uint64 {
	if len(s.in) == 0 {
		return s.rest.Uint64()
	}
	v := uint64(s.in[0])
	if len(s.in) > 1 {
		v = v<<8 | uint64(s.in[1])
		s.in = s.in[2:]
	} else {
		v <<= 8
		s.in = nil
	}
	return v * 0x0001000100010001
}

func hash64(in []byte) uint64 {
	h := fnv.New64a()
	h.Write(in)
	return h.Sum64()
}

// caseFromBytes decodes a case.
func caseFromBytes(ck *Check, in []byte) any {
	t := tierOf("thorough")
	if len(in) < 4 {
		in = append(append([]byte(nil), in...), 0, 0, 0, 0)
	}
	mode := in[0]
	if ck.Raw && mode&1 == 0 {
		r := &Rand{Rand: rand.New(rand.NewPCG(hash64(in[1:4]), 1))}
		c := ck.Gen(r, t)
		v := reflect.ValueOf(c).Elem()
		for _, f := range []string{"In", "Data"} {
			if x := v.FieldByName(f); x.IsValid() {
				x.SetString(string(in[4:]))
				return c
			}
		}
	}
	return ck.Gen(&Rand{Rand: rand.New(&byteSource{in[1:], rand.NewPCG(hash64(in), 2)})}, t)
}

// fuzzSeeds are the first inputs of the fuzzer.
func fuzzSeeds(ck *Check) (out [][]byte) {
	for i := 0; i < 16; i++ {
		b := []byte{1}
		r := newRand("fuzz", ck.ID, i)
		for n := r.In(4, 300); n > 0; n-- {
			b = append(b, byte(r.IntN(256)))
		}
		out = append(out, b)
	}
	if !ck.Raw {
		return out
	}
	t := tierOf("thorough")
	for i := 0; i < 60; i++ {
		c := ck.Gen(newRand("fuzz", ck.ID, i), t)
		v := reflect.ValueOf(c).Elem()
		for _, f := range []string{"In", "Data"} {
			if x := v.FieldByName(f); x.IsValid() && x.Len() < 3000 {
				out = append(out, append([]byte{0, byte(i), 0, 0}, x.String()...))
			}
		}
	}
	return out
}

// fuzzFailure writes a failing case down; the last one written is the smallest.
func fuzzFailure(c any) {
	d, err := json.Marshal(c)
	if err != nil {
		return
	}
	dst := os.Getenv("VERIF_FUZZ_OUT")
	f, err := os.CreateTemp(filepath.Dir(dst), "case")
	if err != nil {
		return
	}
	f.Write(d)
	f.Close()
	os.Rename(f.Name(), dst)
}
