package main

import (
	"os"
	"testing"
)

// FuzzCase fuzzes the check named by VERIF_FUZZ. It is run by the thorough tier (see fuzzing in main.go).
func FuzzCase(f *testing.F) {
	ck := checks[os.Getenv("VERIF_FUZZ")]
	if ck == nil || ck.Gen == nil || os.Getenv("VERIF_FUZZ_OUT") == "" {
		f.Skip("VERIF_FUZZ and VERIF_FUZZ_OUT are not set")
	}
	for _, s := range fuzzSeeds(ck) {
		f.Add(s)
	}
	var cur current
	go watch(&cur, func(c any, why string) {
		fuzzFailure(c)
		os.Exit(4)
	})
	f.Fuzz(func(t *testing.T, in []byte) {
		c := caseFromBytes(ck, in)
		cur.item.Store(holder{c})
		cur.seq.Add(1)
		err := evalSafe(ck, c, &Obs{labels: map[string]int{}, scale: 1})
		cur.item.Store(holder{nil})
		if err != nil {
			fuzzFailure(c)
			t.Fatal(err)
		}
	})
}
