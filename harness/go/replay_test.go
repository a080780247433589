package zzverif

// Replaying specification behaviours into the real code.
//
//	ZZ_FAMILY  which specification the behaviours come from
//	ZZ_IN      file with one JSON behaviour per line
//	ZZ_OUT     file for the JSON result
//
// A behaviour is replayed until its first difference; the result lists the
// differences, and counts what was exercised.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"testing"
)

type mismatch struct {
	Index int    `json:"index"`
	Step  int    `json:"step"`
	What  string `json:"what"`
}

type result struct {
	Behaviours int            `json:"behaviours"`
	Steps      int            `json:"steps"`
	Checks     int            `json:"checks"`
	Counts     map[string]int `json:"counts"`
	Mismatches []mismatch     `json:"mismatches"`
	Done       bool           `json:"done"`
}

// replayer runs one behaviour; it reports through r.
type rep struct {
	res  *result
	step int
	diff string
}

func (r *rep) count(k string) { r.res.Counts[k]++ }

// differ records the first difference and aborts the behaviour.
func (r *rep) differ(f string, args ...any) {
	r.diff = fmt.Sprintf(f, args...)
	panic(abort{})
}

type abort struct{}

func (r *rep) eq(what string, want, got any) {
	r.res.Checks++
	w, g := fmt.Sprint(want), fmt.Sprint(got)
	if w != g {
		r.differ("%s: specification %s, code %s", what, w, g)
	}
}

type family struct {
	setup func(t *testing.T) any
	run   func(t *testing.T, s any, line []byte, r *rep)
}

var families = map[string]family{}

func TestReplay(t *testing.T) {
	fam, ok := families[os.Getenv("ZZ_FAMILY")]
	if !ok {
		t.Skip("no ZZ_FAMILY")
	}
	in, err := os.Open(os.Getenv("ZZ_IN"))
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	res := &result{Counts: map[string]int{}, Mismatches: []mismatch{}}
	s := fam.setup(t)
	cur, err := os.Create(os.Getenv("ZZ_OUT") + ".cur")
	if err != nil {
		t.Fatal(err)
	}
	defer cur.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for i := 0; sc.Scan(); i++ {
		r := &rep{res: res}
		// should the code under test end the process, this tells where
		_, _ = cur.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(abort); ok {
						res.Mismatches = append(res.Mismatches, mismatch{i, r.step, r.diff})
						return
					}
					st := string(debug.Stack())
					// no behaviour makes the driver panic unless the code
					// under test panics or answers something malformed
					res.Mismatches = append(res.Mismatches, mismatch{i, r.step, fmt.Sprintf("panic: %v\n%s", x, st)})
				}
			}()
			fam.run(t, s, sc.Bytes(), r)
		}()
		res.Behaviours++
		if len(res.Mismatches) >= 3 {
			break
		}
	}
	if err := sc.Err(); err != nil {
		t.Fatal(err)
	}
	res.Done = true
	b, _ := json.Marshal(res)
	if err := os.WriteFile(os.Getenv("ZZ_OUT"), b, 0o644); err != nil {
		t.Fatal(err)
	}
}

// sorted object helper: TLC prints functions over 1..n as arrays and empty
// functions as [].
type fn[T any] map[string]T

func (f *fn[T]) UnmarshalJSON(b []byte) error {
	*f = fn[T]{}
	var l []T
	if json.Unmarshal(b, &l) == nil {
		for i, x := range l {
			(*f)[fmt.Sprint(i+1)] = x
		}
		return nil
	}
	m := map[string]T{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*f = m
	return nil
}
