//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
)

// Names that code which treats names as more than opaque strings is likely to
// confuse: names that are equal up to case, space, normal form, truncation,
// cleaning of paths, patterns, and names that contain separators. The strings
// and numbers that occur in the code itself (collected by the driver) join them.

type dictionary struct {
	Strings []string
	Ints    []int64
	In      map[string][]int64
	Floats  []float64
}

var theDict *dictionary

func dict() *dictionary {
	if theDict == nil {
		theDict = &dictionary{}
		if b, err := os.ReadFile(*fScratch + "/dict.json"); err == nil {
			_ = json.Unmarshal(b, theDict)
		}
	}
	return theDict
}

// reserved are the names that harnesses use for what does not exist.
var reserved = map[string]bool{"absent": true, "absent ": true, "absent too": true, "gone": true}

// uniq is ss without repetitions, in order.
func uniq(ss []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] && !reserved[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

var closeNames = []string{
	"a", "A", " a", "a ", "a\n", "a\x00", "aa", "a\u00adb", "ab", "a/", "/a", "./a", "a.", "a*", "*", "a%20", "a%", "?", "",
	"é", "e\u0301", "É", "ß", "ss", "SS", "K", "\u212a", "k", "ﬁ", "fi", "\xff", "\xfe", "\ufffd", "0", "00", "1", "01", "1.0", "-1", "<nil>", "nil", "null",
	"0F8FAD5B-D9CB-469F-A165-70867728950E", "0f8fad5b-d9cb-469f-a165-70867728950e", "0f8fad5bd9cb469fa16570867728950e", "{0f8fad5b-d9cb-469f-a165-70867728950e}",
}

var separators = []string{"/", ":", "-", "_", ".", ",", ";", "|", " ", "->", "=>", "#", "@", "\x00", "\n", "\t", "+", "=", "&", "::", "--", "", "<>", "~", "\x1f"}

// longName is a long name; two of them differ in their last byte only.
func longName(n int, last string) string { return strings.Repeat("n", n) + last }

// nameSet is a set of names that have to be kept apart.
type nameSet struct {
	name  string
	names []string
}

// dictStrings are the strings in the code that could be confused with names.
func dictStrings(max int) []string {
	var out []string
	for _, s := range dict().Strings {
		if len(out) == max {
			break
		}
		out = append(out, s)
	}
	return out
}

// chunked splits names into sets of up to n; every set also has the names fix.
func chunked(name string, names, fix []string, n int) []nameSet {
	var out []nameSet
	for i := 0; i < len(names); i += n {
		j := i + n
		if j > len(names) {
			j = len(names)
		}
		out = append(out, nameSet{fmt.Sprintf("%s%d", name, i/n), uniq(append(append([]string(nil), names[i:j]...), fix...))})
	}
	return out
}

// nameSets are sets of about n names.
func nameSets(n int) []nameSet {
	var out []nameSet
	out = append(out, chunked("close", closeNames, []string{"a", "b"}, n)...)
	var long []string
	for _, k := range []int{7, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4096} {
		long = append(long, longName(k, "a"), longName(k, "b"))
	}
	out = append(out, chunked("long", long, []string{"a", "b"}, n)...)
	// pairs (x, y) with equal concatenations x+sep+y
	for _, s := range separators {
		out = append(out, nameSet{fmt.Sprintf("sep %q", s), uniq([]string{"a", "b", "a" + s + "b", "b" + s + "a", s, "a" + s, s + "a", ""})})
	}
	var ds []string
	for _, s := range dictStrings(pick(60, 150)) {
		ds = append(ds, s)
		for _, t := range []string{strings.ToLower(s), strings.ToUpper(s), s + "a", "a" + s, strings.TrimSpace(s)} {
			ds = append(ds, t)
		}
	}
	return append(out, chunked("dict", uniq(ds), []string{"a", "b"}, n)...)
}

// specials are the strings in the code and near them, to be used as values.
func specials() []string {
	var out []string
	out = append(out, closeNames...)
	for _, s := range dictStrings(pick(60, 150)) {
		out = append(out, s, strings.ToUpper(s), s+"a", "a"+s)
	}
	for _, k := range []int{16, 32, 64, 128, 256, 1024, 4096} {
		out = append(out, longName(k, "a"))
	}
	return uniq(out)
}

// sizes are the sizes up to max at which behaviour may change: small ones,
// those next to powers of two and tens, and those next to numbers in the code
// (which may be somewhat bigger).
func sizes(max int) []int {
	set := map[int]bool{}
	add := func(n int) {
		for d := -1; d <= 1; d++ {
			if n+d >= 1 && n+d <= max {
				set[n+d] = true
			}
		}
	}
	for n := 1; n <= 6; n++ {
		add(n)
	}
	for n := 8; n <= max+1; n *= 2 {
		add(n)
	}
	for n := 10; n <= max+1; n *= 10 {
		add(n)
	}
	limit := 2 * max
	if max >= 100 {
		limit = 5 * max
	}
	if limit > 1100 && max < 1100 {
		limit = 1100
	}
	for _, n := range dict().Ints {
		if n <= int64(max)+1 {
			add(int(n))
		} else if n <= int64(limit) {
			set[int(n)], set[int(n)+1] = true, true
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// reach is n, or more if a number up to the limit occurs in the code of the
// packages with these names.
func reach(n, limit int, pkgs ...string) int {
	for path, ks := range dict().In {
		for _, p := range pkgs {
			if !strings.HasSuffix(path, p) {
				continue
			}
			for _, k := range ks {
				if k <= int64(limit) && int(k)+int(k)/8+2 > n {
					n = int(k) + int(k)/8 + 2
				}
			}
		}
	}
	return n
}

// sized is a nameSet of n plain names.
func sized(n int) nameSet {
	s := nameSet{name: fmt.Sprintf("%d names", n)}
	for i := 0; i < n; i++ {
		s.names = append(s.names, fmt.Sprintf("u%d", i))
	}
	return s
}

// weights are numbers that may be treated in a special way: the limits of
// floating point numbers and those in the code, and numbers next to them.
func weights() []float64 {
	ws := []float64{1.5, 0, math.Copysign(0, -1), 1, -1, 0.5, 0.1, 1.0 / 3, 2, 3, 10, 99.99, 100, 1e3, -2.5, 1 << 24, 1<<24 + 1, 1 << 53, 1<<53 + 2, 0.1 + 0.2, 0.3,
		math.MaxFloat32, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1e-300, 1e-9, 1e-6, -1e-9, 1 << 63, math.MaxInt32, math.Inf(1), math.Inf(-1), math.NaN(), math.Pi}
	for _, f := range dict().Floats {
		ws = append(ws, f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), -f)
	}
	seen := map[uint64]bool{}
	var out []float64
	for _, w := range ws {
		if b := math.Float64bits(w); !seen[b] {
			seen[b] = true
			out = append(out, w)
		}
	}
	return out
}
