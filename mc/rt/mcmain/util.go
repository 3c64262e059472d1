//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

// bg is the context of all calls.
var bg = context.Background()

// refused is set when an operation returned the error of a context.
var refused bool

// suid is an implementation of uuid.UID of our own.
type suid string

func (s suid) String() string { return string(s) }

// uid returns a new UID object with value s.
func uid(s string) uuid.UID { return memuid.NewFromString(s) }

// uids returns new UID objects.
func uidsOf(ss ...string) []uuid.UID {
	var us []uuid.UID
	for i, s := range ss {
		if i%2 == 1 {
			us = append(us, suid(s))
			continue
		}
		us = append(us, uid(s))
	}
	return us
}

func mkAttrs(kv ...string) attrs.Attrs {
	a := memattrs.New()
	for i := 0; i+1 < len(kv); i += 2 {
		_ = a.Set(bg, kv[i], kv[i+1])
	}
	return a
}

// attrStr is the content of a in a canonical form.
func attrStr(a attrs.Attrs) string {
	if a == nil {
		return "<nil>"
	}
	ks, err := a.Keys(bg)
	if err != nil {
		return "error " + err.Error()
	}
	ks = append([]string(nil), ks...)
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		v, err := a.Get(bg, k)
		if err != nil {
			return "error " + err.Error()
		}
		fmt.Fprintf(&b, "%q=%q,", k, v)
	}
	return b.String()
}

// bits is w in a form in which equal values are equal.
func bits(w float64) string { return fmt.Sprintf("%v/%x", w, math.Float64bits(w)) }

func errStr(err error, known ...error) string {
	if errors.Is(err, context.Canceled) {
		refused = true
	}
	if err == nil {
		return "ok"
	}
	for _, k := range known {
		if errors.Is(err, k) {
			return k.Error()
		}
	}
	return "error: " + err.Error()
}

// try calls f and returns the value it panics with.
func try(f func()) (p interface{}, panicked bool) {
	done := false
	defer func() {
		if !done {
			if r := recover(); r != nil {
				p, panicked = r, true
			}
		}
	}()
	f()
	done = true
	return nil, false
}

func sorted(ss []string) []string {
	out := append([]string(nil), ss...)
	sort.Strings(out)
	return out
}

func join(ss []string) string { return strings.Join(sorted(ss), " ") }

func diffOf(what, got, want string) string {
	if got == want {
		return ""
	}
	return fmt.Sprintf("%s: got %s, want %s", what, got, want)
}

// kept are lists which were returned by the code under test. They must stay as
// they are, and what callers do with them is their own business.
type kept []func(scribble bool) string

func keep[T comparable](k *kept, what string, l []T) {
	was := append([]T(nil), l...)
	*k = append(*k, func(scribble bool) string {
		if scribble {
			var none T
			l = l[:cap(l)]
			for i := range l {
				l[i] = none
			}
			return ""
		}
		for i := range was {
			if l[i] != was[i] {
				return what + ": a list returned earlier has changed"
			}
		}
		return ""
	})
}

// check compares the lists, overwrites them, and forgets them.
func (k *kept) check() string {
	d := ""
	for _, scribble := range []bool{false, true} {
		for _, f := range *k {
			if s := f(scribble); d == "" {
				d = s
			}
		}
	}
	*k = nil
	return d
}

// given calls f with a list which is part of a bigger one. f must leave it as
// it is, and what becomes of it later must not matter.
func given[T comparable](list []T, f func([]T) string) string {
	if len(list) == 0 {
		return f(list)
	}
	big := append(append([]T(nil), list...), list[0], list[0])
	was := append([]T(nil), big...)
	n := len(list)
	s := f(big[:n:cap(big)])
	var none T
	for i := range was {
		if big[i] != was[i] {
			s += ", and changed the list it was given"
			break
		}
	}
	for i := range big {
		big[i] = none
	}
	return s
}
