//go:build go1.21

package vs

import (
	"fmt"
	"reflect"
	"sort"
)

// Desc makes map iteration descending.
var Desc bool

// It iterates over a map in a fixed order.
type It[K comparable, V any] struct {
	m  map[K]V
	ks []K
	i  int
}

// Iter returns an iterator over m and zero values of key and element.
func Iter[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], k K, v V) {
	it = &It[K, V]{m: m}
	if len(m) > 0 {
		it.ks = SortedKeys[map[K]V, K, V](m)
	}
	return it, k, v
}

// Next advances the iterator; keys removed meanwhile are skipped.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.ks) {
		key := it.ks[it.i]
		it.i++
		e, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = e
		}
		return true
	}
	return false
}

// SortedKeys returns the keys of m in a fixed order.
func SortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortKeys(ks)
	return ks
}

func sortedKeys(m map[interface{}]interface{}) []interface{} { return SortedKeys(m) }

func sortKeys[K any](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch s := any(ks).(type) {
	case []string:
		sort.Strings(s)
	case []int64:
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	case []int:
		sort.Ints(s)
	default:
		strs := make([]string, len(ks))
		for i, k := range ks {
			strs[i] = keyString(any(k))
		}
		sort.Stable(&byStr[K]{ks, strs})
	}
	if Desc {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
}

type byStr[K any] struct {
	k []K
	s []string
}

func (b *byStr[K]) Len() int           { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

func keyString(k interface{}) string {
	if s, ok := k.(fmt.Stringer); ok {
		return s.String()
	}
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("%+v", v.Elem())
	}
	return fmt.Sprintf("%+v", k)
}
