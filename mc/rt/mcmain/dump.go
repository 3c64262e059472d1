//go:build go1.21

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// dumper writes a canonical form of everything reachable from a value:
// pointers become the number of their first occurrence, generated UIDs become
// the number of their first occurrence, and map entries are sorted.
type dumper struct {
	b    strings.Builder
	ptrs map[unsafe.Pointer]int
	uids map[string]int
	deep int
}

// Canon returns a canonical form of the values.
func Canon(vs ...interface{}) string {
	d := &dumper{ptrs: map[unsafe.Pointer]int{}, uids: map[string]int{}}
	for _, v := range vs {
		d.value(reflect.ValueOf(v))
		d.b.WriteByte('|')
	}
	return d.b.String()
}

func looksLikeUUID(s string) bool {
	if len(s) != 36 || s[8] != '-' || s[13] != '-' || s[18] != '-' || s[23] != '-' {
		return false
	}
	return true
}

func (d *dumper) str(s string) {
	if looksLikeUUID(s) {
		n, ok := d.uids[s]
		if !ok {
			n = len(d.uids)
			d.uids[s] = n
		}
		fmt.Fprintf(&d.b, "U%d", n)
		return
	}
	fmt.Fprintf(&d.b, "%q", s)
}

const vsSuffix = "/verifmc/vs"

func (d *dumper) value(v reflect.Value) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	if d.deep > 200 {
		d.b.WriteString("...")
		return
	}
	d.deep++
	defer func() { d.deep-- }()
	t := v.Type()
	if strings.HasSuffix(t.PkgPath(), vsSuffix) && t.Kind() == reflect.Struct {
		d.b.WriteString("S")
		for _, f := range []string{"m", "items", "done"} {
			if t.Name() == "Map" || t.Name() == "Pool" || t.Name() == "Once" {
				if x := v.FieldByName(f); x.IsValid() && x.Kind() != reflect.Struct {
					d.value(x)
				}
			}
		}
		if s := v.FieldByName("s"); s.IsValid() && s.Kind() == reflect.Struct {
			for _, f := range []string{"locked", "w", "held", "readers", "n"} {
				if x := s.FieldByName(f); x.IsValid() {
					d.value(x)
				}
			}
		}
		return
	}
	if strings.HasPrefix(t.Name(), "Pointer[") && t.PkgPath() == "sync/atomic" && t.NumField() > 2 {
		if f := t.Field(0).Type; f.Kind() == reflect.Array && f.Elem().Kind() == reflect.Ptr {
			if x := v.FieldByName("v"); x.IsValid() && x.Kind() == reflect.UnsafePointer {
				d.value(reflect.NewAt(f.Elem().Elem(), x.UnsafePointer()))
				return
			}
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(&d.b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(&d.b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(&d.b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(&d.b, "%v", v.Float())
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprintf(&d.b, "%v", v.Complex())
	case reflect.String:
		d.str(v.String())
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		p := v.UnsafePointer()
		if n, ok := d.ptrs[p]; ok {
			fmt.Fprintf(&d.b, "*%d", n)
			return
		}
		d.ptrs[p] = len(d.ptrs)
		d.b.WriteString("&")
		d.value(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteString(v.Elem().Type().String())
		d.b.WriteByte(':')
		d.value(v.Elem())
	case reflect.Struct:
		d.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			d.value(v.Field(i))
			d.b.WriteByte(',')
		}
		d.b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			d.b.WriteString("nil[]")
			return
		}
		fallthrough
	case reflect.Array:
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.value(v.Index(i))
			d.b.WriteByte(',')
		}
		d.b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			d.b.WriteString("nilmap")
			return
		}
		p := v.UnsafePointer()
		if n, ok := d.ptrs[p]; ok {
			fmt.Fprintf(&d.b, "*%d", n)
			return
		}
		d.ptrs[p] = len(d.ptrs)
		type kv struct {
			s    string
			k, v reflect.Value
		}
		var kvs []kv
		for it := v.MapRange(); it.Next(); {
			kvs = append(kvs, kv{sortKey(it.Key(), 0), it.Key(), it.Value()})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].s < kvs[j].s })
		d.b.WriteString("map[")
		for _, e := range kvs {
			d.value(e.k)
			d.b.WriteByte(':')
			d.value(e.v)
			d.b.WriteByte(',')
		}
		d.b.WriteByte(']')
	case reflect.Chan:
		if v.IsNil() {
			d.b.WriteString("nilchan")
			return
		}
		p := v.UnsafePointer()
		n, ok := d.ptrs[p]
		if !ok {
			n = len(d.ptrs)
			d.ptrs[p] = n
		}
		fmt.Fprintf(&d.b, "chan%d(%d/%d)", n, v.Len(), v.Cap())
	case reflect.Func:
		if v.IsNil() {
			d.b.WriteString("nilfunc")
		} else {
			d.b.WriteString("func")
		}
	default:
		d.b.WriteString("?")
	}
}

// sortKey orders map keys independently of addresses.
func sortKey(v reflect.Value, deep int) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() || deep > 4 {
			return "nil"
		}
		return sortKey(v.Elem(), deep+1)
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Struct, reflect.Array:
		s := ""
		n := 0
		if v.Kind() == reflect.Struct {
			n = v.NumField()
		} else {
			n = v.Len()
		}
		for i := 0; i < n; i++ {
			if v.Kind() == reflect.Struct {
				s += sortKey(v.Field(i), deep+1) + ","
			} else {
				s += sortKey(v.Index(i), deep+1) + ","
			}
		}
		return s
	}
	return fmt.Sprint(v)
}
