//go:build go1.21

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	mjson "github.com/milosgajdos/netscrape/pkg/space/marshal/json"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// C17, C18: marshaling to JSON and back.

func init() {
	checks["C17"] = marshalUnits
	checks["C18"] = unmarshalUnits
}

// val is a value of any kind in a form of our own.
type val struct {
	kind                       string // entity, resource, object, link
	uid, typ, name, group, ver string
	rkind                      string // kind of a resource
	ns                         string // namespace of an object
	nsd                        bool
	from, to                   string
	attrs                      []string
	res                        *val
}

func (v *val) attrsMap() map[string]string {
	m := map[string]string{}
	for i := 0; i+1 < len(v.attrs); i += 2 {
		m[v.attrs[i]] = v.attrs[i+1]
	}
	return m
}

func mapStr(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q,", k, m[k])
	}
	return b.String()
}

func (v *val) String() string {
	if v == nil {
		return "<none>"
	}
	a := mapStr(v.attrsMap())
	switch v.kind {
	case "entity":
		return fmt.Sprintf("entity{%q %q [%s]}", v.uid, v.typ, a)
	case "resource":
		return fmt.Sprintf("resource{%q %q %q %q %q %q %t [%s]}", v.uid, v.typ, v.name, v.group, v.ver, v.rkind, v.nsd, a)
	case "object":
		return fmt.Sprintf("object{%q %q %q %q [%s] %v}", v.uid, v.typ, v.name, v.ns, a, v.res)
	}
	return fmt.Sprintf("link{%q %q %q [%s]}", v.uid, v.from, v.to, a)
}

// own implementations of the kinds
type (
	ownEntity struct{ tent }
	ownRes    struct {
		tent
		v *val
	}
	ownObj struct {
		tent
		v *val
		r space.Resource
	}
	ownLink struct {
		u, f, t uuid.UID
		a       attrs.Attrs
	}
)

func (r *ownRes) Name() string             { return r.v.name }
func (r *ownRes) Group() string            { return r.v.group }
func (r *ownRes) Version() string          { return r.v.ver }
func (r *ownRes) Kind() string             { return r.v.rkind }
func (r *ownRes) Namespaced() bool         { return r.v.nsd }
func (o *ownObj) Name() string             { return o.v.name }
func (o *ownObj) Namespace() string        { return o.v.ns }
func (o *ownObj) Resource() space.Resource { return o.r }
func (l *ownLink) UID() uuid.UID           { return l.u }
func (l *ownLink) From() uuid.UID          { return l.f }
func (l *ownLink) To() uuid.UID            { return l.t }
func (l *ownLink) Attrs() attrs.Attrs      { return l.a }

// make creates the value: impl 0 with the constructors of the repository,
// 1 as implementations of our own (attributes in reverse order).
func (v *val) make(impl int) interface{} {
	if impl == 1 {
		var f fixed
		for i := len(v.attrs) - 2; i >= 0; i -= 2 {
			f = append(f, v.attrs[i], v.attrs[i+1])
		}
		e := tent{suid(v.uid), v.typ, f}
		switch v.kind {
		case "entity":
			return &ownEntity{e}
		case "resource":
			return &ownRes{e, v}
		case "object":
			o := &ownObj{tent: e, v: v}
			if v.res != nil {
				o.r = v.res.make(1).(space.Resource)
			}
			return o
		}
		return &ownLink{suid(v.uid), suid(v.from), suid(v.to), f}
	}
	a := mkAttrs(v.attrs...)
	opts := []entity.Option{entity.WithUID(uid(v.uid)), entity.WithAttrs(a)}
	var x interface{}
	var err error
	switch v.kind {
	case "entity":
		x, err = entity.New(v.typ, opts...)
	case "resource":
		x, err = entity.NewResource(v.typ, v.name, v.group, v.ver, v.rkind, v.nsd, opts...)
	case "object":
		var r space.Resource
		if v.res != nil {
			r = v.res.make(0).(space.Resource)
		}
		x, err = entity.NewObject(v.typ, v.name, v.ns, r, opts...)
	default:
		x, err = link.New(uid(v.from), uid(v.to), link.WithUID(uid(v.uid)), link.WithAttrs(a))
	}
	if err != nil {
		panic(err)
	}
	return x
}

func attrsList(a attrs.Attrs) []string {
	m := map[string]string{}
	if a == nil {
		return []string{"<nil attributes>", ""}
	}
	ks, err := a.Keys(bg)
	if err != nil {
		return []string{"error " + err.Error(), ""}
	}
	for _, k := range ks {
		m[k], _ = a.Get(bg, k)
	}
	var l []string
	for _, k := range sorted(ks) {
		l = append(l, k, m[k])
	}
	return l
}

// valOf describes x as a value of the given kind.
func valOf(x interface{}, kind string) *val {
	if l, ok := x.(space.Link); ok && kind == "link" {
		return &val{kind: kind, uid: l.UID().String(), from: l.From().String(), to: l.To().String(), attrs: attrsList(l.Attrs())}
	}
	e, ok := x.(space.Entity)
	if !ok {
		return &val{kind: fmt.Sprintf("%T", x)}
	}
	v := &val{kind: kind, uid: e.UID().String(), typ: e.Type(), attrs: attrsList(e.Attrs())}
	switch kind {
	case "resource":
		r := x.(space.Resource)
		v.name, v.group, v.ver, v.rkind, v.nsd = r.Name(), r.Group(), r.Version(), r.Kind(), r.Namespaced()
	case "object":
		o := x.(space.Object)
		v.name, v.ns = o.Name(), o.Namespace()
		if r := o.Resource(); r != nil {
			v.res = valOf(r, "resource")
		}
	}
	return v
}

// fields are the documented JSON fields.
func (v *val) fields() map[string]interface{} {
	f := map[string]interface{}{"uid": v.uid}
	if len(v.attrs) > 0 {
		m := map[string]interface{}{}
		for k, s := range v.attrsMap() {
			m[k] = s
		}
		f["attrs"] = m
	}
	switch v.kind {
	case "link":
		f["from"], f["to"] = v.from, v.to
		return f
	case "resource":
		f["name"], f["group"], f["version"], f["kind"], f["namespaced"] = v.name, v.group, v.ver, v.rkind, v.nsd
	case "object":
		f["name"], f["namespace"] = v.name, v.ns
		if v.res != nil {
			f["resource"] = v.res.fields()
		}
	}
	f["type"] = v.typ
	return f
}

// cleanFields drops fields that say nothing from decoded JSON.
func cleanFields(m map[string]interface{}) map[string]interface{} {
	if a, ok := m["attrs"]; ok {
		if am, isMap := a.(map[string]interface{}); a == nil || isMap && len(am) == 0 {
			delete(m, "attrs")
		}
	}
	if r, ok := m["resource"]; ok {
		if r == nil {
			delete(m, "resource")
		} else if rm, isMap := r.(map[string]interface{}); isMap {
			m["resource"] = cleanFields(rm)
		}
	}
	return m
}

// dest is a destination for values of a kind, filled with something before.
func dest(kind string, filled bool) (ptr interface{}, get func() interface{}) {
	junk := &val{kind: kind, uid: "old", typ: "oldtype", name: "oldname", group: "oldgroup", ver: "oldver", rkind: "oldkind", ns: "oldns", nsd: true, from: "oldfrom", to: "oldto", attrs: []string{"old", "value"}}
	if kind == "object" {
		r := *junk
		r.kind = "resource"
		junk.res = &r
	}
	switch kind {
	case "entity":
		var x space.Entity
		if filled {
			x = junk.make(0).(space.Entity)
		}
		return &x, func() interface{} { return x }
	case "resource":
		var x space.Resource
		if filled {
			x = junk.make(0).(space.Resource)
		}
		return &x, func() interface{} { return x }
	case "object":
		var x space.Object
		if filled {
			x = junk.make(0).(space.Object)
		}
		return &x, func() interface{} { return x }
	}
	var x space.Link
	if filled {
		x = junk.make(0).(space.Link)
	}
	return &x, func() interface{} { return x }
}

func isNil(x interface{}) bool {
	return x == nil || reflect.ValueOf(x).Kind() == reflect.Ptr && reflect.ValueOf(x).IsNil()
}

// roundTrip checks marshaling v and back.
// marshalOthers are values marshaled in between.
var marshalOthers = []interface{}{
	(&val{kind: "entity", uid: "w", typ: "wt"}).make(0),
	(&val{kind: "link", uid: "w2", from: "f", to: "t", attrs: []string{"w3", strings.Repeat("w", 2000)}}).make(0),
}

func roundTrip(v *val, impl int) string {
	m, err := mjson.NewMarshaler()
	if err != nil {
		return err.Error()
	}
	x := v.make(impl)
	b, err := m.Marshal(x)
	if err != nil {
		return "Marshal: " + err.Error()
	}
	if got := valOf(x, v.kind).String(); got != v.String() {
		return fmt.Sprintf("marshaling changed %v to %s", v, got)
	}
	text := string(b)
	var f map[string]interface{}
	if err := json.Unmarshal(b, &f); err != nil {
		return fmt.Sprintf("%q is not JSON: %v", text, err)
	}
	if want := v.fields(); !reflect.DeepEqual(cleanFields(f), want) {
		return fmt.Sprintf("JSON %s has fields %v, want %v", text, f, want)
	}
	b2, err := m.Marshal(v.make(0))
	if err != nil || string(b2) != text {
		return fmt.Sprintf("an equal value has JSON %s, error %v, not %s", b2, err, text)
	}
	// other calls do not change what was returned
	for _, w := range marshalOthers {
		if _, err := m.Marshal(w); err != nil {
			return "Marshal: " + err.Error()
		}
		if string(b) != text || string(b2) != text {
			return fmt.Sprintf("marshaling something else changed %s to %s, %s", text, b, b2)
		}
	}
	p, get := dest(v.kind, true)
	if err := m.Unmarshal(b, p); err != nil {
		return "Unmarshal: " + err.Error()
	}
	if string(b) != text {
		return "Unmarshal changed its input"
	}
	for i := range b {
		b[i] = 'x'
	}
	y := get()
	if isNil(y) {
		return "Unmarshal gave nothing"
	}
	got := valOf(y, v.kind)
	if got.String() != v.String() {
		return fmt.Sprintf("got back %v, want %v (JSON %s)", got, v, text)
	}
	// the two are independent
	setAll := func(z interface{}, k string) {
		if a, ok := z.(interface{ Attrs() attrs.Attrs }); ok && a.Attrs() != nil {
			_ = a.Attrs().Set(bg, k, "changed")
			for _, kk := range v.attrsMap() {
				_ = a.Attrs().Set(bg, kk, "changed")
			}
		}
	}
	setAll(y, "new1")
	if o, ok := y.(space.Object); ok && v.res != nil {
		setAll(o.Resource(), "new2")
	}
	if got := valOf(x, v.kind).String(); got != v.String() {
		return fmt.Sprintf("changing the result changed the value to %s", got)
	}
	p2, get2 := dest(v.kind, false)
	if err := m.Unmarshal([]byte(text), p2); err != nil {
		return "Unmarshal: " + err.Error()
	}
	if got := valOf(get2(), v.kind).String(); got != v.String() {
		return fmt.Sprintf("the second Unmarshal gave %s, want %v", got, v)
	}
	return ""
}

// convert checks the conversions of package marshal.
func convert(v *val, impl int) string {
	x := v.make(impl)
	var y, out interface{}
	var err error
	var amap map[string]string
	switch v.kind {
	case "entity":
		var c *marshal.Entity
		c, err = marshal.EntityFromSpace(x.(space.Entity))
		if err == nil {
			amap, out = c.Attrs, *c
			y, err = marshal.EntityToSpace(*c)
		}
	case "resource":
		var c *marshal.Resource
		c, err = marshal.ResourceFromSpace(x.(space.Resource))
		if err == nil {
			amap, out = c.Attrs, *c
			y, err = marshal.ResourceToSpace(*c)
		}
	case "object":
		var c *marshal.Object
		c, err = marshal.ObjectFromSpace(x.(space.Object))
		if err == nil {
			amap, out = c.Attrs, *c
			y, err = marshal.ObjectToSpace(*c)
		}
	case "link":
		var c *marshal.Link
		c, err = marshal.LinkFromSpace(x.(space.Link))
		if err == nil {
			amap, out = c.Attrs, *c
			y, err = marshal.LinkToSpace(*c)
		}
	}
	if err != nil {
		return err.Error()
	}
	if got := valOf(y, v.kind).String(); got != v.String() {
		return fmt.Sprintf("converted to %+v and back to %s, want %v", out, got, v)
	}
	// attributes are shared with neither side
	if amap != nil {
		amap["new"] = "x"
	}
	if got := valOf(x, v.kind).String(); got != v.String() {
		return fmt.Sprintf("changing what it was converted to changed it to %s", got)
	}
	if got := valOf(y, v.kind).String(); got != v.String() {
		return fmt.Sprintf("changing what it was made from changed it to %s", got)
	}
	if a := y.(interface{ Attrs() attrs.Attrs }).Attrs(); a != nil {
		_ = a.Set(bg, "new2", "x")
	}
	if _, ok := amap["new2"]; ok {
		return "attributes are shared with what they were made from"
	}
	if got := valOf(x, v.kind).String(); got != v.String() {
		return fmt.Sprintf("changing the result changed the value to %s", got)
	}
	return ""
}

// jsonStrings are strings that are hard to encode.
var jsonStrings = []string{"", "a", "b", `"`, `\`, "<&>", "\u2028\u2029", "é", "日本", "\x00\x01\x1f", "\x7f\u0080", "\ufffd", "😀", "\n\r\t", "null", "{}", " ", "\\u0041", "uid", strings.Repeat("long ", 300)}

// setField sets string field i of v; it returns false if there is none.
func setField(v *val, i int, s string) bool {
	var fs []*string
	switch v.kind {
	case "entity":
		fs = []*string{&v.uid, &v.typ}
	case "resource":
		fs = []*string{&v.uid, &v.typ, &v.name, &v.group, &v.ver, &v.rkind}
	case "object":
		fs = []*string{&v.uid, &v.typ, &v.name, &v.ns}
		if v.res != nil {
			fs = append(fs, &v.res.uid, &v.res.typ, &v.res.name, &v.res.group, &v.res.ver, &v.res.rkind)
		}
	case "link":
		fs = []*string{&v.uid, &v.from, &v.to}
	}
	if i >= len(fs) {
		return false
	}
	*fs[i] = s
	return true
}

func baseVal(shape int) *val {
	r := &val{kind: "resource", uid: "ru", typ: "rt", name: "rn", group: "rg", ver: "rv", rkind: "rk", nsd: true, attrs: []string{"ra", "rb"}}
	switch shape {
	case 0:
		return &val{kind: "entity", uid: "u", typ: "t", attrs: []string{"k", "v"}}
	case 1:
		return r
	case 2:
		return &val{kind: "object", uid: "u", typ: "t", name: "n", ns: "ns"}
	case 3:
		return &val{kind: "object", uid: "u", typ: "t", name: "n", ns: "ns", attrs: []string{"oa", "ob"}, res: r}
	case 4:
		return &val{kind: "link", uid: "u", from: "f", to: "t", attrs: []string{"k", "v"}}
	case 5:
		return &val{kind: "entity"}
	case 6:
		return &val{kind: "resource"}
	case 7:
		return &val{kind: "object", res: &val{kind: "resource"}}
	}
	return &val{kind: "link"}
}

const nshapes = 9

func both(v *val, impl int) string {
	if d := roundTrip(v, impl); d != "" {
		return d
	}
	return convert(v, impl)
}

// failAttrs fails at a point.
type failAttrs struct {
	keys []string
	at   int // 0: Keys, n: the n-th Get
	n    *int
	err  error // instead of errAttrs
}

func (f failAttrs) failure() error {
	if f.err != nil {
		return f.err
	}
	return errAttrs
}

var errAttrs = errors.New("attributes failed")

func (f failAttrs) Keys(context.Context) ([]string, error) {
	if f.at == 0 {
		return f.keys, f.failure()
	}
	return append([]string(nil), f.keys...), nil
}

func (f failAttrs) Get(_ context.Context, k string) (string, error) {
	*f.n++
	if *f.n == f.at {
		return "partial", f.failure()
	}
	return "v" + k, nil
}

func (f failAttrs) Set(context.Context, string, string) error { return errAttrs }

func marshalUnits() []Unit {
	var us []Unit
	add := func(name string, n int, mk func(i int) (*val, int)) {
		for _, desc := range []bool{false, true} {
			desc := desc
			nm := name
			if desc {
				nm += "/desc"
			}
			us = append(us, Unit{Name: nm, Run: func(r *R) {
				r.Batch(name, n, desc, func(i int) string { v, impl := mk(i); return fmt.Sprintf("implementation %d of %v", impl, v) },
					func(i int) string {
						v, impl := mk(i)
						if v == nil {
							return ""
						}
						return both(v, impl)
					})
			}})
		}
	}
	ns := len(jsonStrings)
	b1 := []int{2, nshapes, 10, 10, ns, ns}
	add("fields", product(b1...), func(i int) (*val, int) {
		d := mixed(i, b1...)
		v := baseVal(d[1])
		if d[2] > d[3] || !setField(v, d[2], jsonStrings[d[4]]) || !setField(v, d[3], jsonStrings[d[5]]) {
			return nil, 0
		}
		return v, d[0]
	})
	b2 := []int{2, nshapes, ns, ns, ns, 3}
	add("attributes", product(b2...), func(i int) (*val, int) {
		d := mixed(i, b2...)
		v := baseVal(d[1])
		a := []string{jsonStrings[d[2]], jsonStrings[d[4]]}
		if d[2] != d[3] {
			a = append(a, jsonStrings[d[3]], jsonStrings[d[4]]+"x")
		}
		switch d[5] {
		case 0:
			v.attrs = a
		case 1:
			if v.res == nil {
				return nil, 0
			}
			v.res.attrs = a
		case 2:
			if v.res == nil {
				return nil, 0
			}
			v.attrs, v.res.attrs = a, a
		}
		return v, d[0]
	})
	// all combinations of empty, set and equal fields
	small := []string{"", "s", "uid"}
	b3 := []int{2, nshapes, 2, 2, 3, 3, 3, 3, 3, 3}
	add("combinations", product(b3...), func(i int) (*val, int) {
		d := mixed(i, b3...)
		v := baseVal(d[1])
		if d[2] == 1 {
			v.attrs = nil
		}
		v.nsd = d[3] == 1
		if v.res != nil {
			v.res.nsd = d[3] == 1
			if d[2] == 1 {
				v.res.attrs = nil
			}
		}
		for k := 0; k < 6; k++ {
			if !setField(v, k, small[d[4+k]]) && d[4+k] != 0 {
				return nil, 0
			}
		}
		return v, d[0]
	})
	b4 := []int{2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2}
	if !thorough() {
		b4 = []int{1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2}
	}
	add("object and resource", product(b4...), func(i int) (*val, int) {
		d := mixed(i, b4...)
		v := baseVal(3)
		for k := 0; k < 10; k++ {
			setField(v, k, small[d[1+k]])
		}
		v.res.nsd = d[11] == 1
		return v, d[0]
	})
	add("many attributes", 40, func(i int) (*val, int) {
		v := baseVal(i % nshapes)
		for k := 0; k < i*3; k++ {
			v.attrs = append(v.attrs, fmt.Sprintf("key%d", k*7), strings.Repeat(string(rune('a'+k%26)), k))
		}
		return v, i & 1
	})
	sp := validSpecials()
	nsp := len(sp)
	b5 := []int{2, nshapes, 12, nsp}
	add("special strings", product(b5...), func(i int) (*val, int) {
		d := mixed(i, b5...)
		v := baseVal(d[1])
		switch s := sp[d[3]]; d[2] {
		case 10:
			v.attrs = []string{s, "v", "k", s, s + "x", s}
		case 11:
			if v.res == nil {
				return nil, 0
			}
			v.res.attrs = []string{s, "v", "k", s, s + "x", s}
		default:
			if !setField(v, d[2], s) {
				return nil, 0
			}
		}
		return v, d[0]
	})
	// all fields the same string
	b6 := []int{2, nshapes, nsp}
	add("one string", product(b6...), func(i int) (*val, int) {
		d := mixed(i, b6...)
		v := baseVal(d[1])
		s := sp[d[2]]
		for k := 0; setField(v, k, s); k++ {
		}
		v.attrs = []string{s, s}
		if v.res != nil {
			v.res.attrs = []string{s, s}
		}
		return v, d[0]
	})
	long := sizes(pick(1100, 70000))
	b7 := []int{nshapes, 12, len(long)}
	add("sizes", product(b7...), func(i int) (*val, int) {
		d := mixed(i, b7...)
		v := baseVal(d[0])
		n := long[d[2]]
		switch {
		case d[1] == 10:
			if n > 1100 {
				return nil, 0
			}
			v.attrs = nil
			for k := 0; k < n; k++ {
				v.attrs = append(v.attrs, fmt.Sprintf("key%d", k), fmt.Sprint(k))
			}
		case d[1] == 11:
			if n > 1100 || v.res == nil {
				return nil, 0
			}
			v.res.attrs = nil
			for k := 0; k < n; k++ {
				v.res.attrs = append(v.res.attrs, fmt.Sprintf("key%d", k), fmt.Sprint(k))
			}
		default:
			if !setField(v, d[1], longName(n-1, "é")) {
				return nil, 0
			}
		}
		return v, i & 1
	})
	us = append(us, failingAttrs())
	return us
}

// validSpecials are the special strings that JSON can state.
func validSpecials() []string {
	var out []string
	for _, s := range specials() {
		if utf8.ValidString(s) {
			out = append(out, s)
		}
	}
	return out
}

// failingAttrs marshals values whose attributes fail.
func failingAttrs() Unit {
	return Unit{Name: "failing attributes", Run: func(r *R) {
		m, _ := mjson.NewMarshaler()
		odd := append([]error{errAttrs}, oddErrors()...)
		bases := []int{5, 5, 5, 2, len(odd)} // shape, number of keys, point of failure, whose attributes, what error
		r.Batch("Marshal", product(bases...), false, func(i int) string {
			return fmt.Sprint("shape, keys, failure, of the resource, error: ", mixed(i, bases...))
		}, func(i int) string {
			d := mixed(i, bases...)
			if d[2] > d[1] {
				return ""
			}
			n := 0
			f := failAttrs{keys: []string{"a", "b", "c", "d"}[:d[1]], at: d[2], n: &n, err: odd[d[4]]}
			v := baseVal(d[0])
			var x interface{}
			switch v.kind {
			case "entity":
				x = &ownEntity{tent{suid("u"), "t", f}}
			case "resource":
				x = &ownRes{tent{suid("u"), "t", f}, v}
			case "object":
				o := &ownObj{tent: tent{suid("u"), "t", f}, v: v}
				if v.res != nil {
					rr := v.res.make(1).(*ownRes)
					if d[3] == 1 {
						o.a, rr.a = fixed{}, f
					}
					o.r = rr
				}
				x = o
			default:
				x = &ownLink{suid("u"), suid("f"), suid("t"), f}
			}
			b, err := m.Marshal(x)
			if !sameErr(err, f.err) {
				return fmt.Sprintf("the attributes failed with %v, but Marshal returned %q, %v", f.err, b, err)
			}
			return ""
		})
	}}
}

// --- C18 ---

// The documented fields, for decoding with encoding/json.
type refEntity struct {
	UID   string            `json:"uid"`
	Type  string            `json:"type"`
	Attrs map[string]string `json:"attrs"`
}

type refResource struct {
	refEntity
	Name       string `json:"name"`
	Group      string `json:"group"`
	Version    string `json:"version"`
	Kind       string `json:"kind"`
	Namespaced bool   `json:"namespaced"`
}

type refObject struct {
	refEntity
	Name      string       `json:"name"`
	Namespace string       `json:"namespace"`
	Resource  *refResource `json:"resource"`
}

type refLink struct {
	UID   string            `json:"uid"`
	From  string            `json:"from"`
	To    string            `json:"to"`
	Attrs map[string]string `json:"attrs"`
}

func listOf(m map[string]string) []string {
	var l []string
	for k, v := range m {
		l = append(l, k, v)
	}
	return l
}

func (r *refResource) val() *val {
	return &val{kind: "resource", uid: r.UID, typ: r.Type, attrs: listOf(r.Attrs), name: r.Name, group: r.Group, ver: r.Version, rkind: r.Kind, nsd: r.Namespaced}
}

// refDecode is standard decoding of the documented fields.
func refDecode(b []byte, kind string) (*val, error) {
	switch kind {
	case "entity":
		var e refEntity
		if err := json.Unmarshal(b, &e); err != nil {
			return nil, err
		}
		return &val{kind: kind, uid: e.UID, typ: e.Type, attrs: listOf(e.Attrs)}, nil
	case "resource":
		var r refResource
		if err := json.Unmarshal(b, &r); err != nil {
			return nil, err
		}
		return r.val(), nil
	case "object":
		var o refObject
		if err := json.Unmarshal(b, &o); err != nil {
			return nil, err
		}
		v := &val{kind: kind, uid: o.UID, typ: o.Type, attrs: listOf(o.Attrs), name: o.Name, ns: o.Namespace}
		if o.Resource != nil {
			v.res = o.Resource.val()
		}
		return v, nil
	}
	var l refLink
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, err
	}
	return &val{kind: kind, uid: l.UID, from: l.From, to: l.To, attrs: listOf(l.Attrs)}, nil
}

var valKinds = []string{"entity", "resource", "object", "link"}

// spoil changes the attributes of x.
func spoil(x interface{}) {
	if a, ok := x.(interface{ Attrs() attrs.Attrs }); ok && !isNil(a.Attrs()) {
		_ = a.Attrs().Set(bg, "spoilt", "yes")
	}
}

// decode checks unmarshaling b into every kind.
func decode(b []byte, m *mjson.Marshaler) string {
	in := string(b)
	for _, kind := range valKinds {
		want, werr := refDecode(b, kind)
		for _, filled := range []bool{false, true} {
			if !filled && werr != nil {
				continue
			}
			p, get := dest(kind, filled)
			before := get()
			bs := ""
			if filled && werr != nil {
				bs = valOf(before, kind).String()
			}
			err := m.Unmarshal(b, p)
			if (err != nil) != (werr != nil) {
				return fmt.Sprintf("%s: error %v, standard decoding: %v", kind, err, werr)
			}
			if string(b) != in {
				return "Unmarshal changed its input"
			}
			y := get()
			if err != nil {
				if y != before || valOf(y, kind).String() != bs {
					return fmt.Sprintf("%s: Unmarshal failed but changed the destination", kind)
				}
				continue
			}
			if isNil(y) {
				return fmt.Sprintf("%s: Unmarshal succeeded but gave nothing", kind)
			}
			if got := valOf(y, kind).String(); got != want.String() {
				return fmt.Sprintf("%s: got %s, want %v", kind, got, want)
			}
			// a change of what it gave is not seen by the next Unmarshal
			spoil(y)
			if o, ok := y.(space.Object); ok && !isNil(o.Resource()) {
				spoil(o.Resource())
			}
		}
	}
	return ""
}

// jsonDocs are documents with values of all fields.
func jsonDocs() []string {
	var out []string
	for i := 0; i < nshapes; i++ {
		b, err := json.Marshal(baseVal(i).fields())
		if err != nil {
			panic(err)
		}
		out = append(out, string(b))
	}
	out = append(out, ` { "uid" : "u" , "type":"t","attrs" : { "k" : "v", "l":"w" } , "name":"n","namespace":"x","from":"f","to":"t","resource":{"uid":"r","kind":"k","namespaced":true,"attrs":{"a":"b"}} } `)
	return out
}

func seqSizes(max int) []int { return sizes(max) }

func unmarshalUnits() []Unit {
	var us []Unit
	newM := func() *mjson.Marshaler {
		m, err := mjson.NewMarshaler()
		if err != nil {
			panic(err)
		}
		return m
	}
	q := func(b []byte) string {
		if len(b) > 300 {
			return fmt.Sprintf("%q… (%d bytes)", b[:300], len(b))
		}
		return fmt.Sprintf("%q", b)
	}
	add := func(name string, n, parts int, mk func(i int) []byte) {
		for k := 0; k < parts; k++ {
			k := k
			us = append(us, Unit{Name: fmt.Sprintf("%s/%d", name, k), Run: func(r *R) {
				m := newM()
				cnt := (n - k + parts - 1) / parts
				r.Batch(name, cnt, k%2 == 1, func(i int) string { return q(mk(i*parts + k)) }, func(i int) string {
					b := mk(i*parts + k)
					if b == nil {
						return ""
					}
					return decode(b, m)
				})
			}})
		}
	}
	// all short byte strings
	bytesUpTo := pick(2, 3)
	nb := 1
	total := 0
	var sizes []int
	for l := 0; l <= bytesUpTo; l++ {
		sizes = append(sizes, nb)
		total += nb
		nb *= 256
	}
	if bytesUpTo == 3 {
		// the third byte from those that mean something in JSON, and a few others
		total = sizes[0] + sizes[1] + sizes[2] + 65536*48
	}
	third := []byte("\x00\t\n\r \"\\{}[],:+-.0123456789eEtruefalsnxyz/'_abcd\x7f\x80\xc3\xff")
	add("short byte strings", total, 4, func(i int) []byte {
		for l := 0; l <= 2; l++ {
			if i < sizes[l] {
				b := make([]byte, l)
				for k := range b {
					b[k] = byte(i)
					i /= 256
				}
				return b
			}
			i -= sizes[l]
		}
		return []byte{third[(i/65536)%len(third)], byte(i), byte(i / 256)}
	})
	// all sequences of tokens
	toks := []string{"{", "}", "[", "]", ",", ":", `"uid"`, `"attrs"`, `"resource"`, `"s"`, "null", "1", "true", " ", `"namespaced"`}
	depth := pick(4, 5)
	nt := 1
	for k := 0; k < depth; k++ {
		nt *= len(toks)
	}
	tokens := func(prefix, suffix string, depth int) func(i int) []byte {
		return func(i int) []byte {
			b := []byte(prefix)
			for k := 0; k < depth; k++ {
				b = append(b, toks[i%len(toks)]...)
				i /= len(toks)
			}
			return append(b, suffix...)
		}
	}
	add("tokens", nt, 4, tokens("", "", depth))
	add("tokens in an object", nt, 4, tokens(`{"type":"t",`, "}", depth))
	add("tokens in attrs", nt/len(toks), 2, tokens(`{"uid":"u","attrs":{`, "}}", depth-1))
	add("tokens in resource", nt/len(toks), 2, tokens(`{"uid":"u","resource":{`, "}}", depth-1))
	// all truncations and single byte changes of documents
	docs := jsonDocs()
	var cuts [][2]int
	for d, s := range docs {
		for i := 0; i <= len(s); i++ {
			cuts = append(cuts, [2]int{d, i})
		}
	}
	add("truncations", 2*len(cuts), 1, func(i int) []byte {
		c := cuts[i/2]
		if i%2 == 0 {
			return []byte(docs[c[0]][:c[1]])
		}
		return []byte(docs[c[0]][c[1]:])
	})
	add("byte changes", 256*len(cuts), 4, func(i int) []byte {
		c := cuts[i/256]
		if c[1] == len(docs[c[0]]) {
			return nil
		}
		b := []byte(docs[c[0]])
		b[c[1]] = byte(i)
		return b
	})
	add("byte insertions", 256*len(cuts), 4, func(i int) []byte {
		c := cuts[i/256]
		s := docs[c[0]]
		return append(append([]byte(s[:c[1]]), byte(i)), s[c[1]:]...)
	})
	add("deletions", len(cuts)*12, 1, func(i int) []byte {
		c := cuts[i/12]
		s := docs[c[0]]
		n := i%12 + 1
		if c[1]+n > len(s) {
			return nil
		}
		return []byte(s[:c[1]] + s[c[1]+n:])
	})
	// every field with every value, twice, in either letter case, also nested
	names := []string{"uid", "type", "attrs", "name", "group", "version", "kind", "namespaced", "namespace", "resource", "from", "to", "links", "other", "UID", "Attrs", "RESOURCE", "", "uid ", "nameſpace", "Kind"}
	vals := []string{`"s"`, `""`, "null", "1", "-0", "1.5", "1e400", "true", "false", "[]", "{}", `["a"]`, `{"k":"v"}`, `{"k":1}`, `{"k":null}`, `{"k":{}}`, `{"k":"v","k":"w","":""}`, `{"uid":"r","attrs":{"a":"b"},"namespaced":true}`, `{"uid":1}`, `{"attrs":[]}`, `{"resource":{"uid":"x"}}`,
		`"\u00e9\ud83d\ude00"`, `"\ud800"`, `"\u0000"`, "\"\xff\"", `"\x"`, "nul", "01", `"a`, `{"k":"v"`, `{"k":"v",}`, "\"\x01\"", "/*c*/1", "NaN", `'s'`}
	bf := []int{len(names), len(vals), len(names), len(vals)}
	add("fields", product(bf...), 4, func(i int) []byte {
		d := mixed(i, bf...)
		return []byte(fmt.Sprintf(`{%q:%s,%q:%s}`, names[d[0]], vals[d[1]], names[d[2]], vals[d[3]]))
	})
	bn := []int{len(names), len(vals), len(names), len(vals), 2}
	if !thorough() {
		bn[2], bn[3] = 3, 6
	}
	add("nested fields", product(bn...), 4, func(i int) []byte {
		d := mixed(i, bn...)
		in := fmt.Sprintf(`{%q:%s,%q:%s}`, names[d[0]], vals[d[1]], names[d[2]], vals[d[3]])
		if d[4] == 0 {
			return []byte(`{"uid":"u","resource":` + in + `,"name":"n"}`)
		}
		return []byte(`{"uid":"u","attrs":` + in + `,"attrs":{"z":"y"}}`)
	})
	// special strings as names and values of fields
	quote := func(s string) string {
		b, err := json.Marshal(s)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	sp := validSpecials()
	fnames := []string{"uid", "type", "attrs", "name", "kind", "namespaced", "namespace", "resource", "from", "to"}
	bs := []int{len(sp), len(fnames), 5}
	add("special strings", product(bs...), 4, func(i int) []byte {
		d := mixed(i, bs...)
		s, f := quote(sp[d[0]]), quote(fnames[d[1]])
		switch d[2] {
		case 0:
			return []byte(`{"uid":"u",` + f + ":" + s + "}")
		case 1:
			return []byte(`{"uid":"u",` + s + ":" + f + "," + f + `:"x"}`)
		case 2:
			return []byte(`{"uid":"u",` + f + `:{"k":` + s + "," + s + `:"v"}}`)
		case 3:
			return []byte(`{` + s + ":{" + f + ":" + s + `},"resource":{` + s + ":" + f + "," + f + ":" + s + `}}`)
		}
		return []byte(`{"attrs":{` + f + `:"1",` + s + `:"2",` + f + `:"3"},` + f + `:{` + s + ":" + s + `}}`)
	})
	// documents with much of something
	long := seqSizes(pick(1100, 70000))
	add("sizes", len(long)*8, 2, func(i int) []byte {
		n := long[i/8]
		var b bytes.Buffer
		switch i % 8 {
		case 0:
			fmt.Fprintf(&b, `{"uid":"%s","type":"t"}`, strings.Repeat("x", n))
		case 1:
			fmt.Fprintf(&b, `%s{"uid":"u","attrs":{"a":"b"}}%s`, strings.Repeat(" ", n), strings.Repeat("\n", n))
		case 2:
			b.WriteString(`{"uid":"u","attrs":{"":""`)
			for k := 0; k < n; k++ {
				fmt.Fprintf(&b, `,"k%d":"v%d"`, k, k)
			}
			b.WriteString("}}")
		case 3:
			b.WriteString(`{"uid":"u"`)
			for k := 0; k < n; k++ {
				fmt.Fprintf(&b, `,"other%d":%d`, k, k)
			}
			b.WriteString(`,"type":"t"}`)
		case 4:
			if n > 9000 {
				return nil
			}
			b.WriteString(`{"uid":"u","other":` + strings.Repeat("[", n) + strings.Repeat("]", n) + `,"type":"t"}`)
		case 5:
			fmt.Fprintf(&b, `{"uid":"u","attrs":{"%s":"%s"}}`, strings.Repeat("k", n), strings.Repeat("\u00e9", n))
		case 6:
			b.WriteString(`{"uid":"u","name":"n"}` + strings.Repeat(" ", n) + "x")
		case 7:
			b.WriteString(`{"uid":"u"`)
			for k := 0; k < n; k++ {
				fmt.Fprintf(&b, `,"uid":"u%d"`, k)
			}
			b.WriteString(`}`)
		}
		return b.Bytes()
	})
	whole := append([]string{"\ufeff{}", "{} {}", "{}x", "{}\n", "\x0b{}", "{}\x00", strings.Repeat("[", 20000), strings.Repeat(`{"resource":`, 5000), strings.Repeat(`{"resource":`, 12000) + "{}" + strings.Repeat("}", 12000),
		`{"attrs":` + strings.Repeat(`{"k":`, 12000) + "1" + strings.Repeat("}", 12001), `"` + strings.Repeat("x", 100000) + `"`, `{"uid":"` + strings.Repeat("é", 100000) + `"}`}, vals...)
	add("whole values", len(whole)*4, 1, func(i int) []byte {
		s := whole[i/4]
		return []byte([]string{s, " " + s + " ", "[" + s + "]", s + s}[i%4])
	})
	// something before, after or within a document
	affix := append([]string{"\ufeff", "\xff\xfe", "\u00a0", "\u2028", "\v", "\f", "\x00", "\x1a", "\x1e", "#", "# c\n", "// c\n", "/* c */", "<!-- -->", ")]}'\n", "while(1);", "for(;;);", "callback(", ");", ";", ",", ":", "---\n", "--- ", "...", "data: ", "\r\n\r\n", "EOF", "\x1f\x8b", "=", "null", "{}", "[]", "\"\""}, specials()...)
	whole2 := jsonDocs()
	ba := []int{len(affix), len(whole2), 6}
	add("affixes", product(ba...), 4, func(i int) []byte {
		d := mixed(i, ba...)
		x, doc := affix[d[0]], whole2[d[1]]
		switch d[2] {
		case 0:
			return []byte(x + doc)
		case 1:
			return []byte(doc + x)
		case 2:
			return []byte(x + doc + x)
		case 3:
			return []byte(doc + "\n" + x)
		case 4:
			return []byte(x + "\n" + doc)
		}
		return []byte(strings.Replace(doc, "{", "{"+x, 1))
	})
	us = append(us, Unit{Name: "unsupported", Run: func(r *R) {
		m := newM()
		e := baseVal(0).make(0).(*entity.Entity)
		l := baseVal(4).make(0).(*link.Link)
		var ent space.Entity
		var pent = &ent
		s, n := "", 1
		var obj marshal.Object
		dsts := []interface{}{nil, "", s, &s, n, &n, true, []byte{}, map[string]string{}, struct{}{}, &struct{ UID string }{}, obj, &obj, e, *e, l, ent, &pent, memattrs.New(), func() {}, make(chan int), &[]space.Entity{}, map[string]space.Entity{}}
		docs := append(jsonDocs(), "", "x", "null", "[]")
		r.Batch("Unmarshal", len(dsts)*len(docs), false, func(i int) string { return fmt.Sprintf("%q into %T", docs[i%len(docs)], dsts[i/len(docs)]) }, func(i int) string {
			d := dsts[i/len(docs)]
			before := fmt.Sprintf("%v", d)
			err := m.Unmarshal([]byte(docs[i%len(docs)]), d)
			if !errors.Is(err, marshal.ErrUnsuportedType) {
				return fmt.Sprintf("error %v, want %v", err, marshal.ErrUnsuportedType)
			}
			if fmt.Sprintf("%v", d) != before {
				return "the destination was changed"
			}
			return ""
		})
		srcs := []interface{}{nil, "", "s", 1, 2.5, true, []byte("{}"), map[string]string{"uid": "u"}, struct{ UID string }{"u"}, obj, &obj, marshal.Entity{}, marshal.Link{}, memattrs.New(), uid("u"), suid("u"), []space.Entity{e}, pent, &l, func() {}, make(chan int), errAttrs}
		r.Batch("Marshal", len(srcs), false, func(i int) string { return fmt.Sprintf("%T", srcs[i]) }, func(i int) string {
			b, err := m.Marshal(srcs[i])
			if !errors.Is(err, marshal.ErrUnsuportedType) || len(bytes.TrimSpace(b)) > 0 {
				return fmt.Sprintf("result %q, error %v, want %v", b, err, marshal.ErrUnsuportedType)
			}
			return ""
		})
	}})
	return us
}
