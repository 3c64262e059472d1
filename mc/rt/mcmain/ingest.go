//go:build go1.21

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	sdig "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/handlers"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	sing "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	bmem "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/verifmc/vs"
)

// C15: ingesting and digesting.

func init() { checks["C15"] = ingestUnits }

type ctxName int

// namedCtx is a context that can be recognized.
func namedCtx(n int) context.Context { return context.WithValue(bg, ctxName(0), n) }

// withEnd derives contexts: 0 is ctx itself, 1 is cancelled, 2 is past its deadline, 3 has a deadline far ahead.
func withEnd(ctx context.Context, i int) (context.Context, context.CancelFunc) {
	switch i {
	case 1:
		c, cancel := context.WithCancel(ctx)
		cancel()
		return c, cancel
	case 2:
		return context.WithDeadline(ctx, time.Unix(1, 0))
	case 3:
		return context.WithDeadline(ctx, time.Unix(1<<40, 0))
	}
	return ctx, func() {}
}

var endNames = []string{"", " with a cancelled context", " with a context past its deadline", " with a context with a deadline"}

func isCtx(c context.Context, n int) bool { return c != nil && c.Value(ctxName(0)) == n }

var (
	errMarshal = errors.New("marshaling failed")
	errPub     = errors.New("publishing failed")
	errRecv    = errors.New("receiving failed")
)

// tmarsh is a marshaler: its output tells who made it from what.
type tmarsh struct {
	id    int
	fail  bool
	err   error // instead of errMarshal
	calls int
	got   []interface{}
}

func (m *tmarsh) Marshal(x interface{}) ([]byte, error) {
	m.calls++
	m.got = append(m.got, x)
	if m.fail {
		// output made before the failure must not be used
		if m.err != nil {
			return []byte("partial"), m.err
		}
		return []byte("partial"), errMarshal
	}
	return m.out(x), nil
}

func (m *tmarsh) out(x interface{}) []byte {
	if m.id == 3 {
		return nil
	}
	return []byte(fmt.Sprintf("m%d\x00\xff%T", m.id, x))
}

type pubCall struct {
	ctx   context.Context
	topic string
	msg   broker.Message
	nopts int
}

// tbroker records what is published.
type tbroker struct {
	fail  error
	calls []pubCall
	subs  int
}

func (b *tbroker) Pub(ctx context.Context, topic string, m broker.Message, opts ...broker.Option) error {
	b.calls = append(b.calls, pubCall{ctx, topic, m, len(opts)})
	return b.fail
}

func (b *tbroker) Sub(context.Context, string, ...broker.Option) (broker.Subscriber, error) {
	b.subs++
	return nil, errors.New("no subscribers")
}

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errMarshal }

type goodJSON struct{ S string }

func (g goodJSON) MarshalJSON() ([]byte, error) { return []byte(`{"own":"` + g.S + `"}`), nil }

var ingestData = []interface{}{
	nil, "", "text", "a<b>&\u2028\"\\", 0, -7, 1.5, 1e300, true, []byte{}, []byte{0, 255, 'a'}, json.RawMessage(`{"a": [1, 2]}`),
	map[string]string{"k": "v", "a": ""}, map[string]interface{}{"n": nil, "l": []int{1, 2, 3}}, []string{}, []string(nil),
	struct {
		A int    `json:"x"`
		B string `json:",omitempty"`
	}{A: 3}, goodJSON{"v"}, &goodJSON{"p"}, broker.Message{UID: "u", Data: []byte("d")},
	make(chan int), func() {}, math.Inf(1), badJSON{}, map[string]interface{}{"c": make(chan int)}, strings.Repeat("x", 5000),
}

// sameJSON reports whether two texts state the same JSON value.
func sameJSON(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	dec := func(t []byte) (v interface{}, ok bool) {
		d := json.NewDecoder(bytes.NewReader(t))
		d.UseNumber()
		if d.Decode(&v) != nil || d.More() {
			return nil, false
		}
		return v, true
	}
	x, ok1 := dec(a)
	y, ok2 := dec(b)
	return ok1 && ok2 && reflect.DeepEqual(x, y)
}

// the marshalers that options name: 0 and 1 work, 2 fails, 3 makes no bytes, 4 is nil
func ingestMarshalers() []*tmarsh {
	return []*tmarsh{{id: 0}, {id: 1}, {id: 2, fail: true}, {id: 3}, nil}
}

func withMarsh(ms []*tmarsh, l []int) []ingester.Option {
	var o []ingester.Option
	for _, i := range l {
		if ms[i] == nil {
			o = append(o, ingester.WithMarshaler(nil))
			continue
		}
		o = append(o, ingester.WithMarshaler(ms[i]))
	}
	return o
}

// icall is a call of Ingest.
type icall struct {
	opts  []int
	data  int
	topic string
	typ   broker.Type
	fail  bool
	err   error // what the broker or the failing marshaler returns; nil is errPub or errMarshal
	ctx   int   // the context, see withEnd
}

// lastOf is the last number of the last non-empty list, or -1.
func lastOf(ls ...[]int) int {
	n := -1
	for _, l := range ls {
		if len(l) > 0 {
			n = l[len(l)-1]
		}
	}
	return n
}

func (c icall) String() string {
	s := fmt.Sprintf("Ingest(topic %q, type %d, data %d, marshalers %v, broker fails %t)", c.topic, int(c.typ), c.data, c.opts, c.fail)
	if c.err != nil {
		s += " with " + errName(c.err)
	}
	return s + endNames[c.ctx]
}

// ingest performs calls on a new ingester.
func ingest(ctor []int, calls []icall) string {
	ms := ingestMarshalers()
	in, err := sing.NewIngester(withMarsh(ms, ctor)...)
	if err != nil {
		return "NewIngester: " + err.Error()
	}
	for k, c := range calls {
		for _, m := range ms {
			if m != nil {
				m.calls, m.got = 0, nil
			}
		}
		ePub, eMarsh := errPub, errMarshal
		if c.err != nil {
			ePub, eMarsh = c.err, c.err
			ms[2].err = c.err
		}
		b := &tbroker{}
		if c.fail {
			b.fail = ePub
		}
		data := ingestData[c.data]
		ctx, cancel := withEnd(namedCtx(k), c.ctx)
		err := in.Ingest(ctx, b, c.topic, c.typ, data, withMarsh(ms, c.opts)...)
		ended := ctx.Err() != nil
		cancel()
		if ended && len(b.calls) == 0 && errors.Is(err, ctx.Err()) {
			continue // refused
		}
		use := lastOf(ctor, c.opts)
		var want []byte
		isJSON := false
		bad := false
		if use < 0 || ms[use] == nil {
			isJSON = true
			w, jerr := json.Marshal(data)
			want, bad = w, jerr != nil
		} else {
			m := ms[use]
			bad = m.fail
			want = m.out(data)
			for i, o := range ms {
				if o == nil {
					continue
				}
				n := 0
				if i == use {
					n = 1
				}
				if o.calls != n {
					return fmt.Sprintf("call %d: marshaler %d was called %d times, want %d", k, i, o.calls, n)
				}
			}
			if reflect.TypeOf(m.got[0]) != reflect.TypeOf(data) || reflect.TypeOf(data) != nil && reflect.TypeOf(data).Comparable() && m.got[0] != data {
				return fmt.Sprintf("call %d: the marshaler was given %#v, want %#v", k, m.got[0], data)
			}
			if bad && !sameErr(err, eMarsh) {
				return fmt.Sprintf("call %d: marshaling failed, but the error is %v", k, err)
			}
		}
		if bad {
			if err == nil {
				return fmt.Sprintf("call %d: marshaling failed, but there is no error", k)
			}
			if len(b.calls) != 0 {
				return fmt.Sprintf("call %d: marshaling failed, but a message was published", k)
			}
			continue
		}
		if len(b.calls) != 1 || b.subs != 0 {
			return fmt.Sprintf("call %d: %d messages were published", k, len(b.calls))
		}
		p := b.calls[0]
		if p.topic != c.topic || p.msg.Type != c.typ {
			return fmt.Sprintf("call %d: published %v on %q, want %v on %q", k, p.msg.Type, p.topic, c.typ, c.topic)
		}
		if isJSON && !sameJSON(p.msg.Data, want) || !isJSON && !bytes.Equal(p.msg.Data, want) {
			return fmt.Sprintf("call %d: published %q, want %q", k, p.msg.Data, want)
		}
		if !isCtx(p.ctx, k) {
			return fmt.Sprintf("call %d: published with another context", k)
		}
		if c.fail && !sameErr(err, ePub) || !c.fail && err != nil {
			return fmt.Sprintf("call %d: error %v", k, err)
		}
	}
	return ""
}

var ingestTypes = []broker.Type{broker.Entity, broker.Object, broker.Resource, broker.Link, broker.Unknown, 77, -1}
var ingestTopics = []string{"topic", "", "a/b c\x00"}

// --- digesting ---

// A script tells what each Receive does.
const (
	sDeliver   = iota // hand over a message
	sDeliver2         // hand over a message with binary data
	sDeliver3         // hand over a message without data
	sNothing          // return nil without a message
	sError            // fail
	sTimeout          // fail with ErrTimeout
	sFailH            // hand over a message whose handling fails
	sCancel           // cancel the context, return nil
	sCancelMsg        // hand over a message, during which the context is cancelled
	nScript

	sErrs    = 200     // and more: fail with an odd error
	sFailHs  = 600     // and more: hand over a message whose handling fails with an odd error
	sSpecial = 1000    // and more: hand over a message made of a special string
	sSized   = 1000000 // and more: hand over a message of that many bytes
)

var scriptNames = []string{"message", "binary message", "empty message", "nothing", "error", "timeout", "message whose handler fails", "cancel", "message and cancel"}

func scriptName(s []int) string {
	var n []string
	for k, i := range s {
		switch {
		case k == 12:
			return strings.Join(n, ", ") + fmt.Sprintf(", ... (%d in all)", len(s))
		case i >= sSized:
			n = append(n, fmt.Sprintf("message of %d bytes", i-sSized))
		case i >= sSpecial:
			n = append(n, fmt.Sprintf("message of %.60q", specials()[i-sSpecial]))
		case i >= sFailHs:
			n = append(n, "message whose handler fails with "+errName(oddErrors()[i-sFailHs]))
		case i >= sErrs:
			n = append(n, "fail with "+errName(oddErrors()[i-sErrs]))
		default:
			n = append(n, scriptNames[i])
		}
	}
	return strings.Join(n, ", ")
}

func scriptMsg(i, op int) broker.Message {
	m := broker.Message{UID: fmt.Sprintf("uid%d", i), Type: broker.Type(i % 5), Data: []byte(fmt.Sprintf("data %d\n", i)), Attrs: map[string]string{"n": fmt.Sprint(i)}}
	switch {
	case op >= sSized:
		m.Data = bytes.Repeat([]byte("0123456789abcde\n"), (op-sSized)/16+1)[:op-sSized]
	case op >= sSpecial:
		t := specials()[op-sSpecial]
		m.UID, m.Data, m.Attrs = t, []byte(t), map[string]string{t: "v", "k": t}
	}
	switch op {
	case sDeliver2:
		m.Data = []byte{0, 1, 0xff, byte(i), '%', 's'}
	case sDeliver3:
		m.Data, m.Attrs, m.UID = nil, nil, ""
	}
	return m
}

// tsub is a subscriber that follows a script.
type tsub struct {
	script []int
	cancel func()
	n      int
	errs   []error
	after  int // calls after the script
	ctxs   []context.Context
	opts   int
	other  int
}

func (s *tsub) ID(context.Context) (string, error)                      { return "id", nil }
func (s *tsub) Topic(context.Context, ...broker.Option) (string, error) { return "topic", nil }
func (s *tsub) Unsubscribe(context.Context, ...broker.Option) error     { s.other++; return nil }
func (s *tsub) Receive(ctx context.Context, h broker.Handler, opts ...broker.Option) error {
	s.ctxs = append(s.ctxs, ctx)
	if s.n >= len(s.script) {
		s.after++
		if s.after > 3 {
			panic("Digest does not end")
		}
		return errRecv
	}
	i := s.n
	op := s.script[i]
	s.n++
	if op >= sErrs && op < sFailHs {
		return s.errs[op-sErrs]
	}
	switch op {
	case sNothing:
		return nil
	case sError:
		return errRecv
	case sTimeout:
		return broker.ErrTimeout
	case sCancel:
		s.cancel()
		return nil
	}
	return h(ctx, scriptMsg(i, op))
}

type digRec struct {
	handler int
	msg     broker.Message
	ctx     context.Context
}

func sameMsg(a, b broker.Message) bool {
	return a.UID == b.UID && a.Type == b.Type && bytes.Equal(a.Data, b.Data) && len(a.Attrs) == len(b.Attrs) && fmt.Sprint(a.Attrs) == fmt.Sprint(b.Attrs)
}

// stdout lets the standard output of the process go to name while f runs.
func stdout(name string, f func()) []byte {
	w, err := os.OpenFile(name, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	old, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup2(int(w.Fd()), 1); err != nil {
		panic(err)
	}
	defer func() {
		_ = syscall.Dup2(old, 1)
		_ = syscall.Close(old)
	}()
	f()
	if name == "/dev/full" {
		_ = w.Close()
		return nil
	}
	_, _ = w.Seek(0, 0)
	var b bytes.Buffer
	_, _ = b.ReadFrom(w)
	_ = w.Close()
	return b.Bytes()
}

func stdoutFile() string { return filepath.Join(*fScratch, fmt.Sprintf("stdout-%d", os.Getpid())) }

// lateCtx is a context that ends as if its deadline passed.
type lateCtx struct{ context.Context }

func (c lateCtx) Err() error {
	if c.Context.Err() == nil {
		return nil
	}
	return context.DeadlineExceeded
}

// digest runs Digest with a script; handlers 0 and 1 record, 2 is nil (standard output).
func digest(ctor, call []int, script []int, full bool) string {
	return digestCtx(ctor, call, script, full, false)
}

// digestCtx digests what script tells, with a context that ends by its deadline if late is set.
func digestCtx(ctor, call []int, script []int, full, late bool) string {
	var recs []digRec
	parent := namedCtx(42)
	ctx, cancel := vs.WithCancel(parent)
	defer cancel()
	ended := context.Canceled
	if late {
		ctx, ended = lateCtx{ctx}, context.DeadlineExceeded
	}
	odd := oddErrors()
	sub := &tsub{script: script, cancel: cancel, errs: odd}
	opts := func(l []int) []digester.Option {
		var o []digester.Option
		for _, i := range l {
			i := i
			if i == 2 {
				o = append(o, digester.WithHandler(nil))
				continue
			}
			o = append(o, digester.WithHandler(func(c context.Context, m broker.Message) error {
				recs = append(recs, digRec{i, m, c})
				k := sub.n - 1
				if op := script[k]; op >= sFailHs && op < sSpecial {
					return odd[op-sFailHs]
				}
				switch script[k] {
				case sFailH:
					return errHandler
				case sCancelMsg:
					cancel()
				}
				return nil
			}))
		}
		return o
	}
	d, err := sdig.NewDigester(opts(ctor)...)
	if err != nil {
		return "NewDigester: " + err.Error()
	}
	use := lastOf(ctor, call)
	var got error
	var out []byte
	if use < 0 || use == 2 {
		name := stdoutFile()
		if full {
			name = "/dev/full"
		}
		out = stdout(name, func() { got = d.Digest(ctx, sub, opts(call)...) })
	} else {
		got = d.Digest(ctx, sub, opts(call)...)
	}
	// what must have happened
	var wantErrs []error
	var wantRecs []broker.Message
	wantN := 0
	for i, op := range append(script[:len(script):len(script)], -1) {
		wantN++
		if op < 0 || op == sError {
			wantErrs = []error{errRecv}
			break
		}
		if op == sTimeout {
			wantErrs = []error{broker.ErrTimeout}
			break
		}
		if op >= sErrs && op < sFailHs {
			wantErrs = []error{odd[op-sErrs]}
			break
		}
		msg := scriptMsg(i, op)
		if op != sNothing && op != sCancel {
			wantRecs = append(wantRecs, msg)
		}
		if use < 0 || use == 2 {
			if full && op != sNothing && op != sCancel && len(msg.Data) > 0 {
				wantErrs = []error{syscall.ENOSPC}
				break
			}
			if op == sCancel {
				wantErrs = []error{ended}
				break
			}
			continue
		}
		if op == sFailH {
			wantErrs = []error{errHandler}
			break
		}
		if op >= sFailHs && op < sSpecial {
			wantErrs = []error{odd[op-sFailHs]}
			break
		}
		if op == sCancel || op == sCancelMsg {
			wantErrs = []error{ended}
			break
		}
	}
	ok := false
	for _, e := range wantErrs {
		ok = ok || sameErr(got, e)
	}
	if !ok {
		return fmt.Sprintf("Digest returned %v, want %v", got, wantErrs)
	}
	if n := len(sub.ctxs); n != wantN {
		return fmt.Sprintf("Receive was called %d times, want %d", n, wantN)
	}
	for _, c := range sub.ctxs {
		if !isCtx(c, 42) || ctx.Err() != nil && c.Err() == nil {
			return "Receive was called with another context"
		}
	}
	if use < 0 || use == 2 {
		var want []byte
		for _, m := range wantRecs {
			want = append(want, m.Data...)
		}
		if !full && !bytes.Equal(out, want) {
			return fmt.Sprintf("wrote %q to standard output, want %q", out, want)
		}
		if len(recs) > 0 {
			return "the wrong handler was called"
		}
		return ""
	}
	if len(recs) != len(wantRecs) {
		return fmt.Sprintf("%d messages were handled, want %d", len(recs), len(wantRecs))
	}
	for i, r := range recs {
		if r.handler != use {
			return fmt.Sprintf("handler %d was called, want %d", r.handler, use)
		}
		if !sameMsg(r.msg, wantRecs[i]) {
			return fmt.Sprintf("handled message %v, want %v", r.msg, wantRecs[i])
		}
		if !isCtx(r.ctx, 42) || ctx.Err() != nil && r.ctx.Err() == nil {
			return "the handler got another context"
		}
	}
	return ""
}

func ingestUnits() []Unit {
	us := []Unit{
		{Name: "ingest/options", Run: func(r *R) {
			ls := lists(5, pick(2, 3))
			data := []int{2, 7, 17, 20, 23}
			bases := []int{len(ls), len(ls), len(data), 2, len(endNames)}
			mk := func(i int) ([]int, []icall) {
				d := mixed(i, bases...)
				return ls[d[0]], []icall{{opts: ls[d[1]], data: data[d[2]], topic: "t", typ: broker.Link, fail: d[3] == 1, ctx: d[4]}}
			}
			r.Batch("ingest", product(bases...), false, func(i int) string { c, cs := mk(i); return fmt.Sprintf("ingester with marshalers %v: %v", c, cs) },
				func(i int) string { c, cs := mk(i); return ingest(c, cs) })
		}},
		{Name: "ingest/data", Run: func(r *R) {
			ls := [][]int{nil, {0}, {2}, {3}}
			bases := []int{len(ls), len(ls), len(ingestData), len(ingestTypes), len(ingestTopics), 2}
			mk := func(i int) ([]int, []icall) {
				d := mixed(i, bases...)
				return ls[d[0]], []icall{{opts: ls[d[1]], data: d[2], typ: ingestTypes[d[3]], topic: ingestTopics[d[4]], fail: d[5] == 1}}
			}
			r.Batch("ingest", product(bases...), false, func(i int) string { c, cs := mk(i); return fmt.Sprintf("ingester with marshalers %v: %v", c, cs) },
				func(i int) string { c, cs := mk(i); return ingest(c, cs) })
		}},
		{Name: "ingest/names", Run: func(r *R) {
			ts := specials()
			base := len(ingestData)
			add := func(x interface{}) { ingestData = append(ingestData, x) }
			for _, t := range ts {
				add(t)
				add([]byte(t))
				add(map[string]string{t: t, "k": "v"})
				add(json.RawMessage(t))
			}
			for _, n := range sizes(pick(1100, 70000)) {
				add(strings.Repeat("x", n))
			}
			for _, n := range sizes(pick(130, 1100)) {
				l := make([]int, n)
				m := map[string]int{}
				for i := range l {
					l[i] = i
					m[fmt.Sprint("k", i)] = i
				}
				add(l)
				add(m)
			}
			n := len(ingestData) - base
			ls := [][]int{nil, {0}}
			bases := []int{2, n, len(ls)}
			mk := func(i int) ([]int, []icall) {
				d := mixed(i, bases...)
				c := icall{opts: ls[d[2]], data: base + d[1], topic: "t", typ: ingestTypes[d[1]%5]}
				if d[0] == 1 {
					c.topic = ts[d[1]%len(ts)]
				}
				return nil, []icall{c}
			}
			r.Batch("ingest", product(bases...), false, func(i int) string {
				c, cs := mk(i)
				return fmt.Sprintf("ingester with marshalers %v: %v (%.80q)", c, cs, fmt.Sprint(ingestData[cs[0].data]))
			}, func(i int) string { c, cs := mk(i); return ingest(c, cs) })
			ingestData = ingestData[:base]
		}},
		{Name: "digest/names", Run: func(r *R) {
			var ss [][]int
			for i := range specials() {
				ss = append(ss, []int{sSpecial + i}, []int{sSpecial + i, sDeliver, sSpecial + i})
			}
			for _, n := range sizes(pick(5000, 140000)) {
				ss = append(ss, []int{sSized + n}, []int{sDeliver, sSized + n, sSized + n, sDeliver2})
			}
			for _, n := range sizes(pick(1100, 20000)) {
				var s, e, x []int
				for i := 0; i < n; i++ {
					s, e, x = append(s, i%3), append(e, sNothing), append(x, sDeliver)
				}
				ss = append(ss, s, append(e, sDeliver), append(x, sFailH, sDeliver), append(x[:n:n], sCancelMsg, sDeliver), append(x[:n:n], sTimeout, sDeliver))
			}
			use := [][]int{{0}, nil}
			r.Batch("digest", 2*len(ss), false, func(i int) string { return fmt.Sprintf("handler %v: %s", use[i%2], scriptName(ss[i/2])) },
				func(i int) string {
					if i%2 == 1 {
						for _, o := range ss[i/2] {
							if o == sFailH || o == sCancelMsg {
								return ""
							}
						}
					}
					return digest(nil, use[i%2], ss[i/2], false)
				})
		}},
		{Name: "ingest/histories", Run: func(r *R) {
			var alpha []icall
			for _, o := range [][]int{nil, {1}, {2}, {4}} {
				for _, d := range []int{2, 20} {
					for _, f := range []bool{false, true} {
						alpha = append(alpha, icall{opts: o, data: d, topic: fmt.Sprintf("t%d", len(alpha)), typ: ingestTypes[len(alpha)%5], fail: f})
					}
				}
			}
			alpha = append(alpha, icall{data: 2, ctx: 1}, icall{data: 2, opts: []int{1}, ctx: 2}, icall{data: 20, ctx: 1})
			ctors := [][]int{nil, {0}, {2}}
			n := len(alpha)
			bases := []int{len(ctors), n, n, n}
			if thorough() {
				bases = append(bases, n)
			}
			mk := func(i int) ([]int, []icall) {
				d := mixed(i, bases...)
				var cs []icall
				for _, k := range d[1:] {
					cs = append(cs, alpha[k])
				}
				return ctors[d[0]], cs
			}
			r.Batch("ingest", product(bases...), false, func(i int) string { c, cs := mk(i); return fmt.Sprintf("ingester with marshalers %v: %v", c, cs) },
				func(i int) string { c, cs := mk(i); return ingest(c, cs) })
			// two calls, again and again
			r.Batch("ingest again and again", 2*n*n, false, func(i int) string {
				return fmt.Sprintf("ingester with marshalers %v: %v and %v again and again", ctors[i%2], alpha[i/2%n], alpha[i/2/n])
			}, func(i int) string {
				var cs []icall
				for k := 0; k < pick(130, 530); k++ {
					cs = append(cs, alpha[i/2%n], alpha[i/2/n])
				}
				return ingest(ctors[i%2], cs)
			})
		}},
		{Name: "digest/scripts", Run: func(r *R) {
			ss := lists(nScript, pick(5, 6))
			r.Batch("digest", len(ss), false, func(i int) string { return scriptName(ss[i]) },
				func(i int) string { return digest(nil, []int{0}, ss[i], false) })
			ss = lists(nScript, pick(4, 5))
			r.Batch("digest with a deadline", len(ss), false, func(i int) string { return scriptName(ss[i]) },
				func(i int) string { return digestCtx(nil, []int{0}, ss[i], false, true) })
		}},
		{Name: "digest/stdout", Run: func(r *R) {
			ss := lists(nScript-2, pick(3, 4)) // no handler, so nobody fails or cancels in it
			r.Batch("digest", 2*len(ss), false, func(i int) string { return fmt.Sprintf("standard output full %t: %s", i%2 == 1, scriptName(ss[i/2])) },
				func(i int) string {
					for _, o := range ss[i/2] {
						if o == sFailH {
							return ""
						}
						// writing nothing may or may not be noticed by a full output
						if i%2 == 1 && (o == sDeliver || o == sDeliver2 || o == sDeliver3) && len(scriptMsg(0, o).Data) == 0 {
							return ""
						}
					}
					return digest(nil, nil, ss[i/2], i%2 == 1)
				})
		}},
		{Name: "digest/options", Run: func(r *R) {
			ls := lists(3, pick(2, 3))
			ss := [][]int{{sDeliver, sDeliver2, sError}, {sDeliver, sCancel}, {sNothing, sDeliver3}}
			bases := []int{len(ls), len(ls), len(ss)}
			r.Batch("digest", product(bases...), false, func(i int) string {
				d := mixed(i, bases...)
				return fmt.Sprintf("handlers %v and %v: %s", ls[d[0]], ls[d[1]], scriptName(ss[d[2]]))
			}, func(i int) string {
				d := mixed(i, bases...)
				return digest(ls[d[0]], ls[d[1]], ss[d[2]], false)
			})
		}},
		{Name: "ingest/errors", Run: func(r *R) {
			n := len(oddErrors())
			r.Batch("ingest", 2*n, false, func(i int) string {
				return fmt.Sprintf("marshaling %t fails with %s", i%2 == 0, errName(oddErrors()[i/2]))
			}, func(i int) string {
				c := icall{opts: []int{2}, data: 2, topic: "t", typ: broker.Link, err: oddErrors()[i/2]}
				if i%2 == 1 {
					c.opts, c.fail = []int{0}, true
				}
				ok := icall{opts: []int{0}, data: 2, topic: "t", typ: broker.Link}
				return ingest(nil, []icall{c, c, ok})
			})
		}},
		{Name: "digest/errors", Run: func(r *R) {
			var ss [][]int
			for i := range oddErrors() {
				for _, op := range []int{sErrs + i, sFailHs + i} {
					ss = append(ss, []int{op, sDeliver, sError}, []int{sDeliver, op, sDeliver, sError}, []int{op, op, op, sDeliver, sError})
				}
			}
			use := [][]int{{0}, nil}
			r.Batch("digest", 2*len(ss), false, func(i int) string { return fmt.Sprintf("handler %v: %s", use[i%2], scriptName(ss[i/2])) },
				func(i int) string {
					if i%2 == 1 && i/2/3%2 == 1 {
						return "" // the handler of the repository does not fail
					}
					return digest(nil, use[i%2], ss[i/2], false)
				})
		}},
		{Name: "digest/histories", Run: digestHistories},
		{Name: "dump", Run: func(r *R) {
			datas := [][]byte{nil, {}, []byte("x"), []byte("%d\n\x00\xff"), bytes.Repeat([]byte("0123456789"), 10000)}
			r.Batch("DumpData", len(datas), false, func(i int) string { return fmt.Sprintf("%d bytes", len(datas[i])) }, func(i int) string {
				var err error
				out := stdout(stdoutFile(), func() {
					err = handlers.DumpData(bg, broker.Message{UID: "u", Data: datas[i], Attrs: map[string]string{"a": "b"}})
				})
				if err != nil || !bytes.Equal(out, datas[i]) {
					return fmt.Sprintf("error %v, wrote %d bytes", err, len(out))
				}
				if len(datas[i]) > 0 {
					_ = stdout("/dev/full", func() { err = handlers.DumpData(bg, broker.Message{Data: datas[i]}) })
					if !errors.Is(err, syscall.ENOSPC) {
						return fmt.Sprintf("writing fails, but the error is %v", err)
					}
				}
				return ""
			})
		}},
	}
	for _, capacity := range []int{0, 1, 2} {
		for k := range endToEnd {
			capacity, k := capacity, k
			us = append(us, Unit{Name: fmt.Sprintf("broker/%d/cap%d", k, capacity), Race: true, Run: func(r *R) { ingestDigest(r, k, capacity) }})
		}
	}
	return us
}

// digestHistories uses one digester several times.
func digestHistories(r *R) {
	ls := [][]int{nil, {0}, {1}}
	bases := []int{len(ls), len(ls), len(ls), len(ls)}
	r.Batch("one digester used three times", product(bases...), false, func(i int) string { return fmt.Sprint("handlers (0: none) ", mixed(i, bases...)) }, func(i int) string {
		d := mixed(i, bases...)
		var recs []int
		opts := func(l []int) []digester.Option {
			var o []digester.Option
			for _, h := range l {
				h := h
				o = append(o, digester.WithHandler(func(context.Context, broker.Message) error { recs = append(recs, h); return nil }))
			}
			return o
		}
		dg, err := sdig.NewDigester(opts(ls[d[0]])...)
		if err != nil {
			return err.Error()
		}
		for k := 1; k < 4; k++ {
			recs = nil
			var err error
			out := stdout(stdoutFile(), func() {
				err = dg.Digest(bg, &tsub{script: []int{sDeliver, sDeliver}, cancel: func() {}}, opts(ls[d[k]])...)
			})
			if !errors.Is(err, errRecv) {
				return fmt.Sprintf("use %d: error %v", k, err)
			}
			want := lastOf(ls[d[0]], ls[d[k]])
			if want < 0 {
				if string(out) != "data 0\ndata 1\n" || len(recs) > 0 {
					return fmt.Sprintf("use %d: wrote %q", k, out)
				}
				continue
			}
			if len(out) > 0 || len(recs) != 2 || recs[0] != want || recs[1] != want {
				return fmt.Sprintf("use %d: handlers called %v, want %d; wrote %q", k, recs, want, out)
			}
		}
		return ""
	})
}

// spaced is a JSON marshaler that can be recognized.
type spaced string

func (p spaced) Marshal(x interface{}) ([]byte, error) {
	b, err := json.Marshal(x)
	return append([]byte(p), b...), err
}

// endToEnd are programs of ingesters, digesters and others on a real broker.
var endToEnd = [][]string{
	{"ingest ingest", "digest"},
	{"ingest", "ingest", "digest"},
	{"ingest ingest", "digest", "cancel"},
	{"ingest", "digest", "digest"},
	{"ingest ingest", "digest", "sleep cancel"},
	{"ingest badingest ingest", "digest"},
	{"ingest ingest", "faildigest"},
	{"ingest ingest", "ingest ingest", "digest", "cancel"},
	{"ingest", "ingest", "digest", "digest"},
}

// ingestDigest lets data go through a real broker.
func ingestDigest(r *R, k, capacity int) {
	prog := endToEnd[k]
	label := fmt.Sprintf("capacity %d: %s", capacity, strings.Join(prog, " || "))
	type dres struct {
		got  []string
		err  error
		t0   time.Duration
		t1   time.Duration
		fail bool
		own  int
	}
	bound := pick(2, 3)
	if k == 7 {
		bound = pick(1, 2)
	}
	if raceMode() {
		bound = 1
	}
	r.Sched(label, vs.Config{Bound: bound}, func(h *H) {
		vs.Explore(false)
		bad := func(f string, a ...interface{}) { h.errs = append(h.errs, fmt.Sprintf(f, a...)) }
		b, err := bmem.New(broker.WithCap(capacity))
		if err != nil {
			bad("New: %v", err)
			return
		}
		if err := b.Open(bg); err != nil {
			bad("Open: %v", err)
		}
		// marshalers: of the ingester, and of the ingests of a thread
		ctor, own := spaced(""), []spaced{"", " ", "", ""}
		if capacity > 0 {
			ctor = "\t"
		}
		if capacity > 1 {
			own[0] = "\n"
		}
		prefix := func(i int) string {
			if own[i] != "" {
				return string(own[i])
			}
			return string(ctor)
		}
		copts := make([]ingester.Option, 0, 4) // part of a bigger list
		if ctor != "" {
			copts = append(copts, ingester.WithMarshaler(ctor))
		}
		in, _ := sing.NewIngester(copts...)
		digs := map[int]*dres{}
		// handler handles messages for the digest of thread own, or those of
		// the digests without a handler of their own (-1)
		handler := func(own int) broker.Handler {
			return func(c context.Context, m broker.Message) error {
				i, ok := c.Value(ctxName(0)).(int)
				d := digs[i]
				if !ok || d == nil {
					return errors.New("the handler got another context")
				}
				t := h.T(i)
				if d.own != own {
					t.Errf("the handler of %d was called for the digest of %d", own, i)
				}
				var s string
				if err := json.Unmarshal(m.Data, &s); err != nil {
					t.Errf("handler got %q", m.Data)
				}
				if from := int(s[1] - '0'); string(m.Data) != prefix(from)+fmt.Sprintf("%q", s) {
					t.Errf("the handler got %q from another marshaler", m.Data)
				}
				if !strings.HasSuffix(s, fmt.Sprintf(".%d", int(m.Type))) {
					t.Errf("%q has type %v", s, m.Type)
				}
				d.got = append(d.got, s)
				if d.fail {
					return errHandler
				}
				return nil
			}
		}
		dg, _ := sdig.NewDigester(append(make([]digester.Option, 0, 4), digester.WithHandler(handler(-1)))...)
		ctx, cancel := vs.WithCancel(bg)
		sub, err := b.Sub(bg, "t")
		if err != nil {
			bad("Sub: %v", err)
			return
		}
		vs.Settle()
		ings := map[int]*[]string{} // what each ingester published
		for i, ops := range prog {
			h.T(i)
			if strings.HasSuffix(ops, "digest") {
				digs[i] = &dres{own: i}
				if len(digs) == 2 && capacity < 2 {
					digs[i].own = -1
				}
			}
		}
		for i, ops := range prog {
			i, t, fs := i, h.T(i), strings.Fields(ops)
			ing := &[]string{}
			ings[i] = ing
			d := digs[i]
			vs.Thread(fmt.Sprintf("T%d", i), func() {
				for k, o := range fs {
					data := fmt.Sprintf("d%d.%d", i, k)
					switch o {
					case "ingest", "badingest":
						var x interface{} = data
						if o == "badingest" {
							x = make(chan int)
						}
						var opts []ingester.Option
						if own[i] != "" {
							opts = append(opts, ingester.WithMarshaler(own[i]))
						}
						e := t.Do(Op{o + " " + data, nil}, func() string { return bclass(in.Ingest(bg, b, "t", broker.Type(k), x, opts...)) })
						if (o == "ingest") == strings.HasPrefix(e.Res, "other") {
							t.Errf("Ingest: %s", e.Res)
						}
						if e.Res == "ok" {
							*ing = append(*ing, data)
						}
					case "cancel":
						t.Do(Op{o, nil}, func() string { cancel(); return "" })
					case "sleep":
						vs.Sleep(7 * time.Second)
					case "digest", "faildigest":
						t.Do(Op{o, nil}, func() string {
							d.fail = o == "faildigest"
							d.t0 = vs.Elapsed()
							var opts []digester.Option
							if d.own >= 0 {
								opts = append(opts, digester.WithHandler(handler(i)))
							}
							d.err = dg.Digest(context.WithValue(ctx, ctxName(0), i), sub, opts...)
							d.t1 = vs.Elapsed()
							return bclass(d.err) + " " + strings.Join(d.got, ",")
						})
					}
				}
			})
		}
		vs.Explore(true)
		vs.Join()
		vs.Explore(false)
		// what is left
		var rest []string
		for {
			n := len(rest)
			_ = sub.Receive(bg, func(_ context.Context, m broker.Message) error {
				var s string
				_ = json.Unmarshal(m.Data, &s)
				rest = append(rest, s)
				return nil
			})
			if len(rest) == n {
				break
			}
		}
		var all []string
		count := map[string]int{}
		for i := range prog {
			if d := digs[i]; d != nil {
				all = append(all, d.got...)
			}
		}
		all = append(all, rest...)
		for _, s := range all {
			count[s]++
		}
		for i := range prog {
			last := -1
			for _, s := range *ings[i] {
				if count[s] != 1 {
					bad("%s was ingested, but handled %d times", s, count[s])
				}
			}
			n := 0
			if len(digs) == 1 {
				for _, s := range all {
					if strings.HasPrefix(s, fmt.Sprintf("d%d.", i)) {
						fmt.Sscanf(s, fmt.Sprintf("d%d.%%d", i), &n)
						if n < last {
							bad("%s was handled out of order", s)
						}
						last = n
					}
				}
			}
		}
		published := 0
		for _, p := range ings {
			published += len(*p)
		}
		if published != len(all) {
			bad("%d messages were ingested, %d handled", published, len(all))
		}
		for _, d := range digs {
			switch {
			case d.fail && len(d.got) > 0:
				if len(d.got) != 1 || !errors.Is(d.err, errHandler) {
					bad("Digest handled %v and returned %v although the handler failed", d.got, d.err)
				}
			case errors.Is(d.err, context.Canceled):
				if ctx.Err() == nil {
					bad("Digest returned %v but its context is not cancelled", d.err)
				}
			case !errors.Is(d.err, broker.ErrTimeout):
				bad("Digest returned %v", d.err)
			}
		}
	}, func(h *H) string { return "" })
}
