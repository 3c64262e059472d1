//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"sync"
	"time"

	"github.com/milosgajdos/netscrape/verifmc/vs"

	"github.com/milosgajdos/netscrape/pkg/broker"
	bmem "github.com/milosgajdos/netscrape/pkg/broker/memory"
)

// durations are those at which code that handles some of them in another way
// would do so: the usual ones, and those made of the numbers in the code.
func durations() []time.Duration {
	set := map[time.Duration]bool{}
	add := func(d time.Duration) {
		for k := time.Duration(-1); k <= 1; k++ {
			if d+k > 0 {
				set[d+k] = true
			}
		}
	}
	units := []time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour}
	for _, u := range units {
		for _, n := range []time.Duration{1, 2, 5, 10, 30, 60, 100, 500, 1000} {
			add(n * u)
		}
		for _, n := range dict().Ints {
			if n > 0 && n <= 100000 {
				add(time.Duration(n) * u)
			}
		}
	}
	add(1500 * time.Millisecond)
	add(24 * time.Hour)
	for k := uint(4); k < 60; k += pick2(4, 1) {
		add(1 << k)
	}
	set[math.MaxInt64/2] = true
	var out []time.Duration
	for d := range set {
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func pick2(quick, thorough uint) uint { return uint(pick(int(quick), int(thorough))) }

// tb is a broker whose calls are timed.
type tb struct {
	h *H
	b *bmem.Memory
	s broker.Subscriber
}

func (t *tb) bad(f string, a ...interface{}) {
	if len(t.h.errs) < 5 {
		t.h.errs = append(t.h.errs, fmt.Sprintf(f, a...))
	}
}

func newTB(h *H, ctx context.Context, opts ...broker.Option) *tb {
	t := &tb{h: h}
	var err error
	if t.b, err = bmem.New(opts...); err != nil {
		t.bad("New: %v", err)
		return nil
	}
	if err := t.b.Open(ctx); err != nil {
		t.bad("Open: %v", err)
		return nil
	}
	if t.s, err = t.b.Sub(bg, "x"); err != nil {
		t.bad("Sub: %v", err)
		return nil
	}
	return t
}

func (t *tb) pub(ctx context.Context, name string, opts ...broker.Option) string {
	return bclass2(t.b.Pub(ctx, "x", mkMsg(name), opts...))
}

// recv is the message received, or the error.
func (t *tb) recv(ctx context.Context, opts ...broker.Option) string {
	got := ""
	if err := t.s.Receive(ctx, func(_ context.Context, m broker.Message) error { got += msgName(m); return nil }, opts...); err != nil {
		return got + bclass2(err)
	}
	if got == "" {
		return "nothing"
	}
	return "got " + got
}

func bclass2(err error) string {
	if errors.Is(err, context.DeadlineExceeded) {
		return "ctx"
	}
	return bclass(err)
}

func (t *tb) end() {
	if err := t.b.Close(); err != nil {
		t.bad("Close: %v", err)
	}
	vs.Settle()
	if vs.Live() > 0 {
		t.bad("goroutines left behind: %s", vs.LiveDesc())
	}
}

// timed runs f and tells how long it took.
func timed(f func() string) (string, time.Duration) {
	t0 := vs.Elapsed()
	s := f()
	return s, vs.Elapsed() - t0
}

// timedCall is a call that blocks.
type timedCall struct {
	name  string
	cap   int
	opts  func(d time.Duration) []broker.Option // of the broker
	full  int                                   // messages published before
	recv  bool
	call  func(t *tb, ctx context.Context, d time.Duration) string
	allow map[string]bool // what it may return if its context ends
}

var timedCalls = []timedCall{
	{name: "pub on a full topic", cap: 1, full: 1, call: func(t *tb, ctx context.Context, d time.Duration) string {
		return t.pub(ctx, "new", broker.WithPubTimeout(d))
	}},
	{name: "pub without a receiver", cap: 0, call: func(t *tb, ctx context.Context, d time.Duration) string {
		return t.pub(ctx, "new", broker.WithPubTimeout(d))
	}},
	{name: "pub on a full topic, timeout of the broker", cap: 2, full: 2, opts: func(d time.Duration) []broker.Option { return []broker.Option{broker.WithPubTimeout(d)} },
		call: func(t *tb, ctx context.Context, d time.Duration) string { return t.pub(ctx, "new") }},
	{name: "pub on a full topic, timeouts of both", cap: 1, full: 1, opts: func(d time.Duration) []broker.Option { return []broker.Option{broker.WithPubTimeout(d/2 + 7)} },
		call: func(t *tb, ctx context.Context, d time.Duration) string {
			return t.pub(ctx, "new", broker.WithPubTimeout(d))
		}},
	{name: "receive", cap: 1, recv: true, call: func(t *tb, ctx context.Context, d time.Duration) string {
		return t.recv(ctx, broker.WithSubTimeout(d))
	}},
	{name: "receive without capacity", cap: 0, recv: true, opts: func(d time.Duration) []broker.Option { return []broker.Option{broker.WithPubTimeout(d / 3)} },
		call: func(t *tb, ctx context.Context, d time.Duration) string {
			return t.recv(ctx, broker.WithSubTimeout(d))
		}},
}

// brokerTimeouts has each kind of call wait for each duration, and end then or
// just before for each reason.
func brokerTimeouts(r *R, c timedCall) {
	for _, d := range durations() {
		for _, how := range []string{"timeout", "served", "deadline", "cancel", "close", "session", "unsub"} {
			d, how := d, how
			if how == "unsub" && !c.recv || how != "timeout" && d < 2 {
				continue
			}
			r.Single(fmt.Sprintf("%s for %v, %s", c.name, d, how), vs.Config{}, func(h *H) {
				vs.Explore(false)
				opts := []broker.Option{broker.WithCap(c.cap)}
				if c.opts != nil {
					opts = append(opts, c.opts(d)...)
				}
				sess, endSess := vs.WithCancel(bg)
				t := newTB(h, sess, opts...)
				if t == nil {
					return
				}
				for i := 0; i < c.full; i++ {
					if s := t.pub(bg, fmt.Sprintf("m%d", i)); s != "ok" {
						t.bad("Pub: %s", s)
					}
				}
				ctx, cancel := vs.WithCancel(bg)
				before := d - 1
				timeout := d
				var want []string
				var at time.Duration
				switch how {
				case "timeout":
					want, at = []string{"timeout"}, d
				case "deadline":
					ctx, cancel = vs.WithTimeout(bg, before)
					want, at = []string{"ctx"}, before
				default:
					at = before
					var f func()
					switch how {
					case "served":
						if c.recv {
							want = []string{"got late"}
							f = func() {
								if s := t.pub(bg, "late", broker.WithPubTimeout(time.Second)); s != "ok" {
									t.bad("the Pub that serves returned %s", s)
								}
							}
						} else {
							want = []string{"ok"}
							f = func() {
								w := "got m0"
								if c.full == 0 {
									w = "got new"
								}
								if s := t.recv(bg, broker.WithSubTimeout(time.Second)); s != w {
									t.bad("the Receive that serves returned %s", s)
								}
							}
						}
					case "cancel":
						want, f = []string{"ctx"}, cancel
					case "close":
						want = []string{"notconnected"}
						f = func() { _ = t.b.Close() }
					case "session":
						want, f = []string{"notconnected"}, endSess
					case "unsub":
						want = []string{"nothing", "inactive"}
						f = func() { _ = t.s.Unsubscribe(bg) }
					}
					vs.Thread("event", func() {
						vs.Sleep(before)
						f()
					})
				}
				if c.recv && how != "timeout" && how != "served" {
					want = []string{"nothing", "inactive", "ctx"}
				}
				got, took := timed(func() string { return c.call(t, ctx, timeout) })
				ok := false
				for _, w := range want {
					ok = ok || w == got
				}
				if !ok {
					t.bad("it returned %s after %v, want %v", got, took, want)
				}
				if took != at {
					t.bad("it returned %s after %v, not %v", got, took, at)
				}
				vs.Join()
				cancel()
				// nothing of it stays
				if how != "close" && how != "session" && how != "unsub" {
					var in []string
					for i := 0; i < c.full; i++ {
						in = append(in, fmt.Sprintf("m%d", i))
					}
					if how == "served" && c.full > 0 {
						in = append(in[1:], "new")
					}
					for _, w := range in {
						if s := t.recv(bg, broker.WithSubTimeout(time.Second)); s != "got "+w {
							t.bad("then Receive returned %s, want %s", s, w)
						}
					}
					if s, took := timed(func() string { return t.recv(bg, broker.WithSubTimeout(time.Second)) }); s != "timeout" || took != time.Second {
						t.bad("in the end Receive returned %s after %v", s, took)
					}
				}
				endSess()
				t.end()
			})
		}
	}
}

// brokerCrowd has n calls wait at the same time until they all end.
func brokerCrowd(r *R, n int) {
	for _, kind := range []string{"pub", "pub0", "recv", "recvs"} {
		for _, how := range []string{"timeout", "timeouts", "served", "deadline", "cancel", "close", "session", "unsub"} {
			kind, how := kind, how
			recv := kind == "recv" || kind == "recvs"
			if how == "unsub" && !recv {
				continue
			}
			r.Single(fmt.Sprintf("%d times %s, %s", n, kind, how), vs.Config{Horizon: 1 << 30}, func(h *H) {
				vs.Explore(false)
				capacity := 1
				if kind == "pub0" {
					capacity = 0
				}
				sess, endSess := vs.WithCancel(bg)
				t := newTB(h, sess, broker.WithCap(capacity), broker.WithPubTimeout(time.Hour))
				if t == nil {
					return
				}
				if kind == "pub" {
					if s := t.pub(bg, "first"); s != "ok" {
						t.bad("Pub: %s", s)
					}
				}
				ctx, cancel := vs.WithCancel(bg)
				if how == "deadline" {
					ctx, cancel = vs.WithTimeout(bg, time.Minute)
				}
				subs := []*tb{t}
				got := make([]string, n)
				took := make([]time.Duration, n)
				at := func(int) time.Duration { return time.Minute }
				timeout := func(int) time.Duration { return time.Hour }
				if how == "timeout" {
					timeout = at
				}
				if how == "timeouts" {
					timeout = func(i int) time.Duration { return time.Minute + time.Duration((i*7)%n)*time.Millisecond }
					at = timeout
				}
				for i := 0; i < n; i++ {
					i := i
					c := ctx
					if how == "cancel" && i%2 == 1 {
						c, _ = vs.WithCancel(ctx) // ends with its parent
					}
					me := t
					if kind == "recvs" && i > 0 {
						s, err := t.b.Sub(bg, "x")
						if err != nil {
							t.bad("Sub: %v", err)
							return
						}
						me = &tb{h: h, b: t.b, s: s}
						subs = append(subs, me)
					}
					vs.Thread(fmt.Sprintf("call%d", i), func() {
						got[i], took[i] = timed(func() string {
							if recv {
								return me.recv(c, broker.WithSubTimeout(timeout(i)))
							}
							return me.pub(c, fmt.Sprintf("n%d", i), broker.WithPubTimeout(timeout(i)))
						})
					})
				}
				vs.Settle()
				if vs.Elapsed() != 0 {
					t.bad("time passed")
				}
				vs.Sleep(time.Minute)
				var served []string
				switch how {
				case "served":
					m := n
					if kind == "pub" {
						m++
					}
					for i := 0; i < m; i++ {
						if recv {
							served = append(served, fmt.Sprintf("got n%d", i))
							if s := t.pub(bg, fmt.Sprintf("n%d", i)); s != "ok" {
								t.bad("Pub: %s", s)
							}
						} else {
							served = append(served, t.recv(bg))
						}
					}
				case "cancel":
					cancel()
				case "close":
					_ = t.b.Close()
				case "session":
					endSess()
				case "unsub":
					for _, s := range subs {
						_ = s.s.Unsubscribe(bg)
					}
				}
				vs.Join()
				for i := range got {
					ok := false
					switch {
					case how == "timeout" || how == "timeouts":
						ok = got[i] == "timeout"
					case how == "served" && recv:
						continue
					case how == "served":
						ok = got[i] == "ok"
					case recv:
						ok = got[i] == "nothing" || got[i] == "inactive" || got[i] == "ctx"
					case how == "close" || how == "session":
						ok = got[i] == "notconnected"
					default:
						ok = got[i] == "ctx"
					}
					if !ok {
						t.bad("call %d returned %s after %v", i, got[i], took[i])
					}
					if took[i] != at(i) {
						t.bad("call %d returned %s after %v, not %v", i, got[i], took[i], at(i))
					}
				}
				if how == "served" {
					var want []string
					if recv {
						want = append(want, got...)
					} else {
						for i := 0; i < n; i++ {
							want = append(want, fmt.Sprintf("got n%d", i))
						}
						if kind == "pub" {
							want = append(want, "got first")
						}
					}
					sort.Strings(served)
					sort.Strings(want)
					if fmt.Sprint(served) != fmt.Sprint(want) {
						t.bad("messages: %v, want %v", served, want)
					}
				} else if how == "timeout" || how == "timeouts" || how == "deadline" || how == "cancel" {
					if kind == "pub" {
						if s := t.recv(bg); s != "got first" {
							t.bad("then Receive returned %s", s)
						}
					}
					if s := t.recv(bg); s != "timeout" {
						t.bad("in the end Receive returned %s", s)
					}
				}
				cancel()
				endSess()
				t.end()
			})
		}
	}
}

// ownCtx is a context of a type of its own.
type ownCtx struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
}

func newOwn() *ownCtx { return &ownCtx{Context: bg, done: make(chan struct{})} }

func (c *ownCtx) Done() <-chan struct{} { return c.done }

func (c *ownCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ownCtx) end() {
	if c.Err() != nil {
		return
	}
	c.mu.Lock()
	c.err = context.Canceled
	c.mu.Unlock()
	vs.Close(c.done)
}

type ctxVal struct{}

// brokerContexts opens sessions with contexts of all kinds.
func brokerContexts(r *R) {
	type kind struct {
		name string
		mk   func() (context.Context, func())
		at   time.Duration // when it ends, -1 if only when end is called
	}
	never := time.Duration(-1)
	kinds := []kind{
		{"background", func() (context.Context, func()) { return bg, nil }, never},
		{"todo", func() (context.Context, func()) { return context.TODO(), nil }, never},
		{"value", func() (context.Context, func()) { return context.WithValue(bg, ctxVal{}, 1), nil }, never},
		{"cancel", func() (context.Context, func()) { c, f := vs.WithCancel(bg); return c, f }, never},
		{"value of cancel", func() (context.Context, func()) {
			c, f := vs.WithCancel(bg)
			return context.WithValue(c, ctxVal{}, 1), f
		}, never},
		{"parent", func() (context.Context, func()) {
			p, f := vs.WithCancel(bg)
			c, _ := vs.WithCancel(p)
			c, _ = vs.WithTimeout(context.WithValue(c, ctxVal{}, 1), time.Hour)
			return c, f
		}, time.Hour},
		{"own", func() (context.Context, func()) {
			c := newOwn()
			return c, c.end
		}, never},
		{"child of own", func() (context.Context, func()) {
			p := newOwn()
			c, _ := vs.WithCancel(p)
			return c, p.end
		}, never},
		{"long", func() (context.Context, func()) { c, f := vs.WithTimeout(bg, 100*time.Hour); return c, f }, 100 * time.Hour},
		{"parent's deadline", func() (context.Context, func()) {
			p, f := vs.WithTimeout(bg, time.Minute)
			c, _ := vs.WithTimeout(p, time.Hour)
			return c, f
		}, time.Minute},
	}
	for _, d := range []time.Duration{1, time.Millisecond, time.Second - 1, time.Second, time.Second + 1, 5 * time.Second, time.Minute, time.Hour} {
		d := d
		kinds = append(kinds, kind{"timeout " + d.String(), func() (context.Context, func()) { c, f := vs.WithTimeout(bg, d); return c, f }, d},
			kind{"deadline " + d.String(), func() (context.Context, func()) { c, f := vs.WithDeadline(bg, vs.Now().Add(d)); return c, f }, d})
	}
	for i, k := range kinds {
		for _, second := range []bool{false, true} {
			for _, call := range []string{"end", "time", "close", "close and end"} {
				i, k, second, call := i, k, second, call
				if call == "time" && k.at < 0 {
					continue
				}
				r.Single(fmt.Sprintf("opened with %s, second session %v, %s", k.name, second, call), vs.Config{}, func(h *H) {
					vs.Explore(false)
					first, endFirst := bg, func() {}
					if second {
						first, endFirst = kinds[(i+3)%10].mk()
					}
					var t *tb
					if t = newTB(h, first, broker.WithCap(2), broker.WithPubTimeout(time.Second)); t == nil {
						return
					}
					if s := t.pub(bg, "old"); s != "ok" {
						t.bad("Pub: %s", s)
					}
					if err := t.b.Close(); err != nil {
						t.bad("Close: %v", err)
					}
					vs.Settle()
					old := t.s
					start := vs.Elapsed()
					ctx, end := k.mk()
					if end == nil {
						end = func() {}
					}
					if err := t.b.Open(ctx); err != nil {
						t.bad("Open: %v", err)
					}
					if endFirst != nil {
						endFirst() // late
					}
					vs.Settle()
					var err error
					if t.s, err = t.b.Sub(bg, "x"); err != nil {
						t.bad("Sub: %v", err)
						return
					}
					if s := t.pub(bg, "new"); s != "ok" {
						t.bad("Pub: %s", s)
					}
					if s := (&tb{h: h, b: t.b, s: old}).recv(bg); s != "inactive" {
						t.bad("Receive of the session before: %s", s)
					}
					if s := t.recv(bg); s != "got new" {
						t.bad("Receive: %s", s)
					}
					if vs.Elapsed() != start {
						t.bad("time passed")
					}
					for i := 0; i < 2; i++ {
						if s := t.pub(bg, "fill"); s != "ok" {
							t.bad("Pub: %s", s)
						}
					}
					// a call that waits for the end
					at := k.at
					if call != "time" {
						at /= 2
						if at <= 0 {
							at = k.at - 1
						}
						if k.at < 0 {
							at = 50 * time.Hour
						}
					}
					var got string
					var took time.Duration
					vs.Thread("pub", func() {
						got, took = timed(func() string { return t.pub(bg, "blocked", broker.WithPubTimeout(1000*time.Hour)) })
					})
					ended := func() bool { return !(call == "end" && k.at < 0 && i < 3) }
					if call != "time" {
						vs.Sleep(at)
						switch call {
						case "end":
							end()
							if !ended() {
								_ = t.b.Close()
							}
						default:
							_ = t.b.Close()
						}
					}
					vs.Join()
					if got != "notconnected" || took != at {
						t.bad("the blocked Pub returned %s after %v, want notconnected after %v", got, took, at)
					}
					vs.Settle()
					for n := 0; n < 2; n++ {
						if s := t.pub(bg, "late"); s != "notconnected" {
							t.bad("Pub after the end: %s", s)
						}
						if _, err := t.b.Sub(bg, "x"); bclass(err) != "notconnected" {
							t.bad("Sub after the end: %v", err)
						}
						if s := t.recv(bg); s != "inactive" {
							t.bad("Receive after the end: %s", s)
						}
						if n == 0 && call == "close and end" {
							end()
							vs.Settle()
						}
					}
					// and again
					if err := t.b.Open(bg); err != nil {
						t.bad("Open: %v", err)
					}
					if t.s, err = t.b.Sub(bg, "x"); err != nil {
						t.bad("Sub: %v", err)
						return
					}
					end()
					vs.Sleep(200 * time.Hour)
					if s := t.pub(bg, "again"); s != "ok" {
						t.bad("Pub: %s", s)
					}
					if s := t.recv(bg); s != "got again" {
						t.bad("Receive: %s", s)
					}
					t.end()
				})
			}
		}
	}
	// contexts that ended before
	for _, name := range []string{"cancelled", "past", "own"} {
		for _, busy := range []bool{false, true} {
			name, busy := name, busy
			r.Single(fmt.Sprintf("opened with a context that has ended, %s, open before %v", name, busy), vs.Config{}, func(h *H) {
				vs.Explore(false)
				var ctx context.Context
				switch name {
				case "cancelled":
					c, f := vs.WithCancel(bg)
					f()
					ctx = c
				case "past":
					ctx, _ = vs.WithDeadline(bg, vs.Now().Add(-time.Hour))
				case "own":
					c := newOwn()
					c.end()
					ctx = c
				}
				t := newTB(h, bg, broker.WithCap(2), broker.WithPubTimeout(time.Second))
				if t == nil {
					return
				}
				if s := t.pub(bg, "m"); s != "ok" {
					t.bad("Pub: %s", s)
				}
				if !busy {
					_ = t.b.Close()
				}
				err := t.b.Open(ctx)
				vs.Settle()
				if busy {
					if err != nil {
						t.bad("Open while open: %v", err)
					}
					if s := t.recv(bg); s != "got m" {
						t.bad("Receive: %s", s)
					}
				} else {
					if s := t.pub(bg, "late"); s != "notconnected" {
						t.bad("Pub: %s", s)
					}
					if s := t.recv(bg); s != "inactive" {
						t.bad("Receive: %s", s)
					}
					if err := t.b.Open(bg); err != nil {
						t.bad("Open: %v", err)
					}
					if t.s, err = t.b.Sub(bg, "x"); err != nil {
						t.bad("Sub: %v", err)
						return
					}
					if s := t.recv(bg); s != "timeout" {
						t.bad("Receive: %s", s)
					}
				}
				t.end()
			})
		}
	}
}
