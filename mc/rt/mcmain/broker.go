//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	bmem "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/verifmc/vs"
)

// C11-C14: the in-memory broker. Threads perform broker operations; the
// history is checked against a model of sessions, topics (queues),
// subscriptions and cancelled contexts.

// bop is a broker operation:
//
//	open K | close | cancel K | pub TOPIC | sub NAME TOPIC | recv NAME | unsub NAME | sleep D | settle
//
// K is a context (0: never cancelled); pub and recv take ctx=K and to=D, recv
// also herr (the handler fails; herr=N with the N-th of the odd errors) and h=OP (what the handler does); alien adds
// options which do not concern the call.
type bop struct {
	name string
	kind string
	arg  string // topic or subscriber
	arg2 string // topic of sub
	ctx  int
	to   time.Duration
	herr bool
	odd  int // what the failing handler returns: 0 is errHandler, k one of the odd errors
	h    string

	alien bool
}

// nested are the operations handlers perform.
var nested = map[string]string{"close": "close", "cancel1": "cancel 1", "cancel2": "cancel 2", "open2": "open 2", "pubY": "pub y", "sub": "sub n x"}

// alienOpts are the options that concern other calls than kind.
func alienOpts(kind string) []broker.Option {
	opts := []broker.Option{broker.WithCap(9), broker.WithSink(broker.FanIn)}
	if kind != "pub" {
		opts = append(opts, broker.WithPubTimeout(7*time.Second))
	}
	if kind != "recv" {
		opts = append(opts, broker.WithSubTimeout(8*time.Second))
	}
	return opts
}

func parseBop(s string) bop {
	f := strings.Fields(s)
	o := bop{name: s, kind: f[0]}
	rest := f[1:]
	num := func(s string) int {
		n := 0
		if _, err := fmt.Sscan(s, &n); err != nil {
			panic(s)
		}
		return n
	}
	dur := func(s string) time.Duration {
		d, err := time.ParseDuration(s)
		if err != nil {
			panic(s)
		}
		return d
	}
	switch o.kind {
	case "open", "cancel":
		o.ctx = num(rest[0])
		return o
	case "sleep":
		o.to = dur(rest[0])
		return o
	case "close", "settle":
		return o
	case "sub":
		o.arg, o.arg2 = rest[0], rest[1]
		rest = rest[2:] // and ctx=K
	default:
		o.arg = rest[0]
		rest = rest[1:]
	}
	for _, a := range rest {
		switch {
		case strings.HasPrefix(a, "ctx="):
			o.ctx = num(a[4:])
		case strings.HasPrefix(a, "to="):
			o.to = dur(a[3:])
		case a == "herr":
			o.herr = true
		case strings.HasPrefix(a, "herr="):
			o.herr, o.odd = true, num(a[5:])
		case strings.HasPrefix(a, "h="):
			o.h = a[2:]
			if o.h != "unsub" && nested[o.h] == "" {
				panic(s)
			}
		case a == "alien":
			o.alien = true
		default:
			panic(s)
		}
	}
	return o
}

var errHandler = errors.New("handler failed")

// bstart describes how an execution starts.
type bstart struct {
	name   string
	cap    int
	pubTO  time.Duration
	setup  []string
	topics []string // topics drained in the end
	alien  bool     // the broker is made with options that do not concern it
}

const nctx = 4

// bres is what an operation returned.
type bres struct {
	op  bop
	msg string // message published or received
	sub string // unique name of the subscriber
	cls string // ok, notconnected, inactive, timeout, ctx, handler, other
}

func bclass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, broker.ErrNotConnected):
		return "notconnected"
	case errors.Is(err, broker.ErrSubscriptionInactive):
		return "inactive"
	case errors.Is(err, broker.ErrTimeout):
		return "timeout"
	case errors.Is(err, context.Canceled):
		return "ctx"
	case errors.Is(err, errHandler):
		return "handler"
	}
	return "other: " + err.Error()
}

// mkMsg is the message with the given name. Its payload is unlike that of any
// other; some messages have the same UID, none at all, or no attributes.
func mkMsg(name string) broker.Message {
	sum := 0
	for i := 0; i < len(name); i++ {
		sum += int(name[i])
	}
	m := broker.Message{
		Type:  broker.Type(sum % 5),
		Data:  []byte("data\x00" + name),
		Attrs: map[string]string{"a" + name: "v" + name, "k": name},
	}
	switch last := name[len(name)-1]; last {
	case '3':
	case '2':
		m.UID, m.Attrs = "uid-"+name, nil
	default:
		m.UID = "uid-" + string(last)
	}
	return m
}

func msgName(m broker.Message) string {
	name := strings.TrimPrefix(string(m.Data), "data\x00")
	if name == "" {
		name = "?"
	}
	w := mkMsg(name)
	if m.UID != w.UID || m.Type != w.Type || string(m.Data) != string(w.Data) || len(m.Attrs) != len(w.Attrs) {
		return fmt.Sprintf("changed message %q %v %q %v", m.UID, m.Type, m.Data, m.Attrs)
	}
	for k, v := range w.Attrs {
		if got, ok := m.Attrs[k]; !ok || got != v {
			return fmt.Sprintf("changed message %q %v %q %v", m.UID, m.Type, m.Data, m.Attrs)
		}
	}
	return name
}

// bsys is a broker under test.
type bsys struct {
	b      *bmem.Memory
	ctx    [nctx]context.Context
	cancel [nctx]context.CancelFunc
	subs   map[string]broker.Subscriber // made by the setup; read only afterwards
}

// bthread is a user of the broker.
type bthread struct {
	s    *bsys
	t    *Th
	n    int
	subs map[string]broker.Subscriber
	ids  map[string]string
	own  map[string]string // unique names of subscribers
	got  []broker.Message  // what was received
	was  []string          // and what it was then
}

func (s *bsys) thread(h *H, i int) *bthread {
	return &bthread{s: s, t: h.T(i), subs: map[string]broker.Subscriber{}, ids: map[string]string{}, own: map[string]string{}}
}

func (u *bthread) do(o bop) *bres {
	if o.kind == "sleep" {
		vs.Sleep(o.to)
		return nil
	}
	s := u.s
	r := &bres{op: o}
	u.n++
	uniq := fmt.Sprintf("%d.%d", u.t.id, u.n)
	e := u.t.Do(Op{o.name, nil}, func() string {
		switch o.kind {
		case "settle":
			vs.Settle()
			r.cls = "ok"
		case "open":
			r.cls = bclass(s.b.Open(s.ctx[o.ctx]))
		case "close":
			r.cls = bclass(s.b.Close())
		case "cancel":
			s.cancel[o.ctx]()
			r.cls = "ok"
		case "pub":
			r.msg = uniq
			var opts []broker.Option
			if o.alien {
				opts = alienOpts("pub")
			}
			if o.to != 0 {
				opts = append(opts, broker.WithPubTimeout(o.to))
			}
			r.cls = bclass(s.b.Pub(s.ctx[o.ctx], o.arg, mkMsg(uniq), opts...))
		case "sub":
			var opts []broker.Option
			if o.alien {
				opts = alienOpts("sub")
			}
			sub, err := s.b.Sub(s.ctx[o.ctx], o.arg2, opts...)
			r.cls = bclass(err)
			r.sub = uniq
			if err == nil {
				u.own[o.arg] = uniq
				u.subs[uniq] = sub
				id, err := sub.ID(bg)
				if err != nil {
					u.t.Errf("ID: %v", err)
				}
				u.ids[uniq] = id
				topic, err := sub.Topic(bg)
				if err != nil || topic != o.arg2 {
					u.t.Errf("subscriber to %s has topic %q (error %v)", o.arg2, topic, err)
				}
			}
		case "unsub", "recv":
			sub := u.subs[u.own[o.arg]]
			r.sub = u.own[o.arg]
			if sub == nil {
				sub = s.subs[o.arg]
				r.sub = o.arg
			}
			if sub == nil {
				r.cls = "nosub"
				return "no subscriber"
			}
			if o.kind == "unsub" {
				r.cls = bclass(sub.Unsubscribe(s.ctx[o.ctx]))
				break
			}
			var opts []broker.Option
			if o.alien {
				opts = alienOpts("recv")
			}
			if o.to != 0 {
				opts = append(opts, broker.WithSubTimeout(o.to))
			}
			n := 0
			err := sub.Receive(s.ctx[o.ctx], func(ctx context.Context, m broker.Message) error {
				n++
				if n > 1 {
					u.t.Errf("one Receive handed over %d messages", n)
				}
				if ctx != s.ctx[o.ctx] {
					u.t.Errf("the handler got another context")
				}
				r.msg = msgName(m)
				u.got, u.was = append(u.got, m), append(u.was, r.msg)
				if o.h == "unsub" {
					u.do(parseBop("unsub " + o.arg))
				} else if o.h != "" {
					u.do(parseBop(nested[o.h]))
				}
				if o.odd > 0 {
					return oddErrors()[o.odd-1]
				}
				if o.herr {
					return errHandler
				}
				return nil
			}, opts...)
			r.cls = bclass(err)
			if n > 0 && o.odd > 0 && sameErr(err, oddErrors()[o.odd-1]) {
				r.cls = "handler"
			}
		default:
			panic(o.kind)
		}
		if r.msg != "" {
			return r.msg + " " + r.cls
		}
		return r.cls
	})
	e.Data = r
	return r
}

// bprog is a program: a start and the operations of the threads.
type bprog struct {
	start   bstart
	threads [][]bop
	exact   bool // check timing
	unit    string
	names   string
}

func (r *R) broker(label string, cfg vs.Config, p bprog) {
	scope := p.start.name + "|" + p.names
	r.Sched(label, cfg, func(h *H) {
		vs.Explore(false)
		opts := []broker.Option{broker.WithCap(p.start.cap)}
		if p.start.pubTO != 0 {
			opts = append(opts, broker.WithPubTimeout(p.start.pubTO))
		}
		if p.start.alien {
			opts = append(opts, broker.WithSubTimeout(8*time.Second), broker.WithSink(broker.FanIn))
		}
		b, err := bmem.New(opts...)
		if err != nil {
			h.errs = append(h.errs, "New: "+err.Error())
			return
		}
		s := &bsys{b: b}
		s.ctx[0] = bg
		for k := 1; k < nctx; k++ {
			s.ctx[k], s.cancel[k] = vs.WithCancel(bg)
		}
		set := s.thread(h, 0)
		us := []*bthread{set}
		for _, o := range p.start.setup {
			set.do(parseBop(o))
		}
		vs.Settle()
		s.subs = map[string]broker.Subscriber{}
		for n, q := range set.own {
			s.subs[n] = set.subs[q]
		}
		for i, ops := range p.threads {
			ops := ops
			u := s.thread(h, i+1)
			us = append(us, u)
			vs.Thread(fmt.Sprintf("T%d", i+1), func() {
				for _, o := range ops {
					u.do(o)
				}
			})
		}
		fin := s.thread(h, len(p.threads)+1)
		us = append(us, fin)
		vs.Explore(true)
		vs.Join()
		vs.Explore(false)
		fin.do(parseBop("settle"))
		for _, t := range p.start.topics {
			if fin.do(parseBop("sub d"+t+" "+t)).cls == "notconnected" {
				fin.do(parseBop("open 0"))
				fin.do(parseBop("sub d" + t + " " + t))
			}
			for i := 0; i < 12; i++ {
				if r := fin.do(parseBop("recv d" + t)); r.cls != "ok" || r.msg == "" {
					break
				}
			}
		}
		fin.do(parseBop("close"))
		fin.do(parseBop("settle"))
		if vs.Live() > 0 {
			h.errs = append(h.errs, "goroutines left behind: "+vs.LiveDesc())
		}
		ids := map[string]bool{}
		for _, u := range us {
			for i, m := range u.got {
				if n := msgName(m); n != u.was[i] {
					h.errs = append(h.errs, fmt.Sprintf("message %s became %s later", u.was[i], n))
				}
			}
			for _, id := range u.ids {
				if ids[id] {
					h.errs = append(h.errs, "two subscribers have ID "+id)
				}
				ids[id] = true
			}
		}
		h.V["setup"] = set.own
	}, func(h *H) string {
		evs, key := brokerEvents(h, p)
		key = scope + "#" + key
		if r.hist[key] {
			return ""
		}
		if !cfg.EarlyFire {
			if s := brokerWaits(evs, p); s != "" {
				return s
			}
			if p.exact {
				if s := brokerTiming(evs, p); s != "" {
					return s
				}
			}
		}
		if s := brokerLin(evs, p.start.cap, cfg.EarlyFire); s != "" {
			return s
		}
		r.hist[key] = true
		return ""
	})
}

// bev is an event of a broker history.
type bev struct {
	*Event
	*bres
	opener int    // async: the open event it belongs to
	pred   uint64 // events that come before
	gone   bool   // recv: the subscriber had been unsubscribed when it began
	over   bool   // recv: the session had been closed when it began
	topic  string
	subAt  int // index of the sub event
}

// asyncClose is the closing of a session by the broker after the context it
// was opened with was cancelled.
const asyncClose = "asyncclose"

func brokerEvents(h *H, p bprog) ([]*bev, string) {
	own, _ := h.V["setup"].(map[string]string)
	var evs []*bev
	for _, e := range h.Events() {
		b, ok := e.Data.(*bres)
		if !ok || b.cls == "nosub" {
			continue
		}
		if (b.op.kind == "recv" || b.op.kind == "unsub") && own[b.sub] != "" {
			b.sub = own[b.sub]
		}
		evs = append(evs, &bev{Event: e, bres: b, topic: b.op.arg, subAt: -1, opener: -1})
	}
	n := len(evs)
	subs := map[string]int{}
	for i, e := range evs {
		if e.op.kind == "sub" && e.cls == "ok" {
			subs[e.sub] = i
			e.topic = e.op.arg2
		}
	}
	for _, e := range evs {
		if i, ok := subs[e.sub]; ok && (e.op.kind == "recv" || e.op.kind == "unsub") {
			e.subAt = i
			e.topic = evs[i].op.arg2
		}
	}
	for i, a := range evs {
		for j, b := range evs {
			if i == j {
				continue
			}
			if b.End < a.Begin || a.cls == "timeout" && b.T1 < a.T1 {
				a.pred |= 1 << uint(j)
			}
			if a.op.kind == "recv" && b.End < a.Begin {
				if b.op.kind == "unsub" && b.sub == a.sub {
					a.gone = true
				}
				if b.op.kind == "close" && a.subAt >= 0 && evs[a.subAt].End < b.Begin {
					a.over = true
				}
			}
		}
	}
	for o := 0; o < n; o++ {
		for c := 0; c < n; c++ {
			if evs[o].op.kind != "open" || evs[c].op.kind != "cancel" || evs[o].op.ctx != evs[c].op.ctx {
				continue
			}
			t := evs[o].T1
			if evs[c].T1 > t {
				t = evs[c].T1
			}
			x := &bev{Event: &Event{Op: Op{Name: asyncClose}}, bres: &bres{op: bop{kind: asyncClose}, cls: "ok"}, opener: o, subAt: -1}
			x.pred = 1<<uint(o) | 1<<uint(c)
			i := uint(len(evs))
			for k := 0; k < n; k++ {
				e := evs[k]
				if e.op.kind == "settle" && evs[o].End < e.Begin && evs[c].End < e.Begin || e.T0 > t {
					e.pred |= 1 << i
				}
			}
			evs = append(evs, x)
		}
	}
	var b strings.Builder
	for _, e := range evs {
		fmt.Fprintf(&b, "%s|%s|%s|%s|%d|%d|%x|%t%t;", e.op.name, e.msg, e.sub, e.cls, e.T0, e.T1, e.pred, e.gone, e.over)
	}
	return evs, b.String()
}

// brokerWaits checks that nobody waits who could proceed.
func brokerWaits(evs []*bev, p bprog) string {
	for _, a := range evs {
		if a.op.kind != "pub" && a.op.kind != "recv" || a.T1 == a.T0 {
			continue
		}
		// a Pub and a Receive that wait together
		if a.op.kind == "pub" {
			for _, b := range evs {
				if b.op.kind == "recv" && b.topic == a.topic && b.T1 > b.T0 && b.T0 < a.T1 && a.T0 < b.T1 {
					return fmt.Sprintf("a Pub and a Receive waited at the same time: %v; %v", a.Event, b.Event)
				}
			}
			if a.cls == "ok" {
				ok := false
				for _, b := range evs {
					ok = ok || b.op.kind == "recv" && b.topic == a.topic && b.T1 == a.T1 && (b.msg != "" || b.cls == "timeout")
				}
				if !ok {
					return fmt.Sprintf("Pub waited although it could proceed: %v", a.Event)
				}
			}
			continue
		}
		if a.msg != "" {
			for _, b := range evs {
				if b.op.kind == "pub" && b.msg == a.msg && b.T0 != a.T1 {
					return fmt.Sprintf("Receive did not take a message that was there: %v; %v", b.Event, a.Event)
				}
			}
		}
	}
	return ""
}

// brokerTiming checks when blocked calls end.
func brokerTiming(evs []*bev, p bprog) string {
	opens := 0
	for _, e := range evs {
		if e.op.kind == "open" {
			opens++
		}
	}
	for _, a := range evs {
		switch a.op.kind {
		case "pub", "recv":
		case asyncClose, "settle":
			continue
		default:
			if a.T1 != a.T0 {
				return fmt.Sprintf("an operation that must not wait took time: %v", a.Event)
			}
			continue
		}
		to := a.op.to
		if to == 0 && a.op.kind == "pub" {
			to = p.start.pubTO
		}
		if to == 0 {
			to = 5 * time.Second
		}
		if a.cls == "timeout" && a.T1-a.T0 != to {
			return fmt.Sprintf("the timeout is %v, but it took %v: %v", to, a.T1-a.T0, a.Event)
		}
		if a.T1-a.T0 > to {
			return fmt.Sprintf("took longer than the timeout of %v: %v", to, a.Event)
		}
		until := func(t time.Duration, c *bev) string {
			if t < a.T0 {
				t = a.T0
			}
			if a.T1 > t {
				return fmt.Sprintf("did not end although it had to at %v because of %v: %v", t, c.Event, a.Event)
			}
			return ""
		}
		for _, c := range evs {
			s := ""
			switch c.op.kind {
			case "cancel":
				if c.op.ctx == a.op.ctx {
					s = until(c.T1, c)
				}
				// the session ends if it was opened with that context
				if s == "" {
					for _, o := range evs {
						if o.op.kind == "open" && o.op.ctx == c.op.ctx && opens <= 2 && o.Thread == 0 && (a.T0 < c.T1 || a.op.kind == "recv" && evs[a.subAt].T1 < c.T1) {
							s = until(c.T1, c)
						}
					}
				}
			case "close":
				if a.op.kind == "recv" && evs[a.subAt].End < c.Begin || a.op.kind == "pub" && a.T0 < c.T1 {
					s = until(c.T1, c)
				}
			case "unsub":
				if c.sub == a.sub && a.op.kind == "recv" {
					s = until(c.T1, c)
				}
			}
			if s != "" {
				return s
			}
		}
	}
	return ""
}

// bstate is the state of the model.
type bstate struct {
	open      bool
	opener    int
	cancelled uint
	queues    map[string][]string
	subs      map[int]bsub // by sub event
	hot       string       // topic over capacity: the next event takes from it
}

type bsub struct {
	session int
	active  bool
}

func (s *bstate) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%t %d %x %s|", s.open, s.opener, s.cancelled, s.hot)
	var ts []string
	for t, q := range s.queues {
		if len(q) > 0 {
			ts = append(ts, t+":"+strings.Join(q, ","))
		}
	}
	sort.Strings(ts)
	b.WriteString(strings.Join(ts, ";"))
	for k := range s.subs {
		v := s.subs[k]
		ts = append(ts, "")
		_ = v
	}
	ks := make([]int, 0, len(s.subs))
	for k := range s.subs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "|%d %v", k, s.subs[k])
	}
	return b.String()
}

func (s *bstate) clone() *bstate {
	c := *s
	c.queues = map[string][]string{}
	for t, q := range s.queues {
		c.queues[t] = append([]string(nil), q...)
	}
	c.subs = map[int]bsub{}
	for k, v := range s.subs {
		c.subs[k] = v
	}
	return &c
}

func (s *bstate) close() {
	s.open = false
	s.opener = -1
	s.queues = map[string][]string{}
}

// apply returns the states possible after event i.
func (s *bstate) apply(evs []*bev, i, capacity int, early bool) []*bstate {
	e := evs[i]
	if s.hot != "" && (e.op.kind != "recv" || e.topic != s.hot) {
		return nil
	}
	one := func(f func(c *bstate)) []*bstate {
		c := s.clone()
		if f != nil {
			f(c)
		}
		return []*bstate{c}
	}
	pop := func(c *bstate) {
		c.queues[e.topic] = c.queues[e.topic][1:]
		c.hot = ""
	}
	switch e.op.kind {
	case "settle":
		return one(nil)
	case "open":
		if e.cls != "ok" {
			return nil
		}
		return one(func(c *bstate) {
			if !c.open {
				c.open, c.opener = true, i
			}
		})
	case "close":
		if e.cls != "ok" {
			return nil
		}
		return one(func(c *bstate) { c.close() })
	case "cancel":
		return one(func(c *bstate) { c.cancelled |= 1 << uint(e.op.ctx) })
	case asyncClose:
		return one(func(c *bstate) {
			if c.open && c.opener == e.opener {
				c.close()
			}
		})
	case "pub":
		q := s.queues[e.topic]
		switch e.cls {
		case "ok":
			if !s.open || len(q) >= capacity && capacity > 0 {
				return nil
			}
			return one(func(c *bstate) {
				c.queues[e.topic] = append(c.queues[e.topic], e.msg)
				if capacity == 0 {
					c.hot = e.topic
				}
			})
		case "notconnected":
			if !s.open {
				return one(nil)
			}
		case "timeout":
			if early || s.open && len(q) >= capacity {
				return one(nil)
			}
		case "ctx":
			if s.cancelled>>uint(e.op.ctx)&1 != 0 {
				return one(nil)
			}
		}
		return nil
	case "sub":
		switch e.cls {
		case "ok":
			if s.open {
				return one(func(c *bstate) { c.subs[i] = bsub{s.opener, true} })
			}
		case "notconnected":
			if !s.open {
				return one(nil)
			}
		}
		return nil
	case "unsub":
		if e.cls != "ok" {
			return nil
		}
		return one(func(c *bstate) {
			u := c.subs[e.subAt]
			u.active = false
			c.subs[e.subAt] = u
		})
	case "recv":
		sub, ok := s.subs[e.subAt]
		if !ok {
			return nil
		}
		over := !s.open || sub.session != s.opener
		q := s.queues[e.topic]
		if e.msg != "" {
			if e.cls != "ok" && !(e.op.herr && e.cls == "handler") || e.op.herr && e.cls != "handler" {
				return nil
			}
			if over || e.gone || len(q) == 0 || q[0] != e.msg {
				return nil
			}
			return one(pop)
		}
		switch e.cls {
		case "inactive":
			if (over || !sub.active) && s.hot == "" {
				return one(nil)
			}
		case "ok", "ctx":
			if e.gone || e.over || s.hot != "" {
				return nil
			}
			c := s.cancelled>>uint(e.op.ctx)&1 != 0
			if c || e.cls == "ok" && (over || !sub.active) {
				return one(nil)
			}
		case "timeout":
			if e.gone || over && !early {
				return nil
			}
			if over || len(q) == 0 {
				return one(nil)
			}
			if !early {
				fresh := false
				for _, b := range evs {
					fresh = fresh || b.op.kind == "pub" && b.msg == q[0] && b.T1 == e.T1
				}
				if !fresh {
					return nil
				}
			}
			out := one(pop)
			if s.hot == "" {
				out = append(out, s.clone())
			}
			return out
		}
		return nil
	}
	panic(e.op.kind)
}

// brokerLin looks for a sequential order of the events that explains them.
func brokerLin(evs []*bev, capacity int, early bool) string {
	n := len(evs)
	if n > 63 {
		return "history too long"
	}
	if capacity < 0 {
		capacity = 100
	}
	seen := map[string]bool{}
	best, bestN := uint64(0), -1
	var rec func(done uint64, k int, s *bstate) bool
	rec = func(done uint64, k int, s *bstate) bool {
		if k > bestN {
			best, bestN = done, k
		}
		if k == n {
			return s.hot == ""
		}
		key := fmt.Sprintf("%x|%s", done, s.key())
		if seen[key] {
			return false
		}
		seen[key] = true
		for i := 0; i < n; i++ {
			if done>>uint(i)&1 != 0 || evs[i].pred&^done != 0 {
				continue
			}
			for _, s2 := range s.apply(evs, i, capacity, early) {
				if rec(done|1<<uint(i), k+1, s2) {
					return true
				}
			}
		}
		return false
	}
	if rec(0, 0, &bstate{opener: -1, queues: map[string][]string{}, subs: map[int]bsub{}}) {
		return ""
	}
	var rest []string
	for i, e := range evs {
		if best>>uint(i)&1 == 0 {
			rest = append(rest, e.Event.String())
		}
	}
	return "no sequential order explains the results; at most explained up to: " + strings.Join(rest, "; ")
}

// bfam is a family of broker programs.
type bfam struct {
	name            string
	ops             []string
	threads, length int
	bound           int
	early           bool
	exact           bool
	norace          bool // no race detector pass in quick runs
	starts          []bstart
	progs           [][]string // explicit programs: the operations of each thread, separated by "; "
	parts           int
	must            []string // every program has one of these operations
}

func bseq(s string) []bop {
	var ops []bop
	for _, o := range strings.Split(s, "; ") {
		if o != "" {
			ops = append(ops, parseBop(o))
		}
	}
	return ops
}

func (f *bfam) programs() [][]string {
	if f.progs != nil {
		return f.progs
	}
	var out [][]string
	for _, p := range programs(len(f.ops), f.threads, f.length) {
		var ts []string
		for _, seq := range p {
			var t []string
			for _, k := range seq {
				t = append(t, f.ops[k])
			}
			ts = append(ts, strings.Join(t, "; "))
		}
		if len(f.must) > 0 {
			all := strings.Join(ts, "; ")
			ok := false
			for _, m := range f.must {
				ok = ok || strings.Contains(all, m)
			}
			if !ok {
				continue
			}
		}
		out = append(out, ts)
	}
	return out
}

func brokerUnits(fams []bfam) []Unit {
	var us []Unit
	for _, f := range fams {
		f := f
		parts := f.parts
		if parts == 0 {
			parts = 2
		}
		ps := f.programs()
		for _, st := range f.starts {
			st := st
			for k := 0; k < parts && k < len(ps); k++ {
				k := k
				name := fmt.Sprintf("%s/%s/%d", f.name, st.name, k)
				us = append(us, Unit{Name: name, Race: !f.norace || thorough(), Run: func(r *R) {
					for i, ts := range ps {
						if i%parts != k {
							continue
						}
						p := bprog{start: st, exact: f.exact, names: strings.Join(ts, " || ")}
						for _, t := range ts {
							p.threads = append(p.threads, bseq(t))
						}
						bound := f.bound
						if raceMode() && bound > 1 {
							bound = 1
						}
						r.broker(name+": "+p.names, vs.Config{Bound: bound, EarlyFire: f.early, MapDesc: i%2 == 1}, p)
						if r.Viol != nil {
							return
						}
					}
				}})
			}
		}
	}
	return us
}

// openSubs is a broker with a session and three subscribers.
func openSubs(capacity int, extra ...string) bstart {
	s := bstart{name: fmt.Sprintf("cap%d", capacity), cap: capacity, topics: []string{"x", "y"}}
	s.setup = append([]string{"open 1", "sub s1 x", "sub s2 x", "sub s3 y"}, extra...)
	if len(extra) > 0 {
		s.name += "+" + strings.Join(extra, "+")
	}
	return s
}

// qt is q in quick runs, and q and t in thorough ones.
func qt(q []bstart, t ...bstart) []bstart {
	if thorough() {
		return append(q, t...)
	}
	return q
}

func init() {
	checks["C11"] = func() []Unit {
		all := []string{"pub x", "pub y", "recv s1", "recv s2", "recv s3", "recv s1 herr", "sub t x; recv t", "sleep 5s; pub x", "sleep 5s; recv s1"}
		few := []string{"pub x", "pub y", "recv s1", "recv s2", "recv s3"}
		b := pick(2, 3)
		fresh := func(capacity int, extra ...string) bstart {
			s := bstart{name: fmt.Sprintf("fresh%d", capacity), cap: capacity, topics: []string{"x", "y"}}
			s.setup = append([]string{"open 1"}, extra...)
			if len(extra) > 0 {
				s.name += "+" + strings.Join(extra, "+")
			}
			return s
		}
		first := []string{"pub x", "pub y", "pub x; pub x", "sub t x; recv t", "sub t x; recv t; recv t", "sub t y; recv t"}
		fams := []bfam{
			{name: "fresh1", ops: append(first[:len(first):len(first)], "sub u x", "sub t x; sub u x; recv u; recv t"), threads: 1, length: 2, exact: true, norace: true, starts: []bstart{fresh(0), fresh(1), fresh(2), fresh(3),
				fresh(1, "pub x"), fresh(2, "pub x"), fresh(2, "pub x", "pub x"), fresh(3, "pub x", "pub x"), fresh(3, "pub x", "pub x", "pub x")}},
			{name: "fresh2", ops: first, threads: 2, length: 1, bound: b, starts: []bstart{fresh(0), fresh(1), fresh(2), fresh(2, "pub x"), fresh(2, "pub x", "pub x"), fresh(3, "pub x", "pub x")}},
			{name: "fresh3", ops: []string{first[0], first[1], first[3], first[4]}, threads: 3, length: 1, bound: pick(1, 2), norace: true, starts: qt([]bstart{fresh(1), fresh(3)}, fresh(0), fresh(2), fresh(2, "pub x", "pub x"))},
			{name: "3x1all", ops: all, threads: 3, length: 1, bound: pick(1, 2), norace: true, starts: qt([]bstart{openSubs(0), openSubs(2, "pub x", "pub x")}, openSubs(1), openSubs(2), openSubs(1, "pub x"))},
			{name: "3x1", ops: []string{"pub x", "recv s1", "recv s2", "recv s3"}, threads: 3, length: 1, bound: b, starts: []bstart{openSubs(0), openSubs(1), openSubs(1, "pub x")}},
			{name: "2x2", ops: few, threads: 2, length: 2, bound: b, starts: []bstart{openSubs(0), openSubs(1), openSubs(2)}},
			{name: "3x2", ops: []string{"pub x", "recv s1"}, threads: 3, length: 2, bound: pick(1, 2), norace: true, starts: qt([]bstart{openSubs(1)}, openSubs(0), openSubs(2))},
			{name: "2x3", ops: []string{"pub x", "recv s1"}, threads: 2, length: 3, bound: pick(1, 3), starts: []bstart{openSubs(1), openSubs(2)}},
			{name: "early", ops: []string{"pub x", "pub x to=1s", "recv s1", "recv s2 to=1s"}, threads: 3, length: 1, bound: pick(1, 3), early: true, starts: []bstart{openSubs(0), openSubs(1), openSubs(1, "pub x")}},
		}
		fams = append(fams, bfam{name: "nested", ops: []string{"recv s1 h=pubY", "recv s3 h=sub", "recv s2 h=pubY herr", "pub x", "pub y", "recv s3", "recv s1 alien", "pub x alien"}, threads: 2, length: 1, bound: b, starts: []bstart{openSubs(3), openSubs(3, "pub x", "pub x", "pub y")}})
		// handlers that fail with odd errors
		var odd [][]string
		for k := range oddErrors() {
			recv := fmt.Sprintf("recv s1 herr=%d", k+1)
			odd = append(odd, []string{recv + "; recv s2 to=1s; " + recv + "; recv s1 to=1s"}, []string{recv, "pub x"})
		}
		fams = append(fams, bfam{name: "errors", progs: odd, bound: 1, norace: true, starts: []bstart{openSubs(1), openSubs(3, "pub x", "pub x", "pub x")}})
		if thorough() {
			fams = append(fams,
				bfam{name: "4x1", ops: few, threads: 4, length: 1, bound: 2, starts: []bstart{openSubs(0), openSubs(1), openSubs(2)}},
			)
		}
		us := append(brokerUnits(fams), brokerNameUnits(false)...)
		for _, n := range sizes(pick(260, 1100)) {
			if n > 3 {
				n := n
				us = append(us, Unit{Name: fmt.Sprintf("many/%d", n), Run: func(r *R) { brokerCapacity(r, n) }})
			}
		}
		return us
	}
}

func init() {
	checks["C12"] = func() []Unit {
		closed := bstart{name: "closed", cap: 1, topics: []string{"x"}}
		open := bstart{name: "open", cap: 1, setup: []string{"open 1"}, topics: []string{"x"}}
		full := bstart{name: "full", cap: 2, setup: []string{"open 1", "sub s x", "pub x", "pub x"}, topics: []string{"x"}}
		sub := bstart{name: "sub", cap: 1, setup: []string{"open 1", "sub s x"}, topics: []string{"x"}}
		again := bstart{name: "again", cap: 1, setup: []string{"open 1", "sub s x", "pub x", "close", "open 2"}, topics: []string{"x"}}
		base := []string{"open 1", "open 2", "close", "cancel 1", "cancel 2", "pub x"}
		all := append(base[:len(base):len(base)], "sub t x; recv t")
		with := append(all[:len(all):len(all)], "recv s")
		unsub := append(with[:len(with):len(with)], "unsub s")
		b := pick(2, 3)
		fams := []bfam{
			{name: "1xn", ops: all, threads: 1, length: pick(4, 5), bound: 0, norace: true, starts: []bstart{closed}},
			{name: "1xs", ops: unsub, threads: 1, length: pick(3, 4), bound: 0, norace: true, starts: []bstart{full, sub, again}},
			{name: "3x1", ops: unsub, threads: 3, length: 1, bound: pick(1, 2), norace: true, starts: []bstart{full, sub, again}, must: []string{"open", "close", "cancel"}},
			{name: "3x1c", ops: all, threads: 3, length: 1, bound: pick(1, 2), starts: []bstart{closed}},
			{name: "2x2", ops: []string{"open 1", "open 2", "close", "cancel 1", "pub x", "sub t x", "recv t", "recv s"}, threads: 2, length: 2, bound: pick(1, 2), norace: true, starts: qt([]bstart{sub}, full, again), must: []string{"open", "close", "cancel"}},
			{name: "2x2c", ops: base, threads: 2, length: 2, bound: pick(1, 2), starts: []bstart{closed, open}},
			{name: "2x1", ops: unsub, threads: 2, length: 1, bound: b + 1, starts: []bstart{closed, open, full, sub, again}},
			{name: "nested", ops: []string{"recv s h=close", "recv s h=open2", "recv s h=cancel1", "recv s h=cancel1 herr", "close", "open 2", "cancel 1", "pub x alien", "sub t x alien; recv t"}, threads: 2, length: 1, bound: b, starts: []bstart{full, sub, again}},
		}
		// calls whose own context has ended
		fams = append(fams, bfam{name: "ended", ops: []string{"cancel 2; sub t x ctx=2; recv t to=1s", "cancel 2; pub x ctx=2", "cancel 2; recv s ctx=2", "cancel 2; unsub s ctx=2; recv s", "close", "open 1", "pub x", "recv s", "cancel 2; open 2; pub x; recv s"}, threads: 2, length: 1, bound: b, norace: true, starts: []bstart{closed, open, full, sub, again}})
		if thorough() {
			fams = append(fams,
				bfam{name: "2x3c", ops: []string{"open 2", "close", "cancel 1", "pub x"}, threads: 2, length: 3, bound: 1, norace: true, starts: []bstart{closed, open}},
				bfam{name: "4x1", ops: []string{"open 2", "close", "cancel 1", "pub x", "recv s"}, threads: 4, length: 1, bound: 1, norace: true, starts: []bstart{sub, full}},
			)
		}
		us := append(brokerUnits(fams), brokerNameUnits(true)...)
		return append(us, Unit{Name: "sessions", Run: brokerSessions}, Unit{Name: "contexts", Run: brokerContexts})
	}
	checks["C13"] = func() []Unit {
		var blocked, causes []string
		for _, c := range []string{"", " ctx=2"} {
			for _, t := range []string{"", " to=3s"} {
				blocked = append(blocked, "pub x"+c+t, "recv s1"+c+t)
			}
		}
		for _, d := range []string{"", "sleep 1s; ", "sleep 3s; ", "sleep 5s; "} {
			for _, o := range []string{"close", "cancel 1", "cancel 2", "unsub s1", "pub x", "recv s2", "unsub s2"} {
				if d == "sleep 5s; " && o != "pub x" && o != "recv s2" {
					continue
				}
				causes = append(causes, d+o)
			}
		}
		starts := []bstart{}
		for _, c := range []int{0, 1, 2} {
			st := bstart{name: fmt.Sprintf("empty%d", c), cap: c, setup: []string{"open 1", "sub s1 x", "sub s2 x"}, topics: []string{"x"}}
			starts = append(starts, st)
			if c > 0 {
				st.name = fmt.Sprintf("full%d", c)
				for i := 0; i < c; i++ {
					st.setup = append(st.setup[:len(st.setup):len(st.setup)], "pub x")
				}
				starts = append(starts, st)
			}
		}
		st := bstart{name: "to2s", cap: 0, pubTO: 2 * time.Second, setup: []string{"open 1", "sub s1 x", "sub s2 x"}, topics: []string{"x"}}
		starts = append(starts, st)
		var two, three [][]string
		for i, a := range blocked {
			for _, c := range causes {
				two = append(two, []string{a, c})
				for j := i; j < len(blocked); j++ {
					three = append(three, []string{a, blocked[j], c})
				}
			}
		}
		var three2 [][]string
		for i, a := range blocked[:2] {
			for j, c := range causes {
				for _, d := range causes[j:] {
					if i == 0 || j%2 == 0 || thorough() {
						three2 = append(three2, []string{a, c, d})
					}
				}
			}
		}
		// sequential: how much fits, and what happens to it
		var seqs [][]string
		for n := 0; n <= 5; n++ {
			s := strings.Repeat("pub x to=1s; ", n)
			seqs = append(seqs, []string{s + "pub y to=1s"}, []string{s + "recv s1 to=2s; recv s1 to=2s; recv s2 to=2s; pub x to=1s"}, []string{s + "close; recv s1; pub x; open 2; sub t x; recv t to=1s"},
				[]string{s + "cancel 2; pub x ctx=2 to=1s; recv s1 ctx=2 to=1s; recv s1 to=1s"}, []string{s + "unsub s1; unsub s1; recv s1; recv s2 to=1s"})
		}
		var caps []bstart
		for _, c := range []int{0, 1, 2, 3, 4} {
			caps = append(caps, bstart{name: fmt.Sprintf("cap%d", c), cap: c, setup: []string{"open 1", "sub s1 x", "sub s2 x"}, topics: []string{"x", "y"}})
		}
		var alien []bstart
		for _, st := range starts {
			st.name += "alien"
			st.alien = true
			alien = append(alien, st)
		}
		var aliens [][]string
		for _, a := range []string{"", "to=3s"} {
			aliens = append(aliens, []string{"recv s1 alien " + a}, []string{"pub x alien " + a}, []string{"recv s1 " + a}, []string{"pub x " + a}, []string{"sub t x alien; recv t " + a},
				[]string{"pub x alien " + a, "pub x alien " + a}, []string{"recv s1 alien " + a, "recv s2 alien " + a}, []string{"sub t x alien; pub x " + a, "sub t x alien; recv t " + a})
		}
		fams := []bfam{
			{name: "two", progs: two, bound: pick(2, 3), exact: true, starts: starts},
			{name: "three", progs: three, bound: pick(0, 1), exact: true, norace: true, starts: starts},
			{name: "causes", progs: three2, bound: pick(0, 1), exact: true, norace: true, starts: starts},
			{name: "seq", progs: seqs, bound: 0, exact: true, norace: true, starts: caps},
			{name: "alien", progs: aliens, bound: pick(1, 2), exact: true, norace: true, starts: alien},
			{name: "nested", ops: []string{"recv s1 h=close", "recv s1 h=cancel1", "recv s1 ctx=2 h=cancel2", "recv s1 to=1s h=unsub", "recv s2", "pub x to=2s", "pub x", "unsub s1"}, threads: 2, length: 1, bound: pick(2, 3), exact: true, norace: true, starts: starts},
		}
		us := brokerUnits(fams)
		for _, c := range append([]int{0, -1, -5}, sizes(pick(260, 1100))...) {
			c := c
			us = append(us, Unit{Name: fmt.Sprintf("capacity/%d", c), Run: func(r *R) { brokerCapacity(r, c) }})
		}
		for _, c := range timedCalls {
			c := c
			us = append(us, Unit{Name: "timeouts/" + c.name, Run: func(r *R) { brokerTimeouts(r, c) }})
		}
		for _, n := range sizes(pick(260, 520)) {
			if n > 3 && n <= pick(300, 520) {
				n := n
				us = append(us, Unit{Name: fmt.Sprintf("crowd/%d", n), Run: func(r *R) { brokerCrowd(r, n) }})
			}
		}
		us = append(us, Unit{Name: "lots", Run: brokerLots})
		return us
	}
	checks["C14"] = func() []Unit {
		start := func(name string, capacity int, extra ...string) bstart {
			return bstart{name: name, cap: capacity, setup: append([]string{"open 1", "sub s1 x", "sub s2 x", "sub s3 y"}, extra...), topics: []string{"x", "y"}}
		}
		empty0, empty1 := start("empty0", 0), start("empty1", 1)
		full := start("full", 2, "pub x", "pub y", "pub x")
		closed := start("closed", 1, "pub x", "close")
		again := start("again", 1, "close", "open 2", "sub s2 x")
		ops := []string{"unsub s1", "recv s1", "recv s2", "pub x", "close", "unsub s1; recv s1", "unsub s1; unsub s1", "unsub s2"}
		more := append(ops[:len(ops):len(ops)], "recv s3", "pub y", "cancel 1", "sleep 5s; unsub s1", "open 2")
		must := []string{"unsub"}
		fams := []bfam{
			{name: "1xn", ops: []string{"unsub s1", "recv s1", "recv s2", "pub x", "pub y", "recv s3", "close", "open 2", "sub s1 x"}, threads: 1, length: pick(3, 4), bound: 0, norace: true, exact: true, starts: []bstart{empty1, full, again}, must: must},
			{name: "2x1", ops: more, threads: 2, length: 1, bound: pick(3, 4), exact: true, starts: []bstart{empty0, empty1, full, closed, again}, must: must},
			{name: "3x1", ops: ops, threads: 3, length: 1, bound: pick(0, 1), norace: true, exact: true, starts: []bstart{empty0, empty1, full, closed, again}, must: must},
			{name: "2x2", ops: []string{"unsub s1", "recv s1", "recv s2", "pub x", "close"}, threads: 2, length: 2, bound: pick(1, 2), norace: true, exact: true, starts: qt([]bstart{empty1}, empty0, full), must: must},
			{name: "many", progs: [][]string{{"unsub s1", "unsub s1", "unsub s1", "unsub s1"}, {"unsub s1", "unsub s2", "unsub s3", "close"}, {"unsub s1", "unsub s1", "recv s1", "close"}, {"unsub s1", "unsub s2", "recv s1", "recv s2"}}, bound: pick(0, 1), exact: true, norace: true, parts: 4, starts: []bstart{empty1, closed}},
		}
		fams = append(fams, bfam{name: "nested", ops: []string{"recv s1 h=unsub", "recv s1 h=unsub herr", "recv s2 h=unsub", "recv s1", "pub x", "unsub s1", "close", "recv s2 h=sub"}, threads: 2, length: 1, bound: pick(2, 3), exact: true, starts: []bstart{empty0, empty1, full, again}})
		// unsubscribing with a context that has ended, or ends
		fams = append(fams,
			bfam{name: "contexts", ops: []string{"unsub s1 ctx=2", "cancel 2", "cancel 2; unsub s1 ctx=2", "cancel 2; unsub s1 ctx=2; recv s1", "cancel 2; unsub s1 ctx=2; unsub s1 ctx=2; unsub s1", "unsub s2 ctx=2; recv s2 ctx=2", "recv s1", "recv s2", "pub x", "close", "cancel 1"}, threads: 2, length: 1, bound: pick(2, 3), norace: true, exact: true, starts: []bstart{empty0, empty1, full, closed, again}, must: must},
			bfam{name: "contexts1", ops: []string{"cancel 2", "unsub s1 ctx=2", "unsub s1", "recv s1", "recv s1 ctx=2", "recv s2", "pub x"}, threads: 1, length: pick(4, 5), bound: 0, norace: true, exact: true, starts: []bstart{empty1, full}, must: must})
		us := append(brokerUnits(fams), brokerNameUnits(false)...)
		us = append(us, Unit{Name: "lots", Run: brokerLots})
		return us
	}
}

// brokerNameUnits are checks of topics with names that are easily confused,
// and of many topics.
func brokerNameUnits(sessions bool) []Unit {
	return []Unit{{Name: "names", Run: func(r *R) {
		for _, set := range nameSets(14) {
			brokerNames(r, set, sessions)
		}
	}}, {Name: "topics", Run: func(r *R) {
		for _, n := range sizes(pick(260, 520)) {
			brokerNames(r, sized(n), sessions)
		}
	}}}
}

// brokerNames has a subscriber and messages for each of the topics.
func brokerNames(r *R, set nameSet, sessions bool) {
	r.Single("topics "+set.name, vs.Config{Horizon: 1 << 30}, func(h *H) {
		bad := func(f string, a ...interface{}) {
			if len(h.errs) < 5 {
				h.errs = append(h.errs, fmt.Sprintf(f, a...))
			}
		}
		b, err := bmem.New(broker.WithCap(4), broker.WithPubTimeout(time.Second))
		if err != nil {
			bad("New: %v", err)
			return
		}
		if err := b.Open(bg); err != nil {
			bad("Open: %v", err)
		}
		n := len(set.names)
		var subs []broker.Subscriber
		msg := func(i, k int) string { return fmt.Sprintf("m%d.%d", i, k) }
		pub := func(i, k int) {
			if err := b.Pub(bg, set.names[i], mkMsg(msg(i, k))); err != nil {
				bad("Pub on %q: %v", set.names[i], err)
			}
		}
		sub := func(i int) broker.Subscriber {
			s, err := b.Sub(bg, set.names[i])
			if err != nil {
				bad("Sub to %q: %v", set.names[i], err)
				return nil
			}
			if t, err := s.Topic(bg); err != nil || t != set.names[i] {
				bad("the subscriber to %q has topic %q, error %v", set.names[i], t, err)
			}
			return s
		}
		recv := func(s broker.Subscriber) string {
			got := ""
			err := s.Receive(bg, func(_ context.Context, m broker.Message) error { got = msgName(m); return nil }, broker.WithSubTimeout(time.Second))
			if err != nil {
				return bclass(err)
			}
			return got
		}
		expect := func(i int, s broker.Subscriber, want string) {
			if s == nil {
				return
			}
			if got := recv(s); got != want {
				bad("Receive on %q: got %s, want %s", set.names[i], got, want)
			}
		}
		for i := 0; i < n; i++ {
			pub(i, 0) // before anybody subscribed
		}
		for i := 0; i < n; i++ {
			subs = append(subs, sub(i))
			pub(i, 1)
		}
		if sessions {
			if err := b.Close(); err != nil {
				bad("Close: %v", err)
			}
			for i, s := range subs {
				expect(i, s, "inactive")
			}
			if err := b.Pub(bg, set.names[n-1], mkMsg("late")); !errors.Is(err, broker.ErrNotConnected) {
				bad("Pub after Close: %v", err)
			}
			if err := b.Open(bg); err != nil {
				bad("Open: %v", err)
			}
			for i := 0; i < n; i++ {
				expect(i, subs[i], "inactive")
				s := sub(i)
				if i%2 == 0 {
					expect(i, s, "timeout")
				}
				for k := 2; k < 6; k++ { // what the earlier session left would be in the way
					pub(i, k)
				}
				expect(i, s, msg(i, 2))
			}
		} else {
			for i := n - 1; i >= 0; i-- {
				expect(i, subs[i], msg(i, 0))
			}
			for i := range subs {
				if i%2 == 0 && subs[i] != nil {
					if err := subs[i].Unsubscribe(bg); err != nil {
						bad("Unsubscribe: %v", err)
					}
				}
			}
			vs.Settle()
			for i, s := range subs {
				if i%2 == 0 {
					expect(i, s, "inactive")
					s = sub(i)
				}
				expect(i, s, msg(i, 1))
				expect(i, s, "timeout")
			}
		}
		if err := b.Close(); err != nil {
			bad("Close: %v", err)
		}
		vs.Settle()
		if vs.Live() > 0 {
			bad("goroutines left behind: %s", vs.LiveDesc())
		}
	})
}

// brokerSessions opens and closes many sessions, and cancels their contexts
// after they ended.
func brokerSessions(r *R) {
	for _, n := range sizes(pick(260, 520)) {
		for _, how := range []string{"close", "cancel", "both"} {
			n, how := n, how
			r.Single(fmt.Sprintf("%d sessions, %s", n, how), vs.Config{Horizon: 1 << 30}, func(h *H) {
				bad := func(f string, a ...interface{}) {
					if len(h.errs) < 5 {
						h.errs = append(h.errs, fmt.Sprintf(f, a...))
					}
				}
				b, err := bmem.New(broker.WithCap(1), broker.WithPubTimeout(time.Second))
				if err != nil {
					bad("New: %v", err)
					return
				}
				var cancels []context.CancelFunc
				var subs []broker.Subscriber
				for i := 0; i < n; i++ {
					if err := b.Pub(bg, "x", mkMsg("early")); !errors.Is(err, broker.ErrNotConnected) {
						bad("Pub before session %d: %v", i, err)
					}
					ctx, cancel := vs.WithCancel(bg)
					cancels = append(cancels, cancel)
					if err := b.Open(ctx); err != nil {
						bad("Open: %v", err)
					}
					if i > 1 {
						cancels[i-2]()
						vs.Settle()
					}
					if err := b.Pub(bg, "x", mkMsg(fmt.Sprintf("s%d", i))); err != nil {
						bad("Pub in session %d: %v", i, err)
					}
					s, err := b.Sub(bg, "x")
					if err != nil {
						bad("Sub in session %d: %v", i, err)
						return
					}
					subs = append(subs, s)
					if i%2 == 0 {
						got := ""
						if err := s.Receive(bg, func(_ context.Context, m broker.Message) error { got = msgName(m); return nil }); err != nil || got != fmt.Sprintf("s%d", i) {
							bad("Receive in session %d: %q %v", i, got, err)
						}
					}
					if i == n-1 {
						for _, c := range cancels[:i] {
							c()
						}
						vs.Settle()
						for k, s := range subs[:i] {
							if err := s.Receive(bg, func(context.Context, broker.Message) error { bad("received after the session"); return nil }); !errors.Is(err, broker.ErrSubscriptionInactive) {
								bad("Receive after session %d: %v", k, err)
							}
						}
						if _, err := b.Sub(bg, "x"); err != nil {
							bad("Sub after late cancellations: %v", err)
						}
					}
					if how == "cancel" || how == "both" && i%3 == 0 {
						cancel()
						vs.Settle()
					} else if err := b.Close(); err != nil {
						bad("Close: %v", err)
					}
				}
				for _, c := range cancels {
					c()
				}
				vs.Settle()
				if vs.Live() > 0 {
					bad("goroutines left behind: %s", vs.LiveDesc())
				}
			})
		}
	}
}

// brokerCapacity fills a topic of a broker with capacity c and empties it.
func brokerCapacity(r *R, c int) {
	want := c
	if c < 0 {
		want = 100
	}
	for _, early := range []int{0, want / 2, want} {
		early := early
		r.Single(fmt.Sprintf("capacity %d, %d taken in between", c, early), vs.Config{}, func(h *H) {
			bad := func(f string, a ...interface{}) { h.errs = append(h.errs, fmt.Sprintf(f, a...)) }
			b, err := bmem.New(broker.WithCap(c), broker.WithPubTimeout(time.Second))
			if err != nil {
				bad("New: %v", err)
				return
			}
			if err := b.Open(bg); err != nil {
				bad("Open: %v", err)
			}
			sub, err := b.Sub(bg, "x")
			if err != nil {
				bad("Sub: %v", err)
				return
			}
			name := func(i int) string { return fmt.Sprintf("n%d", i) }
			next := 0
			take := func() bool {
				got := ""
				err := sub.Receive(bg, func(_ context.Context, m broker.Message) error { got = msgName(m); return nil }, broker.WithSubTimeout(time.Second))
				if err != nil || got == "" {
					return false
				}
				if got != name(next) {
					bad("got %s, want %s", got, name(next))
				}
				next++
				return true
			}
			n := 0
			pub := func() bool {
				err := b.Pub(bg, "x", mkMsg(name(n)))
				if err == nil {
					n++
					return true
				}
				if !errors.Is(err, broker.ErrTimeout) {
					bad("Pub on a full topic: %v", err)
				}
				return false
			}
			for n < want+30 && pub() {
			}
			if n != want {
				bad("a topic of capacity %d took %d messages", want, n)
			}
			for i := 0; i < early; i++ {
				if !take() {
					bad("message %d is not there", next)
				}
			}
			for n < want+early+30 && pub() {
			}
			if n != want+early {
				bad("a topic of capacity %d took %d messages after %d were taken", want, n-want, early)
			}
			for i := 0; i < want+40 && take(); i++ {
			}
			if next != n {
				bad("%d messages were published, %d were received", n, next)
			}
			if err := b.Close(); err != nil {
				bad("Close: %v", err)
			}
			vs.Settle()
			if vs.Live() > 0 {
				bad("goroutines left behind: %s", vs.LiveDesc())
			}
		})
	}
}

// brokerLots unsubscribes many subscribers.
func brokerLots(r *R) {
	for _, mode := range []string{"open", "reversed", "closed", "cancelled", "twice"} {
		mode := mode
		r.Single("many subscribers, "+mode, vs.Config{}, func(h *H) {
			bad := func(f string, a ...interface{}) { h.errs = append(h.errs, fmt.Sprintf(f, a...)) }
			b, err := bmem.New(broker.WithCap(3))
			if err != nil {
				bad("New: %v", err)
				return
			}
			ctx, cancel := context.WithCancel(bg)
			_ = b.Open(ctx)
			n := reach(pick(110, 600), 1100, "broker/memory")
			var subs []broker.Subscriber
			ids := map[string]bool{}
			for i := 0; i < n; i++ {
				s, err := b.Sub(bg, "x")
				if err != nil {
					bad("Sub: %v", err)
					return
				}
				id, _ := s.ID(bg)
				ids[id] = true
				subs = append(subs, s)
			}
			if len(ids) != n {
				bad("%d subscribers have %d IDs", n, len(ids))
			}
			// every one of them gets what is published
			alive := func(k int) {
				m, got := fmt.Sprint("k", k), ""
				if err := b.Pub(bg, "x", mkMsg(m)); err != nil {
					bad("Pub: %v", err)
				}
				err := subs[k].Receive(bg, func(_ context.Context, m broker.Message) error { got = msgName(m); return nil })
				if (err != nil || got != m) && len(h.errs) < 5 {
					bad("subscriber %d of %d got %q, error %v, want %q", k, n, got, err, m)
				}
			}
			for k := range subs {
				alive(k)
			}
			last := subs[n-1]
			_ = b.Pub(bg, "x", mkMsg("m"))
			over := mode == "closed" || mode == "cancelled"
			if mode == "closed" {
				_ = b.Close()
			}
			if mode == "cancelled" {
				cancel()
				vs.Settle()
			}
			for i := 0; i < n-1; i++ {
				k := i
				if mode == "reversed" {
					k = n - 2 - i
				}
				if err := subs[k].Unsubscribe(bg); err != nil {
					bad("Unsubscribe: %v", err)
				}
				if mode == "twice" {
					if err := subs[k].Unsubscribe(bg); err != nil {
						bad("Unsubscribe: %v", err)
					}
				}
			}
			for i := 0; i < n-1; i++ {
				err := subs[i].Receive(bg, func(context.Context, broker.Message) error { bad("received after Unsubscribe"); return nil })
				if !errors.Is(err, broker.ErrSubscriptionInactive) {
					bad("Receive after Unsubscribe: %v", err)
				}
			}
			got := ""
			err = last.Receive(bg, func(_ context.Context, m broker.Message) error { got = msgName(m); return nil })
			if over {
				if !errors.Is(err, broker.ErrSubscriptionInactive) {
					bad("Receive after Close: %v", err)
				}
			} else if err != nil || got != "m" {
				bad("the last subscriber got %q, error %v", got, err)
			}
			_ = b.Close()
			cancel()
			vs.Settle()
			if vs.Live() > 0 {
				bad("goroutines left behind: %s", vs.LiveDesc())
			}
		})
	}
}
