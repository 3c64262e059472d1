//go:build go1.21

package vs

import (
	"context"
	"unsafe"
)

// Context is context.Context.
type Context = context.Context

type ctxKey int

var theCtxKey ctxKey

type ctxImpl struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*ctxImpl
	deadline Time
	hasDL    bool
	tm       *timer
	after    []func()
	hb       byte
}

func (c *ctxImpl) Deadline() (Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *ctxImpl) Done() <-chan struct{} { return c.done }

func (c *ctxImpl) Err() error {
	atomicPoint()
	raceAcquire(unsafe.Pointer(&c.hb))
	return c.err
}

func (c *ctxImpl) Value(k interface{}) interface{} {
	if k == &theCtxKey {
		return c
	}
	return c.parent.Value(k)
}

func (c *ctxImpl) String() string { return "vs.Context" }

// cancel marks c cancelled; the caller has passed a point.
func (c *ctxImpl) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	raceReleaseMerge(unsafe.Pointer(&c.hb))
	c.err, c.cause = err, cause
	close(c.done)
	released()
	if c.tm != nil {
		c.tm.active = false
	}
	for _, k := range c.children {
		k.cancel(err, cause)
	}
	c.children = nil
	for _, f := range c.after {
		if f != nil {
			Go(f)
		}
	}
	c.after = nil
}

func newCtx(parent Context) *ctxImpl {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctxImpl{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&theCtxKey).(*ctxImpl); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children[:len(p.children):len(p.children)], c)
		}
	} else if d := parent.Done(); d != nil {
		Go(func() {
			if i := Select(false, RecvCase(d), RecvCase[struct{}](c.done)); i == 0 {
				atomicPoint()
				c.cancel(parent.Err(), context.Cause(parent))
			}
		})
	}
	return c
}

// WithCancel replaces context.WithCancel.
func WithCancel(parent Context) (Context, context.CancelFunc) {
	if active == nil {
		return context.WithCancel(parent)
	}
	c := newCtx(parent)
	return c, func() { c.stop(context.Canceled, nil) }
}

func (c *ctxImpl) stop(err, cause error) {
	if x := active; x == nil || x.dead {
		return
	}
	atomicPoint()
	c.cancel(err, cause)
}

// WithCancelCause replaces context.WithCancelCause.
func WithCancelCause(parent Context) (Context, context.CancelCauseFunc) {
	if active == nil {
		return context.WithCancelCause(parent)
	}
	c := newCtx(parent)
	return c, func(cause error) { c.stop(context.Canceled, cause) }
}

// WithTimeout replaces context.WithTimeout.
func WithTimeout(parent Context, d Duration) (Context, context.CancelFunc) {
	if active == nil {
		return context.WithTimeout(parent, d)
	}
	return WithDeadline(parent, Now().Add(d))
}

// WithTimeoutCause replaces context.WithTimeoutCause.
func WithTimeoutCause(parent Context, d Duration, cause error) (Context, context.CancelFunc) {
	if active == nil {
		return context.WithTimeoutCause(parent, d, cause)
	}
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

// WithDeadline replaces context.WithDeadline.
func WithDeadline(parent Context, t Time) (Context, context.CancelFunc) {
	if active == nil {
		return context.WithDeadline(parent, t)
	}
	return WithDeadlineCause(parent, t, nil)
}

// WithDeadlineCause replaces context.WithDeadlineCause.
func WithDeadlineCause(parent Context, t Time, cause error) (Context, context.CancelFunc) {
	if active == nil {
		return context.WithDeadlineCause(parent, t, cause)
	}
	c := newCtx(parent)
	if p, ok := parent.Deadline(); !ok || t.Before(p) {
		c.deadline, c.hasDL = t, true
		d := t.Sub(Now())
		if d <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else if c.err == nil {
			c.tm = active.addTimer(d, &timer{fn: func() { c.stop(context.DeadlineExceeded, cause) }})
		}
	}
	return c, func() { c.stop(context.Canceled, nil) }
}

// Cause replaces context.Cause.
func Cause(c Context) error {
	if p, ok := c.Value(&theCtxKey).(*ctxImpl); ok {
		atomicPoint()
		raceAcquire(unsafe.Pointer(&p.hb))
		return p.cause
	}
	return context.Cause(c)
}

// CtxAfterFunc replaces context.AfterFunc.
func CtxAfterFunc(ctx Context, f func()) func() bool {
	p, ok := ctx.Value(&theCtxKey).(*ctxImpl)
	if !ok {
		return context.AfterFunc(ctx, f)
	}
	atomicPoint()
	if p.err != nil {
		Go(f)
		return func() bool { return false }
	}
	i := len(p.after)
	p.after = append(p.after[:i:i], f)
	return func() bool {
		atomicPoint()
		if p.err != nil || p.after[i] == nil {
			return false
		}
		p.after[i] = nil
		return true
	}
}
