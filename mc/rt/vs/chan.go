//go:build go1.21

package vs

import (
	"reflect"
	"runtime"
	"unsafe"
)

// Results of chanPoint.
const (
	doReal     = 0 // perform the real operation, which does not block
	doneRendez = 1 // a rendezvous took place; compPtr points to the value for receivers
	doDefault  = 2
)

// chanPoint waits until one of the cases set in the current thread can proceed.
func chanPoint(x *exec) (how, idx int, ptr unsafe.Pointer) {
	t := x.cur
	t.kind = kChan
	t.comp = false
	raceRelease(unsafe.Pointer(&t.hb))
	x.point(t)
	if t.comp {
		t.comp = false
		t.kind = kNone
		raceAcquire(unsafe.Pointer(&t.hb2))
		p := t.compPtr
		t.compPtr = nil
		return doneRendez, t.compIdx, p
	}
	// ready cases
	var ready [64]int
	n := 0
	certain := false
	for i := range t.cases {
		if n < len(ready) && x.caseReady(t, t.cases[i]) {
			ready[n] = i
			n++
			if x.certain(t, t.cases[i]) {
				certain = true
			}
		}
	}
	t.kind = kNone
	if n == 0 {
		return doDefault, -1, nil
	}
	m := n
	if t.hasD && !certain {
		m++ // the counterpart may not have got there yet
	}
	k := x.choose(m, 0)
	if k >= n {
		return doDefault, -1, nil
	}
	idx = ready[k]
	c := t.cases[idx]
	if chClosed(c.ch) || chCap(c.ch) > 0 {
		return doReal, idx, nil
	}
	var buf [16]partner
	ps := x.partners(t, c, buf[:0])
	p := ps[x.choose(len(ps), 0)]
	o := p.t
	raceAcquire(unsafe.Pointer(&o.hb))
	raceReleaseMerge(unsafe.Pointer(&o.hb2))
	if c.dir == dirSend {
		o.compPtr = c.val
	} else {
		ptr = o.cases[p.i].val
	}
	o.comp = true
	o.compIdx = p.i
	x.released()
	return doneRendez, idx, ptr
}

// certain reports whether c is ready no matter how fast other threads are.
func (x *exec) certain(t *thread, c scase) bool {
	if chClosed(c.ch) || chCap(c.ch) > 0 {
		return true
	}
	for _, o := range x.threads {
		if o == t || o.done || o.comp || o.kind != kChan || o.epoch >= x.epoch {
			continue
		}
		for i := range o.cases {
			if o.cases[i].ch == c.ch && o.cases[i].dir != c.dir {
				return true
			}
		}
	}
	return false
}

func one(dir int, ch, val unsafe.Pointer) (int, unsafe.Pointer) {
	x := active
	if x.dead {
		runtime.Goexit()
	}
	t := x.cur
	t.one[0] = scase{dir, ch, val}
	t.cases = t.one[:]
	t.hasD = false
	how, _, ptr := chanPoint(x)
	return how, ptr
}

// SendTo(c)(v) is c <- v.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			c <- v
			return
		}
		how, _ := one(dirSend, *(*unsafe.Pointer)(unsafe.Pointer(&c)), unsafe.Pointer(&v))
		if how == doReal {
			c <- v
		}
	}
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	if !Active() {
		v, ok = <-c
		return
	}
	how, p := one(dirRecv, *(*unsafe.Pointer)(unsafe.Pointer(&c)), nil)
	if how == doReal {
		v, ok = <-c
		return
	}
	return *(*T)(p), true
}

// ChanIt ranges over a channel.
type ChanIt[T any] struct{ c <-chan T }

// ChanIter returns an iterator over the values received from c and a zero value.
func ChanIter[T any](c <-chan T) (it *ChanIt[T], v T) { return &ChanIt[T]{c}, v }

// Next receives the next value.
func (it *ChanIt[T]) Next(p *T) bool {
	v, ok := Recv2(it.c)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// Close is close(c).
func Close[T any](c chan<- T) {
	atomicPoint()
	close(c)
	released()
}

func released() {
	if x := active; x != nil && !x.dead {
		x.released()
	}
}

// Len is len(c).
func Len[T any](c <-chan T) int {
	atomicPoint()
	return len(c)
}

// Case is a case of a select statement.
type Case interface {
	base() *scase
	real()
	take(p unsafe.Pointer)
	refl() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

// RC is a receive case.
type RC[T any] struct {
	c  <-chan T
	b  scase
	v  T
	ok bool
}

// RecvCase returns a receive case.
func RecvCase[T any](c <-chan T) *RC[T] {
	return &RC[T]{c: c, b: scase{dirRecv, *(*unsafe.Pointer)(unsafe.Pointer(&c)), nil}}
}

func (r *RC[T]) base() *scase { return &r.b }
func (r *RC[T]) real()        { r.v, r.ok = <-r.c }
func (r *RC[T]) take(p unsafe.Pointer) {
	r.v, r.ok = *(*T)(p), true
}
func (r *RC[T]) refl() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}
func (r *RC[T]) got(v reflect.Value, ok bool) {
	r.ok = ok
	reflect.ValueOf(&r.v).Elem().Set(v)
}

// Val returns the value received.
func (r *RC[T]) Val() T { return r.v }

// Val2 returns the value received and whether the channel was open.
func (r *RC[T]) Val2() (T, bool) { return r.v, r.ok }

// SC is a send case.
type SC[T any] struct {
	c chan<- T
	b scase
	v T
}

// SendCase returns a send case.
func SendCase[T any](c chan<- T) func(T) *SC[T] {
	return func(v T) *SC[T] {
		s := &SC[T]{c: c, v: v}
		s.b = scase{dirSend, *(*unsafe.Pointer)(unsafe.Pointer(&c)), unsafe.Pointer(&s.v)}
		return s
	}
}

func (s *SC[T]) base() *scase        { return &s.b }
func (s *SC[T]) real()               { s.c <- s.v }
func (s *SC[T]) take(unsafe.Pointer) {}
func (s *SC[T]) refl() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}
func (s *SC[T]) got(reflect.Value, bool) {}

// Select is a select statement; it returns the index of the case taken, -1 for default.
func Select(hasDefault bool, cs ...Case) int {
	x := active
	if x == nil {
		rc := make([]reflect.SelectCase, 0, len(cs)+1)
		for _, c := range cs {
			rc = append(rc, c.refl())
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cs) {
			return -1
		}
		cs[i].got(v, ok)
		return i
	}
	if x.dead {
		runtime.Goexit()
	}
	t := x.cur
	t.cases = make([]scase, len(cs))
	for i, c := range cs {
		t.cases[i] = *c.base()
	}
	t.hasD = hasDefault
	how, i, p := chanPoint(x)
	switch how {
	case doReal:
		cs[i].real()
	case doneRendez:
		cs[i].take(p)
	case doDefault:
		return -1
	}
	return i
}
