//go:build go1.21

package vs

import (
	"sync"
	"unsafe"
)

// Locker is sync.Locker.
type Locker = sync.Locker

type mstate struct {
	epoch  int
	locked bool
	hb     byte
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	s mstate
	r sync.Mutex
}

func (m *Mutex) st() *mstate {
	if m.s.epoch != active.base {
		m.s = mstate{epoch: active.base}
	}
	return &m.s
}

// Lock locks m.
func (m *Mutex) Lock() {
	x := active
	if x == nil {
		m.r.Lock()
		return
	}
	t := x.cur
	t.kind, t.obj = kLock, unsafe.Pointer(m)
	x.point(t)
	s := m.st()
	s.locked = true
	raceAcquire(unsafe.Pointer(&s.hb))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	x := active
	if x == nil {
		return m.r.TryLock()
	}
	atomicPoint()
	s := m.st()
	if s.locked {
		return false
	}
	s.locked = true
	raceAcquire(unsafe.Pointer(&s.hb))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	x := active
	if x == nil {
		m.r.Unlock()
		return
	}
	if x.dead {
		return
	}
	s := m.st()
	if !s.locked {
		x.fatal("sync: unlock of unlocked mutex")
		return
	}
	raceRelease(unsafe.Pointer(&s.hb))
	s.locked = false
	x.released()
}

type rwstate struct {
	epoch   int
	w       bool // writer holds the lock or has announced itself
	held    bool // writer holds the lock
	readers int
	hbR     byte // readers acquire, writers release
	hbW     byte // writers acquire, readers release
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	s rwstate
	r sync.RWMutex
}

func (m *RWMutex) st() *rwstate {
	if m.s.epoch != active.base {
		m.s = rwstate{epoch: active.base}
	}
	return &m.s
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	x := active
	if x == nil {
		m.r.RLock()
		return
	}
	t := x.cur
	t.kind, t.obj = kRLock, unsafe.Pointer(m)
	x.point(t)
	s := m.st()
	s.readers++
	raceAcquire(unsafe.Pointer(&s.hbR))
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	x := active
	if x == nil {
		return m.r.TryRLock()
	}
	atomicPoint()
	s := m.st()
	if s.w {
		return false
	}
	s.readers++
	raceAcquire(unsafe.Pointer(&s.hbR))
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	x := active
	if x == nil {
		m.r.RUnlock()
		return
	}
	if x.dead {
		return
	}
	s := m.st()
	if s.readers <= 0 {
		x.fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	raceReleaseMerge(unsafe.Pointer(&s.hbW))
	s.readers--
	x.released()
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	x := active
	if x == nil {
		m.r.Lock()
		return
	}
	t := x.cur
	t.kind, t.obj = kRWLock, unsafe.Pointer(m)
	x.point(t)
	s := m.st()
	s.w = true
	if s.readers > 0 {
		t.kind, t.obj = kRWWait, unsafe.Pointer(m)
		x.point(t)
	}
	s.held = true
	raceAcquire(unsafe.Pointer(&s.hbR))
	raceAcquire(unsafe.Pointer(&s.hbW))
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	x := active
	if x == nil {
		return m.r.TryLock()
	}
	atomicPoint()
	s := m.st()
	if s.w || s.readers > 0 {
		return false
	}
	s.w, s.held = true, true
	raceAcquire(unsafe.Pointer(&s.hbR))
	raceAcquire(unsafe.Pointer(&s.hbW))
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	x := active
	if x == nil {
		m.r.Unlock()
		return
	}
	if x.dead {
		return
	}
	s := m.st()
	if !s.held {
		x.fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	raceRelease(unsafe.Pointer(&s.hbR))
	s.w, s.held = false, false
	x.released()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker that locks m for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type wgstate struct {
	epoch int
	n     int
	hb    byte
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	s wgstate
	r sync.WaitGroup
}

func (w *WaitGroup) st() *wgstate {
	if w.s.epoch != active.base {
		w.s = wgstate{epoch: active.base}
	}
	return &w.s
}

// Add adds d to the counter.
func (w *WaitGroup) Add(d int) {
	x := active
	if x == nil {
		w.r.Add(d)
		return
	}
	if x.dead {
		return
	}
	s := w.st()
	raceReleaseMerge(unsafe.Pointer(&s.hb))
	s.n += d
	x.released()
	if s.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits until the counter is zero.
func (w *WaitGroup) Wait() {
	x := active
	if x == nil {
		w.r.Wait()
		return
	}
	t := x.cur
	t.kind, t.obj = kWG, unsafe.Pointer(w)
	x.point(t)
	raceAcquire(unsafe.Pointer(&w.st().hb))
}

// Go runs f in a goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f on the first call.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T {
		g()
		return r
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) {
		g()
		return a, b
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L     Locker
	epoch int
	wait  []*int
	hb    byte
	r     *sync.Cond
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l, r: sync.NewCond(l)} }

func (c *Cond) st() {
	if c.epoch != active.base {
		c.epoch = active.base
		c.wait = nil
	}
}

// Wait waits for Signal or Broadcast.
func (c *Cond) Wait() {
	x := active
	if x == nil {
		c.r.Wait()
		return
	}
	c.st()
	f := new(int)
	c.wait = append(c.wait, f)
	c.L.Unlock()
	waitFlag(f)
	raceAcquire(unsafe.Pointer(&c.hb))
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	x := active
	if x == nil {
		c.r.Signal()
		return
	}
	atomicPoint()
	c.st()
	raceReleaseMerge(unsafe.Pointer(&c.hb))
	if len(c.wait) > 0 {
		*c.wait[0] = 1
		c.wait = c.wait[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	x := active
	if x == nil {
		c.r.Broadcast()
		return
	}
	atomicPoint()
	c.st()
	raceReleaseMerge(unsafe.Pointer(&c.hb))
	for _, f := range c.wait {
		*f = 1
	}
	c.wait = nil
}

// Pool replaces sync.Pool; the last value put is reused first.
type Pool struct {
	New   func() interface{}
	epoch int
	items []interface{}
	hb    byte
}

func (p *Pool) st() {
	e := 0
	if active != nil {
		e = active.base
	}
	if p.epoch != e {
		p.epoch = e
		p.items = nil
	}
}

// Get returns a pooled or new value.
func (p *Pool) Get() interface{} {
	atomicPoint()
	p.st()
	raceAcquire(unsafe.Pointer(&p.hb))
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = append([]interface{}(nil), p.items[:n-1]...)
		raceReleaseMerge(unsafe.Pointer(&p.hb))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put adds v to the pool.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	atomicPoint()
	p.st()
	raceAcquire(unsafe.Pointer(&p.hb))
	p.items = append(append([]interface{}(nil), p.items...), v)
	raceReleaseMerge(unsafe.Pointer(&p.hb))
}

// Map replaces sync.Map.
type Map struct {
	m  map[interface{}]interface{}
	hb byte
}

func (m *Map) begin() {
	atomicPoint()
	raceAcquire(unsafe.Pointer(&m.hb))
	if m.m == nil {
		m.m = make(map[interface{}]interface{})
	}
}

func (m *Map) end() { raceReleaseMerge(unsafe.Pointer(&m.hb)) }

// Load returns the value of k.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.begin()
	defer m.end()
	v, ok := m.m[k]
	return v, ok
}

// Store sets the value of k.
func (m *Map) Store(k, v interface{}) {
	m.begin()
	defer m.end()
	m.m[k] = v
}

// LoadOrStore returns the value of k or sets it.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.begin()
	defer m.end()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}

// LoadAndDelete removes k.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.begin()
	defer m.end()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

// Delete removes k.
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

// Swap sets the value of k and returns the old one.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.begin()
	defer m.end()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

// CompareAndSwap replaces the value of k if it is old.
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.begin()
	defer m.end()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = v
		return true
	}
	return false
}

// CompareAndDelete removes k if its value is old.
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.begin()
	defer m.end()
	if o, ok := m.m[k]; ok && o == old {
		delete(m.m, k)
		return true
	}
	return false
}

// Clear removes all keys.
func (m *Map) Clear() {
	m.begin()
	defer m.end()
	m.m = nil
}

// Range calls f for each key.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.begin()
	keys := sortedKeys(m.m)
	m.end()
	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
