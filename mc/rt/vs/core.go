//go:build go1.21

// Package vs is a controlled scheduler. Instrumented code calls it instead of
// sync, time, context and the channel operations of the language. While an
// execution is active exactly one of its threads (real goroutines) runs at a
// time, and every point at which another thread could run is a choice recorded
// by the explorer. Without an active execution all operations behave as usual.
//
// The package is compiled without race instrumentation (and without inlining):
// its state is only touched by the one running thread. Hand-offs between
// threads are hidden from the race detector, which is told instead about
// the happens-before edges that the modelled operations have.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

type kind uint8

const (
	kNone   kind = iota
	kStart       // thread start
	kOp          // start of a harness operation
	kYield       // always enabled
	kLock        // mutex
	kRWLock      // RWMutex.Lock: waiting for other writers
	kRWWait      // RWMutex.Lock: announced, waiting for readers
	kRLock       // RWMutex.RLock
	kChan        // channel operations
	kCond        // enabled when *flag != 0
	kWG          // WaitGroup.Wait
	kSettle      // enabled when nothing else is
	kJoin        // all harness threads done
)

// chan case directions
const (
	dirSend = 1
	dirRecv = 2
)

type scase struct {
	dir int
	ch  unsafe.Pointer
	val unsafe.Pointer // sender: pointer to value
}

type thread struct {
	id      int
	name    string
	wake    chan struct{}
	done    bool
	harness bool
	fresh   bool // next point is taken without a choice if enabled
	inOp    bool

	kind  kind
	obj   unsafe.Pointer
	cases []scase
	one   [1]scase
	hasD  bool
	epoch int // quiescence epoch when parked
	flag  *int

	// completed rendezvous
	comp    bool
	compIdx int
	compPtr unsafe.Pointer
	hb      byte // happens-before address
	hb2     byte

	op      string
	opStart int
	freeSw  bool // switching away at the current point is free
}

type timer struct {
	when   int64
	seq    int
	active bool
	ch     chan<- Time
	fn     func()
	thr    *thread
	period int64

	wrapped bool
	hb      byte
}

// Failure describes an abnormal end of an execution.
type Failure struct {
	Kind string // deadlock, panic, livelock, hang
	Msg  string
}

const (
	maxThreads = 4096
	maxChoices = 1 << 16
)

type choice struct {
	n    int
	idx  int
	cost uint64 // bit i: option i costs 1 (options >= 64 share bit 63)
}

func (c choice) costOf(i int) int {
	if i > 63 {
		i = 63
	}
	return int(c.cost>>uint(i)) & 1
}

// Config configures executions.
type Config struct {
	Bound     int  // deviations
	EarlyFire bool // timers may fire while threads are runnable (one deviation)
	Horizon   int  // steps
	MapDesc   bool // iterate over maps in descending key order
	Trace     bool
	MaxExecs  int
	Deadline  func() bool
}

type exec struct {
	cfg     *Config
	threads []*thread
	cur     *thread
	now     int64
	timers  []*timer
	tseq    int
	epoch   int
	explore bool
	dead    bool
	over    bool

	prefix  []choice
	choices []choice
	pos     int

	steps    int
	advances int
	stamp    int
	fail     *Failure
	diverged bool

	finish chan struct{}
	killed chan struct{}
	trace  []string
	joinHB byte
	base   int
	en     []*thread
	tids   int
	live   int // threads at which to forget those that are done
}

var active *exec

// Active reports whether an execution is active.
func Active() bool { return active != nil }

func (x *exec) tracef(format string, args ...interface{}) {
	if x.cfg.Trace {
		x.trace = append(x.trace, fmt.Sprintf(format, args...))
	}
}

// Tracef adds a line to the trace of the execution.
func Tracef(format string, args ...interface{}) {
	if x := active; x != nil && x.cfg.Trace {
		x.tracef("t%d:   %s", x.cur.id, fmt.Sprintf(format, args...))
	}
}

// Tracing reports whether the active execution is traced.
func Tracing() bool { return active != nil && active.cfg.Trace }

// Stamp returns the next event number.
func Stamp() int {
	if active == nil {
		return 0
	}
	active.stamp++
	return active.stamp
}

func chLen(p unsafe.Pointer) uint    { return *(*uint)(p) }
func chCap(p unsafe.Pointer) uint    { return *(*uint)(unsafe.Add(p, 8)) }
func chClosed(p unsafe.Pointer) bool { return *(*uint32)(unsafe.Add(p, 28)) != 0 }

// SelfTest checks assumptions about the runtime.
func SelfTest() error {
	c := make(chan int, 3)
	c <- 1
	c <- 2
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if chLen(p) != 2 || chCap(p) != 3 || chClosed(p) {
		return fmt.Errorf("unexpected channel layout")
	}
	close(c)
	if !chClosed(p) {
		return fmt.Errorf("unexpected channel layout (closed)")
	}
	return nil
}

// partner returns the threads parked at the opposite operation of c.
func (x *exec) partners(t *thread, c scase, buf []partner) []partner {
	for _, o := range x.threads {
		if o == t || o.done || o.comp || o.kind != kChan {
			continue
		}
		for i := range o.cases {
			if o.cases[i].ch == c.ch && o.cases[i].dir != c.dir {
				buf = append(buf, partner{o, i})
			}
		}
	}
	return buf
}

type partner struct {
	t *thread
	i int
}

func (x *exec) hasPartner(t *thread, c scase) bool {
	for _, o := range x.threads {
		if o == t || o.done || o.comp || o.kind != kChan {
			continue
		}
		for i := range o.cases {
			if o.cases[i].ch == c.ch && o.cases[i].dir != c.dir {
				return true
			}
		}
	}
	return false
}

// caseReady reports whether case c of t can proceed (in any way).
func (x *exec) caseReady(t *thread, c scase) bool {
	if c.ch == nil {
		return false
	}
	if chClosed(c.ch) {
		return true
	}
	if chCap(c.ch) > 0 {
		if c.dir == dirSend {
			return chLen(c.ch) < chCap(c.ch)
		}
		return chLen(c.ch) > 0
	}
	return x.hasPartner(t, c)
}

func (x *exec) enabled(t *thread) bool {
	if t.done {
		return false
	}
	switch t.kind {
	case kStart, kOp, kYield:
		return true
	case kLock:
		return !(*Mutex)(t.obj).st().locked
	case kRWLock:
		m := (*RWMutex)(t.obj).st()
		return !m.w
	case kRWWait:
		m := (*RWMutex)(t.obj).st()
		return m.readers == 0
	case kRLock:
		m := (*RWMutex)(t.obj).st()
		return !m.w
	case kCond:
		return *t.flag != 0
	case kWG:
		return (*WaitGroup)(t.obj).st().n <= 0
	case kJoin:
		for _, o := range x.threads {
			if o.harness && !o.done {
				return false
			}
		}
		return true
	case kChan:
		if t.comp || t.hasD {
			return true
		}
		for _, c := range t.cases {
			if x.caseReady(t, c) {
				return true
			}
		}
	}
	return false
}

// choose takes one of n options; bit i of cost tells whether option i is a deviation.
func (x *exec) choose(n int, cost uint64) int {
	if n <= 1 {
		return 0
	}
	if !x.explore {
		return 0
	}
	if x.pos < len(x.prefix) {
		c := x.prefix[x.pos]
		if c.n != n || c.cost != cost {
			x.diverged = true
			if c.idx >= n {
				c.idx = 0
			}
			c.n, c.cost = n, cost
		}
		x.pos++
		x.choices = append(x.choices, c)
		return c.idx
	}
	x.pos++
	if len(x.choices) >= maxChoices-1 {
		return 0
	}
	x.choices = append(x.choices, choice{n: n, cost: cost})
	return 0
}

func (x *exec) nextDeadline() (int64, bool) {
	var min int64
	ok := false
	for _, t := range x.timers {
		if t.active && (!ok || t.when < min) {
			min, ok = t.when, true
		}
	}
	return min, ok
}

func (x *exec) fire() {
	min, ok := x.nextDeadline()
	if !ok {
		return
	}
	x.advances++
	if min > x.now {
		x.now = min
	}
	x.epoch++
	x.tracef("clock -> %v", Duration(x.now))
	raceDisable()
	n := len(x.timers)
	for i := 0; i < n; i++ {
		t := x.timers[i]
		if !t.active || t.when != min {
			continue
		}
		if t.period > 0 {
			t.when += t.period
		} else {
			t.active = false
		}
		if t.ch != nil {
			select {
			case t.ch <- Now():
			default:
			}
		}
		if t.thr != nil && t.thr.flag != nil {
			*t.thr.flag = 1
		}
		if t.fn != nil {
			x.spawn(t.fn, "timer", false)
		}
	}
	k := 0
	for _, t := range x.timers {
		if t.active {
			x.timers[k] = t
			k++
		}
	}
	for i := k; i < len(x.timers); i++ {
		x.timers[i] = nil
	}
	x.timers = x.timers[:k]
	raceEnable()
}

// pick selects the next thread to run; nil if the execution is over.
// self is the calling thread, which has just parked or finished.
func (x *exec) pick(self *thread) *thread {
	for {
		en := x.en
		if x.over {
			return nil
		}
		x.steps++
		if x.steps > x.cfg.Horizon {
			x.failNow("livelock", fmt.Sprintf("no end after %d steps; running: %s", x.cfg.Horizon, x.describe()))
			return nil
		}
		n := 0
		selfOn := false
		if self != nil && !self.done && x.enabled(self) {
			en[0] = self
			n = 1
			selfOn = true
			if self.fresh && self.kind != kOp {
				// the step from a start to the first point is atomic
				self.fresh = false
				return self
			}
		} else if self != nil {
			self.fresh = false
		}
		for _, t := range x.threads {
			if t != self && x.enabled(t) {
				en[n] = t
				n++
			}
		}
		if n == 0 {
			for _, t := range x.threads {
				if !t.done && t.kind == kSettle {
					return t
				}
			}
			if _, ok := x.nextDeadline(); ok && x.advances < 5000 {
				x.fire()
				continue
			}
			x.failNow("deadlock", x.describe())
			return nil
		}
		var cost uint64
		if selfOn && !self.freeSw {
			cost = ^uint64(1)
		}
		m := n
		if x.cfg.EarlyFire && x.explore {
			if _, ok := x.nextDeadline(); ok {
				b := uint(n)
				if b > 63 {
					b = 63
				}
				cost |= 1 << b
				m++
			}
		}
		i := x.choose(m, cost)
		if i >= n {
			x.fire()
			continue
		}
		t := en[i]
		t.fresh = t.fresh || t.kind == kStart || t.kind == kOp
		return t
	}
}

func (x *exec) describe() string {
	s := ""
	for _, t := range x.threads {
		if t.done {
			continue
		}
		if s != "" {
			s += "; "
		}
		s += fmt.Sprintf("t%d(%s)", t.id, t.name)
		if t.inOp {
			s += " in " + t.op
		}
		s += " at " + t.kindString()
	}
	return s
}

func (t *thread) kindString() string {
	switch t.kind {
	case kStart:
		return "start"
	case kOp:
		return "operation start"
	case kYield:
		return "yield/atomic"
	case kLock:
		return "Mutex.Lock"
	case kRWLock, kRWWait:
		return "RWMutex.Lock"
	case kRLock:
		return "RWMutex.RLock"
	case kCond:
		return "condition"
	case kWG:
		return "WaitGroup.Wait"
	case kSettle:
		return "settle"
	case kJoin:
		return "join"
	case kChan:
		s := ""
		for i, c := range t.cases {
			if i > 0 {
				s += "|"
			}
			if c.dir == dirSend {
				s += "send"
			} else {
				s += "recv"
			}
		}
		if t.hasD {
			s += "|default"
		}
		if len(t.cases) > 1 || t.hasD {
			return "select(" + s + ")"
		}
		return "channel " + s
	}
	return "running"
}

func (x *exec) failNow(k, msg string) {
	if x.fail == nil {
		x.fail = &Failure{k, msg}
	}
	x.over = true
}

// point parks the calling thread (whose pending operation is set) until it is chosen.
func (x *exec) point(t *thread) {
	if x.dead {
		runtime.Goexit()
	}
	t.epoch = x.epoch
	n := x.pick(t)
	if n != t {
		x.handoff(n)
		x.park(t)
	}
	x.granted(t)
}

func (x *exec) granted(t *thread) {
	if x.cfg.Trace && x.explore {
		x.tracef("t%d: %s", t.id, t.kindString())
	}
	x.cur = t
	t.freeSw = false
}

func (x *exec) handoff(n *thread) {
	raceDisable()
	if n == nil {
		x.over = true
		x.finish <- struct{}{}
	} else {
		x.cur = n
		n.wake <- struct{}{}
	}
	raceEnable()
}

func (x *exec) park(t *thread) {
	raceDisable()
	<-t.wake
	raceEnable()
	if x.dead {
		runtime.Goexit()
	}
}

func (x *exec) spawn(fn func(), name string, harness bool) *thread {
	if len(x.threads) >= x.live && !x.dead {
		k := 0
		for _, t := range x.threads {
			if !t.done {
				x.threads[k] = t
				k++
			}
		}
		x.threads = x.threads[:k]
		if x.live = 2 * k; x.live < 64 {
			x.live = 64
		}
	}
	if len(x.threads) >= maxThreads-1 {
		x.failNow("livelock", "too many goroutines")
		return nil
	}
	if x.cur != nil {
		x.cur.fresh = false
	}
	t := &thread{id: x.tids, name: name, wake: make(chan struct{}, 1), harness: harness, kind: kStart, epoch: x.epoch}
	x.tids++
	x.threads = append(x.threads, t)
	if len(x.en) < len(x.threads)+1 {
		x.en = make([]*thread, 2*len(x.threads)+16)
	}
	go x.main(t, fn)
	return t
}

func (x *exec) main(t *thread, fn func()) {
	normal := false
	defer func() {
		if !normal && !x.dead {
			if r := recover(); r != nil {
				if x.fail == nil {
					where := ""
					if t.inOp {
						where = " in " + t.op
					}
					x.fail = &Failure{"panic", fmt.Sprintf("t%d(%s)%s: %v\n%s", t.id, t.name, where, r, debug.Stack())}
				}
				x.over = true
			}
		}
		t.done = true
		t.kind = kNone
		raceReleaseMerge(unsafe.Pointer(&x.joinHB))
		if x.dead {
			raceDisable()
			x.killed <- struct{}{}
			raceEnable()
			return
		}
		n := x.pick(t)
		x.handoff(n)
	}()
	x.park(t)
	x.granted(t)
	if t.id == 0 {
		t.fresh = false
	}
	fn()
	normal = true
	if t.id == 0 {
		x.over = true
	}
}

// run executes fn as thread 0 under the schedule given by prefix.
func run(cfg *Config, prefix []choice, fn func()) *exec {
	x := &exec{
		cfg: cfg, prefix: prefix,
		finish: make(chan struct{}, 1), killed: make(chan struct{}, 1),
		threads: make([]*thread, 0, 64), live: 64,
		choices: make([]choice, 0, 256),
		timers:  make([]*timer, 0, 64),
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = 500000
	}
	active = x
	Execs++
	Rand.n = 0
	epochGen++
	x.base = epochGen
	t := x.spawn(fn, "main", false)
	raceDisable()
	x.cur = t
	t.wake <- struct{}{}
	<-x.finish
	raceEnable()
	x.over = true
	x.dead = true
	for i := 0; i < len(x.threads); i++ {
		t := x.threads[i]
		for !t.done {
			raceDisable()
			x.cur = t
			t.wake <- struct{}{}
			<-x.killed
			raceEnable()
		}
	}
	raceAcquire(unsafe.Pointer(&x.joinHB))
	active = nil
	return x
}

var epochGen int

// --- used by harnesses ---

// Execs counts executions.
var Execs int

type uuidReader struct{ n uint64 }

func (u *uuidReader) Read(p []byte) (int, error) {
	u.n++
	x := u.n * 0x9E3779B97F4A7C15
	for i := range p {
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		p[i] = byte(x >> 32)
	}
	// the number keeps the values distinct
	if len(p) >= 16 {
		for i := 0; i < 6; i++ {
			p[10+i] = byte(u.n >> uint(8*i))
		}
	}
	return len(p), nil
}

// Rand is a source of pseudo-random bytes that starts anew with each execution.
var Rand = &uuidReader{}

// released notes a visible effect of the running thread that needs no point.
func (x *exec) released() { x.cur.fresh = false }

// fatal ends the execution like an unrecoverable runtime error.
func (x *exec) fatal(msg string) {
	if x.dead {
		runtime.Goexit()
	}
	t := x.cur
	where := ""
	if t.inOp {
		where = " in " + t.op
	}
	x.failNow("panic", fmt.Sprintf("t%d(%s)%s: fatal error: %s\n%s", t.id, t.name, where, msg, debug.Stack()))
	x.handoff(nil)
	x.park(t)
}

// Go starts fn as a new goroutine.
func Go(fn func()) {
	x := active
	if x == nil {
		go fn()
		return
	}
	if x.dead {
		runtime.Goexit()
	}
	x.spawn(fn, "go", false)
}

// Thread starts fn as a new harness thread.
func Thread(name string, fn func()) { active.spawn(fn, name, true) }

// Join waits for all harness threads.
func Join() {
	x := active
	t := x.cur
	t.kind = kJoin
	x.point(t)
	raceAcquire(unsafe.Pointer(&x.joinHB))
}

// Settle waits until nothing else can run without time passing.
func Settle() {
	x := active
	if x == nil {
		return
	}
	t := x.cur
	t.kind = kSettle
	x.point(t)
}

// Explore switches recording of choices on or off.
func Explore(on bool) { active.explore = on }

// Live returns the number of unfinished goroutines started by the code under test.
func Live() int {
	n := 0
	for _, t := range active.threads {
		if !t.done && !t.harness && t.id != 0 {
			n++
		}
	}
	return n
}

// LiveDesc describes unfinished goroutines started by the code under test.
func LiveDesc() string {
	s := ""
	for _, t := range active.threads {
		if !t.done && !t.harness && t.id != 0 {
			s += fmt.Sprintf("[t%d(%s) at %s]", t.id, t.name, t.kindString())
		}
	}
	return s
}

// OpBegin marks the start of a harness operation and returns its time stamp.
func OpBegin(name string) int {
	x := active
	if x == nil {
		return 0
	}
	t := x.cur
	if t.fresh && t.kind != kOp {
		t.fresh = false
	} else {
		t.kind = kOp
		t.freeSw = true
		x.point(t)
	}
	t.fresh = true
	t.inOp = true
	t.op = name
	x.stamp++
	if x.cfg.Trace {
		x.tracef("t%d: BEGIN %s", t.id, name)
	}
	return x.stamp
}

// OpEnd marks the end of a harness operation and returns its time stamp.
func OpEnd(result string) int {
	x := active
	if x == nil {
		return 0
	}
	t := x.cur
	t.fresh = false
	t.inOp = false
	x.stamp++
	if x.cfg.Trace {
		x.tracef("t%d: END   %s = %s", t.id, t.op, result)
	}
	return x.stamp
}

// Choose lets the explorer take one of n equally likely options.
func Choose(n int) int {
	if active == nil {
		return 0
	}
	return active.choose(n, 0)
}

// Yield lets other threads run.
func Yield() {
	x := active
	if x == nil {
		runtime.Gosched()
		return
	}
	t := x.cur
	t.kind = kYield
	t.freeSw = true
	x.point(t)
}

// atomicPoint is the point before an atomic operation.
func atomicPoint() {
	x := active
	if x == nil || x.dead {
		return
	}
	t := x.cur
	t.kind = kYield
	x.point(t)
}

// AtomicPoint is used by package vatomic.
func AtomicPoint() { atomicPoint() }

// waitFlag blocks until *f is set.
func waitFlag(f *int) {
	x := active
	t := x.cur
	t.kind = kCond
	t.flag = f
	x.point(t)
}
