//go:build go1.21

package vs

import (
	"time"
	"unsafe"
)

// Time is time.Time.
type Time = time.Time

// Duration is time.Duration.
type Duration = time.Duration

var baseTime = time.Unix(1600000000, 0).UTC()

// Elapsed returns the virtual time passed in the execution.
func Elapsed() Duration {
	if active == nil {
		return 0
	}
	return Duration(active.now)
}

// Now replaces time.Now.
func Now() Time {
	if active == nil {
		return time.Now()
	}
	return baseTime.Add(Duration(active.now))
}

// Since replaces time.Since.
func Since(t Time) Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t Time) Duration { return t.Sub(Now()) }

func (x *exec) addTimer(d Duration, t *timer) *timer {
	if d < 0 {
		d = 0
	}
	t.when = x.now + int64(d)
	if t.when < x.now {
		t.when = 1<<63 - 1
	}
	x.tseq++
	t.seq = x.tseq
	if t.fn != nil && !t.wrapped {
		t.wrapped = true
		f := t.fn
		t.fn = func() {
			raceAcquire(unsafe.Pointer(&t.hb))
			f()
		}
		raceRelease(unsafe.Pointer(&t.hb))
	}
	t.active = true
	x.timers = append(x.timers, t)
	return t
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan Time
	t *timer
	c chan Time
	r *time.Timer
}

// NewTimer replaces time.NewTimer.
func NewTimer(d Duration) *Timer {
	x := active
	if x == nil {
		r := time.NewTimer(d)
		return &Timer{C: r.C, r: r}
	}
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.t = x.addTimer(d, &timer{ch: c})
	return t
}

func (t *Timer) drain() {
	if t.c == nil {
		return
	}
	raceDisable()
	select {
	case <-t.c:
	default:
	}
	raceEnable()
}

// Stop replaces (*time.Timer).Stop.
func (t *Timer) Stop() bool {
	x := active
	if t.r != nil {
		return t.r.Stop()
	}
	if x == nil || x.dead {
		return false
	}
	atomicPoint()
	was := t.t.active || (t.c != nil && len(t.c) > 0)
	t.t.active = false
	t.drain()
	return was
}

// Reset replaces (*time.Timer).Reset.
func (t *Timer) Reset(d Duration) bool {
	x := active
	if t.r != nil {
		return t.r.Reset(d)
	}
	if x == nil || x.dead {
		return false
	}
	atomicPoint()
	was := t.t.active || (t.c != nil && len(t.c) > 0)
	t.drain()
	t.t.active = false
	n := &timer{ch: t.t.ch, fn: t.t.fn, wrapped: t.t.wrapped}
	t.t = x.addTimer(d, n)
	return was
}

// After replaces time.After.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d Duration, f func()) *Timer {
	x := active
	if x == nil {
		return &Timer{r: time.AfterFunc(d, f)}
	}
	return &Timer{t: x.addTimer(d, &timer{fn: f})}
}

// Sleep replaces time.Sleep.
func Sleep(d Duration) {
	x := active
	if x == nil {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	t := x.cur
	f := new(int)
	t.kind, t.flag = kCond, f
	x.addTimer(d, &timer{thr: t})
	x.point(t)
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan Time
	t *timer
	c chan Time
	r *time.Ticker
}

// NewTicker replaces time.NewTicker.
func NewTicker(d Duration) *Ticker {
	x := active
	if x == nil {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, r: r}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	return &Ticker{C: c, c: c, t: x.addTimer(d, &timer{ch: c, period: int64(d)})}
}

// Stop replaces (*time.Ticker).Stop.
func (t *Ticker) Stop() {
	if t.r != nil {
		t.r.Stop()
		return
	}
	t.t.active = false
}

// Reset replaces (*time.Ticker).Reset.
func (t *Ticker) Reset(d Duration) {
	if t.r != nil {
		t.r.Reset(d)
		return
	}
	t.t.active = false
	t.t = active.addTimer(d, &timer{ch: t.t.ch, period: int64(d)})
}

// Tick replaces time.Tick.
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
