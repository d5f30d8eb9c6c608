package simrt

import (
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// WaitGroup is sync.WaitGroup under the scheduler.
type WaitGroup struct {
	n atomic.Int64
}

func (w *WaitGroup) Add(d int) {
	if w.n.Add(int64(d)) < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() {
	w.Add(-1)
	if !panicking() {
		YN(0)
	}
}
func (w *WaitGroup) Wait() {
	YN(0)
	for w.n.Load() > 0 {
		waits()
		block()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is sync.Cond under the scheduler.
type Cond struct {
	L       sync.Locker
	mu      sync.Mutex
	waiting []*atomic.Bool
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := new(atomic.Bool)
	c.mu.Lock()
	c.waiting = append(c.waiting, t)
	c.mu.Unlock()
	c.L.Unlock()
	for !t.Load() {
		waits()
		block()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.waiting) > 0 {
		c.waiting[0].Store(true)
		c.waiting = c.waiting[1:]
	}
	c.mu.Unlock()
	YN(0)
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, t := range c.waiting {
		t.Store(true)
	}
	c.waiting = nil
	c.mu.Unlock()
	YN(0)
}

// --- channels ---
//
// Values in buffers are in the real channel. An unbuffered channel's two sides
// never meet in the real one, as only one of them runs at a time: who waits is
// listed here, and the other side completes the transfer.

// What follows is bookkeeping of the simulator: it is kept out of the race
// detector's sight (no locks, norace), so that it orders nothing the program
// does not order; a transfer orders its two sides through hb.

// hbs are the words that order two sides; they are not allocated with what
// they belong to, as the other side would then race with the allocation.
var (
	hbs  [4096]atomic.Int64
	hbAt int
)

//go:norace
func newHB() *atomic.Int64 {
	hbAt = (hbAt + 1) % len(hbs)
	hbs[hbAt].Add(1)
	return &hbs[hbAt]
}

// waitingSel is one blocked send, receive or select.
type waitingSel struct {
	done bool
	idx  int
	v    any
	hb   *atomic.Int64
}

// waiter is one case of it, in the list of all that wait.
type waiter struct {
	s    *waitingSel
	p    unsafe.Pointer
	send bool
	idx  int
	v    any
	next *waiter
}

var waiters *waiter

// firstWaiter finds who waits longest on the other side.
//
//go:norace
func firstWaiter(send bool, p unsafe.Pointer, not *waitingSel) *waiter {
	for w := waiters; w != nil; w = w.next {
		if w.p == p && w.send == send && w.s != not && !w.s.done {
			return w
		}
	}
	return nil
}

//go:norace
func listWaiter(s *waitingSel, p unsafe.Pointer, send bool, idx int, v any) {
	w := &waiter{s: s, p: p, send: send, idx: idx, v: v}
	at := &waiters
	for *at != nil {
		at = &(*at).next
	}
	*at = w
}

//go:norace
func dropWaiters(s *waitingSel) {
	at := &waiters
	for *at != nil {
		if (*at).s == s {
			*at = (*at).next
		} else {
			at = &(*at).next
		}
	}
}

// hand completes the waiting side w, and returns what it had to send.
//
//go:norace
func hand(w *waiter, v any) any {
	w.s.hb.Add(1)
	w.s.done, w.s.idx, w.s.v = true, w.idx, v
	return w.v
}

//go:norace
func handed(s *waitingSel) (int, any, bool) {
	if s.done {
		s.hb.Add(1)
	}
	return s.idx, s.v, s.done
}

// Case is a case of a select statement.
type Case interface {
	try(self *waitingSel) bool
	list(s *waitingSel, idx int)
	complete(v any)
}

type SendC struct {
	p      unsafe.Pointer
	direct bool // unbuffered
	real   func() bool
	v      any
}

// SendOf makes the case `c <- v`.
func SendOf[C ~chan T | ~chan<- T, T any](c C) func(v T) *SendC {
	return func(v T) *SendC {
		return &SendC{p: *(*unsafe.Pointer)(unsafe.Pointer(&c)), direct: cap(c) == 0, v: v, real: func() bool {
			select {
			case c <- v:
				return true
			default:
				return false
			}
		}}
	}
}

func (c *SendC) try(self *waitingSel) bool {
	if c.p == nil {
		return false
	}
	if c.real() {
		return true
	}
	if !c.direct {
		return false
	}
	w := firstWaiter(false, c.p, self)
	if w != nil {
		hand(w, c.v)
	}
	return w != nil
}

func (c *SendC) list(s *waitingSel, idx int) {
	if c.p != nil && c.direct {
		listWaiter(s, c.p, true, idx, c.v)
	}
}
func (c *SendC) complete(any) {}

type RecvC[T any] struct {
	V      T
	Ok     bool
	p      unsafe.Pointer
	direct bool
	real   func() (T, bool, bool)
}

// RecvOf makes the case `<-c`.
func RecvOf[C ~chan T | ~<-chan T, T any](c C) *RecvC[T] {
	return &RecvC[T]{p: *(*unsafe.Pointer)(unsafe.Pointer(&c)), direct: cap(c) == 0, real: func() (v T, ok, done bool) {
		select {
		case v, ok = <-c:
			return v, ok, true
		default:
			return v, false, false
		}
	}}
}

func (c *RecvC[T]) try(self *waitingSel) bool {
	if c.p == nil {
		return false
	}
	if c.direct {
		if w := firstWaiter(true, c.p, self); w != nil {
			c.complete(hand(w, nil))
			return true
		}
	}
	v, ok, done := c.real()
	if done {
		c.V, c.Ok = v, ok
	}
	return done
}

func (c *RecvC[T]) list(s *waitingSel, idx int) {
	if c.p != nil && c.direct {
		listWaiter(s, c.p, false, idx, nil)
	}
}
func (c *RecvC[T]) complete(v any) {
	c.V, _ = v.(T)
	c.Ok = true
}

// Select stands for the select statement; it returns -1 for the default case.
func Select(hasDefault bool, cases ...Case) int {
	YN(0)
	var s *waitingSel
	defer func() {
		if s != nil {
			dropWaiters(s)
		}
	}()
	for {
		if s != nil {
			if i, v, done := handed(s); done {
				cases[i].complete(v)
				YN(0)
				return i
			}
		}
		if n := len(cases); n > 0 {
			from := 0
			if n > 1 {
				from = int(worldRnd() % uint64(n))
			}
			for k := 0; k < n; k++ {
				i := (from + k) % n
				if cases[i].try(s) {
					YN(0)
					return i
				}
			}
		}
		if hasDefault {
			return -1
		}
		if s == nil {
			s = &waitingSel{hb: newHB()}
			for i, c := range cases {
				c.list(s, i)
			}
		}
		waits()
		block()
	}
}

//go:norace
func worldRnd() uint64 { return wrnd() >> 8 }

// Send stands for `c <- v`.
func Send[C ~chan T | ~chan<- T, T any](c C) func(v T) {
	return func(v T) { Select(false, SendOf[C, T](c)(v)) }
}

// Recv2 and Recv stand for `<-c`.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	r := RecvOf[C, T](c)
	Select(false, r)
	return r.V, r.Ok
}

func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

// --- timers ---

// Timers run on the time that passes while somebody waits. Between two segments
// the simulator may let the next one expire.
type simTimer struct {
	when int64
	f    func()
	hb   *atomic.Int64
	next *simTimer
}

// timers is ordered by time, then by age.
var (
	timers *simTimer
	mono   int64
)

//go:norace
func addTimer(d time.Duration, f func()) *simTimer {
	if d < 0 {
		d = 0
	}
	t := &simTimer{when: mono + int64(d), f: f, hb: newHB()}
	at := &timers
	for *at != nil && (*at).when <= t.when {
		at = &(*at).next
	}
	t.next, *at = *at, t
	return t
}

//go:norace
func dropTimer(t *simTimer) bool {
	for at := &timers; *at != nil; at = &(*at).next {
		if *at == t {
			*at = t.next
			return true
		}
	}
	return false
}

//go:norace
func haveTimers() bool { return timers != nil }

// advanceTimers lets time pass until the next timer expires.
//
//go:norace
func advanceTimers() bool {
	t := timers
	if t == nil {
		return false
	}
	timers = t.next
	if d := t.when - mono; d > 0 {
		mono = t.when
		timePasses(d)
	}
	t.hb.Add(1)
	t.f()
	return true
}

//go:norace
func timePasses(d int64) {
	world.Clock += d
	St.SimNanos += d
	St.Timers++
}

// TimeSleep stands for time.Sleep.
func TimeSleep(d time.Duration) {
	YN(0)
	var done atomic.Bool
	addTimer(d, func() { done.Store(true) })
	for !done.Load() {
		block()
	}
	YN(0)
}

// Timer and Ticker stand for those of package time.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *simTimer
}

//go:norace
func (t *Timer) start(d time.Duration) { t.t = addTimer(d, t.fire) }

//go:norace
func (t *Timer) fire() {
	if t.f != nil {
		Go(t.f)
		return
	}
	select {
	case t.c <- TimeNow():
	default:
	}
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func TimeAfter(d time.Duration) <-chan time.Time { return NewTimer(d).C }

//go:norace
func (t *Timer) Stop() bool { return t.t != nil && dropTimer(t.t) }

//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	was := dropTimer(t.t)
	select {
	case <-t.c:
	default:
	}
	t.start(d)
	return was
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	t *simTimer
}

//go:norace
func (t *Ticker) start() { t.t = addTimer(t.d, t.fire) }

//go:norace
func (t *Ticker) fire() {
	select {
	case t.c <- TimeNow():
	default:
	}
	t.start()
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	t.start()
	return t
}

func TimeTick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

//go:norace
func (t *Ticker) Stop() { dropTimer(t.t) }

//go:norace
func (t *Ticker) Reset(d time.Duration) {
	dropTimer(t.t)
	t.d = d
	t.start()
}
