// Package simrt is the simulator the instrumented copy of the library runs
// under. It owns every source of nondeterminism: which caller runs next, the
// clock, randomness, memory reuse, allocation pools, locks and map order.
//
// Exactly one goroutine runs at any time: the driver, or the one client the
// driver resumed. In a race-detector build the hand-over uses plain memory
// words and runtime.Gosched in functions the detector does not instrument
// (GOMAXPROCS is 1), so that the simulator adds no happens-before edge between
// two clients and the detector sees their accesses as concurrent.
package simrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
)

// Client states.
const (
	Ready int32 = iota
	Blocked
	Done
)

// Goroutines the library starts are clients with IDs from here on.
const FirstGoroutine = 16

// Signals raised by the simulator inside library code. They are recovered by
// the harness at the boundary of each DSL call.
type (
	KillSignal     struct{}
	BudgetSignal   struct{ Depth bool }
	DeadlockSignal struct{}
)

// Client is one simulated caller.
type Client struct {
	ID      int
	State   int32
	Steps   int64 // yield points passed in this run
	opSteps int64 // yield points passed in the current call
	quantum int64 // yield points left in this segment; <0: unlimited
	kill    bool  // abort at the next yield point outside a critical section
	killAt  int64 // abort the current call at this yield point of it
	died    bool  // the current call was aborted
	budget  bool  // the current call exceeded its step budget
	locks   int   // simulated locks held
	site    int32 // last yield point
	retried bool  // blocked retry made no progress
	yielded bool  // others first
	exit    bool  // leave at once
	gaveWay bool  // ended its segment itself
	wake    chan struct{}
	fn      func(*Client)
	tid     int64 // unique over all runs of the process
}

var (
	inRun    bool // a scheduled run is in progress
	cur      *Client
	turn     int64 // -1: driver
	nextTid  int64
	driverCh = make(chan struct{})

	gors   [1024]*Client // goroutines of the library, in this world
	ngors  int
	gorSeq int

	// decision parameters of the current run
	rng       uint64
	pHot      uint32
	pCold     uint32
	useRng    bool
	opBudget  int64 = 400000
	soloSteps int64
	soloIdle  int
	soloStop  bool
	soloKill  int64 // abort the call at this yield point
	soloLocks int   // simulated locks held outside a scheduled run
	hot       []bool
	focus     []bool // where this run switches more often than elsewhere
	focused   bool
	traceHash uint64

	maxOpSteps int64
	siteHits   = make([]uint32, 1<<16) // initialisers of packages pass yield points, too
)

// SetSites tells the simulator how many yield points exist and which of them
// lie between the load and the store of a value other callers may see.
func SetSites(n int, hotSites []int32) {
	hot = make([]bool, n+1)
	focus = make([]bool, n+1)
	siteHits = make([]uint32, n+1)
	for _, s := range hotSites {
		hot[s] = true
	}
}

//go:norace
func rnd() uint32 {
	x := rng
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	rng = x
	return uint32((x * 0x2545F4914F6CDD1D) >> 32)
}

// Y is a yield point: the simulator may switch to another client, abort this
// one or stop a call that does not end.
//
//go:norace
func Y(site int32) {
	yield(site)
	c := cur
	if c == nil {
		if soloKill > 0 && soloSteps >= soloKill && soloLocks == 0 {
			soloKill = 0
			panic(KillSignal{})
		}
		return
	}
	if c.kill && c.locks == 0 && !c.exit {
		c.kill = false
		c.died = true
		panic(KillSignal{})
	}
	if c.killAt > 0 && c.opSteps >= c.killAt && c.locks == 0 && !c.exit {
		c.killAt = 0
		c.died = true
		panic(KillSignal{})
	}
}

// YN is a yield point at which nothing can fail: aborts wait for the next one.
//
//go:norace
func YN(site int32) { yield(site) }

//go:norace
func yield(site int32) {
	c := cur
	if c == nil {
		soloSteps++
		if recording && nearLeft > 0 {
			nearLeft--
			if len(nearLog) < 1024 {
				nearLog = append(nearLog, [2]int32{nearTo, site})
			}
		}
		if soloSteps > opBudget {
			soloStop = true
			panic(BudgetSignal{})
		}
		return
	}
	if c.exit {
		return
	}
	c.Steps++
	c.opSteps++
	c.site = site
	if c.opSteps > opBudget {
		c.budget = true
		panic(BudgetSignal{})
	}
	if c.opSteps%spinning == 0 {
		c.yielded = true // whoever it may be spinning for runs now
		c.gaveWay = true
		toDriver(c)
		return
	}
	if c.quantum > 0 {
		c.quantum--
		if c.quantum == 0 {
			toDriver(c)
			return
		}
	}
	if useRng {
		p := pCold
		if hot[site] {
			p = pHot
		}
		if focused && focus[site] {
			p = 0xa0000000
		}
		if p != 0 && rnd() < p {
			toDriver(c)
		}
	}
}

// spinning is a number of yield points no call passes that does not wait for
// somebody else.
const spinning = 40000

var (
	recording bool
	touched   []int32
	nearTo    int32      // the YG site passed last
	nearLeft  int        // yield points that still count as near to it
	nearLog   [][2]int32 // YG site, yield point passed soon after it
)

const nearSteps = 16

// YG is a yield point before a statement that uses a package variable which
// may change.
//
//go:norace
func YG(site int32) {
	if recording {
		if len(touched) < 64 {
			touched = append(touched, site)
		}
		nearTo, nearLeft = site, nearSteps
	}
	Y(site)
}

// RecordTouched starts or ends noting the YG sites passed.
func RecordTouched(on bool) { recording = on }

// Touched returns those passed since it was called last.
func Touched() []int32 {
	t := touched
	touched = nil
	return t
}

// Near returns the yield points passed soon after YG sites since it was called
// last, with those sites.
func Near() [][2]int32 {
	l := nearLog
	nearLog = nil
	nearLeft = 0
	return l
}

// Focus makes switches likely at the given yield points.
func Focus(sites []int32) {
	if focused {
		for i := range focus {
			focus[i] = false
		}
	}
	focused = len(sites) > 0
	for _, s := range sites {
		if int(s) < len(focus) {
			focus[s] = true
		}
	}
}

// IsHot tells whether a yield point lies between the load and the store of a
// value others may see.
func IsHot(s int32) bool { return int(s) < len(hot) && hot[s] }

// AtFocus tells whether the client stands at one of those yield points.
func AtFocus(c *Client) bool { return focused && int(c.site) < len(focus) && focus[c.site] }

// After is a yield point following the evaluation of v.
func After[T any](v T, site int32) T {
	YN(site)
	return v
}

// toDriver parks the calling client until the driver resumes it.
//
//go:norace
func toDriver(c *Client) {
	siteHits[c.site]++
	if RaceBuild {
		id := c.tid
		turn = -1
		for turn != id {
			runtime.Gosched()
		}
	} else {
		driverCh <- struct{}{}
		<-c.wake
	}
	if c.exit {
		runtime.Goexit()
	}
}

// resume lets client c run until it comes back to the driver.
//
//go:norace
func resume(c *Client) {
	cur = c
	if RaceBuild {
		turn = c.tid
		for turn != -1 {
			runtime.Gosched()
		}
	} else {
		c.wake <- struct{}{}
		<-driverCh
	}
	cur = nil
}

// block is called by a client that cannot go on before somebody else did.
//
//go:norace
func block() {
	c := cur
	if c == nil {
		// a call outside a scheduled run: the library's goroutines run
		if !runGoroutines(100000) && !advanceTimers() {
			panic(DeadlockSignal{})
		}
		soloIdle++
		if soloIdle > 5000 {
			panic(DeadlockSignal{})
		}
		return
	}
	if c.exit {
		runtime.Goexit()
	}
	c.State = Blocked
	toDriver(c)
	c.State = Ready
	if c.ID >= FirstGoroutine {
		c.opSteps = 0 // a goroutine that serves many calls
	}
}

// Gosched stands for runtime.Gosched.
//
//go:norace
func Gosched() {
	c := cur
	if c == nil {
		soloSteps++
		runGoroutines(1000)
		return
	}
	if c.exit {
		return
	}
	c.Steps++
	c.opSteps++
	if c.opSteps > opBudget {
		c.budget = true
		panic(BudgetSignal{})
	}
	c.yielded = true
	c.gaveWay = true
	toDriver(c)
}

// --- goroutines of the library ---

// Go stands for the go statement.
func Go(f func()) {
	c := newGoroutine(f)
	if c == nil {
		f()
		return
	}
	go goroutineMain(c)
	YN(0)
}

//go:norace
func newGoroutine(f func()) *Client {
	compact()
	if ngors == len(gors) {
		return nil
	}
	St.Goroutines++
	c := &Client{ID: FirstGoroutine + gorSeq, wake: make(chan struct{}), quantum: -1}
	c.fn = func(*Client) { f() }
	gorSeq++
	nextTid++
	c.tid = nextTid
	gors[ngors] = c
	ngors++
	return c
}

// Crowded: so many goroutines of the library wait that what is repeated is to
// stop (aborted calls may leave some behind that wait for ever).
//
//go:norace
func Crowded() bool { return ngors > 200 }

//go:norace
func compact() {
	n := 0
	for i := 0; i < ngors; i++ {
		if gors[i].State != Done {
			gors[n] = gors[i]
			n++
		}
	}
	for i := n; i < ngors; i++ {
		gors[i] = nil
	}
	ngors = n
}

//go:norace
func goroutineMain(c *Client) {
	awaitTurn(c)
	defer toDriverAtEnd(c)
	defer func() {
		switch r := recover().(type) {
		case nil, KillSignal, BudgetSignal, DeadlockSignal:
		default:
			// as the runtime does when a goroutine panics
			fmt.Fprintf(os.Stderr, "panic: %v [in a goroutine of the library]\n", r)
			if os.Getenv("SIM_STACK") != "" {
				debug.PrintStack()
			}
			os.Exit(2)
		}
	}()
	if !c.exit {
		c.fn(c)
	}
}

//go:norace
func awaitTurn(c *Client) {
	if RaceBuild {
		for turn != c.tid {
			runtime.Gosched()
		}
	} else {
		<-c.wake
	}
}

// gorEnds orders the end of each goroutine before the next reset.
var gorEnds atomic.Int64

//go:norace
func toDriverAtEnd(c *Client) {
	c.State = Done
	gorEnds.Add(1)
	if RaceBuild {
		turn = -1
	} else {
		driverCh <- struct{}{}
	}
}

// runGoroutines lets each goroutine of the library run for a while, and tells
// whether any could.
//
//go:norace
func runGoroutines(slice int64) bool {
	any := false
	for i := 0; i < ngors; i++ {
		g := gors[i]
		if g.State == Done {
			continue
		}
		before := g.Steps
		g.quantum = slice
		resume(g)
		if g.Steps != before || g.State == Done {
			any = true
		}
	}
	compact()
	return any
}

// endGoroutines ends those of the world that goes.
//
//go:norace
func endGoroutines() {
	for i := 0; i < ngors; i++ {
		if g := gors[i]; g.State != Done {
			g.exit = true
			resume(g)
		}
	}
	compact()
	gorSeq = 0
}

// OpBegin marks the start of one DSL call of a client.
//
//go:norace
func OpBegin() {
	soloSteps = 0
	soloStop = false
	soloLocks = 0
	soloIdle = 0
	if cur != nil {
		cur.opSteps = 0
		cur.budget = false
		cur.died = false
	}
}

// SoloKill aborts a call made outside a scheduled run at its n-th yield point.
func SoloKill(n int64) { soloKill = n }

// KillAt aborts the next call of the running caller at its n-th yield point.
func KillAt(n int64) {
	if cur != nil {
		cur.killAt = n
	} else {
		soloKill = n
	}
}

// OpEnd returns the number of yield points the call passed.
//
//go:norace
func OpEnd() int64 {
	n := soloSteps
	if cur != nil {
		n = cur.opSteps
		cur.opSteps = 0
	}
	if n > maxOpSteps && n <= opBudget {
		maxOpSteps = n
	}
	soloSteps = 0
	if cur == nil && ngors > 0 {
		for i := 0; i < 50 && runGoroutines(2000); i++ {
		}
		soloSteps = 0
	}
	return n
}

// Aborted tells whether the current call was aborted, even if something on the
// way recovered from it.
//
//go:norace
func Aborted() bool { return cur != nil && cur.died }

// MaxOpSteps returns the largest number of yield points of a call that ended.
func MaxOpSteps() int64 { return maxOpSteps }

// SetOpBudget sets the step budget of one call.
func SetOpBudget(n int64) { opBudget = n }

// OpBudget returns it.
func OpBudget() int64 { return opBudget }

// SwitchSites lists the yield points at which a switch took place.
func SwitchSites() []int {
	l := []int{}
	for i, n := range siteHits {
		if n > 0 {
			l = append(l, i)
		}
	}
	return l
}

// --- driver side ---

// Seg is one segment of a schedule: client runs for Steps yield points (-1:
// until it ends, blocks or gives way), then the fault Act is injected.
type Seg struct {
	Client int    `json:"c"`
	Steps  int64  `json:"n"`
	Act    string `json:"act,omitempty"`
	Arg    int64  `json:"arg,omitempty"`
}

// Scheduler decides. Next is given the clients that can run and returns one;
// quantum <= 0 leaves the end of the segment to the probabilities set with
// SetProbs. Fault is asked after each segment.
type Scheduler interface {
	Next(ready []*Client) (c *Client, quantum int64)
	Fault(c *Client) (act string, arg int64)
}

// SetProbs sets the chance of a switch at ordinary and at hot yield points.
func SetProbs(seed uint64, cold, hotp float64) {
	rng = seed | 1
	for i := 0; i < 4; i++ {
		rnd()
	}
	useRng = cold > 0 || hotp > 0
	pCold = uint32(cold * 4294967295)
	pHot = uint32(hotp * 4294967295)
}

// NoProbs makes quantum the only end of a segment (replay).
func NoProbs() { useRng = false; pCold = 0; pHot = 0 }

// RunResult is what a scheduled run did.
type RunResult struct {
	Segs     []Seg
	Switches int
	Steps    int64
	Deadlock bool
	Hash     uint64
}

// Run runs the clients under s; apply injects the fault a scheduler asked for.
func Run(fns []func(*Client), s Scheduler, apply func(act string, arg int64, cs []*Client)) RunResult {
	var res RunResult
	n := len(fns)
	var wg sync.WaitGroup
	cs := make([]*Client, n)
	for i := range fns {
		c := &Client{ID: i, wake: make(chan struct{}), fn: fns[i], quantum: -1}
		nextTid++
		c.tid = nextTid
		cs[i] = c
	}
	turn = -1
	inRun = true
	defer func() { inRun = false }()
	for i := range cs {
		c := cs[i]
		wg.Add(1)
		go clientMain(c, &wg)
	}
	h := uint64(14695981039346656037)
	mix := func(v uint64) { h ^= v; h *= 1099511628211 }
	all := make([]*Client, 0, n)
	ready := make([]*Client, 0, n)
	idle := 0
	for {
		all = append(all[:0], cs...)
		for i := 0; i < ngors; i++ {
			all = append(all, gors[i])
		}
		if haveTimers() && wrnd()%16 == 0 {
			advanceTimers()
			for _, x := range all {
				x.retried = false
			}
		}
		ready = ready[:0]
		left, keen := 0, 0
		for _, c := range all {
			if c.State == Done {
				continue
			}
			if c.ID < FirstGoroutine {
				left++
			}
			if c.State == Ready || !c.retried {
				ready = append(ready, c)
				if !c.yielded {
					keen++
				}
			}
		}
		if left == 0 {
			break
		}
		if idle++; idle > 200000 || len(ready) == 0 && (idle > 5000 || !advanceTimers()) {
			res.Deadlock = true
			break
		}
		if len(ready) == 0 {
			for _, x := range all {
				x.retried = false
			}
			continue
		}
		if keen < len(ready) {
			if keen == 0 {
				for _, x := range ready {
					x.yielded = false
				}
			} else {
				k := 0
				for _, x := range ready {
					if !x.yielded {
						ready[k] = x
						k++
					}
				}
				ready = ready[:k]
			}
		}
		c, q := s.Next(ready)
		if q <= 0 {
			q = -1
		}
		c.quantum = q
		before := c.Steps
		wasBlocked := c.State == Blocked
		c.gaveWay = false
		resume(c)
		d := c.Steps - before
		if c.State == Blocked && wasBlocked && d == 0 {
			c.retried = true
		} else {
			for _, x := range all {
				x.retried = false
			}
			if c.ID < FirstGoroutine {
				idle = 0
			}
		}
		sg := Seg{Client: c.ID, Steps: d}
		if c.State != Ready || c.gaveWay {
			sg.Steps = -1
		}
		mix(uint64(c.ID)<<32 | uint64(uint32(c.site)))
		mix(uint64(d))
		act, arg := s.Fault(c)
		if act != "" {
			sg.Act, sg.Arg = act, arg
			for i := 0; i < len(act); i++ {
				mix(uint64(act[i]))
			}
			mix(uint64(arg))
			apply(act, arg, cs)
			for _, x := range all {
				x.retried = false
			}
		}
		res.Segs = append(res.Segs, sg)
		res.Switches++
		res.Steps += d
		if ngors > 0 {
			compact()
		}
	}
	res.Hash = h
	if res.Deadlock {
		// The blocked clients can never run again: leave their goroutines
		// parked (the run is reported and the process ends soon after).
		return res
	}
	wg.Wait()
	return res
}

//go:norace
func clientMain(c *Client, wg *sync.WaitGroup) {
	awaitTurn(c)
	c.fn(c)
	c.State = Done
	wg.Done()
	if RaceBuild {
		turn = -1
	} else {
		driverCh <- struct{}{}
	}
}

// Kill makes the client abort at its next yield point.
func (c *Client) Kill() { c.kill = true }

// Killing tells whether an abort is pending.
//
//go:norace
func (c *Client) Killing() bool { return c.kill }

// ClearKill withdraws a pending abort.
//
//go:norace
func (c *Client) ClearKill() { c.kill = false }
