package simrt

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
	"weak"
)

// World is the environment of one execution.
type World struct {
	Seed     uint64
	Clock    int64   // simulated wall clock, ns since 1970
	Tick     int64   // added at each reading; 0: frozen
	RandMode int     // 0 seeded, 1 all zero, 2 all ones, 3 short cycle
	ReuseP   float64 // chance that a new object gets a dead object's address
	PoolP    int     // sync.Pool: 0 never reuse, 1 LIFO, 2 random or dropped
	MapMode  int     // map iteration: 0 sorted, 1 shuffled
	WeakHash bool    // 32 bit hashes of different data are often equal
}

// Stats counts what was injected since ResetStats.
type Stats struct {
	ClockReads, ClockJumps, RandReads       int64
	AddrAsked, AddrReused, AddrDead, GCs    int64
	PoolGets, PoolReused, PoolDropped       int64
	MapRanges, LockTaken, LockWaits         int64
	SimNanos                                int64
	ChurnedElements, Kills, Stalls, Aborted int64
	RandModes, ArgSlices, Finalizers        int64
	Refills, Goroutines, Timers             int64
	GCsSkipped, Again, WeakHashes           int64
	FileReads, FileFaults                   int64
}

// Add adds the counts of o.
func (s *Stats) Add(o *Stats) {
	a, b := reflect.ValueOf(s).Elem(), reflect.ValueOf(o).Elem()
	for i := 0; i < a.NumField(); i++ {
		a.Field(i).SetInt(a.Field(i).Int() + b.Field(i).Int())
	}
}

var (
	world World
	St    Stats
	wrng  uint64
)

//go:norace
func wrnd() uint64 {
	x := wrng
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	wrng = x
	return x * 0x2545F4914F6CDD1D
}

//go:norace
func chance(p float64) bool { return float64(wrnd()>>11)/(1<<53) < p }

// ResetWorld starts a new environment. The instrumented packages' own reset
// functions are called by the harness afterwards.
func ResetWorld(w World) {
	endGoroutines()
	gorEnds.Load()
	timers, waiters = nil, nil
	finMu.Lock()
	worldGen++
	finQueue = nil
	finMu.Unlock()
	world = w
	wrng = w.Seed*0x9E3779B97F4A7C15 + 0x1234567
	if wrng == 0 {
		wrng = 1
	}
	wrnd()
	wrnd()
	addrs = map[uintptr]*addrEnt{}
	order = nil
	free = map[uintptr][]uintptr{}
	nextAddr = firstAddr
	crand.Reader = simReader{}
	theRand = nil
	theRandV2 = nil
	randDraws, randGood = 0, false
}

// --- clock ---

//go:norace
func now() int64 {
	St.ClockReads++
	world.Clock += world.Tick
	St.SimNanos += world.Tick
	return world.Clock
}

func TimeNow() time.Time                  { return time.Unix(0, now()) }
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// ClockSet moves the simulated clock.
func ClockSet(ns int64) {
	d := ns - world.Clock
	if d < 0 {
		d = -d
	}
	St.SimNanos += d
	St.ClockJumps++
	world.Clock = ns
}

// ClockTick sets the advance at each reading.
func ClockTick(ns int64) { world.Tick = ns }

// SetRandMode changes what the source of randomness returns.
func SetRandMode(m int) {
	world.RandMode = m
	St.RandModes++
}

// --- process identity ---

func Getpid() int { return 4000 + int(world.Seed%997) }

// Hostname fails in some worlds.
func Hostname() (string, error) {
	if world.Seed%5 == 1 {
		fileRead(true)
		return "", errors.New("hostname: input/output error")
	}
	return "simhost", nil
}

// ReadFile stands for reading a file: those that describe the machine are
// absent, empty, short or unreadable in some worlds.
func ReadFile(name string) ([]byte, error) {
	if !strings.HasPrefix(name, "/proc/") && !strings.HasPrefix(name, "/sys/") && !strings.HasPrefix(name, "/etc/") {
		return os.ReadFile(name)
	}
	h := world.Seed
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	k := (h >> 24) % 8
	fileRead(k < 4)
	switch k {
	case 0, 1:
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	case 2:
		return nil, &os.PathError{Op: "read", Path: name, Err: syscall.EIO}
	case 3:
		return []byte{}, nil
	case 4:
		return []byte("/"), nil
	}
	return []byte(name + strconv.FormatUint(h, 16) + "\n"), nil
}

//go:norace
func fileRead(bad bool) {
	St.FileReads++
	if bad {
		St.FileFaults++
	}
}
func Getenv(k string) string { return os.Getenv(k) }

// --- randomness ---

type simReader struct{}

//go:norace
func (simReader) Read(p []byte) (int, error) {
	honest()
	for i := range p {
		p[i] = byte(rand64())
	}
	return len(p), nil
}

// honest lets one reading in 16 of a degenerate source be a good one: who
// draws until a value suits gets on.
//
//go:norace
func honest() {
	randDraws++
	randGood = randDraws%16 == 0
}

var (
	randDraws int64
	randGood  bool
)

//go:norace
func rand64() uint64 {
	St.RandReads++
	if randGood {
		return wrnd()
	}
	switch world.RandMode {
	case 1:
		return 0
	case 2:
		return ^uint64(0)
	case 3:
		return uint64(randDraws % 3)
	}
	return wrnd()
}

type simSource struct{}

//go:norace
func (simSource) Int63() int64 { honest(); return int64(rand64() >> 1) }

//go:norace
func (simSource) Uint64() uint64 { honest(); return rand64() }
func (simSource) Seed(int64)     {}

var theRand *rand.Rand
var theRandV2 *randv2.Rand

//go:norace
func Rand() *rand.Rand {
	if theRand == nil {
		theRand = rand.New(simSource{})
	}
	return theRand
}

//go:norace
func RandV2() *randv2.Rand {
	if theRandV2 == nil {
		theRandV2 = randv2.New(simSource{})
	}
	return theRandV2
}

// --- addresses ---

type addrEnt struct {
	w    weak.Pointer[byte]
	sim  uintptr
	size uintptr
	real uintptr
	dead bool
}

var (
	addrs    = map[uintptr]*addrEnt{} // filled by initialisers of packages as well
	order    []*addrEnt
	free             = map[uintptr][]uintptr{} // by size class
	nextAddr uintptr = firstAddr
)

type eface struct {
	typ  unsafe.Pointer
	data unsafe.Pointer
}

func sizeClass(n uintptr) uintptr {
	c := uintptr(16)
	for c < n {
		c += c / 2
		c = (c + 15) &^ 15
	}
	return c
}

// addr gives the simulated address of the object at p. An object keeps its
// address as long as it is alive; a new object may get the address of one that
// is dead, which is what a garbage collected heap does.
//
//go:norace
func addr(p unsafe.Pointer, size uintptr) uintptr {
	if p == nil {
		return 0
	}
	St.AddrAsked++
	if RaceBuild || !inHeap(uintptr(p)) {
		return uintptr(p) // static data does not move or die
	}
	real := uintptr(p)
	if e, ok := addrs[real]; ok {
		if !e.dead && e.w.Value() != nil {
			return e.sim
		}
		retire(e)
	}
	size = sizeClass(size)
	e := &addrEnt{w: weak.Make((*byte)(p)), size: size, real: real}
	if world.ReuseP > 0 && chance(world.ReuseP) {
		if l := free[size]; len(l) > 0 {
			i := int(wrnd() % uint64(len(l)))
			e.sim = l[i]
			l[i] = l[len(l)-1]
			free[size] = l[:len(l)-1]
			St.AddrReused++
		}
	}
	if e.sim == 0 {
		e.sim = nextAddr
		nextAddr += size
	}
	addrs[real] = e
	order = append(order, e)
	return e.sim
}

func retire(e *addrEnt) {
	if e.dead {
		return
	}
	e.dead = true
	St.AddrDead++
	free[e.size] = append(free[e.size], e.sim)
}

// GC collects garbage for real and finds out which objects died.
func GC() {
	St.GCs++
	// As long as nobody asked for an address or set a finalizer, a collection
	// can only matter to code that hides pointers: do one in four for real.
	if len(order) == 0 && !hasFin && wrnd()%4 != 0 {
		St.GCsSkipped++
		return
	}
	runtime.GC()
	runFinalizers()
	if RaceBuild {
		return
	}
	live := order[:0]
	for _, e := range order {
		if e.dead {
			continue
		}
		if e.w.Value() == nil {
			retire(e)
			if addrs[e.real] == e {
				delete(addrs, e.real)
			}
			continue
		}
		live = append(live, e)
	}
	order = live
}

// SetFinalizer stands for runtime.SetFinalizer: the finalizer of an object
// that died runs at the end of the simulated collection which found it dead.
func SetFinalizer(obj any, finalizer any) {
	if finalizer == nil {
		runtime.SetFinalizer(obj, nil)
		return
	}
	fv := reflect.ValueOf(finalizer)
	runtime.SetFinalizer(obj, nil)
	gen, seq := newFin()
	// a fresh function with the type of the given one
	w := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{reflect.TypeOf(obj)}, nil, false), func(args []reflect.Value) []reflect.Value {
		finMu.Lock()
		if gen == worldGen {
			finQueue = append(finQueue, finEntry{seq, func() { fv.Call(args) }})
		}
		finMu.Unlock()
		return nil
	})
	runtime.SetFinalizer(obj, w.Interface())
}

//go:norace
func newFin() (gen, seq int64) {
	hasFin = true
	finSeq++
	return worldGen, finSeq
}

//go:norace
func finRan() { St.Finalizers++ }

type finEntry struct {
	seq int64 // order of registration
	f   func()
}

var (
	finMu    sync.Mutex
	finQueue []finEntry
	finSeq   int64
	hasFin   bool
	worldGen int64
)

// deadFinalizers returns the finalizers of the objects a real collection found
// dead; the queue is filled by the runtime's own goroutine, which a sentinel
// object tells to be done.
func deadFinalizers() []finEntry {
	done := make(chan struct{})
	func() {
		s := new([32]byte)
		runtime.SetFinalizer(s, func(*[32]byte) { close(done) })
	}()
	runtime.GC()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
	}
	finMu.Lock()
	q := finQueue
	finQueue = nil
	finMu.Unlock()
	sort.Slice(q, func(i, j int) bool { return q[i].seq < q[j].seq })
	return q
}

// runFinalizers leaves them to a simulated goroutine of their own, as callers
// may hold locks the finalizers need.
func runFinalizers() {
	if !hasFin {
		return
	}
	q := deadFinalizers()
	if len(q) == 0 {
		return
	}
	Go(func() {
		for _, e := range q {
			finRan()
			e.f()
		}
	})
	if !inRun {
		for i := 0; i < 50 && runGoroutines(2000); i++ {
		}
	}
}

// P stands for a pointer printed with %p.
type P struct{ v interface{} }

func Ptr(v interface{}) interface{} {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr:
		return P{v}
	}
	return v
}

func (p P) Format(f fmt.State, verb rune) {
	if verb != 'p' {
		fmt.Fprintf(f, fmt.FormatString(f, verb), p.v)
		return
	}
	e := (*eface)(unsafe.Pointer(&p.v))
	a := addr(e.data, reflect.TypeOf(p.v).Elem().Size())
	if f.Flag('#') {
		fmt.Fprintf(f, "%x", uint64(a))
	} else {
		fmt.Fprintf(f, "0x%x", uint64(a))
	}
}

// firstAddr keeps simulated addresses apart from the runtime's own.
const firstAddr = 0x7d0000010000

// realAddrs replaces the runtime's heap addresses printed in s (pointers inside
// printed structures, for one) by simulated ones.
func realAddrs(s string) string {
	if RaceBuild {
		return s
	}
	for at := 0; ; {
		i := strings.Index(s[at:], "0x")
		if i < 0 {
			return s
		}
		i += at
		j := i + 2
		for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f') {
			j++
		}
		at = i + 2
		if j-i < 10 || j-i > 18 {
			continue
		}
		n, err := strconv.ParseUint(s[i+2:j], 16, 64)
		if err != nil || !inHeap(uintptr(n)) {
			continue
		}
		real := uintptr(n)
		a := addr(*(*unsafe.Pointer)(unsafe.Pointer(&real)), 64)
		s = s[:i] + "0x" + strconv.FormatUint(uint64(a), 16) + s[j:]
	}
}

func Sprint(a ...any) string                 { return realAddrs(fmt.Sprint(a...)) }
func Sprintln(a ...any) string               { return realAddrs(fmt.Sprintln(a...)) }
func Sprintf(format string, a ...any) string { return realAddrs(fmt.Sprintf(format, a...)) }

var aHeapObject = new([64]byte)

// inHeap tells whether p looks like an address the runtime's heap uses.
func inHeap(p uintptr) bool {
	d := p - uintptr(unsafe.Pointer(aHeapObject)) + 1<<36
	return d < 1<<37
}

// AddrD stands for the Data field of a string or slice header.
func AddrD(real uintptr) uintptr {
	return addr(*(*unsafe.Pointer)(unsafe.Pointer(&real)), 64)
}

// AddrM stands for a value read through a converted unsafe.Pointer: integers in
// it that are addresses of heap objects are replaced.
func AddrM[T any](v T) T {
	addrWords(reflect.ValueOf(&v).Elem())
	return v
}

func addrWords(v reflect.Value) {
	switch v.Kind() {
	case reflect.Uintptr, reflect.Uint64, reflect.Uint, reflect.Int, reflect.Int64:
		if v.CanAddr() {
			p := (*uintptr)(v.Addr().UnsafePointer())
			if inHeap(*p) {
				*p = AddrD(*p)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			addrWords(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			addrWords(v.Field(i))
		}
	}
}

// AddrU stands for the conversion of an unsafe.Pointer to an integer.
func AddrU(p unsafe.Pointer) uintptr { return addr(p, 64) }

// AddrV stands for reflect.Value.Pointer.
func AddrV(v reflect.Value) uintptr {
	if v.Kind() == reflect.Ptr {
		return addr(v.UnsafePointer(), v.Type().Elem().Size())
	}
	return addr(v.UnsafePointer(), 64)
}

// --- map order ---

// MapKeys returns the keys of m in an order decided by the simulator.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	strs := make(map[K]string, len(m))
	for k := range m {
		keys = append(keys, k)
		strs[k] = string(keyText(nil, reflect.ValueOf(&k).Elem()))
	}
	sort.SliceStable(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
	if mapRange() {
		for i := len(keys) - 1; i > 0; i-- {
			j := int(worldRnd() % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

//go:norace
func mapRange() (shuffle bool) {
	St.MapRanges++
	return world.MapMode == 1
}

// keyText reads no more of a key than the map itself does.
func keyText(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.String:
		b = append(b, v.String()...)
	case reflect.Bool:
		b = strconv.AppendBool(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b = strconv.AppendInt(b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b = strconv.AppendUint(b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		b = strconv.AppendFloat(b, v.Float(), 'g', -1, 64)
	case reflect.Complex64, reflect.Complex128:
		b = strconv.AppendFloat(b, real(v.Complex()), 'g', -1, 64)
		b = strconv.AppendFloat(append(b, ' '), imag(v.Complex()), 'g', -1, 64)
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		b = strconv.AppendUint(b, uint64(AddrV(v)), 10)
	case reflect.Interface:
		if !v.IsNil() {
			v = v.Elem()
			b = keyText(append(append(b, v.Type().String()...), ' '), v)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = keyText(append(b, ' '), v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b = keyText(append(b, ' '), v.Field(i))
		}
	}
	return b
}

// --- locks ---

// Mutex is sync.Mutex under the scheduler: waiting for it lets others run. The
// real mutex inside keeps the happens-before edges the code relies on.
type Mutex struct{ m sync.Mutex }

//go:norace
func locked(d int) {
	if cur != nil {
		cur.locks += d
	} else {
		soloLocks += d
	}
	if d > 0 {
		St.LockTaken++
	}
}

//go:norace
func waits() { St.LockWaits++ }

func (m *Mutex) Lock() {
	YN(0)
	for !m.m.TryLock() {
		waits()
		block()
	}
	locked(1)
}
func (m *Mutex) TryLock() bool {
	if m.m.TryLock() {
		locked(1)
		return true
	}
	return false
}
func (m *Mutex) Unlock() {
	m.m.Unlock()
	locked(-1)
	if !panicking() {
		YN(0)
	}
}

// panicking: a yield inside a deferred Unlock during a panic must not raise a
// second signal; the simulator only does so for a pending abort or budget.
//
//go:norace
func panicking() bool {
	if cur == nil {
		return soloStop
	}
	return cur.budget || cur.kill
}

// RWMutex is sync.RWMutex under the scheduler. As with the real one, readers
// that come while a writer waits wait for the writer.
type RWMutex struct {
	m    sync.RWMutex
	pend int // writers that wait
}

//go:norace
func (m *RWMutex) waiting(d int) bool {
	m.pend += d
	return m.pend > 0
}

func (m *RWMutex) Lock() {
	YN(0)
	if !m.m.TryLock() {
		m.lockSlow()
	}
	locked(1)
}

func (m *RWMutex) lockSlow() {
	m.waiting(1)
	defer m.waiting(-1)
	for !m.m.TryLock() {
		waits()
		block()
	}
}

func (m *RWMutex) TryLock() bool {
	if m.m.TryLock() {
		locked(1)
		return true
	}
	return false
}
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	locked(-1)
	if !panicking() {
		YN(0)
	}
}
func (m *RWMutex) RLock() {
	YN(0)
	for m.waiting(0) || !m.m.TryRLock() {
		waits()
		block()
	}
	locked(1)
}
func (m *RWMutex) TryRLock() bool {
	if !m.waiting(0) && m.m.TryRLock() {
		locked(1)
		return true
	}
	return false
}
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	locked(-1)
	if !panicking() {
		YN(0)
	}
}
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// onceCall runs f once; if it panics, every call does.
func onceCall(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceFunc(f func()) func() { return onceCall(f) }

func OnceValue[T any](f func() T) func() T {
	var v T
	do := onceCall(func() { v = f() })
	return func() T { do(); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var u U
	do := onceCall(func() { v, u = f() })
	return func() (T, U) { do(); return v, u }
}

// Pool is sync.Pool whose reuse and losses the simulator decides. As with the
// real one, only who put a value is ordered before who gets it.
type Pool struct {
	New   func() any
	items *poolItem
	n     int
}

type poolItem struct {
	x    any
	hb   *atomic.Int64
	next *poolItem
}

//go:norace
func (p *Pool) put(x any) {
	p.items = &poolItem{x, newHB(), p.items}
	p.n++
}

//go:norace
func (p *Pool) take() any {
	St.PoolGets++
	mode, r := world.PoolP, wrnd()
	if p.n == 0 || mode == 0 {
		return nil
	}
	i := 0 // the last one put
	if mode == 2 {
		if r%4 == 0 { // a collection emptied the pool
			p.items, p.n = nil, 0
			St.PoolDropped++
			return nil
		}
		i = int((r >> 8) % uint64(p.n))
	}
	at := &p.items
	for ; i > 0; i-- {
		at = &(*at).next
	}
	it := *at
	*at = it.next
	p.n--
	St.PoolReused++
	it.hb.Add(1)
	return it.x
}

func (p *Pool) Get() any {
	YN(0)
	x := p.take()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.put(x)
	if !panicking() {
		YN(0)
	}
}

// Map is sync.Map with a switch around each operation and an iteration order
// the simulator decides.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) {
	YN(0)
	v, ok := m.m.Load(k)
	YN(0)
	return v, ok
}
func (m *Map) Store(k, v any) {
	YN(0)
	m.m.Store(k, v)
	YN(0)
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	YN(0)
	x, ok := m.m.LoadOrStore(k, v)
	YN(0)
	return x, ok
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	YN(0)
	x, ok := m.m.LoadAndDelete(k)
	YN(0)
	return x, ok
}
func (m *Map) Delete(k any) {
	YN(0)
	m.m.Delete(k)
	YN(0)
}
func (m *Map) Swap(k, v any) (any, bool) {
	YN(0)
	x, ok := m.m.Swap(k, v)
	YN(0)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	YN(0)
	ok := m.m.CompareAndSwap(k, o, n)
	YN(0)
	return ok
}
func (m *Map) CompareAndDelete(k, o any) bool {
	YN(0)
	ok := m.m.CompareAndDelete(k, o)
	YN(0)
	return ok
}
func (m *Map) Clear() {
	m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}
func (m *Map) Range(f func(k, v any) bool) {
	c := map[any]any{}
	m.m.Range(func(k, v any) bool { c[k] = v; return true })
	for _, k := range MapKeys(c) {
		if !f(k, c[k]) {
			return
		}
	}
}

// Initialisers of packages run before the first world is set up.
func init() {
	ResetWorld(World{Seed: 7, Clock: 1700000000000000000, Tick: 1000})
}
