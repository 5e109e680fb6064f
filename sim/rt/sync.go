package rt

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"
	"unsafe"
)

// --------------------------------------------------
// sync.Pool

type poolItem struct {
	mu sync.Mutex // orders Put before Get, as the real pool does
	x  interface{}
}

// Pool stands in for sync.Pool. Which item is reused, and whether any is, is
// the scheduler's choice.
type Pool struct {
	New   func() interface{}
	items [64]*poolItem
	n     int
	epoch uint64
}

// The items aren't allocated when they're needed: the allocation would be a
// write that isn't ordered before the use by other tasks.
var (
	poolSlab [1 << 14]poolItem
	poolNext int
)

//go:norace
func nextItem() *poolItem {
	it := &poolSlab[poolNext%len(poolSlab)]
	poolNext++
	return it
}

//go:norace
func (p *Pool) take() *poolItem {
	k := K
	if p.epoch != k.epoch {
		p.n = 0
		p.epoch = k.epoch
	}
	k.PoolGets++
	if p.n == 0 || k.cfg.PoolMode == PoolFresh {
		return nil
	}
	if k.cfg.PoolDrop > 0 && splitmix(&k.poolRng)%uint64(k.cfg.PoolDrop) == 0 {
		k.PoolEvict++
		p.n = 0
		return nil
	}
	i := p.n - 1
	switch k.cfg.PoolMode {
	case PoolFIFO:
		i = 0
	case PoolRandom:
		i = int(splitmix(&k.poolRng) % uint64(p.n))
	}
	it := p.items[i]
	for j := i; j+1 < p.n; j++ {
		p.items[j] = p.items[j+1]
	}
	p.n--
	p.items[p.n] = nil
	k.PoolReuse++
	return it
}

//go:norace
func (p *Pool) give(it *poolItem) {
	k := K
	if p.epoch != k.epoch {
		p.n = 0
		p.epoch = k.epoch
	}
	if p.n < len(p.items) {
		p.items[p.n] = it
		p.n++
	}
}

func (p *Pool) Get() interface{} {
	Point(SitePoolGet)
	it := p.take()
	if it != nil {
		it.mu.Lock()
		x := it.x
		it.mu.Unlock()
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	it := nextItem()
	it.mu.Lock()
	it.x = x
	it.mu.Unlock()
	p.give(it)
	Point(SitePoolPut)
}

// --------------------------------------------------
// Locks

// Mutex stands in for sync.Mutex. The embedded real mutex is never contended;
// it carries the happens-before edges for the race detector.
type Mutex struct {
	locked bool
	real   sync.Mutex
}

//go:norace
func (m *Mutex) Lock() {
	Point(SiteLock)
	for m.locked {
		Block(uintptr(unsafe.Pointer(m)))
	}
	m.locked = true
	m.real.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	Point(SiteLock)
	if m.locked {
		return false
	}
	m.locked = true
	m.real.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.real.Unlock()
	m.locked = false
	Wake(uintptr(unsafe.Pointer(m)))
	if !K.aborting {
		Point(SiteLock)
	}
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	w       bool
	waiting int
	readers int
	real    sync.RWMutex
}

//go:norace
func (m *RWMutex) Lock() {
	Point(SiteLock)
	m.waiting++
	for m.w || m.readers > 0 {
		Block(uintptr(unsafe.Pointer(m)))
	}
	m.waiting--
	m.w = true
	m.real.Lock()
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.real.Unlock()
	m.w = false
	Wake(uintptr(unsafe.Pointer(m)))
	if !K.aborting {
		Point(SiteLock)
	}
}

//go:norace
func (m *RWMutex) RLock() {
	Point(SiteLock)
	for m.w || m.waiting > 0 {
		Block(uintptr(unsafe.Pointer(m)))
	}
	m.readers++
	m.real.RLock()
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	m.readers--
	Wake(uintptr(unsafe.Pointer(m)))
	if !K.aborting {
		Point(SiteLock)
	}
}

//go:norace
func (m *RWMutex) TryLock() bool {
	Point(SiteLock)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.real.Lock()
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	Point(SiteLock)
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	m.real.RLock()
	return true
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	n  int
	mu sync.Mutex
}

//go:norace
func (wg *WaitGroup) Add(d int) {
	wg.mu.Lock()
	wg.n += d
	wg.mu.Unlock()
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		Wake(uintptr(unsafe.Pointer(wg)))
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

//go:norace
func (wg *WaitGroup) Wait() {
	Point(SiteLock)
	for wg.n > 0 {
		Block(uintptr(unsafe.Pointer(wg)))
	}
	wg.mu.Lock()
	wg.mu.Unlock()
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	Go(func() {
		defer wg.Done()
		f()
	})
}

// Cond stands in for sync.Cond.
type Cond struct {
	L   sync.Locker
	seq uint64
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	s := c.seq
	c.L.Unlock()
	for c.seq == s {
		Block(uintptr(unsafe.Pointer(c)))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Broadcast() {
	c.seq++
	Wake(uintptr(unsafe.Pointer(c)))
}

func (c *Cond) Signal() { c.Broadcast() }

// --------------------------------------------------
// Channels

// Send stands in for a send statement.
func Send[T any](ch chan<- T, v T) {
	if !Running() {
		ch <- v
		return
	}
	for {
		select {
		case ch <- v:
			Wake(chanKey)
			Point(SiteLock)
			return
		default:
		}
		Block(chanKey)
	}
}

// Recv stands in for a receive expression.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 stands in for a receive expression with two results.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Running() {
		v, ok := <-ch
		return v, ok
	}
	for {
		select {
		case v, ok := <-ch:
			Wake(chanKey)
			Point(SiteLock)
			return v, ok
		default:
		}
		Block(chanKey)
	}
}

// Close stands in for close.
func Close[T any](ch chan<- T) {
	close(ch)
	Wake(chanKey)
}

// All channel operations share one key; woken tasks try again.
const chanKey uintptr = 1

// --------------------------------------------------
// Map iteration

// It iterates over a map in an order that the seed decides.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
}

func less(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case int:
		if y, ok := b.(int); ok {
			return x < y
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// MapIter returns an iterator over the map.
func MapIter[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	it := &It[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for key := range m {
		it.keys = append(it.keys, key)
	}
	sort.Slice(it.keys, func(i, j int) bool { return less(it.keys[i], it.keys[j]) })
	for i := len(it.keys) - 1; i > 0; i-- {
		j := int(mapRand() % uint64(i+1))
		it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
	}
	return it
}

//go:norace
func mapRand() uint64 { return splitmix(&K.mapRng) }

// Next moves to the next entry that is still in the map.
func (it *It[K, V]) Next() bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		if v, ok := it.m[key]; ok {
			it.K, it.V = key, v
			return true
		}
	}
	return false
}

// --------------------------------------------------
// Time and randomness

var epoch0 = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time                  { return epoch0.Add(time.Duration(Clock())) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { SleepFor(int64(d)) }
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() {
		SleepFor(int64(d))
		Send(ch, Now())
	})
	return ch
}

type rngSource struct{}

func (rngSource) Int63() int64    { return int64(mapRand() >> 1) }
func (rngSource) Uint64() uint64  { return mapRand() }
func (rngSource) Seed(seed int64) {}

var theRand = rand.New(rngSource{})

// Rand stands in for math/rand's top-level functions.
func Rand() *rand.Rand { return theRand }

// --------------------------------------------------
// Package-level state of the code under test

var (
	resets  []func()
	inits   []globalInit
	setters = map[int]func(interface{}){}
)

type globalInit struct {
	id int
	f  func() interface{}
}

// Init returns the initial value of a package-level variable and remembers how
// to compute it again.
func Init[T any](id int, f func() T) T {
	inits = append(inits, globalInit{id, func() interface{} { return f() }})
	return f()
}

// OnReinit registers the function that sets the package-level variable.
func OnReinit(id int, set func(interface{})) { setters[id] = set }

// OnReset registers a function that sets package-level variables to their
// initial values.
func OnReset(f func()) { resets = append(resets, f) }

// Zero sets the variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ResetGlobals sets the package-level variables of the code under test to
// their initial values.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
	for _, g := range inits {
		if set := setters[g.id]; set != nil {
			set(g.f())
		}
	}
}
