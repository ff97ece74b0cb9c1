package vsched

import (
	"sync"
	"unsafe"
)

// Mutex is the controlled sync.Mutex.
type Mutex struct {
	gen    int
	locked bool
	mu     sync.Mutex
}

func (m *Mutex) fresh() {
	if m.gen != gen {
		// the lock was last used in an older execution whose threads are gone
		m.gen = gen
		m.locked = false
		m.mu = sync.Mutex{}
	}
}

func (m *Mutex) Lock() {
	if !active {
		m.mu.Lock()
		return
	}
	m.fresh()
	ex.wait("lock", func() bool { return !m.locked })
	m.locked = true
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	if !active {
		return m.mu.TryLock()
	}
	m.fresh()
	Point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	m.mu.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if !active {
		m.mu.Unlock()
		return
	}
	m.fresh()
	if !m.locked {
		if ex.killing {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.mu.Unlock()
}

// RWMutex is the controlled sync.RWMutex (writer preference is not modelled:
// a superset of the real schedules, except that a reader may always enter while
// no writer holds the lock).
type RWMutex struct {
	gen     int
	writer  bool
	readers int
	mu      sync.RWMutex
}

func (m *RWMutex) fresh() {
	if m.gen != gen {
		m.gen = gen
		m.writer = false
		m.readers = 0
		m.mu = sync.RWMutex{}
	}
}

func (m *RWMutex) Lock() {
	if !active {
		m.mu.Lock()
		return
	}
	m.fresh()
	ex.wait("lock", func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
	m.mu.Lock()
}

func (m *RWMutex) TryLock() bool {
	if !active {
		return m.mu.TryLock()
	}
	m.fresh()
	Point("trylock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.mu.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	if !active {
		m.mu.Unlock()
		return
	}
	m.fresh()
	if !m.writer {
		if ex.killing {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	if !active {
		m.mu.RLock()
		return
	}
	m.fresh()
	ex.wait("rlock", func() bool { return !m.writer })
	m.readers++
	m.mu.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if !active {
		return m.mu.TryRLock()
	}
	m.fresh()
	Point("tryrlock")
	if m.writer {
		return false
	}
	m.readers++
	m.mu.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if !active {
		m.mu.RUnlock()
		return
	}
	m.fresh()
	if m.readers == 0 {
		if ex.killing {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.mu.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup is the controlled sync.WaitGroup.
type WaitGroup struct {
	gen int
	n   int
	wg  sync.WaitGroup
}

func (w *WaitGroup) fresh() {
	if w.gen != gen {
		w.gen = gen
		w.n = 0
		w.wg = sync.WaitGroup{}
	}
}

func (w *WaitGroup) Add(delta int) {
	if !active {
		w.wg.Add(delta)
		return
	}
	w.fresh()
	if ex.killing {
		return
	}
	Point("wg.add")
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	raceRelease(unsafe.Pointer(w))
}

func (w *WaitGroup) Done() {
	if !active {
		w.wg.Done()
		return
	}
	w.Add(-1)
}

func (w *WaitGroup) Wait() {
	if !active {
		w.wg.Wait()
		return
	}
	w.fresh()
	ex.wait("wg.wait", func() bool { return w.n == 0 })
	raceAcquire(unsafe.Pointer(w))
}

// Once is the controlled sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		if active {
			Point("once")
			raceAcquire(unsafe.Pointer(o))
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			raceRelease(unsafe.Pointer(o))
			o.done = true
		}()
		f()
	}
}

// Cond is the controlled sync.Cond.
type Cond struct {
	L       sync.Locker
	waiters []*condWaiter
}

type condWaiter struct{ signalled bool }

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if !active {
		panic("vsched: Cond.Wait outside an execution")
	}
	w := &condWaiter{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	ex.wait("cond.wait", func() bool { return w.signalled })
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) Signal() {
	if active {
		Point("cond.signal")
	}
	raceRelease(unsafe.Pointer(c))
	for _, w := range c.waiters {
		if !w.signalled {
			w.signalled = true
			return
		}
	}
}

func (c *Cond) Broadcast() {
	if active {
		Point("cond.broadcast")
	}
	raceRelease(unsafe.Pointer(c))
	for _, w := range c.waiters {
		w.signalled = true
	}
}

// Pool is the controlled sync.Pool: LIFO, so that a buffer which was put back
// too early is handed out at once to the next Get.
type Pool struct {
	New   func() any
	gen   int
	items [64]poolItem
	n     int
	real  sync.Pool
}

type poolItem struct {
	v    any
	sync byte
}

func (p *Pool) Get() any {
	if active {
		if p.gen != gen {
			p.gen = gen
			for i := 0; i < p.n; i++ {
				p.items[i].v = nil
			}
			p.n = 0
		}
		Point("pool.get")
	}
	if p.n > 0 {
		p.n--
		it := &p.items[p.n]
		raceAcquire(unsafe.Pointer(&it.sync))
		v := it.v
		it.v = nil
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if active {
		if p.gen != gen {
			p.gen = gen
			for i := 0; i < p.n; i++ {
				p.items[i].v = nil
			}
			p.n = 0
		}
		Point("pool.put")
	}
	if p.n < len(p.items) {
		it := &p.items[p.n]
		p.n++
		raceRelease(unsafe.Pointer(&it.sync))
		it.v = v
	}
}

// Cell is an integer shared between harness threads without creating
// happens-before edges (it is invisible to the race detector).
type Cell struct{ v int64 }

func (c *Cell) Get() int64        { return c.v }
func (c *Cell) Set(v int64)       { c.v = v }
func (c *Cell) Add(d int64) int64 { c.v += d; return c.v }

// AwaitGE blocks the calling thread until the cell is at least v.
func (c *Cell) AwaitGE(v int64) {
	ex.wait("await", func() bool { return c.v >= v })
}

// Journal is an append-only list shared between harness threads without
// creating happens-before edges.
type Journal struct {
	buf [4096]string
	n   int
}

func (j *Journal) Add(s string) {
	if j.n < len(j.buf) {
		j.buf[j.n] = s
		j.n++
	}
}
func (j *Journal) Len() int { return j.n }
func (j *Journal) Items() []string {
	r := make([]string, j.n)
	for i := 0; i < j.n; i++ {
		r[i] = j.buf[i]
	}
	return r
}
