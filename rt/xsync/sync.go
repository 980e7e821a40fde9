// Package sync is the controlled replacement of the standard package.
package sync

import (
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	"unsafe"
)

// A Locker represents an object that can be locked and unlocked.
type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	o      mc.Obj
	epoch  uint32
	locked bool
}

func (m *Mutex) fresh() {
	if e := mc.Epoch(); m.epoch != e {
		m.epoch = e
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	if !mc.Live() {
		m.locked = true
		return
	}
	m.fresh()
	mc.Block("Mutex.Lock", func() bool { m.fresh(); return !m.locked })
	m.locked = true
	mc.TouchW(&m.o)
	mc.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if !mc.Live() {
		return true
	}
	mc.Point("Mutex.TryLock")
	m.fresh()
	mc.TouchW(&m.o)
	if m.locked {
		return false
	}
	m.locked = true
	mc.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if mc.Killing() {
		return
	}
	if !mc.Active() {
		m.locked = false
		return
	}
	m.fresh()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	mc.RaceRelease(unsafe.Pointer(m))
	mc.TouchW(&m.o)
	m.locked = false
}

type RWMutex struct {
	o       mc.Obj
	epoch   uint32
	writer  bool // held
	pending bool // a writer has announced itself
	readers int
	wv, rv  byte
}

func (m *RWMutex) fresh() {
	if e := mc.Epoch(); m.epoch != e {
		m.epoch = e
		m.writer, m.pending, m.readers = false, false, 0
	}
}

func (m *RWMutex) Lock() {
	if !mc.Live() {
		return
	}
	m.fresh()
	mc.Block("RWMutex.Lock", func() bool { m.fresh(); return !m.pending })
	mc.TouchW(&m.o)
	m.pending = true
	if m.readers > 0 {
		mc.Block("RWMutex.Lock (readers)", func() bool { return m.readers == 0 })
		mc.TouchW(&m.o)
	}
	m.writer = true
	mc.RaceAcquire(unsafe.Pointer(&m.wv))
	mc.RaceAcquire(unsafe.Pointer(&m.rv))
}

func (m *RWMutex) TryLock() bool {
	if !mc.Live() {
		return true
	}
	mc.Point("RWMutex.TryLock")
	m.fresh()
	mc.TouchW(&m.o)
	if m.pending || m.readers > 0 {
		return false
	}
	m.pending, m.writer = true, true
	mc.RaceAcquire(unsafe.Pointer(&m.wv))
	mc.RaceAcquire(unsafe.Pointer(&m.rv))
	return true
}

func (m *RWMutex) Unlock() {
	if mc.Killing() || !mc.Active() {
		return
	}
	m.fresh()
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	mc.RaceReleaseMerge(unsafe.Pointer(&m.wv))
	mc.TouchW(&m.o)
	m.writer, m.pending = false, false
}

func (m *RWMutex) RLock() {
	if !mc.Live() {
		return
	}
	m.fresh()
	mc.Block("RWMutex.RLock", func() bool { m.fresh(); return !m.pending })
	mc.TouchW(&m.o)
	m.readers++
	mc.RaceAcquire(unsafe.Pointer(&m.wv))
}

func (m *RWMutex) TryRLock() bool {
	if !mc.Live() {
		return true
	}
	mc.Point("RWMutex.TryRLock")
	m.fresh()
	mc.TouchW(&m.o)
	if m.pending {
		return false
	}
	m.readers++
	mc.RaceAcquire(unsafe.Pointer(&m.wv))
	return true
}

func (m *RWMutex) RUnlock() {
	if mc.Killing() || !mc.Active() {
		return
	}
	m.fresh()
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	mc.RaceReleaseMerge(unsafe.Pointer(&m.rv))
	mc.TouchW(&m.o)
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Cond struct {
	L     Locker
	o     mc.Obj
	epoch uint32
	q     []*cw
}

type cw struct{ woken bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) fresh() {
	if e := mc.Epoch(); c.epoch != e {
		c.epoch = e
		c.q = nil
	}
}

func (c *Cond) Wait() {
	mc.Live()
	mc.Point("Cond.Wait")
	c.fresh()
	w := &cw{}
	mc.TouchW(&c.o)
	c.q = mc.Append(c.q, w)
	c.L.Unlock()
	mc.Block("Cond.Wait", func() bool { return w.woken })
	mc.TouchW(&c.o)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !mc.Live() {
		return
	}
	mc.Point("Cond.Signal")
	c.fresh()
	mc.TouchW(&c.o)
	if len(c.q) > 0 {
		c.q[0].woken = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	if !mc.Live() {
		return
	}
	mc.Point("Cond.Broadcast")
	c.fresh()
	mc.TouchW(&c.o)
	for _, w := range c.q {
		w.woken = true
	}
	c.q = nil
}

// Once: state per process, not per execution, when its function has run to the
// end outside or inside an execution.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if !mc.Live() {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if !mc.Killing() {
				o.done = true
			}
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			if !mc.Killing() {
				p = recover()
				if !valid {
					panic(p)
				}
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { o(); return r1, r2 }
}

type WaitGroup struct {
	o     mc.Obj
	epoch uint32
	n     int
	v     byte
}

func (wg *WaitGroup) fresh() {
	if e := mc.Epoch(); wg.epoch != e {
		wg.epoch = e
		wg.n = 0
	}
}

func (wg *WaitGroup) Add(d int) {
	if mc.Killing() {
		return
	}
	wg.fresh()
	mc.Point("WaitGroup.Add")
	if d < 0 {
		mc.RaceReleaseMerge(unsafe.Pointer(&wg.v))
	}
	mc.TouchW(&wg.o)
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Wait() {
	if !mc.Live() {
		return
	}
	wg.fresh()
	mc.Block("WaitGroup.Wait", func() bool { return wg.n == 0 })
	mc.TouchR(&wg.o)
	mc.RaceAcquire(unsafe.Pointer(&wg.v))
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	mc.Go("WaitGroup.Go", func() {
		defer wg.Done()
		f()
	})
}

// Pool hands out the last value put back, so a value used after it was put
// back is soon in two hands.
type Pool struct {
	New   func() any
	o     mc.Obj
	epoch uint32
	l     []any
	v     byte
}

func (p *Pool) Get() any {
	mc.Live()
	if e := mc.Epoch(); p.epoch != e {
		p.epoch = e
		p.l = nil
	}
	mc.Point("Pool.Get")
	mc.TouchW(&p.o)
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		mc.RaceAcquire(unsafe.Pointer(&p.v))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil || mc.Killing() {
		return
	}
	if e := mc.Epoch(); p.epoch != e {
		p.epoch = e
		p.l = nil
	}
	mc.Point("Pool.Put")
	mc.TouchW(&p.o)
	mc.RaceReleaseMerge(unsafe.Pointer(&p.v))
	p.l = mc.Append(p.l, x)
}

// Map is a list in insertion order.
type Map struct {
	o  mc.Obj
	ks []any
	vs []any
	v  byte
}

func (m *Map) op(why string, w bool) {
	mc.Live()
	mc.Point(why)
	if w {
		mc.TouchW(&m.o)
	} else {
		mc.TouchR(&m.o)
	}
	mc.RaceAcquire(unsafe.Pointer(&m.v))
	if w {
		mc.RaceReleaseMerge(unsafe.Pointer(&m.v))
	}
}

func (m *Map) find(k any) int {
	for i := range m.ks {
		if m.ks[i] == k {
			return i
		}
	}
	return -1
}

func (m *Map) del(i int) {
	m.ks = mc.Without(m.ks, i)
	m.vs = mc.Without(m.vs, i)
}

func (m *Map) Load(k any) (any, bool) {
	m.op("Map.Load", false)
	if i := m.find(k); i >= 0 {
		return m.vs[i], true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.op("Map.Swap", true)
	if i := m.find(k); i >= 0 {
		p := m.vs[i]
		m.vs[i] = v
		return p, true
	}
	m.ks = mc.Append(m.ks, k)
	m.vs = mc.Append(m.vs, v)
	return nil, false
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op("Map.LoadOrStore", true)
	if i := m.find(k); i >= 0 {
		return m.vs[i], true
	}
	m.ks = mc.Append(m.ks, k)
	m.vs = mc.Append(m.vs, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op("Map.LoadAndDelete", true)
	if i := m.find(k); i >= 0 {
		v := m.vs[i]
		m.del(i)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op("Map.CompareAndSwap", true)
	if i := m.find(k); i >= 0 && m.vs[i] == o {
		m.vs[i] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.op("Map.CompareAndDelete", true)
	if i := m.find(k); i >= 0 && m.vs[i] == o {
		m.del(i)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.op("Map.Range", false)
	ks := mc.Append([]any(nil), m.ks...)
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.op("Map.Clear", true)
	m.ks, m.vs = nil, nil
}
