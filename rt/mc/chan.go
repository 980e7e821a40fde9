package mc

import (
	"runtime"
	"unsafe"
)

// Channels of the program keep their native type and identity; their state is
// kept here, in a table keyed by the channel's address and cleared for each
// execution. The semantics are those of the Go runtime: FIFO wait queues,
// direct hand-off, waiting senders refill a buffer.

type box struct {
	elem unsafe.Pointer
	rv   raceVar
}

type chanSt struct {
	obj    Obj
	capn   int
	closed bool
	buf    []*box
	slots  []raceVar
	head   int
	n      int
	recvq  waitq
	sendq  waitq
	crv    raceVar
}

type waitq struct{ first, last *sudog }

type sudog struct {
	g          *G
	next, prev *sudog
	q          *waitq
	b          *box
	sel        *Select
	idx        int
	ok         bool
	closedPan  bool
	arrive     raceVar
	done       raceVar
}

//go:norace
func (q *waitq) push(x *sudog) {
	x.q = q
	x.prev = q.last
	x.next = nil
	if q.last != nil {
		q.last.next = x
	} else {
		q.first = x
	}
	q.last = x
}

//go:norace
func (q *waitq) remove(x *sudog) {
	if x.q != q {
		return
	}
	if x.prev != nil {
		x.prev.next = x.next
	} else {
		q.first = x.next
	}
	if x.next != nil {
		x.next.prev = x.prev
	} else {
		q.last = x.prev
	}
	x.q, x.next, x.prev = nil, nil, nil
}

// ---- the table

const tabSize = 1 << 15

type tabEnt struct {
	key unsafe.Pointer
	ch  *chanSt
	obj *Obj
}

var (
	tab     [tabSize]tabEnt
	tabUsed [tabSize]uint16
	tabN    int
)

//go:norace
func tabClear() {
	for i := 0; i < tabN; i++ {
		tab[tabUsed[i]] = tabEnt{}
	}
	tabN = 0
}

//go:norace
func tabFind(p unsafe.Pointer) *tabEnt {
	h := uint64(uintptr(p)) * 0x9e3779b97f4a7c15
	i := uint32(h>>40) & (tabSize - 1)
	for {
		e := &tab[i]
		if e.key == p {
			return e
		}
		if e.key == nil {
			if tabN >= tabSize/2 {
				s.failNow("livelock", "livelock: too many objects", "synchronisation object table full", "")
			}
			e.key = p
			tabUsed[tabN] = uint16(i)
			tabN++
			return e
		}
		i = (i + 1) & (tabSize - 1)
	}
}

// ObjAt is the identity of the synchronisation object at address p.
//
//go:norace
func ObjAt(p unsafe.Pointer) *Obj {
	e := tabFind(p)
	if e.obj == nil {
		e.obj = new(Obj)
	}
	return e.obj
}

//go:norace
func chanAt(p unsafe.Pointer, capn int) *chanSt {
	e := tabFind(p)
	if e.ch == nil {
		st := &chanSt{capn: capn}
		k := capn
		if k > 4096 {
			k = 4096
			st.capn = k
		}
		st.buf = make([]*box, k)
		st.slots = make([]raceVar, k)
		e.ch = st
	}
	return e.ch
}

// ---- core operations, run by the baton holder

// wakeup completes x's operation (and its select).
//
//go:norace
func wakeup(x *sudog) {
	if x.sel != nil {
		for i := 0; i < len(x.sel.sgs); i++ {
			if y := x.sel.sgs[i]; y != nil && y.q != nil {
				y.q.remove(y)
			}
		}
		x.sel.fired = x
	} else if x.q != nil {
		x.q.remove(x)
	}
	x.g.woken = true
	RaceReleaseMerge(unsafe.Pointer(&x.done))
	// the operation is part of both histories
	g := x.g
	s.setHash(g, mix(mix(g.hash, s.cur.hash), uint64(x.idx)+31))
}

//go:norace
func (c *chanSt) canRecv() bool { return c.n > 0 || c.sendq.first != nil || c.closed }

//go:norace
func (c *chanSt) canSend() bool { return c.closed || c.n < c.capn || c.recvq.first != nil }

// partner picks which waiter completes: the runtime takes the first; which one
// arrived first is the schedule's doing.
//
//go:norace
func (q *waitq) partner() *sudog { return q.first }

//go:norace
func (c *chanSt) put(b *box) {
	i := c.head + c.n
	if i >= c.capn {
		i -= c.capn
	}
	c.buf[i] = b
	c.n++
	RaceAcquire(unsafe.Pointer(&c.slots[i]))
}

// doSend performs a send that can complete.
//
//go:norace
func (c *chanSt) doSend(b *box) {
	touchW(&c.obj, 21)
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	RaceReleaseMerge(unsafe.Pointer(&b.rv))
	if r := c.recvq.partner(); r != nil {
		r.b = b
		r.ok = true
		RaceAcquire(unsafe.Pointer(&r.arrive))
		wakeup(r)
		return
	}
	c.put(b)
}

// doRecv performs a receive that can complete.
//
//go:norace
func (c *chanSt) doRecv() (*box, bool) {
	touchW(&c.obj, 22)
	if c.n > 0 {
		b := c.buf[c.head]
		RaceAcquire(unsafe.Pointer(&b.rv))
		RaceReleaseMerge(unsafe.Pointer(&c.slots[c.head]))
		c.buf[c.head] = nil
		c.head++
		if c.head == c.capn {
			c.head = 0
		}
		c.n--
		if w := c.sendq.partner(); w != nil {
			c.put(w.b)
			wakeup(w)
		}
		return b, true
	}
	if w := c.sendq.partner(); w != nil {
		b := w.b
		RaceAcquire(unsafe.Pointer(&w.arrive))
		RaceAcquire(unsafe.Pointer(&b.rv))
		wakeup(w)
		return b, true
	}
	RaceAcquire(unsafe.Pointer(&c.crv))
	return nil, false
}

//go:norace
func (c *chanSt) doClose() {
	touchW(&c.obj, 23)
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	RaceReleaseMerge(unsafe.Pointer(&c.crv))
	for r := c.recvq.first; r != nil; r = c.recvq.first {
		r.b = nil
		r.ok = false
		wakeup(r)
	}
	for w := c.sendq.first; w != nil; w = c.sendq.first {
		w.closedPan = true
		wakeup(w)
	}
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

//go:norace
func recvCore(p unsafe.Pointer, capn int) (*box, bool) {
	if p == nil {
		blockForever("receive from nil channel")
	}
	c := chanAt(p, capn)
	Point("receive")
	if c.canRecv() {
		return c.doRecv()
	}
	g := s.cur
	x := &sudog{g: g}
	RaceReleaseMerge(unsafe.Pointer(&x.arrive))
	touchW(&c.obj, 24)
	c.recvq.push(x)
	g.woken = false
	g.chw.why = "channel receive"
	g.w = &g.chw
	s.park(g)
	RaceAcquire(unsafe.Pointer(&x.done))
	if x.b == nil {
		return nil, false
	}
	RaceAcquire(unsafe.Pointer(&x.b.rv))
	return x.b, x.ok
}

//go:norace
func sendCore(p unsafe.Pointer, capn int, b *box) {
	if p == nil {
		blockForever("send to nil channel")
	}
	c := chanAt(p, capn)
	Point("send")
	if c.canSend() {
		c.doSend(b)
		return
	}
	g := s.cur
	x := &sudog{g: g, b: b}
	RaceReleaseMerge(unsafe.Pointer(&x.arrive))
	RaceReleaseMerge(unsafe.Pointer(&b.rv))
	touchW(&c.obj, 25)
	c.sendq.push(x)
	g.woken = false
	g.chw.why = "channel send"
	g.w = &g.chw
	s.park(g)
	RaceAcquire(unsafe.Pointer(&x.done))
	if x.closedPan {
		panic(plainError("send on closed channel"))
	}
}

//go:norace
func blockForever(why string) {
	g := s.cur
	g.w = neverW{why}
	s.park(g)
}

// ---- typed operations

//go:norace
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { Send(ch, v) }
}

//go:norace
func Send[T any](ch chan<- T, v T) {
	if !Live() {
		ch <- v
		return
	}
	e := new(T)
	*e = v
	sendCore(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), &box{elem: unsafe.Pointer(e)})
}

//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:norace
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if !Live() {
		v, ok = <-ch
		return
	}
	b, ok := recvCore(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	if b != nil {
		v = *(*T)(b.elem)
	}
	return v, ok
}

//go:norace
func Close[T any](ch chan<- T) {
	if s.killing {
		return
	}
	if !s.active {
		close(ch)
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		panic(plainError("close of nil channel"))
	}
	c := chanAt(p, cap(ch))
	Point("close")
	c.doClose()
}

// CloseNow closes ch without a scheduling point (also from scheduler context).
//
//go:norace
func CloseNow[T any](ch chan<- T) {
	if !s.active || s.killing {
		return
	}
	chanAt(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)).doClose()
}

// TrySendNow sends without blocking or scheduling point.
//
//go:norace
func TrySendNow[T any](ch chan<- T, v T) bool {
	if !s.active || s.killing {
		return false
	}
	c := chanAt(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	if c.closed || !c.canSend() {
		return false
	}
	e := new(T)
	*e = v
	c.doSend(&box{elem: unsafe.Pointer(e)})
	return true
}

// DrainNow empties ch's buffer.
//
//go:norace
func DrainNow[T any](ch <-chan T) {
	if !s.active || s.killing {
		return
	}
	c := chanAt(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	for c.n > 0 {
		c.doRecv()
	}
}

//go:norace
func Len[T any](ch <-chan T) int {
	if !Live() {
		return len(ch)
	}
	if ch == nil {
		return 0
	}
	c := chanAt(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	Point("len(chan)")
	touchR(&c.obj, 26)
	return c.n
}

// ---- select

type Select struct {
	sgs   []*sudog
	chs   []*chanSt
	send  []bool
	def   bool
	fired *sudog
	n     int
}

//go:norace
func NewSelect(hasDefault bool) *Select {
	Live()
	return &Select{def: hasDefault}
}

// RecvCase is a receive case of a Select.
type RecvCase[T any] struct{ x *sudog }

//go:norace
func (r *RecvCase[T]) Get() (v T, ok bool) {
	if r.x.b != nil {
		v = *(*T)(r.x.b.elem)
	}
	return v, r.x.ok
}

//go:norace
func (r *RecvCase[T]) Val() T {
	v, _ := r.Get()
	return v
}

//go:norace
func (sel *Select) add(p unsafe.Pointer, capn int, b *box, send bool) *sudog {
	x := &sudog{g: s.cur, b: b, sel: sel, idx: len(sel.sgs)}
	var c *chanSt
	if p != nil {
		c = chanAt(p, capn)
	}
	sel.sgs = append(sel.sgs, x)
	sel.chs = append(sel.chs, c)
	sel.send = append(sel.send, send)
	return x
}

//go:norace
func SelRecv[T any](sel *Select, ch <-chan T) *RecvCase[T] {
	return &RecvCase[T]{sel.add(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), nil, false)}
}

//go:norace
func SelSend[T any](sel *Select, ch chan<- T) func(T) {
	return func(v T) {
		e := new(T)
		*e = v
		sel.add(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), &box{elem: unsafe.Pointer(e)}, true)
	}
}

// Wait performs the select and returns the index of the case, -1 for default.
//
//go:norace
func (sel *Select) Wait() int {
	if !Live() {
		panic("select outside an execution")
	}
	Point("select")
	nr := 0
	for i := 0; i < len(sel.chs); i++ {
		if c := sel.chs[i]; c != nil && (sel.send[i] && c.canSend() || !sel.send[i] && c.canRecv()) {
			nr++
		}
	}
	if nr > 0 {
		k := 0
		if nr > 1 {
			k = Deviate(nr)
		}
		for i := 0; i < len(sel.chs); i++ {
			c := sel.chs[i]
			if c == nil || !(sel.send[i] && c.canSend() || !sel.send[i] && c.canRecv()) {
				continue
			}
			if k > 0 {
				k--
				continue
			}
			// not choosing the others depended on their state
			for j := 0; j < len(sel.chs); j++ {
				if j != i && sel.chs[j] != nil {
					touchR(&sel.chs[j].obj, 27)
				}
			}
			if sel.send[i] {
				c.doSend(sel.sgs[i].b)
			} else {
				sel.sgs[i].b, sel.sgs[i].ok = c.doRecv()
			}
			return i
		}
	}
	for j := 0; j < len(sel.chs); j++ {
		if sel.chs[j] != nil {
			if sel.def {
				touchR(&sel.chs[j].obj, 28)
			} else {
				touchW(&sel.chs[j].obj, 29)
			}
		}
	}
	if sel.def {
		return -1
	}
	g := s.cur
	any := false
	for i := 0; i < len(sel.chs); i++ {
		c := sel.chs[i]
		if c == nil {
			continue
		}
		any = true
		x := sel.sgs[i]
		RaceReleaseMerge(unsafe.Pointer(&x.arrive))
		if sel.send[i] {
			RaceReleaseMerge(unsafe.Pointer(&x.b.rv))
			c.sendq.push(x)
		} else {
			c.recvq.push(x)
		}
	}
	if !any {
		blockForever("select with no cases")
	}
	g.woken = false
	g.chw.why = "select"
	g.w = &g.chw
	s.park(g)
	x := sel.fired
	RaceAcquire(unsafe.Pointer(&x.done))
	if x.closedPan {
		panic(plainError("send on closed channel"))
	}
	if !sel.send[x.idx] && x.b != nil {
		RaceAcquire(unsafe.Pointer(&x.b.rv))
	}
	return x.idx
}

// Goexit for rewritten runtime.Goexit.
func Goexit() { runtime.Goexit() }
