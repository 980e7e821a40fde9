// Package mc is a controlled scheduler for Go programs: every goroutine of the
// program under test runs as a real goroutine, but only one at a time, and at
// every synchronisation operation the scheduler decides which one goes on.
// The explorer (explore.go) enumerates those decisions.
//
// All state here is touched only by the goroutine that currently holds the
// baton. The package is compiled without race instrumentation (the driver
// passes -race=0 for it), and avoids maps and append on shared state, so that
// in a race-detector build the baton hand-offs neither create happens-before
// edges nor show up as accesses (see race_on.go).
package mc

import (
	"fmt"
	"runtime"
	"strings"
	"time"
	"unsafe"
)

const (
	maxG      = 600
	maxPoints = 1 << 17
	maxTimers = 4096
	fairRun   = 400
	maxHold   = 500 // steps
)

// waiter is a pending operation of a goroutine.
type waiter interface {
	ready(g *G) bool
	String() string
}

// G is a controlled goroutine.
type G struct {
	path   []uint16
	id     uint64
	nspawn uint16
	wake   chan struct{}
	w      waiter
	hash   uint64
	name   string
	fn     func()
	exited chan struct{}
	run    int    // consecutive steps
	objs   uint32 // counter of objects created by this goroutine
	woken  bool   // set by the partner of a blocked channel operation
	chw    chanW
	bw     blockW
	rv     unsafe.Pointer // race var to acquire at start (timer goroutines)
	failed bool
	last   bool // held back until nothing else can run
}

func (g *G) String() string { return fmt.Sprintf("g%v(%s)", g.path, g.name) }

// Obj is a synchronisation object's identity in the happens-before hash.
type Obj struct {
	epoch uint32
	wh    uint64
	rh    uint64
}

type failure struct {
	Kind  string `json:"kind"` // panic, assert, hang, leak, livelock, race
	Sig   string `json:"sig"`  // signature, stable across schedules
	Msg   string `json:"msg"`
	Stack string `json:"stack,omitempty"`
}

type point struct {
	n      uint16 // alternatives
	chosen uint16
	kind   uint8 // see choice
	cost   uint8 // deviations spent before this point
}

const (
	kSched = iota // alternatives cost one deviation
	kFree         // free choice
	kDev          // environment deviation, costs one
)

type sched struct {
	active  bool
	killing bool
	epoch   uint32
	gs      [maxG]*G
	en      [maxG]*G
	ng      int
	cur     *G
	h       uint64 // xor over all goroutines of mix(id, hash)
	lasth   uint64 // the same over those held back
	nlast   int
	holdEnd int // when the last hold ends
	root    *G
	rootEnd bool
	steps   int
	horizon int
	nspawnd int
	now     int64
	clock   Obj
	timers  [maxTimers]*timer
	ntimers int
	pts     [maxPoints]point
	npts    int
	prefix  []uint16
	cost    int
	bound   int
	shard   int
	nshards int

	splitChoose bool
	timerRace   bool
	mapOrder    bool
	noHold      bool
	maxClock    int64

	cache   *cache
	pruned  bool
	fail    *failure
	diverge string
	over    chan struct{}
	t       *T
	trace   bool
	grv     raceVar // orders executions for the race detector
	seqno   uint64
}

var s = &sched{}

// Active reports whether the caller runs under the scheduler.
//
//go:norace
func Active() bool { return s.active }

// Epoch identifies the execution; synchronisation objects that outlive one
// execution reset themselves when it changes.
//
//go:norace
func Epoch() uint32 { return s.epoch }

// Killing reports whether the execution is being torn down.
//
//go:norace
func Killing() bool { return s.killing }

// Live is Active, except that during tear-down it ends the calling goroutine.
//
//go:norace
func Live() bool {
	if s.killing {
		runtime.Goexit()
	}
	return s.active
}

//go:norace
func mix(a, b uint64) uint64 {
	x := a ^ (b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2))
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

//go:norace
func hashStr(v string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(v); i++ {
		h ^= uint64(v[i])
		h *= 1099511628211
	}
	return h
}

//go:norace
func (s *sched) setHash(g *G, nh uint64) {
	s.h ^= mix(g.id, g.hash)
	g.hash = nh
	s.h ^= mix(g.id, nh)
}

//go:norace
func (o *Obj) fresh() {
	if o.epoch != s.epoch {
		o.epoch = s.epoch
		o.wh = 0
		o.rh = 0
		g := s.cur
		if g != nil {
			g.objs++
			o.wh = mix(g.hash, uint64(g.objs)+77)
		}
	}
}

// touchW records a write-type operation of the current goroutine on o.
//
//go:norace
func touchW(o *Obj, code uint64) {
	g := s.cur
	if g == nil || !s.active {
		return
	}
	o.fresh()
	nh := mix(mix(mix(g.hash, o.wh), o.rh), code)
	s.setHash(g, nh)
	o.wh = nh
	o.rh = 0
}

// touchR records a read-type operation of the current goroutine on o.
//
//go:norace
func touchR(o *Obj, code uint64) {
	g := s.cur
	if g == nil || !s.active {
		return
	}
	o.fresh()
	nh := mix(mix(g.hash, o.wh), code+1)
	s.setHash(g, nh)
	o.rh ^= nh
}

// lessPath orders goroutines canonically.
//
//go:norace
func lessPath(a, b []uint16) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

//go:norace
func (s *sched) newG(path []uint16, name string, fn func()) *G {
	g := &G{path: path, name: name, fn: fn, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1)}
	id := uint64(len(path))*0x9e3779b97f4a7c15 + 1
	for i := 0; i < len(path); i++ {
		id = mix(id, uint64(path[i])+3)
	}
	g.id = id
	g.hash = id
	g.w = runW{"start"}
	if s.ng >= maxG-1 {
		s.failNow("livelock", "livelock: too many goroutines", "more than 600 goroutines alive at once", "")
	}
	i := s.ng
	for i > 0 && lessPath(path, s.gs[i-1].path) {
		s.gs[i] = s.gs[i-1]
		i--
	}
	s.gs[i] = g
	s.ng++
	s.h ^= mix(g.id, g.hash)
	return g
}

//go:norace
func (s *sched) removeG(g *G) {
	for i := 0; i < s.ng; i++ {
		if s.gs[i] == g {
			for j := i; j+1 < s.ng; j++ {
				s.gs[j] = s.gs[j+1]
			}
			s.ng--
			s.gs[s.ng] = nil
			return
		}
	}
}

type runW struct{ why string }

func (runW) ready(*G) bool    { return true }
func (w runW) String() string { return w.why }

type neverW struct{ why string }

func (neverW) ready(*G) bool    { return false }
func (n neverW) String() string { return n.why }

// chanW waits for a partner to complete the operation.
type chanW struct{ why string }

//go:norace
func (*chanW) ready(g *G) bool  { return g.woken }
func (w *chanW) String() string { return w.why }

// Go starts a controlled goroutine.
//
//go:norace
func Go(site string, fn func()) {
	if !s.active {
		go fn() // package initialisation
		return
	}
	if s.killing {
		return
	}
	s.spawnFrom(s.cur, site, fn)
	Point("go")
}

//go:norace
func (s *sched) childPath(parent *G) []uint16 {
	p := make([]uint16, len(parent.path)+1)
	for i := 0; i < len(parent.path); i++ {
		p[i] = parent.path[i]
	}
	parent.nspawn++
	p[len(parent.path)] = parent.nspawn
	return p
}

//go:norace
func (s *sched) spawnFrom(parent *G, site string, fn func()) *G {
	path := s.childPath(parent)
	g := s.newG(path, site, fn)
	s.setHash(parent, mix(parent.hash, g.id))
	s.setHash(g, mix(g.hash, parent.hash))
	s.nspawnd++
	go g.main()
	return g
}

//go:norace
func (g *G) main() {
	handoffWait(g.wake)
	if s.killing {
		handoffWake(g.exited)
		return
	}
	if g.rv != nil {
		RaceAcquire(g.rv)
	}
	if g == s.root {
		RaceAcquire(unsafe.Pointer(&s.grv))
	}
	normal := false
	defer g.epilogue(&normal)
	g.fn()
	normal = true
}

//go:norace
func (g *G) epilogue(normal *bool) {
	if s.killing {
		recover()
		RaceReleaseMerge(unsafe.Pointer(&s.grv))
		handoffWake(g.exited)
		return
	}
	if !*normal {
		if r := recover(); r != nil {
			buf := make([]byte, 32<<10)
			buf = buf[:runtime.Stack(buf, false)]
			msg := fmt.Sprint(r)
			s.fail = &failure{Kind: "panic", Sig: "panic: " + firstLine(msg) + " in " + panicSite(string(buf)), Msg: fmt.Sprintf("panic in goroutine %v: %v", g, msg), Stack: string(buf)}
			s.removeG(g)
			RaceReleaseMerge(unsafe.Pointer(&s.grv))
			s.end()
			return
		}
	}
	// pass the baton
	s.removeG(g)
	if g == s.root {
		s.rootEnd = true
	}
	if s.trace {
		s.tracef("%v ends", g)
	}
	RaceReleaseMerge(unsafe.Pointer(&s.grv))
	next := s.pick(nil, g)
	if next == nil {
		s.end()
		return
	}
	s.cur = next
	handoffWake(next.wake)
}

func (s *sched) tracef(f string, a ...any) {
	fmt.Printf("  [%d t=%v] "+f+"\n", append([]any{s.steps, time.Duration(s.now)}, a...)...)
}

// end reports the end of the execution to the explorer.
//
//go:norace
func (s *sched) end() {
	s.cur = nil
	handoffWake(s.over)
}

// failNow records a failure and ends the execution; the caller's goroutine
// stays parked until it is killed.
//
//go:norace
func (s *sched) failNow(kind, sig, msg, stack string) {
	if s.killing {
		runtime.Goexit()
	}
	if s.fail == nil {
		s.fail = &failure{Kind: kind, Sig: sig, Msg: msg, Stack: stack}
	}
	s.halt(s.cur, "failed")
}

// halt ends the execution from goroutine g.
//
//go:norace
func (s *sched) halt(g *G, why string) {
	if g == nil {
		s.end()
		return
	}
	g.w = neverW{why}
	s.end()
	handoffWait(g.wake)
	runtime.Goexit()
}

// Point is a scheduling point before an operation that cannot block.
//
//go:norace
func Point(op string) {
	if !s.active {
		return
	}
	g := s.cur
	g.w = runW{op}
	s.park(g)
}

// park gives up the baton until g's pending operation g.w is chosen.
//
//go:norace
func (s *sched) park(g *G) {
	if s.killing {
		runtime.Goexit()
	}
	s.steps++
	s.setHash(g, mix(g.hash, 5))
	if s.trace {
		s.tracef("%v before %v", g, g.w)
	}
	if s.steps > s.horizon {
		s.failNow("livelock", "livelock: step horizon", fmt.Sprintf("no quiescence after %d steps (running %v at %v)", s.horizon, g, g.w), "")
	}
	next := s.pick(g, g)
	if next == g {
		return
	}
	if next == nil {
		s.end()
	} else {
		if s.trace {
			s.tracef("-> %v", next)
		}
		s.cur = next
		handoffWake(next.wake)
	}
	handoffWait(g.wake)
	if s.killing {
		runtime.Goexit()
	}
}

// pick chooses the next goroutine to run. self is the parking goroutine (nil
// if it is finishing), from the one that was running.
//
//go:norace
func (s *sched) pick(self, from *G) *G {
	for {
		en := &s.en
		n := 0
		// default: the running goroutine if it can go on; then the others in
		// cyclic canonical order after it.
		start := 0
		for start < s.ng && lessPath(s.gs[start].path, from.path) {
			start++
		}
		selfReady := self != nil && self.w.ready(self)
		if s.nlast > 0 && (s.steps > s.holdEnd || selfReady && self.run >= fairRun) {
			s.letGo(nil)
		}
		if selfReady && self.run < fairRun {
			en[0] = self
			n = 1
		}
		for k := 0; k < s.ng; k++ {
			j := start + k
			if j >= s.ng {
				j -= s.ng
			}
			c := s.gs[j]
			if c == self || c.last {
				continue
			}
			if c.w.ready(c) {
				en[n] = c
				n++
			}
		}
		active := n
		for k := 0; k < s.ng && s.nlast > 0; k++ {
			j := start + k
			if j >= s.ng {
				j -= s.ng
			}
			c := s.gs[j]
			if c != self && c.last && c.w.ready(c) {
				en[n] = c
				n++
			}
		}
		if selfReady && self.run >= fairRun {
			en[n] = self
			n++
			self.run = 0
		}
		if n == 0 {
			if g := s.settled(); g != nil {
				g.run = 0
				return g
			}
			if s.fireTimer() {
				continue
			}
			return nil // quiescent
		}
		alts := n
		hold := active > 0 && n > 1 && !s.noHold
		if hold {
			alts++ // en[0] is held back
		}
		tr := false
		if s.timerRace && s.timerPending() {
			alts++
			tr = true
		}
		c := 0
		if alts > 1 {
			c = s.choice(alts, kSched, from)
			if c < 0 {
				return nil
			}
		}
		if tr && c == alts-1 {
			s.fireTimer()
			continue
		}
		if c == n {
			g := en[0]
			g.last = true
			s.nlast++
			s.holdEnd = s.steps + maxHold
			s.lasth ^= mix(g.id, 77)
			g.run = 0
			c = 1
		}
		g := en[c]
		if g.last {
			s.letGo(g)
		}
		if g == self {
			g.run++
		} else {
			g.run = 0
		}
		return g
	}
}

// letGo ends the holding back of g, or of all.
//
//go:norace
func (s *sched) letGo(g *G) {
	if s.nlast == 0 {
		return
	}
	for i := 0; i < s.ng; i++ {
		if c := s.gs[i]; c.last && (g == nil || g == c) {
			c.last = false
			s.nlast--
			s.lasth ^= mix(c.id, 77)
		}
	}
}

// choice is one decision of the explorer. Returns -1 if the execution is to be
// pruned.
//
//go:norace
func (s *sched) choice(n int, kind uint8, from *G) int {
	i := s.npts
	if i >= maxPoints {
		s.fail = &failure{Kind: "livelock", Sig: "livelock: too many decisions", Msg: "decision array full"}
		return -1
	}
	c := 0
	if i < len(s.prefix) {
		c = int(s.prefix[i])
		if c >= n {
			s.diverge = fmt.Sprintf("decision %d: choice %d of %d", i, c, n)
			s.pruned = true
			return -1
		}
	} else {
		if s.splitChoose && i == 0 && kind == kFree {
			c = s.shard
			if c >= n {
				s.pruned = true
				return -1
			}
		}
		if s.cache != nil {
			key := mix(s.h^s.lasth, mix(uint64(s.now)+1, uint64(kind)+uint64(n)<<8))
			if from != nil {
				key = mix(key, from.id)
			}
			if s.rootEnd {
				key = mix(key, 99)
			}
			if s.cache.visit(key, uint8(s.bound-s.cost)) {
				s.pruned = true
				return -1
			}
		}
	}
	s.pts[i] = point{n: uint16(n), chosen: uint16(c), kind: kind, cost: uint8(s.cost)}
	s.npts++
	if c > 0 && kind != kFree {
		s.cost++
	}
	if s.trace {
		s.tracef("decision %d: %d of %d (kind %d)", i, c, n, kind)
	}
	return c
}

// Choose asks the explorer for one of n values; all are explored.
//
//go:norace
func Choose(n int) int { return chooseKind(n, kFree) }

// Deviate asks the explorer for one of n values; values other than 0 count
// against the deviation bound.
//
//go:norace
func Deviate(n int) int { return chooseKind(n, kDev) }

//go:norace
func chooseKind(n int, kind uint8) int {
	if !s.active || n <= 1 {
		return 0
	}
	if s.killing {
		runtime.Goexit()
	}
	g := s.cur
	c := s.choice(n, kind, g)
	if c < 0 {
		s.halt(g, "pruned")
	}
	s.setHash(g, mix(g.hash, uint64(c)+1000))
	return c
}

// Yield is a scheduling point at which the caller lets the others go first.
//
//go:norace
func Yield() {
	if !s.active {
		return
	}
	g := s.cur
	g.w = runW{"yield"}
	g.run = fairRun
	s.park(g)
}

type blockW struct {
	why string
	f   func() bool
}

//go:norace
func (b *blockW) ready(*G) bool  { return b.f() }
func (b *blockW) String() string { return b.why }

// Block is a scheduling point at which the calling goroutine waits until
// ready() holds. The caller then acts atomically and records the action with
// TouchW or TouchR.
//
//go:norace
func Block(why string, ready func() bool) {
	if !s.active {
		return
	}
	g := s.cur
	g.bw.why = why
	g.bw.f = ready
	g.w = &g.bw
	s.park(g)
}

// TouchW and TouchR record an operation on o for the happens-before hash.
//
//go:norace
func TouchW(o *Obj) { touchW(o, 11) }

//go:norace
func TouchR(o *Obj) { touchR(o, 12) }

// NoteValue mixes a value into the running goroutine's history (for values
// that are not a function of the recorded operations).
//
//go:norace
func NoteValue(v uint64) {
	if g := s.cur; g != nil && s.active {
		s.setHash(g, mix(g.hash, v))
	}
}

// CurKey is a number that identifies the current point of the current
// goroutine's history canonically.
//
//go:norace
func CurKey() uint64 {
	g := s.cur
	if g == nil {
		s.seqno++
		return s.seqno
	}
	g.objs++
	return mix(g.hash, uint64(g.objs))
}

// ---- virtual time

type timer struct {
	when  int64
	seq   uint64
	fire  func() // runs in scheduler context, must not block
	nfire uint16
	armed bool
	owner uint64
	rv    raceVar
}

//go:norace
func timerLess(a, b *timer) bool {
	if a.when != b.when {
		return a.when < b.when
	}
	if a.owner != b.owner {
		return a.owner < b.owner
	}
	return a.seq < b.seq
}

//go:norace
func (s *sched) addTimer(t *timer) {
	if s.ntimers >= maxTimers {
		s.failNow("livelock", "livelock: too many timers", "too many timers", "")
	}
	t.armed = true
	s.timers[s.ntimers] = t
	s.ntimers++
}

//go:norace
func (s *sched) delTimer(t *timer) bool {
	if !t.armed {
		return false
	}
	t.armed = false
	for i := 0; i < s.ntimers; i++ {
		if s.timers[i] == t {
			s.timers[i] = s.timers[s.ntimers-1]
			s.timers[s.ntimers-1] = nil
			s.ntimers--
			return true
		}
	}
	return false
}

//go:norace
func (s *sched) timerPending() bool {
	return s.ntimers > 0 && s.earliest().when <= s.maxClock
}

//go:norace
func (s *sched) earliest() *timer {
	var best *timer
	for i := 0; i < s.ntimers; i++ {
		if best == nil || timerLess(s.timers[i], best) {
			best = s.timers[i]
		}
	}
	return best
}

// fireTimer advances the clock to the earliest timer and fires it.
//
//go:norace
func (s *sched) fireTimer() bool {
	if s.ntimers == 0 || s.fail != nil {
		return false
	}
	t := s.earliest()
	if t.when > s.maxClock {
		return false
	}
	s.steps++
	if s.steps > s.horizon {
		if s.fail == nil {
			s.fail = &failure{Kind: "livelock", Sig: "livelock: step horizon (timers)", Msg: "timers keep firing"}
		}
		return false
	}
	s.delTimer(t)
	if t.when > s.now {
		s.now = t.when
	}
	if s.trace {
		s.tracef("timer fires")
	}
	// the firing is the act of a pseudo goroutine of its own
	t.nfire++
	var pg G
	pg.id = mix(mix(t.owner, t.seq), uint64(t.nfire))
	pg.hash = mix(pg.id, 17)
	s.h ^= mix(pg.id, pg.hash)
	save := s.cur
	s.cur = &pg
	touchW(&s.clock, 9)
	t.fire()
	s.cur = save
	return true
}

// SchedTimer is a one-shot timer; its function runs in scheduler context.
type SchedTimer struct{ t timer }

//go:norace
func (st *SchedTimer) Arm(d time.Duration, fire func()) {
	if !s.active || s.killing {
		return
	}
	s.delTimer(&st.t)
	w := s.now + int64(d)
	if d > 0 && w < s.now {
		w = 1<<63 - 1
	}
	if d < 0 {
		w = s.now
	}
	st.t.when = w
	st.t.fire = fire
	g := s.cur
	if g != nil {
		touchR(&s.clock, 8)
		g.objs++
		st.t.owner = mix(g.hash, uint64(g.objs))
		st.t.seq = uint64(g.objs)
	}
	RaceReleaseMerge(unsafe.Pointer(&st.t.rv))
	s.addTimer(&st.t)
}

//go:norace
func (st *SchedTimer) Stop() bool {
	if !s.active || s.killing {
		return false
	}
	return s.delTimer(&st.t)
}

// RaceVar is the address the arming and the fired function synchronise on.
//
//go:norace
func (st *SchedTimer) RaceVar() unsafe.Pointer { return unsafe.Pointer(&st.t.rv) }

// Now is the virtual clock.
//
//go:norace
func Now() int64 {
	if !s.active {
		return 0
	}
	touchR(&s.clock, 3)
	return s.now
}

// NowQuiet is the clock without a recorded operation.
//
//go:norace
func NowQuiet() int64 { return s.now }

// Spawn starts a goroutine from a timer's function.
//
//go:norace
func (st *SchedTimer) Spawn(site string, fn func()) {
	if s.killing {
		return
	}
	g := SpawnNow(site, fn)
	g.rv = unsafe.Pointer(&st.t.rv)
}

// SpawnNow starts a goroutine without a scheduling point, from goroutine or
// scheduler context.
//
//go:norace
func SpawnNow(site string, fn func()) *G {
	p := s.cur
	if p.path != nil {
		return s.spawnFrom(p, site, fn)
	}
	o := p.id
	p.nspawn++
	path := []uint16{0xfffe, uint16(o >> 48), uint16(o >> 32), uint16(o >> 16), uint16(o), p.nspawn}
	g := s.newG(path, site, fn)
	s.setHash(g, mix(g.hash, p.hash))
	s.nspawnd++
	go g.main()
	return g
}

type sleepW struct{ when int64 }

//go:norace
func (w sleepW) ready(*G) bool  { return s.now >= w.when }
func (w sleepW) String() string { return fmt.Sprintf("sleep until %v", time.Duration(w.when)) }

// Sleep blocks the caller for d of virtual time.
//
//go:norace
func Sleep(d time.Duration) {
	if !s.active {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	st := new(SchedTimer)
	g := s.cur
	st.Arm(d, func() {})
	g.w = sleepW{s.now + int64(d)}
	s.park(g)
	touchR(&s.clock, 4)
}

func firstLine(v string) string {
	if i := strings.IndexByte(v, '\n'); i >= 0 {
		return v[:i]
	}
	return v
}

// panicSite names the function of the program under test that panicked.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "runtime.") || strings.Contains(l, "/zzmc/") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		return l[strings.LastIndex(l, "/")+1:]
	}
	return "?"
}
