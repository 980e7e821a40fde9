package mc

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"time"
)

// Scenario is a closed program whose executions are enumerated.
type Scenario struct {
	Name  string
	Prop  []string // properties it decides
	Fn    func(*T) `json:"-"`
	Case  string
	Quick int // deviation bound of the quick tier
	Deep  int // deviation bound of the thorough tier

	QuickShards int // processes the quick tier splits it over (0: 1)
	DeepShards  int

	SplitChoose bool // shards divide the values of the first Choose
	TimerRace   bool // a timer may fire before the goroutines that can run
	MapOrder    bool // map iteration may start anywhere
	NoHold      bool // no deviation that holds a goroutine back until the others are idle
	AllowLeak   bool // goroutines may be left at the end
	Race        bool // also run in the race-detector build
	RaceBound   int  // deviation bound there (quick)
	NoCache     bool
	Horizon     int           // steps (default 60000)
	MaxClock    time.Duration // virtual time (default 1h)
	Weight      int           // share of the time budget (default 1)
}

var scenarios []*Scenario

// Register adds a scenario.
func Register(sc *Scenario) { scenarios = append(scenarios, sc) }

// T is the harness's handle on the current execution.
type T struct {
	sc      *Scenario
	outcome []string
	step    string
	onEnd   []func()
}

// Step labels what the harness is doing (the signature of a hang).
//
//go:norace
func (t *T) Step(label string) {
	t.step = label
	if s.trace {
		s.tracef("STEP %s", label)
	}
}

// Outcome adds to the observed outcome of this execution.
//
//go:norace
func (t *T) Outcome(v string) {
	o := make([]string, len(t.outcome)+1)
	for i := range t.outcome {
		o[i] = t.outcome[i]
	}
	o[len(t.outcome)] = v
	t.outcome = o
}

// Failf reports a violation; sig classifies it.
func (t *T) Failf(sig, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	buf := make([]byte, 8<<10)
	buf = buf[:runtime.Stack(buf, false)]
	s.failNow("assert", sig, msg, string(buf))
}

// Logf prints in replays.
func (t *T) Logf(format string, a ...any) {
	if s.trace {
		s.tracef("LOG "+format, a...)
	}
}

// Tracing reports whether a replay is being printed.
func (t *T) Tracing() bool { return s.trace }

// OnEnd registers a check that runs when nothing moves any more.
//
//go:norace
func (t *T) OnEnd(f func()) { t.onEnd = append(t.onEnd, f) }

type settleW struct{}

func (settleW) ready(*G) bool  { return false }
func (settleW) String() string { return "settle" }

// Settle waits until no other goroutine can run without time passing.
//
//go:norace
func Settle() {
	if !s.active {
		return
	}
	g := s.cur
	g.w = settleW{}
	s.park(g)
	s.setHash(g, mix(g.hash, s.h))
}

// settled finds a goroutine that waits for quiescence.
//
//go:norace
func (s *sched) settled() *G {
	for i := 0; i < s.ng; i++ {
		if _, ok := s.gs[i].w.(settleW); ok {
			return s.gs[i]
		}
	}
	return nil
}

// Elapsed is the virtual time since the execution began.
//
//go:norace
func Elapsed() time.Duration {
	return time.Duration(Now())
}

// liveNames lists the goroutines left.
func (s *sched) liveNames() (names []string, full []string) {
	seen := map[string]bool{}
	for i := 0; i < s.ng; i++ {
		g := s.gs[i]
		if !seen[g.name] {
			seen[g.name] = true
			names = append(names, g.name)
		}
		full = append(full, fmt.Sprintf("%v: %v", g, g.w))
	}
	sort.Strings(names)
	return
}

// Uniq is a number that is fresh in the process and not part of any state.
var uniq int

//go:norace
func Uniq() int { uniq++; return uniq }

// NumGoroutine counts the controlled goroutines.
//
//go:norace
func NumGoroutine() int {
	if !s.active {
		return 1
	}
	return s.ng
}

// SignalNotify replaces os/signal.Notify: no signals arrive.
func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {}

// Append and Without are append and removal without the runtime's slice
// growth, which the race detector would see as a read of shared memory.
//
//go:norace
func Append[T any](a []T, v ...T) []T {
	if cap(a)-len(a) >= len(v) {
		n := len(a)
		a = a[:n+len(v)]
		for i := 0; i < len(v); i++ {
			a[n+i] = v[i]
		}
		return a
	}
	b := make([]T, len(a)+len(v), 2*len(a)+len(v)+4)
	for i := 0; i < len(a); i++ {
		b[i] = a[i]
	}
	for i := 0; i < len(v); i++ {
		b[len(a)+i] = v[i]
	}
	return b
}

//go:norace
func Without[T any](a []T, k int) []T {
	b := make([]T, 0, len(a))
	b = b[:len(a)-1]
	for i, j := 0, 0; i < len(a); i++ {
		if i != k {
			b[j] = a[i]
			j++
		}
	}
	return b
}
