package mc

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Failure is one violation with the choices that reproduce it.
type Failure struct {
	failure
	Scenario string   `json:"scenario"`
	Choices  []uint16 `json:"choices"`
	Cost     int      `json:"deviations"`
	Count    int      `json:"executions_failing"`
}

// Result is what a job reports.
type Result struct {
	Scenario   string         `json:"scenario"`
	Shard      string         `json:"shard"`
	Race       bool           `json:"race"`
	Bound      int            `json:"bound"`
	Completed  int            `json:"bound_completed"` // -1: none
	Exhaustive bool           `json:"exhaustive"`
	Total      bool           `json:"all_schedules"` // nothing was cut off by the bound
	Execs      int            `json:"executions"`
	Pruned     int            `json:"pruned"`
	States     int            `json:"states"`
	Steps      int64          `json:"transitions"`
	MaxPoints  int            `json:"max_decisions"`
	MaxG       int            `json:"max_goroutines"`
	Outcomes   map[string]int `json:"outcomes"`
	Samples    []string       `json:"samples"`
	Failures   []*Failure     `json:"failures"`
	Error      string         `json:"error,omitempty"`
	Wall       float64        `json:"wall_s"`
	TimedOut   bool           `json:"timed_out"`
}

var (
	stepBeat  atomic.Int64 // executions started
	inExec    atomic.Bool
	raceLog   string
	raceSeen  int
	raceOff   int64
	curResult *Result
	resOut    string
)

func (s *sched) reset(sc *Scenario, prefix []uint16, bound int) {
	s.epoch++
	tabClear()
	s.killing = false
	for i := range s.gs[:s.ng] {
		s.gs[i] = nil
	}
	for i := range s.en {
		s.en[i] = nil
	}
	s.ng = 0
	s.cur = nil
	s.h = 0
	s.lasth = 0
	s.nlast = 0
	s.rootEnd = false
	s.steps = 0
	s.horizon = sc.Horizon
	if s.horizon == 0 {
		s.horizon = 60000
	}
	s.nspawnd = 0
	s.now = 0
	s.clock = Obj{}
	for i := 0; i < s.ntimers; i++ {
		s.timers[i] = nil
	}
	s.ntimers = 0
	s.npts = 0
	s.prefix = prefix
	s.cost = 0
	s.bound = bound
	s.splitChoose = sc.SplitChoose && s.nshards > 1
	s.timerRace = sc.TimerRace
	s.mapOrder = sc.MapOrder
	s.noHold = sc.NoHold
	s.maxClock = int64(sc.MaxClock)
	if s.maxClock == 0 {
		s.maxClock = int64(time.Hour)
	}
	s.pruned = false
	s.fail = nil
	s.diverge = ""
	s.t = &T{sc: sc, step: "start"}
	for _, f := range resetHooks {
		f()
	}
}

var resetHooks []func()

// OnReset registers a function that clears a shim's global state.
func OnReset(f func()) { resetHooks = append(resetHooks, f) }

// run performs one execution.
func (s *sched) run(sc *Scenario, prefix []uint16, bound int) {
	s.reset(sc, prefix, bound)
	stepBeat.Add(1)
	s.over = make(chan struct{}, 1)
	t := s.t
	g := s.newG([]uint16{0}, "harness", func() { sc.Fn(t) })
	s.root = g
	s.active = true
	RaceReleaseMerge(unsafe.Pointer(&s.grv))
	go g.main()
	s.cur = g
	inExec.Store(true)
	handoffWake(g.wake)
	handoffWait(s.over)
	RaceAcquire(unsafe.Pointer(&s.grv))
	inExec.Store(false)
	if s.fail == nil && !s.pruned {
		if !s.rootEnd {
			_, full := s.liveNames()
			s.fail = &failure{Kind: "hang", Sig: "hang during " + t.step, Msg: "no goroutine can go on: " + strings.Join(full, "; "), Stack: allStacks()}
		} else if s.ng > 0 && !sc.AllowLeak {
			names, full := s.liveNames()
			s.fail = &failure{Kind: "leak", Sig: "leak: " + strings.Join(names, ", "), Msg: "goroutines left for ever: " + strings.Join(full, "; "), Stack: allStacks()}
		}
	}
	if s.fail == nil && !s.pruned {
		for _, f := range t.onEnd {
			f()
		}
	}
	// tear down
	s.killing = true
	for s.ng > 0 {
		g := s.gs[0]
		s.removeG(g)
		s.cur = g
		handoffWake(g.wake)
		handoffWait(g.exited)
		RaceAcquire(unsafe.Pointer(&s.grv))
	}
	s.active = false
	s.killing = false
	s.cur = nil
	if RaceEnabled {
		if n := raceErrors(); n > raceSeen {
			raceSeen = n
			if s.fail == nil && !s.pruned {
				rep, sig := readRaceLog()
				s.fail = &failure{Kind: "race", Sig: sig, Msg: "data race", Stack: rep}
			} else if s.fail == nil {
				rep, sig := readRaceLog()
				s.fail = &failure{Kind: "race", Sig: sig, Msg: "data race", Stack: rep}
				s.pruned = false
			}
		}
	}
}

// FailEnd reports a violation from an OnEnd function.
func (t *T) FailEnd(sig, format string, a ...any) {
	if s.fail == nil {
		s.fail = &failure{Kind: "assert", Sig: sig, Msg: fmt.Sprintf(format, a...)}
	}
}

func allStacks() string {
	buf := make([]byte, 256<<10)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "zzmc/mc.(*G).main") {
			var keep []string
			for _, l := range strings.Split(g, "\n") {
				if strings.Contains(l, "/zzmc/mc.") || strings.Contains(l, "/zzmc/mc/") {
					continue
				}
				keep = append(keep, l)
			}
			out = append(out, strings.Join(keep, "\n"))
		}
	}
	v := strings.Join(out, "\n\n")
	if len(v) > 20000 {
		v = v[:20000]
	}
	return v
}

func readRaceLog() (string, string) {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", raceLog, os.Getpid()))
	if err != nil {
		return err.Error(), "race"
	}
	if int64(len(b)) > raceOff {
		nb := b[raceOff:]
		raceOff = int64(len(b))
		b = nb
	}
	txt := string(b)
	var fns []string
	lines := strings.Split(txt, "\n")
	for i, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Write at ") || strings.HasPrefix(l, "Read at ") || strings.HasPrefix(l, "Previous write at ") || strings.HasPrefix(l, "Previous read at ") {
			for j := i + 1; j < len(lines) && j < i+12; j++ {
				f := strings.TrimSpace(lines[j])
				if f == "" {
					break
				}
				if !strings.HasPrefix(f, "main.") && !strings.Contains(f, "zmq") || strings.HasPrefix(f, "/") || strings.Contains(f, "/zzmc/") {
					continue
				}
				if k := strings.LastIndex(f, "("); k > 0 {
					f = f[:k]
				}
				fns = append(fns, f[strings.LastIndex(f, "/")+1:])
				break
			}
		}
		if len(fns) == 2 {
			break
		}
	}
	sort.Strings(fns)
	if len(txt) > 8000 {
		txt = txt[:8000]
	}
	return txt, "race: " + strings.Join(fns, " / ")
}

// next turns the last execution's decisions into the next prefix, or returns
// false when the space is exhausted.
func (s *sched) next(more *bool) ([]uint16, bool) {
	for i := s.npts - 1; i >= 0; i-- {
		p := &s.pts[i]
		c := int(p.chosen)
		for {
			if s.splitChoose && i == 0 && p.kind == kFree {
				c += s.nshards
			} else {
				c++
			}
			if c >= int(p.n) {
				break
			}
			if p.kind != kFree {
				if int(p.cost) >= s.bound {
					*more = true
					c = int(p.n)
					break
				}
				if p.cost == 0 && s.nshards > 1 && !s.splitChoose {
					h := uint64(i)*31 + uint64(c)
					for j := 0; j < i; j++ {
						if s.pts[j].kind == kFree {
							h = mix(h, uint64(s.pts[j].chosen)+uint64(j)<<20)
						}
					}
					if int(mix(h, 7)%uint64(s.nshards)) != s.shard {
						continue
					}
				}
			}
			break
		}
		if c < int(p.n) {
			np := make([]uint16, i+1)
			for j := 0; j < i; j++ {
				np[j] = s.pts[j].chosen
			}
			np[i] = uint16(c)
			return np, true
		}
	}
	return nil, false
}

func (s *sched) choices() []uint16 {
	c := make([]uint16, s.npts)
	last := 0
	for i := 0; i < s.npts; i++ {
		c[i] = s.pts[i].chosen
		if c[i] != 0 {
			last = i + 1
		}
	}
	return c[:last]
}

func (r *Result) record(s *sched, sc *Scenario) {
	r.Execs++
	r.Steps += int64(s.steps)
	if s.npts > r.MaxPoints {
		r.MaxPoints = s.npts
	}
	if s.nspawnd > r.MaxG {
		r.MaxG = s.nspawnd
	}
	if s.pruned {
		r.Pruned++
		return
	}
	if s.fail != nil {
		for _, f := range r.Failures {
			if f.Sig == s.fail.Sig {
				f.Count++
				return
			}
		}
		if len(r.Failures) < 6 {
			r.Failures = append(r.Failures, &Failure{failure: *s.fail, Scenario: sc.Name, Choices: s.choices(), Cost: s.cost, Count: 1})
		}
		return
	}
	o := strings.Join(s.t.outcome, "|")
	if len(o) > 300 {
		o = o[:300]
	}
	if _, ok := r.Outcomes[o]; ok || len(r.Outcomes) < 400 {
		r.Outcomes[o]++
	} else {
		r.Outcomes["(others)"]++
	}
	if len(r.Samples) < 3 && (r.Execs == 1 || len(r.Samples) < 1+r.Execs/50) {
		r.Samples = append(r.Samples, fmt.Sprintf("%s: choices %v of %d decisions, %d steps, %d goroutines -> %s", sc.Name, s.choices(), s.npts, s.steps, s.nspawnd, o))
	}
}

func explore(sc *Scenario, bound, shard, nshards int, deadline time.Time, maxFail int) *Result {
	s.shard, s.nshards = shard, nshards
	r := &Result{Scenario: sc.Name, Shard: fmt.Sprintf("%d/%d", shard, nshards), Race: RaceEnabled, Bound: bound, Completed: -1, Outcomes: map[string]int{}}
	curResult = r
	start := time.Now()
	defer func() { r.Wall = time.Since(start).Seconds() }()

	// Determinism: the default execution twice, with the same observations.
	var h0 uint64
	var n0 int
	for k := 0; k < 2; k++ {
		s.cache = nil
		noteCur(sc, nil)
		s.run(sc, nil, 0)
		if k == 0 {
			h0, n0 = s.h, s.npts
		} else if (s.h != h0 || s.npts != n0) && s.fail == nil {
			r.Error = fmt.Sprintf("nondeterministic: default execution gave %d decisions/%x, then %d/%x", n0, h0, s.npts, s.h)
			return r
		}
		if s.fail != nil {
			r.record(s, sc)
		}
	}
	for b := 0; b <= bound; b++ {
		if !sc.NoCache {
			s.cache = newCache(1 << 25)
		} else {
			r.States = 0
		}
		more := false
		var prefix []uint16
		done := false
		for !done {
			noteCur(sc, prefix)
			s.run(sc, prefix, b)
			if s.diverge != "" {
				r.Error = "prefix divergence: " + s.diverge + fmt.Sprintf(" (prefix %v)", prefix)
				return r
			}
			r.record(s, sc)
			if s.cache != nil {
				s.cache.grow()
			} else if n := s.npts - len(prefix) + 1; n > 0 {
				r.States += n // nodes of the tree of choices
			}
			if r.Execs&31 == 0 || time.Now().After(deadline) {
				if time.Now().After(deadline) {
					r.TimedOut = true
				}
			}
			nx, ok := s.next(&more)
			if !ok {
				done = true
				break
			}
			prefix = nx
			if r.TimedOut || len(r.Failures) >= maxFail {
				break
			}
		}
		if s.cache != nil {
			r.States = s.cache.n
		}
		if done {
			r.Completed = b
			r.Total = !more
			if b == bound || r.Total {
				r.Exhaustive = true
			}
		}
		if !done || r.Total || len(r.Failures) > 0 {
			break
		}
	}
	return r
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process when an execution makes no progress natively: a
// loop without a scheduling point, or a blocking call that is not controlled.
func watchdog(sc *Scenario) {
	last := int64(-1)
	lastSteps := -1
	var cpu0 time.Duration
	var wall0 time.Time
	for {
		time.Sleep(500 * time.Millisecond)
		b := stepBeat.Load()
		st := s.steps
		if b != last || st != lastSteps || !inExec.Load() {
			last, lastSteps = b, st
			cpu0, wall0 = cpuTime(), time.Now()
			continue
		}
		spin := cpuTime()-cpu0 > 15*time.Second
		if !spin && time.Since(wall0) < 90*time.Second {
			continue
		}
		r := curResult
		if spin {
			r.Failures = append(r.Failures, &Failure{failure: failure{Kind: "livelock", Sig: "livelock: loop without synchronisation", Msg: "15 s of processor time without a scheduling point", Stack: allStacks()}, Scenario: sc.Name, Choices: s.choices(), Count: 1})
		} else {
			r.Error = "execution blocked outside the scheduler\n" + allStacks()
		}
		emit(r)
		os.Exit(0)
	}
}

var curFile *os.File

// noteCur leaves the execution that starts where the driver finds it should
// the process die.
func noteCur(sc *Scenario, prefix []uint16) {
	if resOut == "" {
		return
	}
	if curFile == nil {
		f, err := os.Create(resOut + ".cur")
		if err != nil {
			return
		}
		curFile = f
	}
	b := make([]byte, 0, 64+4*len(prefix))
	b = append(b, `{"scenario":"`...)
	b = append(b, sc.Name...)
	b = append(b, `","choices":[`...)
	for i, p := range prefix {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendUint(b, uint64(p), 10)
	}
	b = append(b, "]}"...)
	for len(b) < curLen {
		b = append(b, ' ')
	}
	curLen = len(b)
	curFile.WriteAt(b, 0)
}

var curLen int

func emit(r *Result) {
	b, _ := json.Marshal(r)
	if resOut == "" {
		fmt.Println(string(b))
		return
	}
	os.WriteFile(resOut, b, 0o644)
}

// Main is the entry point of a harness binary.
func Main() {
	list := flag.Bool("list", false, "")
	name := flag.String("run", "", "")
	bound := flag.Int("bound", 0, "")
	secs := flag.Float64("secs", 3600, "")
	shard := flag.Int("shard", 0, "")
	nsh := flag.Int("shards", 1, "")
	maxFail := flag.Int("maxfail", 4, "")
	replay := flag.String("replay", "", "choices, comma separated")
	trace := flag.Bool("v", false, "")
	flag.StringVar(&resOut, "out", "", "")
	flag.StringVar(&raceLog, "racelog", "", "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	if *list {
		b, _ := json.Marshal(scenarios)
		fmt.Println(string(b))
		return
	}
	for _, sc := range scenarios {
		if sc.Name != *name {
			continue
		}
		go watchdog(sc)
		if isFlag("replay") {
			var pre []uint16
			for _, f := range strings.Split(*replay, ",") {
				if f = strings.TrimSpace(f); f != "" {
					n := 0
					fmt.Sscan(f, &n)
					pre = append(pre, uint16(n))
				}
			}
			r := &Result{Scenario: sc.Name, Race: RaceEnabled, Outcomes: map[string]int{}}
			curResult = r
			s.trace = *trace
			s.nshards = 1
			noteCur(sc, pre)
			s.run(sc, pre, 255)
			if s.diverge != "" {
				r.Error = s.diverge
			}
			r.record(s, sc)
			emit(r)
			return
		}
		emit(explore(sc, *bound, *shard, *nsh, time.Now().Add(time.Duration(*secs*float64(time.Second))), *maxFail))
		return
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	os.Exit(3)
}

func isFlag(n string) bool {
	ok := false
	flag.Visit(func(f *flag.Flag) { ok = ok || f.Name == n })
	return ok
}
