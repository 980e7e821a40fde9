package main

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

// Litmus tests of the machinery itself: the set of outcomes each one must
// reach is in selftest.py.
func init() {
	reg := func(name string, f func(t *mc.T), opt ...func(*mc.Scenario)) {
		sc := &mc.Scenario{Name: "litmus/" + name, Prop: []string{"SELF"}, Fn: f, Quick: 3, Deep: 4, AllowLeak: true, Race: true, RaceBound: 3}
		for _, o := range opt {
			o(sc)
		}
		mc.Register(sc)
	}
	// a goroutine that falls behind six hand-overs, which takes one deviation
	reg("hold", func(t *mc.T) {
		var v atomic.Int64
		go func() { v.Add(1000) }()
		for i := 0; i < 6; i++ {
			d := make(chan int)
			go func() { v.Add(1); d <- 1 }()
			<-d
		}
		t.Outcome(fmt.Sprint(v.Load()))
	})
	reg("unbuffered", func(t *mc.T) {
		c := make(chan int)
		go func() { c <- 1 }()
		go func() { c <- 2 }()
		t.Outcome(fmt.Sprint(<-c, <-c))
	})
	reg("buffered", func(t *mc.T) {
		c := make(chan int, 1)
		d := make(chan int, 3)
		go func() {
			defer close(d)
			c <- 1
			d <- len(c)
		}()
		<-c
		for v := range d {
			t.Outcome(fmt.Sprint(v))
		}
		_, ok := <-d
		t.Outcome(fmt.Sprint(ok))
	})
	reg("select", func(t *mc.T) {
		a, b := make(chan int, 1), make(chan int, 1)
		go func() { a <- 1; b <- 2 }()
		var v int
		select {
		case v = <-a:
		case w, ok := <-b:
			v = w
			_ = ok
		}
		t.Outcome(fmt.Sprint(v))
	})
	reg("selectdefault", func(t *mc.T) {
		a := make(chan int)
		go func() { a <- 1 }()
	L:
		for {
			select {
			case v := <-a:
				t.Outcome(fmt.Sprint(v))
				break L
			default:
				t.Outcome("d")
				time.Sleep(time.Second)
			}
		}
	})
	reg("lostupdate", func(t *mc.T) {
		var x atomic.Int64
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func(d int64) {
				defer wg.Done()
				v := x.Load()
				x.Store(v + d)
			}(int64(i + 1))
		}
		wg.Wait()
		t.Outcome(fmt.Sprint(x.Load()))
	})
	reg("dekker", func(t *mc.T) {
		var x, y int32
		var r1, r2 int32
		var wg sync.WaitGroup
		wg.Go(func() { atomic.StoreInt32(&x, 1); r1 = atomic.LoadInt32(&y) })
		wg.Go(func() { atomic.StoreInt32(&y, 1); r2 = atomic.LoadInt32(&x) })
		wg.Wait()
		t.Outcome(fmt.Sprint(r1, r2))
	})
	reg("deadlock", func(t *mc.T) {
		var a, b sync.Mutex
		done := make(chan bool)
		go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); done <- true }()
		t.Step("ab")
		b.Lock()
		a.Lock()
		a.Unlock()
		b.Unlock()
		<-done
	})
	reg("rlockwriter", func(t *mc.T) {
		var m sync.RWMutex
		go func() { m.Lock(); m.Unlock() }()
		t.Step("rr")
		m.RLock()
		m.RLock()
		m.RUnlock()
		m.RUnlock()
	})
	reg("race", func(t *mc.T) {
		x := 0
		var wg sync.WaitGroup
		var mu sync.Mutex
		wg.Go(func() { mu.Lock(); x++; mu.Unlock() })
		wg.Go(func() { x++ })
		wg.Wait()
		t.Outcome("end")
	})
	reg("norace", func(t *mc.T) {
		x, y, z := 0, 0, 0
		var wg sync.WaitGroup
		var mu sync.Mutex
		var rw sync.RWMutex
		c := make(chan int)
		b := make(chan int, 1)
		m := map[int]int{}
		wg.Go(func() { mu.Lock(); x++; mu.Unlock(); y++; c <- 1; rw.Lock(); m[1]++; rw.Unlock() })
		wg.Go(func() { mu.Lock(); x++; mu.Unlock(); <-c; y++; rw.RLock(); _ = m[1]; rw.RUnlock(); z++; b <- 1 })
		<-b
		z++
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		w := 0
		wg.Go(func() { <-ctx.Done(); w++ })
		w++
		cancel()
		wg.Wait()
		t.Outcome(fmt.Sprint(x, y, z, w))
	})
	reg("timeout", func(t *mc.T) {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		defer cancel()
		c := make(chan int)
		go func() { time.Sleep(3 * time.Second); c <- 1 }()
		select {
		case <-c:
			t.Outcome("c")
		case <-ctx.Done():
			t.Outcome("ctx")
		}
		t.Outcome(fmt.Sprint(mc.Elapsed()))
	}, func(s *mc.Scenario) { s.TimerRace = true })
	reg("cond", func(t *mc.T) {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		ready := false
		go func() { mu.Lock(); ready = true; mu.Unlock(); c.Signal() }()
		mu.Lock()
		for !ready {
			c.Wait()
		}
		mu.Unlock()
		t.Outcome("ok")
	})
	reg("lostwakeup", func(t *mc.T) {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		var ready atomic.Bool
		go func() { ready.Store(true); c.Signal() }()
		t.Step("wait")
		mu.Lock()
		if !ready.Load() {
			c.Wait()
		}
		mu.Unlock()
		t.Outcome("ok")
	})
	reg("panic", func(t *mc.T) {
		c := make(chan int)
		go func() { close(c) }()
		defer func() { recover() }()
		c <- 1
	})
	reg("map", func(t *mc.T) {
		type k struct{ n int }
		m := map[*k]int{}
		a, b := &k{1}, &k{2}
		m[a] = 1
		m[b] = 2
		for p := range m {
			t.Outcome(fmt.Sprint(p.n))
		}
	}, func(s *mc.Scenario) { s.MapOrder = true })
	reg("spin", func(t *mc.T) {
		var x atomic.Bool
		go func() { x.Store(true) }()
		for !x.Load() {
		}
		t.Outcome("ok")
	})
	reg("livelock", func(t *mc.T) {
		var x atomic.Bool
		for !x.Load() {
		}
	}, func(s *mc.Scenario) { s.Horizon = 3000 })
	reg("leak", func(t *mc.T) {
		c := make(chan int)
		go func() { <-c }()
	}, func(s *mc.Scenario) { s.AllowLeak = false })
	reg("gopanic", func(t *mc.T) {
		var m sync.Mutex
		n := 0
		go func() {
			m.Lock()
			defer m.Unlock()
			if n == 1 {
				panic("boom")
			}
		}()
		m.Lock()
		n = 1
		m.Unlock()
	})
	reg("waitctx", func(t *mc.T) {
		ctx, cancel := context.WithCancel(context.Background())
		go cancel()
		stop := context.AfterFunc(ctx, func() { t.Outcome("after") })
		<-ctx.Done()
		mc.Settle()
		t.Outcome(fmt.Sprint(stop(), ctx.Err()))
	})
}
