package main

import (
	"fmt"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

// refQueue is the reference: a slice.
type refQueue struct {
	q    *zmq.Queue
	ref  []string
	next int
}

func (r *refQueue) push() {
	v := fmt.Sprintf("m%d", r.next)
	r.next++
	r.q.Push(msg(v, "x"))
	r.ref = append(r.ref, v)
}

func (r *refQueue) pop(t *mc.T) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		if len(r.ref) != 0 || fmt.Sprint(p) == "" {
			t.Failf("pop panicked", "Pop of %d elements: %v", len(r.ref), p)
		}
	}()
	if len(r.ref) == 0 {
		r.q.Pop()
		t.Failf("pop of empty queue", "Pop of an empty queue did not panic")
	}
	r.q.Pop()
	r.ref = r.ref[1:]
}

func (r *refQueue) check(t *mc.T) {
	if n := r.q.Len(); n != len(r.ref) {
		t.Failf("wrong length", "Len %d, expected %d", n, len(r.ref))
	}
	m, ok := r.q.Peek()
	if ok != (len(r.ref) > 0) {
		t.Failf("wrong peek", "Peek says %v with %d elements", ok, len(r.ref))
	}
	if ok && show(m) != r.ref[0]+",x" {
		t.Failf("wrong peek", "Peek gives %q, expected %q", show(m), r.ref[0])
	}
}

func init() {
	run := func(depth int) func(t *mc.T) {
		return func(t *mc.T) {
			// fill levels around the chunk boundary, reached with and without popped elements in front
			pre := pick([][2]int{{0, 0}, {1, 0}, {511, 0}, {512, 0}, {513, 0}, {512, 511}, {513, 512}, {600, 511}, {600, 513}, {1024, 0}, {1025, 1023}, {1536, 1024}, {1030, 510}})
			r := &refQueue{q: zmq.NewQueue()}
			r.check(t)
			for i := 0; i < pre[0]; i++ {
				r.push()
			}
			for i := 0; i < pre[1]; i++ {
				r.pop(t)
			}
			r.check(t)
			for i := 0; i < depth; i++ {
				switch op := mc.Choose(6); op {
				case 0:
					r.push()
				case 1:
					r.pop(t)
				case 2:
					r.q.Init()
					r.ref = nil
				case 3:
					n := 511
					for k := 0; k < n; k++ {
						r.push()
					}
				case 4:
					for k := 0; k < 511 && len(r.ref) > 0; k++ {
						r.pop(t)
						r.check(t)
					}
				case 5:
					// stop here: drain
					i = depth
				}
				r.check(t)
			}
			t.Outcome(fmt.Sprint(len(r.ref)))
			for len(r.ref) > 0 {
				r.pop(t)
				r.check(t)
			}
			r.pop(t) // panics and changes nothing
			r.check(t)
			r.push()
			r.check(t)
		}
	}
	reg(mc.Scenario{Name: "c16/histories", Prop: []string{"C16"}, NoCache: true, Quick: 0, Deep: -1, QuickShards: 4, SplitChoose: true, Fn: run(4)})
	reg(mc.Scenario{Name: "c16/histories-deep", Prop: []string{"C16"}, NoCache: true, Quick: -1, Deep: 0, DeepShards: 7, SplitChoose: true, Fn: run(6)})
	// long mixed walks: every alternation of batch sizes
	reg(mc.Scenario{Name: "c16/batches", Prop: []string{"C16"}, NoCache: true, Quick: 0, Deep: 0, QuickShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		r := &refQueue{q: zmq.NewQueue()}
		for i := 0; i < 3; i++ {
			up := pick([]int{1, 300, 512, 513, 1025})
			for k := 0; k < up; k++ {
				r.push()
			}
			r.check(t)
			down := pick([]int{1, 299, 511, 512})
			for k := 0; k < down && len(r.ref) > 0; k++ {
				r.pop(t)
				r.check(t)
			}
		}
		t.Outcome(fmt.Sprint(len(r.ref)))
		if mc.Choose(2) == 1 {
			r.q.Init()
			r.ref = nil
			r.check(t)
		}
		for len(r.ref) > 0 {
			r.pop(t)
			r.check(t)
		}
	}})
}
