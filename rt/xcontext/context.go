// Package context is the controlled replacement of the standard package; the
// interface and error values are the standard ones.
package context

import (
	rc "context"
	"unsafe"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	"time"
)

type (
	Context         = rc.Context
	CancelFunc      = rc.CancelFunc
	CancelCauseFunc = rc.CancelCauseFunc
)

var (
	Canceled         = rc.Canceled
	DeadlineExceeded = rc.DeadlineExceeded
)

func Background() Context { return rc.Background() }
func TODO() Context       { return rc.TODO() }

type ctx struct {
	parent   Context
	done     chan struct{}
	o        mc.Obj
	err      error
	cause    error
	kids     []*ctx
	up       *ctx // ancestor that lists this one
	funcs    []*after
	deadline time.Time
	hasDl    bool
	tm       mc.SchedTimer
	v        byte
}

type after struct {
	f    func()
	gone bool
	v    byte
}

type ctxKey struct{}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	if mc.Killing() {
		return c.err
	}
	mc.Point("Context.Err")
	mc.TouchR(&c.o)
	if c.err != nil {
		mc.RaceAcquire(unsafe.Pointer(&c.v))
	}
	return c.err
}
func (c *ctx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

// find is the closest cancellable ancestor that is ours.
func find(p Context) *ctx {
	c, _ := p.Value(ctxKey{}).(*ctx)
	if c == nil || p.Done() == nil {
		return nil
	}
	return c
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	mc.Live()
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p := find(parent); p != nil {
		mc.TouchW(&p.o)
		if p.err != nil {
			mc.RaceAcquire(unsafe.Pointer(&p.v))
			c.cancel(p.err, p.cause)
		} else {
			c.up = p
			p.kids = mc.Append(p.kids, c)
		}
	}
	return c
}

// cancel runs without scheduling points: the callers provide them.
func (c *ctx) cancel(err, cause error) {
	if c.err != nil || mc.Killing() {
		return
	}
	mc.TouchW(&c.o)
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	mc.RaceReleaseMerge(unsafe.Pointer(&c.v))
	mc.CloseNow(c.done)
	kids := c.kids
	c.kids = nil
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if u := c.up; u != nil && u.kids != nil {
		for i, k := range u.kids {
			if k == c {
				u.kids = mc.Without(u.kids, i)
				break
			}
		}
	}
	fs := c.funcs
	c.funcs = nil
	for _, a := range fs {
		if !a.gone {
			a.gone = true
			a.start()
		}
	}
	c.tm.Stop()
}

// start runs f after everything that preceded the call of AfterFunc.
func (a *after) start() {
	mc.SpawnNow("context.AfterFunc", func() {
		mc.RaceAcquire(unsafe.Pointer(&a.v))
		a.f()
	})
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		if mc.Killing() {
			return
		}
		mc.Point("cancel")
		c.cancel(Canceled, nil)
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		if mc.Killing() {
			return
		}
		mc.Point("cancel")
		c.cancel(Canceled, cause)
	}
}

func Cause(x Context) error {
	if c, ok := x.Value(ctxKey{}).(*ctx); ok && c != nil && x.Done() != nil {
		mc.Point("Context.Cause")
		mc.TouchR(&c.o)
		return c.cause
	}
	return x.Err()
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	cancel := func() {
		if mc.Killing() {
			return
		}
		mc.Point("cancel")
		c.cancel(Canceled, nil)
	}
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, cancel
	}
	c.deadline, c.hasDl = d, true
	dur := d.Sub(base.Add(time.Duration(mc.Now())))
	if dur <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, cancel
	}
	if c.err == nil {
		c.tm.Arm(dur, func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, cancel
}

var base = time.Unix(1_000_000_000, 0).UTC()

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, base.Add(time.Duration(mc.Now())).Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, base.Add(time.Duration(mc.Now())).Add(d), cause)
}

func WithValue(parent Context, k, v any) Context { return rc.WithValue(parent, k, v) }

type noCancel struct{ Context }

func (noCancel) Deadline() (t time.Time, ok bool) { return }
func (noCancel) Done() <-chan struct{}            { return nil }
func (noCancel) Err() error                       { return nil }
func (n noCancel) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return nil
	}
	return n.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return noCancel{parent} }

func AfterFunc(x Context, f func()) (stop func() bool) {
	mc.Live()
	a := &after{f: f}
	mc.RaceReleaseMerge(unsafe.Pointer(&a.v))
	c := find(x)
	if c == nil {
		return func() bool {
			if a.gone {
				return false
			}
			a.gone = true
			return true
		}
	}
	mc.Point("AfterFunc")
	mc.TouchW(&c.o)
	if c.err != nil {
		a.gone = true
		a.start()
	} else {
		c.funcs = mc.Append(c.funcs, a)
	}
	return func() bool {
		if mc.Killing() {
			return false
		}
		mc.Point("AfterFunc stop")
		mc.TouchW(&c.o)
		if a.gone {
			return false
		}
		a.gone = true
		return true
	}
}
