// Package time is the controlled replacement: the clock is virtual and
// advances only when nothing else can happen (or when the explorer says so).
package time

import (
	rt "time"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

type (
	Time       = rt.Time
	Duration   = rt.Duration
	Month      = rt.Month
	Weekday    = rt.Weekday
	Location   = rt.Location
	ParseError = rt.ParseError
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour

	Layout      = rt.Layout
	ANSIC       = rt.ANSIC
	UnixDate    = rt.UnixDate
	RFC822      = rt.RFC822
	RFC850      = rt.RFC850
	RFC1123     = rt.RFC1123
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	Kitchen     = rt.Kitchen
	Stamp       = rt.Stamp
	StampMilli  = rt.StampMilli
	StampMicro  = rt.StampMicro
	StampNano   = rt.StampNano
	DateTime    = rt.DateTime
	DateOnly    = rt.DateOnly
	TimeOnly    = rt.TimeOnly

	January   = rt.January
	February  = rt.February
	March     = rt.March
	April     = rt.April
	May       = rt.May
	June      = rt.June
	July      = rt.July
	August    = rt.August
	September = rt.September
	October   = rt.October
	November  = rt.November
	December  = rt.December
	Sunday    = rt.Sunday
	Monday    = rt.Monday
)

var (
	UTC   = rt.UTC
	Local = rt.UTC
)

var (
	Date            = rt.Date
	Unix            = rt.Unix
	UnixMilli       = rt.UnixMilli
	UnixMicro       = rt.UnixMicro
	Parse           = rt.Parse
	ParseInLocation = rt.ParseInLocation
	ParseDuration   = rt.ParseDuration
	FixedZone       = rt.FixedZone
	LoadLocation    = rt.LoadLocation
)

var base = rt.Unix(1_000_000_000, 0).UTC()

func Now() Time                    { return base.Add(Duration(mc.Now())) }
func Since(t Time) Duration        { return Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(Now()) }
func Sleep(d Duration)             { mc.Live(); mc.Sleep(d) }
func After(d Duration) <-chan Time { return NewTimer(d).C }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	st mc.SchedTimer
}

func (t *Timer) arm(d Duration) {
	t.st.Arm(d, func() {
		if t.f != nil {
			t.st.Spawn("time.AfterFunc", t.f)
			return
		}
		mc.TrySendNow(t.c, base.Add(Duration(mc.Now())))
	})
}

func NewTimer(d Duration) *Timer {
	mc.Live()
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	mc.Live()
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	if mc.Killing() {
		return false
	}
	mc.Point("Timer.Stop")
	ok := t.st.Stop()
	if t.c != nil {
		mc.DrainNow(t.c)
	}
	return ok
}

func (t *Timer) Reset(d Duration) bool {
	if mc.Killing() {
		return false
	}
	mc.Point("Timer.Reset")
	ok := t.st.Stop()
	if t.c != nil {
		mc.DrainNow(t.c)
	}
	t.arm(d)
	return ok
}

type Ticker struct {
	C  <-chan Time
	c  chan Time
	d  Duration
	st mc.SchedTimer
}

func NewTicker(d Duration) *Ticker {
	mc.Live()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan Time, 1), d: d}
	t.C = t.c
	t.st.Arm(d, t.tick)
	return t
}

func (t *Ticker) tick() {
	mc.TrySendNow(t.c, base.Add(Duration(mc.Now())))
	t.st.Arm(t.d, t.tick)
}

func (t *Ticker) Stop() {
	if mc.Killing() {
		return
	}
	mc.Point("Ticker.Stop")
	t.st.Stop()
	mc.DrainNow(t.c)
}

func (t *Ticker) Reset(d Duration) {
	if mc.Killing() {
		return
	}
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	mc.Point("Ticker.Reset")
	t.st.Stop()
	mc.DrainNow(t.c)
	t.d = d
	t.st.Arm(d, t.tick)
}
