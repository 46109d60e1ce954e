// Package simtime is package time with the simulation's clock and timers.
package simtime

import (
	"time"

	"crunchsim/rt"
	"crunchsim/simos"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

// Now is the simulated time.
func Now() Time { return time.Unix(1_600_000_000, int64(simos.Now())).UTC() }

func Since(t Time) Duration                                  { return Now().Sub(t) }
func Until(t Time) Duration                                  { return t.Sub(Now()) }
func Sleep(d Duration)                                       { rt.Sleep(int64(d)) }
func Unix(s, n int64) Time                                   { return time.Unix(s, n).UTC() }
func UnixMilli(n int64) Time                                 { return time.UnixMilli(n).UTC() }
func UnixMicro(n int64) Time                                 { return time.UnixMicro(n).UTC() }
func ParseDuration(s string) (Duration, error)               { return time.ParseDuration(s) }
func Parse(l, v string) (Time, error)                        { return time.Parse(l, v) }
func ParseInLocation(l, v string, z *Location) (Time, error) { return time.ParseInLocation(l, v, z) }
func FixedZone(n string, o int) *Location                    { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error)               { return time.UTC, nil }
func LoadLocationFromTZData(n string, d []byte) (*Location, error) {
	return time.LoadLocationFromTZData(n, d)
}
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}

// round is one setting of a timer.
type round struct{ off, fired bool }

// Timer is time.Timer.
type Timer struct {
	C   <-chan Time
	ch  chan Time
	f   func()
	cur *round
}

func (t *Timer) start(d Duration) {
	r := &round{}
	t.cur = r
	rt.Go(func() {
		rt.Sleep(int64(d))
		if r.off {
			return
		}
		r.fired = true
		if t.f != nil {
			t.f()
			return
		}
		rt.Select(true, rt.CaseSend(t.ch)(Now()))
	})
}

// Stop is time.Timer.Stop.
func (t *Timer) Stop() bool {
	rt.Point("timer")
	if t.cur == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	live := !t.cur.off && !t.cur.fired
	t.cur.off = true
	return live
}

// Reset is time.Timer.Reset.
func (t *Timer) Reset(d Duration) bool {
	live := t.Stop()
	t.start(d)
	return live
}

func NewTimer(d Duration) *Timer {
	t := &Timer{ch: make(chan Time, 1)}
	t.C = t.ch
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C   <-chan Time
	ch  chan Time
	cur *round
}

func (t *Ticker) start(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker")
	}
	r := &round{}
	t.cur = r
	rt.Go(func() {
		for {
			rt.Sleep(int64(d))
			if r.off {
				return
			}
			rt.Select(true, rt.CaseSend(t.ch)(Now()))
		}
	})
}

func (t *Ticker) Stop() {
	rt.Point("timer")
	t.cur.off = true
}

func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.start(d)
}

func NewTicker(d Duration) *Ticker {
	t := &Ticker{ch: make(chan Time, 1)}
	t.C = t.ch
	t.start(d)
	return t
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
