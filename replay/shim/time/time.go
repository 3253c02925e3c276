// Package time stands in for the standard package: the clock is set by the test.
package time

import (
	rt "time"

	"verif/replay/shim/sched"
)

type (
	Duration   = rt.Duration
	Time       = rt.Time
	Month      = rt.Month
	Weekday    = rt.Weekday
	Location   = rt.Location
	ParseError = rt.ParseError
	Timer      = rt.Timer
	Ticker     = rt.Ticker
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour
)

var (
	UTC   = rt.UTC
	Local = rt.Local
)

// Clock is the current time in nanoseconds; Step is added at every reading.
var (
	Clock int64 = 1_700_000_000_000_000_000
	Step  int64
)

func Now() Time {
	sched.Yield()
	Clock += Step
	return rt.Unix(0, Clock)
}

func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Unix(s, n int64) Time                     { return rt.Unix(s, n) }
func UnixMilli(m int64) Time                   { return rt.UnixMilli(m) }
func UnixMicro(m int64) Time                   { return rt.UnixMicro(m) }
func ParseDuration(s string) (Duration, error) { return rt.ParseDuration(s) }
func Sleep(d Duration)                         { Clock += int64(d); sched.Yield() }

// tickers and timers never fire
func NewTicker(d Duration) *Ticker          { t := rt.NewTicker(rt.Hour); t.Stop(); return t }
func NewTimer(d Duration) *Timer            { t := rt.NewTimer(rt.Hour); t.Stop(); return t }
func AfterFunc(d Duration, f func()) *Timer { return NewTimer(d) }
func After(d Duration) <-chan Time          { return make(chan Time) }
func Tick(d Duration) <-chan Time           { return make(chan Time) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return rt.Date(y, m, d, h, mi, s, n, l)
}
