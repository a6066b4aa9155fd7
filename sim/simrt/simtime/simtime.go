// Package simtime stands in for package time.
package simtime

import (
	rtime "time"

	rt "github.com/arl/go-detour/verifsimrt"
)

type (
	Time     = rtime.Time
	Duration = rtime.Duration
	Month    = rtime.Month
	Weekday  = rtime.Weekday
	Location = rtime.Location
)

const (
	Nanosecond  = rtime.Nanosecond
	Microsecond = rtime.Microsecond
	Millisecond = rtime.Millisecond
	Second      = rtime.Second
	Minute      = rtime.Minute
	Hour        = rtime.Hour
	RFC3339     = rtime.RFC3339

	ANSIC       = rtime.ANSIC
	UnixDate    = rtime.UnixDate
	RFC822      = rtime.RFC822
	RFC850      = rtime.RFC850
	RFC1123     = rtime.RFC1123
	RFC3339Nano = rtime.RFC3339Nano
	Kitchen     = rtime.Kitchen
	Stamp       = rtime.Stamp
	StampMilli  = rtime.StampMilli
	StampMicro  = rtime.StampMicro
	StampNano   = rtime.StampNano

	January  = rtime.January
	Saturday = rtime.Saturday
	Sunday   = rtime.Sunday
)

var (
	UTC   = rtime.UTC
	Local = rtime.UTC
)

func Now() Time                                { return rt.Now() }
func Since(t Time) Duration                    { return rt.Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(rt.Now()) }
func Sleep(d Duration)                         { rt.Clock += d }
func Unix(a, b int64) Time                     { return rtime.Unix(a, b) }
func ParseDuration(s string) (Duration, error) { return rtime.ParseDuration(s) }

func Date(y int, mo Month, d, h, mi, s, ns int, l *Location) Time {
	return rtime.Date(y, mo, d, h, mi, s, ns, l)
}
func Parse(layout, v string) (Time, error) { return rtime.Parse(layout, v) }
func UnixMilli(ms int64) Time              { return rtime.UnixMilli(ms) }
func UnixMicro(us int64) Time              { return rtime.UnixMicro(us) }

// Timers fire as soon as they are made: simulated time jumps to them.
type (
	Timer  = rtime.Timer
	Ticker = rtime.Ticker
)

func After(d Duration) <-chan Time {
	rt.Clock += d
	c := make(chan Time, 1)
	c <- rt.Now()
	return c
}
