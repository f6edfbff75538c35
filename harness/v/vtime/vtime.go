// Package vtime is package time with a clock which the harness may set.
package vtime

import (
	"time"

	"verif.test/v/sym"
)

// Clock, if set, tells the time.
var Clock func() Time

func init() {
	sym.Reset = append(sym.Reset, func() { Clock = nil })
}

// Now is what the clock shows.
func Now() Time {
	if Clock != nil {
		return Clock()
	}
	return time.Now()
}

// Since is the time passed since t.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is the time left until t.
func Until(t Time) Duration { return t.Sub(Now()) }

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Ticker     = time.Ticker
	Time       = time.Time
	Timer      = time.Timer
	Weekday    = time.Weekday
)

const (
	ANSIC       = time.ANSIC
	April       = time.April
	August      = time.August
	DateOnly    = time.DateOnly
	DateTime    = time.DateTime
	December    = time.December
	February    = time.February
	Friday      = time.Friday
	Hour        = time.Hour
	January     = time.January
	July        = time.July
	June        = time.June
	Kitchen     = time.Kitchen
	Layout      = time.Layout
	March       = time.March
	May         = time.May
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Minute      = time.Minute
	Monday      = time.Monday
	Nanosecond  = time.Nanosecond
	November    = time.November
	October     = time.October
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RubyDate    = time.RubyDate
	Saturday    = time.Saturday
	Second      = time.Second
	September   = time.September
	Stamp       = time.Stamp
	StampMicro  = time.StampMicro
	StampMilli  = time.StampMilli
	StampNano   = time.StampNano
	Sunday      = time.Sunday
	Thursday    = time.Thursday
	TimeOnly    = time.TimeOnly
	Tuesday     = time.Tuesday
	UnixDate    = time.UnixDate
	Wednesday   = time.Wednesday
)

var (
	Local = time.Local
	UTC   = time.UTC
)

func After(d Duration) <-chan Time { return time.After(d) }

func AfterFunc(d Duration, f func()) *Timer { return time.AfterFunc(d, f) }

func Date(year int, month Month, day int, hour int, min int, sec int, nsec int, loc *Location) Time {
	return time.Date(year, month, day, hour, min, sec, nsec, loc)
}

func FixedZone(name string, offset int) *Location { return time.FixedZone(name, offset) }

func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }

func LoadLocationFromTZData(name string, data []byte) (*Location, error) {
	return time.LoadLocationFromTZData(name, data)
}

func NewTicker(d Duration) *Ticker { return time.NewTicker(d) }

func NewTimer(d Duration) *Timer { return time.NewTimer(d) }

func Parse(layout string, value string) (Time, error) { return time.Parse(layout, value) }

func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

func ParseInLocation(layout string, value string, loc *Location) (Time, error) {
	return time.ParseInLocation(layout, value, loc)
}

func Sleep(d Duration) { time.Sleep(d) }

func Tick(d Duration) <-chan Time { return time.Tick(d) }

func Unix(sec int64, nsec int64) Time { return time.Unix(sec, nsec) }

func UnixMicro(usec int64) Time { return time.UnixMicro(usec) }

func UnixMilli(msec int64) Time { return time.UnixMilli(msec) }
