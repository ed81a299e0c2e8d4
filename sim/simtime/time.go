// Package time replaces time in instrumented code; the clock is the simulated clock of the running task.
package time

import (
	tm "time"

	"verifsim/simrt"
)

const ANSIC = tm.ANSIC
const April = tm.April
const August = tm.August

var Date = tm.Date

const DateOnly = tm.DateOnly
const DateTime = tm.DateTime
const December = tm.December

type Duration = tm.Duration

const February = tm.February

var FixedZone = tm.FixedZone

const Friday = tm.Friday
const Hour = tm.Hour
const January = tm.January
const July = tm.July
const June = tm.June
const Kitchen = tm.Kitchen
const Layout = tm.Layout

var LoadLocation = tm.LoadLocation
var LoadLocationFromTZData = tm.LoadLocationFromTZData
var Local = tm.Local

type Location = tm.Location

const March = tm.March
const May = tm.May
const Microsecond = tm.Microsecond
const Millisecond = tm.Millisecond
const Minute = tm.Minute
const Monday = tm.Monday

type Month = tm.Month

const Nanosecond = tm.Nanosecond
const November = tm.November
const October = tm.October

var Parse = tm.Parse
var ParseDuration = tm.ParseDuration

type ParseError = tm.ParseError

var ParseInLocation = tm.ParseInLocation

const RFC1123 = tm.RFC1123
const RFC1123Z = tm.RFC1123Z
const RFC3339 = tm.RFC3339
const RFC3339Nano = tm.RFC3339Nano
const RFC822 = tm.RFC822
const RFC822Z = tm.RFC822Z
const RFC850 = tm.RFC850
const RubyDate = tm.RubyDate
const Saturday = tm.Saturday
const Second = tm.Second
const September = tm.September
const Stamp = tm.Stamp
const StampMicro = tm.StampMicro
const StampMilli = tm.StampMilli
const StampNano = tm.StampNano
const Sunday = tm.Sunday
const Thursday = tm.Thursday

type Ticker = tm.Ticker
type Time = tm.Time

const TimeOnly = tm.TimeOnly

type Timer = tm.Timer

const Tuesday = tm.Tuesday

var UTC = tm.UTC
var Unix = tm.Unix

const UnixDate = tm.UnixDate

var UnixMicro = tm.UnixMicro
var UnixMilli = tm.UnixMilli

const Wednesday = tm.Wednesday

type Weekday = tm.Weekday

func Now() Time             { return simrt.Now() }
func Since(t Time) Duration { return simrt.Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(simrt.Now()) }
func Sleep(d Duration)      { simrt.Sleep(d) }

func After(d Duration) <-chan Time {
	simrt.Sleep(d)
	c := make(chan Time, 1)
	c <- simrt.Now()
	return c
}

func Tick(d Duration) <-chan Time { return After(d) }

func NewTimer(d Duration) *Timer   { simrt.Sleep(d); return tm.NewTimer(0) }
func NewTicker(d Duration) *Ticker { return tm.NewTicker(d) }
func AfterFunc(d Duration, f func()) *Timer {
	simrt.Sleep(d)
	return tm.AfterFunc(0, f)
}
