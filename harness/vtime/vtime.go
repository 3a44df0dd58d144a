// Package vtime re-exports package time with a clock that the harness sets.
// Packages under test that decide things by elapsed time are compiled with
// their import of "time" redirected here, so that days of polling run in
// milliseconds and deadlines are hit exactly.
package vtime

import (
	"runtime"
	"sync"
	"time"
)

// Types.
type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

// Constants.
const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

// Functions and variables that do not depend on the clock.
var (
	Date                   = time.Date
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	Parse                  = time.Parse
	ParseDuration          = time.ParseDuration
	ParseInLocation        = time.ParseInLocation
	Unix                   = time.Unix
	UnixMicro              = time.UnixMicro
	UnixMilli              = time.UnixMilli
	UTC                    = time.UTC
	Local                  = time.Local
)

var (
	mu     sync.Mutex
	now    = time.Now().Round(0)
	timers = map[*Timer]struct{}{}
)

// Timer is time.Timer on the virtual clock.
type Timer struct {
	C      <-chan Time
	c      chan Time
	f      func()
	when   Time
	period Duration
	active bool
	gen    int
}

// Ticker is time.Ticker on the virtual clock.
type Ticker struct {
	C <-chan Time
	t *Timer
}

// Now returns the virtual time.
func Now() Time {
	mu.Lock()
	defer mu.Unlock()
	return now
}

// Since is time.Since on the virtual clock.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is time.Until on the virtual clock.
func Until(t Time) Duration { return t.Sub(Now()) }

func start(t *Timer, d Duration) {
	mu.Lock()
	t.when = now.Add(d)
	t.active = true
	t.gen++
	timers[t] = struct{}{}
	mu.Unlock()
}

// NewTimer is time.NewTimer on the virtual clock.
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	start(t, d)
	return t
}

// AfterFunc is time.AfterFunc on the virtual clock.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	start(t, d)
	return t
}

// After is time.After on the virtual clock.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Sleep sleeps briefly for short durations and on the virtual clock for long ones.
func Sleep(d Duration) {
	if d < time.Second {
		time.Sleep(d)
		return
	}
	<-After(d)
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	mu.Lock()
	defer mu.Unlock()
	was := t.active
	t.active = false
	t.gen++
	delete(timers, t)
	return was
}

// Reset re-arms the timer.
func (t *Timer) Reset(d Duration) bool {
	mu.Lock()
	was := t.active
	mu.Unlock()
	start(t, d)
	return was
}

// NewTicker is time.NewTicker on the virtual clock.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c, period: d}
	start(t, d)
	return &Ticker{C: c, t: t}
}

// Tick is time.Tick on the virtual clock.
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop stops the ticker.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset re-arms the ticker.
func (t *Ticker) Reset(d Duration) {
	mu.Lock()
	t.t.period = d
	mu.Unlock()
	start(t.t, d)
}

// ---- control, used by the harness only

// Forget drops all timers: for when the objects that own them are closed.
func Forget() {
	mu.Lock()
	for t := range timers {
		t.active = false
		t.gen++
	}
	timers = map[*Timer]struct{}{}
	mu.Unlock()
}

// Timers returns the number of running timers.
func Timers() int {
	mu.Lock()
	defer mu.Unlock()
	return len(timers)
}

// Advance moves the clock by d, firing the timers that become due in order,
// each at its time. settle is called after each timer was taken by its owner.
func Advance(d Duration, settle func()) {
	mu.Lock()
	target := now.Add(d)
	mu.Unlock()
	for {
		mu.Lock()
		var next *Timer
		for t := range timers {
			if !t.when.After(target) && (next == nil || t.when.Before(next.when)) {
				next = t
			}
		}
		if next == nil {
			now = target
			mu.Unlock()
			return
		}
		if next.when.After(now) {
			now = next.when
		}
		gen := next.gen
		at := now
		if next.period > 0 {
			next.when = next.when.Add(next.period)
		} else {
			next.active = false
			delete(timers, next)
		}
		mu.Unlock()
		if next.f != nil {
			next.f()
		} else {
			select {
			case next.c <- at:
			default:
			}
			// Wait until the owner has taken the tick, and has armed the
			// timer again if it does so.
			for i := 0; i < 30000 && len(next.c) != 0; i++ {
				pause(i)
			}
			for i := 0; i < 12000; i++ {
				mu.Lock()
				done := next.gen != gen
				mu.Unlock()
				if done || next.period > 0 && i > 10100 {
					break
				}
				pause(i)
			}
		}
		if settle != nil {
			settle()
		}
	}
}

// pause yields at first, and sleeps when that has not helped.
func pause(i int) {
	if i < 10000 {
		runtime.Gosched()
		return
	}
	time.Sleep(100 * time.Microsecond)
}
