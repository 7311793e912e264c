// Package verifclock is the clock that the instrumented build of the code
// under test reads instead of the one in package time.
package verifclock

import (
	"sync/atomic"
	"time"
)

var virtual atomic.Pointer[time.Time]

// Reads counts how many times the clock was read.
var Reads atomic.Int64

// Set switches to a virtual time that stands still until the next call.
func Set(t time.Time) { virtual.Store(&t) }

// Real switches back to the real clock.
func Real() { virtual.Store(nil) }

// Offset is added to the real clock.
var Offset atomic.Int64

// Now replaces time.Now.
func Now() time.Time {
	Reads.Add(1)
	if t := virtual.Load(); t != nil {
		return *t
	}
	return time.Now().Add(time.Duration(Offset.Load()))
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration {
	return Now().Sub(t)
}

// Until replaces time.Until.
func Until(t time.Time) time.Duration {
	return t.Sub(Now())
}
