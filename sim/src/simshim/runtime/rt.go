package runtime

import (
	real "runtime"
	"simrt"
)

// Gosched yields.
func Gosched() { simrt.Yield() }

// GC does nothing.
func GC() {}

// NumGoroutine counts simulated goroutines.
func NumGoroutine() int { return simrt.NumG() }

// SetFinalizer does nothing.
func SetFinalizer(obj, f any) {}

// LockOSThread does nothing.
func LockOSThread() {}

// UnlockOSThread does nothing.
func UnlockOSThread() {}

// Goexit ends the goroutine.
func Goexit() { real.Goexit() }
