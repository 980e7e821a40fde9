//go:build race

package mc

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

type raceVar struct{ x uint64 }

// The baton hand-offs are hidden from the race detector: only the edges the
// program's own synchronisation creates (RaceAcquire/RaceRelease in the
// replacement primitives) order its accesses.

//go:norace
func handoffWake(c chan struct{}) {
	runtime.RaceDisable()
	c <- struct{}{}
	runtime.RaceEnable()
}

//go:norace
func handoffWait(c chan struct{}) {
	runtime.RaceDisable()
	<-c
	runtime.RaceEnable()
}

//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

func raceErrors() int { return runtime.RaceErrors() }

//go:norace
func RaceReadRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

//go:norace
func RaceWriteRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
