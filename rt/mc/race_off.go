//go:build !race

package mc

import "unsafe"

const RaceEnabled = false

type raceVar struct{}

func handoffWake(c chan struct{}) { c <- struct{}{} }
func handoffWait(c chan struct{}) { <-c }

func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func raceErrors() int                   { return 0 }
func RaceReadRange(b []byte)            {}
func RaceWriteRange(b []byte)           {}
