//go:build vsim && race

package main

import (
	"runtime"
	"sync"
	"unsafe"
)

// With the race detector built in, the simulated network must not order what
// the code under test does: its lock is hidden from the detector, and what it
// reads and writes for its caller is attributed to the caller.

func init() { runtime.SimHarness() }

type quietMutex struct{ mu sync.Mutex }

func (m *quietMutex) Lock() {
	runtime.RaceDisable()
	m.mu.Lock()
	runtime.RaceEnable()
}

func (m *quietMutex) Unlock() {
	runtime.RaceDisable()
	m.mu.Unlock()
	runtime.RaceEnable()
}

func raceReads(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

func raceWrites(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}

var published = new([64]byte)

// racePublish and raceObtain hand an object over from who made it to who uses it.
func racePublish() { runtime.RaceReleaseMerge(unsafe.Pointer(published)) }
func raceObtain()  { runtime.RaceAcquire(unsafe.Pointer(published)) }

// What the application does with its own messages.

//go:noinline
func appReads(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

//go:noinline
func appWrites(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
