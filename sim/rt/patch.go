// Package rt produces the patched standard-library files of the simulation
// build: a Go runtime whose scheduler, clock and randomness are owned by a
// seeded simulator, and a net package whose dialing and listening go through
// hooks. Every patch is an anchored textual replacement of the installed
// toolchain's own file; a missing anchor is an error.
package rt

import (
	_ "embed"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

//go:embed simrt.go.txt
var simrt string

type edit struct {
	file     string
	old, new string
	n        int // expected number of occurrences (0: exactly 1, -1: any > 0)
}

var edits = []edit{
	{file: "runtime/proc.go", old: "const haveSysmon = GOARCH != \"wasm\"", new: "const haveSysmon = false"},
	// a second thread would be created sooner or later depending on real time, and shift the heap
	{file: "runtime/proc.go", old: "	// to preserve the lock.\n	lockOSThread()\n", new: ""},
	{file: "runtime/proc.go", old: "	needUnlock := true\n", new: "	needUnlock := false\n"},
	{file: "runtime/proc.go", old: "	needUnlock = false\n	unlockOSThread()\n", new: "	needUnlock = false\n"},
	{file: "runtime/proc.go", old: "func runqget(pp *p) (gp *g, inheritTime bool) {\n", new: "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn || sim.nq > 0 {\n\t\treturn simPick(pp), false\n\t}\n"},
	{file: "runtime/proc.go", old: "if pp.schedtick%61 == 0 && !sched.runq.empty() {", new: "if !simOn && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
	{file: "runtime/proc.go", old: "	// Spinning Ms: steal work from other Ps.\n	//\n	// Limit", new: "	if simOn {\n		if w := pp.timers.wakeTime(); w > 0 {\n			if w > faketime {\n				faketime = w\n				sim.jumps++\n			}\n			goto top\n		}\n	}\n	// Spinning Ms: steal work from other Ps.\n	//\n	// Limit"},
	{file: "runtime/proc.go", old: "			faketime = when\n", new: "			if when > faketime {\n				faketime = when\n			}\n"},
	{file: "runtime/proc.go", old: "	runqput(mp.p.ptr(), gp, next)\n	wakep()\n	releasem(mp)\n", new: "	sim.readied = true\n	runqput(mp.p.ptr(), gp, next)\n	wakep()\n	releasem(mp)\n"},
	{file: "runtime/proc.go", old: "	gp.fipsOnlyBypass = false\n	gp.secret = 0\n\n	if gcBlackenEnabled", new: "	gp.fipsOnlyBypass = false\n	gp.secret = 0\n	gp.simPrio = 0\n\n	if gcBlackenEnabled"},
	{file: "runtime/runtime2.go", old: "	goid         uint64\n", new: "	goid         uint64\n	simPrio      uint64\n"},
	{file: "runtime/panic.go", old: "			crash()\n		}\n\n		exit(2)\n", new: "			crash()\n		}\n\n		simDump(2)\n		exit(2)\n"},
	{file: "runtime/panic.go", old: "	systemstack(func() {\n		exit(2)\n	})\n", new: "	systemstack(func() {\n		simDump(2)\n		exit(2)\n	})\n"},
	{file: "runtime/rand.go", old: "	if len(startupRand) >= 16 &&\n", new: "	for i := range seed {\n		seed[i] = byte(i + 1)\n	}\n	if seed[0] == 1 {\n	} else if len(startupRand) >= 16 &&\n"},
	{file: "runtime/rand.go", old: "func rand() uint64 {\n", new: "func rand() uint64 {\n	if simOn {\n		return simRand()\n	}\n"},
	{file: "runtime/rand.go", old: "func cheaprand() uint32 {\n", new: "func cheaprand() uint32 {\n	if simOn {\n		return uint32(simRand() >> 32)\n	}\n"},
	{file: "runtime/chan.go", old: "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", new: "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	if simOn {\n		simYield()\n	}\n"},
	{file: "runtime/chan.go", old: "func closechan(c *hchan) {\n", new: "func closechan(c *hchan) {\n	if simOn {\n		simYield()\n	}\n"},
	{file: "runtime/chan.go", old: "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", new: "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	if simOn {\n		simYield()\n	}\n"},
	{file: "runtime/select.go", old: "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n", new: "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	if simOn {\n		simYield()\n	}\n"},
	{file: "internal/runtime/maps/map.go", old: "	m.writing ^= 1 // toggle, see comment on writing\n", new: "	m.writing ^= 1 // toggle, see comment on writing\n	simYield()\n", n: -1},
	{file: "internal/runtime/maps/runtime.go", old: "	m.writing ^= 1 // toggle, see comment on writing\n", new: "	m.writing ^= 1 // toggle, see comment on writing\n	simYield()\n", n: -1},
	{file: "internal/runtime/maps/runtime_fast32.go", old: "	m.writing ^= 1 // toggle, see comment on writing\n", new: "	m.writing ^= 1 // toggle, see comment on writing\n	simYield()\n", n: -1},
	{file: "internal/runtime/maps/runtime_fast64.go", old: "	m.writing ^= 1 // toggle, see comment on writing\n", new: "	m.writing ^= 1 // toggle, see comment on writing\n	simYield()\n", n: -1},
	{file: "internal/runtime/maps/runtime_faststr.go", old: "	m.writing ^= 1 // toggle, see comment on writing\n", new: "	m.writing ^= 1 // toggle, see comment on writing\n	simYield()\n", n: -1},
	{file: "internal/runtime/maps/runtime.go", old: "//go:linkname rand\nfunc rand() uint64\n", new: "//go:linkname rand\nfunc rand() uint64\n\n//go:linkname simYield\nfunc simYield()\n"},
	// the race detector looks at the code under test, not at the harness
	{file: "runtime/race.go", old: "func race_ReadPC(addr unsafe.Pointer, callerpc, pc uintptr) {\n	racereadpc(addr, callerpc, pc)\n", new: "func race_ReadPC(addr unsafe.Pointer, callerpc, pc uintptr) {\n	if simHarness(callerpc) {\n		return\n	}\n	racereadpc(addr, callerpc, pc)\n"},
	{file: "runtime/race.go", old: "func race_WritePC(addr unsafe.Pointer, callerpc, pc uintptr) {\n	racewritepc(addr, callerpc, pc)\n", new: "func race_WritePC(addr unsafe.Pointer, callerpc, pc uintptr) {\n	if simHarness(callerpc) {\n		return\n	}\n	racewritepc(addr, callerpc, pc)\n"},
	{file: "runtime/race.go", old: "func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n", new: "func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n	if simHarness(callpc) {\n		return\n	}\n"},
	{file: "runtime/race.go", old: "func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n", new: "func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n	if simHarness(callpc) {\n		return\n	}\n"},
	{file: "net/dial.go", old: "	ctx, cancel := d.dialCtx(ctx)\n	defer cancel()\n\n	// Shadow", new: "	ctx, cancel := d.dialCtx(ctx)\n	defer cancel()\n	if SimDial != nil {\n		return SimDial(ctx, network, address)\n	}\n\n	// Shadow"},
	{file: "net/dial.go", old: "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", new: "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(ctx, network, address)\n	}\n"},
}

const simTime = `//go:build faketime && !windows

package runtime

import "unsafe"

var faketime int64 = 1257894000000000000

//go:linkname nanotime
//go:nosplit
func nanotime() int64 {
	return faketime
}

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	return faketime / 1e9, int32(faketime % 1e9), faketime
}

//go:nowritebarrierrec
func write(fd uintptr, p unsafe.Pointer, n int32) int32 { return write1(fd, p, n) }
`

const simNet = `package net

import "context"

// SimDial and SimListen, when set, replace the operating system's network.
var (
	SimDial   func(ctx context.Context, network, address string) (Conn, error)
	SimListen func(ctx context.Context, network, address string) (Listener, error)
)
`

// Write writes the patched files under dir and adds them to replace.
func Write(goroot, dir string, replace map[string]string) error {
	src := filepath.Join(goroot, "src")
	files := map[string]string{}
	for _, e := range edits {
		t, ok := files[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, e.file))
			if err != nil {
				return err
			}
			t = string(b)
		}
		c := strings.Count(t, e.old)
		if c == 0 || (e.n == 0 && c != 1) {
			return fmt.Errorf("runtime patch: anchor found %d times in %s: %q", c, e.file, e.old)
		}
		files[e.file] = strings.ReplaceAll(t, e.old, e.new)
	}
	files["runtime/simrt.go"] = simrt
	files["runtime/time_fake.go"] = simTime
	files["net/simnet.go"] = simNet
	for f, t := range files {
		out := filepath.Join(dir, strings.ReplaceAll(f, "/", "__"))
		if err := os.WriteFile(out, []byte(t), 0o644); err != nil {
			return err
		}
		replace[filepath.Join(src, f)] = out
	}
	return nil
}
