//go:build vsim

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
	"github.com/luxfi/zmq/v4/networking"
)

// Ev is one operation of the recorded history. I and R are global event
// sequence numbers of its invocation and return (R is 0 while unfinished).
type Ev struct {
	I, R   int64
	Ti, Tr int64 // simulated ns since start
	Bi, Br int64 // simulated ns that went by while something was running
	Phase  int
	Proc   string
	Op     int
	It     int
	K, S   string
	A      string
	UID    uint32
	Frames [][]byte
	Type   int
	Err    string
	List   []string
	N      int
	Dead   bool // the socket's host crashed before the operation returned
	M      networking.Message
	ref    [][]byte // the frames as handed out by the library
	k      *sk
}

func (e *Ev) ok() bool { return e.R != 0 && e.Err == "" && !e.Dead }

// busy is the part of the simulated time that steps of execution took: a
// schedule may starve a thread that could run, but not while nothing runs.
func busy() int64 { return runtime.SimStep() * int64(pl.Sched.StepNs) }

// waited is how long a finished operation was held up by anything but other
// threads' execution.
func (e *Ev) waited() int64 { return e.Tr - e.Ti - (e.Br - e.Bi) }

func (e *Ev) String() string {
	s := fmt.Sprintf("%6d-%-6d t=%.3f-%.3fms %s[%d.%d] %s %s", e.I, e.R, float64(e.Ti)/1e6, float64(e.Tr)/1e6, e.Proc, e.Op, e.It, e.K, e.S)
	if e.A != "" {
		s += " " + e.A
	}
	if e.UID != 0 {
		s += fmt.Sprintf(" uid=%d", e.UID)
	}
	if e.Frames != nil {
		s += " " + frameStr(e.Frames)
	}
	if e.List != nil {
		s += fmt.Sprintf(" %q", e.List)
	}
	if e.R == 0 {
		s += " UNFINISHED"
	}
	if e.Dead {
		s += " (crashed)"
	}
	if e.Err != "" {
		s += " err=" + e.Err
	}
	return s
}

func frameStr(fr [][]byte) string {
	var b strings.Builder
	b.WriteString("[")
	for i, f := range fr {
		if i > 0 {
			b.WriteString(" ")
		}
		if len(f) <= 12 {
			fmt.Fprintf(&b, "%q", f)
		} else {
			fmt.Fprintf(&b, "%q..(%d)", f[:12], len(f))
		}
	}
	return b.String() + "]"
}

var (
	hist    []*Ev
	seq     int64
	lastEv  time.Time
	simBase time.Time
	curPh   int
	notes   []string
)

func nextSeq() int64 { seq++; return seq }

func simNow() int64 { return int64(time.Since(simBase)) }

func begin(proc string, op, it int, k, s string) *Ev {
	runtime.SimYield()
	raceObtain()
	e := &Ev{I: nextSeq(), Ti: simNow(), Bi: busy(), Phase: curPh, Proc: proc, Op: op, It: it, K: k, S: s, k: socks[s]}
	hist = append(hist, e)
	lastEv = time.Now()
	return e
}

func (e *Ev) end(err error) *Ev {
	if err != nil {
		e.Err = err.Error()
		if e.Err == "" {
			e.Err = "(empty error)"
		}
	}
	if e.k != nil && e.k.crashed {
		e.Dead = true
	}
	e.Tr, e.Br = simNow(), busy()
	e.R = nextSeq()
	lastEv = time.Now()
	runtime.SimYield()
	return e
}

// Message bodies. Frame j of message uid with size n is a pure function of
// (uid, j, n); frames of 8 bytes or more carry the uid in clear.
const magic = 0x5A7D

func body(uid uint32, j, n int) []byte {
	b := make([]byte, n)
	r := plan.NewRng(uint64(uid)<<16 | uint64(j)<<1 | 1)
	for i := 0; i < n; i += 8 {
		x := r.U64()
		for k := i; k < n && k < i+8; k++ {
			b[k] = byte(x)
			x >>= 8
		}
	}
	if n >= 8 {
		binary.BigEndian.PutUint16(b, magic)
		binary.BigEndian.PutUint16(b[2:], uint16(j))
		binary.BigEndian.PutUint32(b[4:], uid)
	} else if n > 0 {
		b[0] |= 0x80 // never looks like a subscription
	}
	return b
}

func mkFrames(uid uint32, sz []int) [][]byte {
	fr := make([][]byte, len(sz))
	for j, n := range sz {
		fr[j] = body(uid, j, n)
	}
	return fr
}

// uidOf finds the uid carried by frames (0 if none).
func uidOf(fr [][]byte) uint32 {
	for _, f := range fr {
		if len(f) >= 8 && binary.BigEndian.Uint16(f) == magic {
			return binary.BigEndian.Uint32(f[4:])
		}
	}
	return 0
}

func sameFrames(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Violation is a property violation found by an oracle.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

var violations []Violation

func violate(class, format string, a ...any) {
	if len(violations) < 8 {
		violations = append(violations, Violation{class, fmt.Sprintf(format, a...)})
	}
}

var probes = map[string]int{}

func probe(k string, n int) {
	if n != 0 {
		probes[k] += n
	}
}
