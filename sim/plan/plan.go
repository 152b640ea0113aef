// Package plan defines a simulated execution: sockets, concurrent procedures,
// network configuration, faults and scheduling policy. A plan plus the decision
// record of the scheduler determines an execution completely.
package plan

type Plan struct {
	Prop   string         `json:"prop"`
	Scen   string         `json:"scen"`
	Seed   uint64         `json:"seed"`
	Net    Net            `json:"net"`
	Sched  Sched          `json:"sched"`
	Socks  []Sock         `json:"socks,omitempty"`
	Phases []Phase        `json:"phases,omitempty"`
	P      map[string]int `json:"p,omitempty"`
}

// Net configures the simulated network.
type Net struct {
	Seed     uint64  `json:"seed"`
	LatMin   int     `json:"latmin"` // microseconds
	LatMax   int     `json:"latmax"`
	Buf      int     `json:"buf"`             // bytes accepted before a writer blocks
	Chunk    int     `json:"chunk,omitempty"` // max bytes returned per read (0: any)
	Seg      int     `json:"seg,omitempty"`   // max bytes per segment (0: any)
	DialFail int     `json:"dialfail,omitempty"`
	DialErr  bool    `json:"dialerr,omitempty"` // attempts fail for various reasons
	AccFail  int     `json:"accfail,omitempty"`
	Faults   []Fault `json:"faults,omitempty"`
}

// Fault is one injected network fault.
//
//	cut       reset the Nth connection A->B once Bytes bytes went in direction Dir
//	fin       same, but an orderly shutdown by the writer's side
//	reset     reset every live connection A->B at time At
//	stall     deliver nothing on A<->B between At and At+Dur
//	part      stall plus refuse-by-silence for new connections
//	emfile    accepting fails at host A between At and At+Dur
//	slow      Bytes bytes per millisecond on A<->B between At and At+Dur
type Fault struct {
	Kind  string `json:"kind"`
	A     string `json:"a,omitempty"`
	B     string `json:"b,omitempty"`
	Nth   int    `json:"nth,omitempty"`
	Dir   int    `json:"dir,omitempty"`
	Bytes int    `json:"bytes,omitempty"`
	Ph    int    `json:"ph,omitempty"`  // phase the fault belongs to
	At    int    `json:"at,omitempty"`  // microseconds since the start of the phase
	Dur   int    `json:"dur,omitempty"` // microseconds
}

type Sched struct {
	Seed     uint64 `json:"seed"`
	Policy   int    `json:"policy"`
	Gap      int    `json:"gap"`
	Quantum  int    `json:"quantum"`
	StepNs   int    `json:"step"`
	StallPer int    `json:"stallper,omitempty"`
	StallMin int    `json:"stallmin,omitempty"` // microseconds
	StallMax int    `json:"stallmax,omitempty"`
	Depth    int    `json:"depth,omitempty"`
	Len      int    `json:"len,omitempty"`
	MaxSteps int    `json:"maxsteps"`
}

type Sock struct {
	Name    string `json:"name"`
	Type    string `json:"type"`
	Host    string `json:"host"`
	ID      string `json:"id,omitempty"`
	Timeout int    `json:"timeout,omitempty"` // ms, 0 default
	Retry   int    `json:"retry,omitempty"`   // ms
	MaxRet  int    `json:"maxret,omitempty"`  // 0 default, -1 forever
	Recon   int    `json:"recon,omitempty"`   // 0 default, 1 on, 2 off
	Sec     string `json:"sec,omitempty"`     // "", "null", "plain"
	Late    bool   `json:"late,omitempty"`    // created by a "new" op
	Port    int    `json:"port,omitempty"`    // of a NODE
	Raw     bool   `json:"raw,omitempty"`     // not a socket of the library but a peer that speaks bytes
	Conn    bool   `json:"conn,omitempty"`    // one end of a connection made with Open
}

type Phase struct {
	Name   string `json:"name"`
	Max    int    `json:"max"`              // ms of simulated time
	Quiet  int    `json:"quiet"`            // ms without events that end the phase once its procedures are done
	Calm   bool   `json:"calm,omitempty"`   // faults healed, stalls off
	Settle int    `json:"settle,omitempty"` // ms without stalls at the end of the phase
	Procs  []Proc `json:"procs,omitempty"`
}

type Proc struct {
	Name string `json:"name"`
	Bg   bool   `json:"bg,omitempty"` // does not hold up the phase
	Ops  []Op   `json:"ops"`
}

type Op struct {
	K    string `json:"k"`
	S    string `json:"s,omitempty"`
	A    string `json:"a,omitempty"`
	B    string `json:"b,omitempty"`
	N    int    `json:"n,omitempty"`
	M    int    `json:"m,omitempty"`
	Us   int    `json:"us,omitempty"`
	Sz   []int  `json:"sz,omitempty"`
	Flag int    `json:"flag,omitempty"`
}

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{Mix(seed ^ 0x1234567)} }

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R returns a number in [lo,hi].
func (r *Rng) R(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.N(hi-lo+1)
}

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func Pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
