package plan

import (
	"fmt"
	"sort"
	"strings"
)

// Gen generates the plan of one seed for a property.
func Gen(prop string, seed uint64, tier string) *Plan {
	g := &gb{r: NewRng(seed), p: &Plan{Prop: prop, Seed: seed, P: map[string]int{}}, deep: tier == "thorough"}
	g.p.Net = GenNet(g.r)
	g.p.Sched = GenSched(g.r)
	f := gens[prop]
	if f == nil {
		panic("no generator for " + prop)
	}
	f(g)
	for _, s := range g.socks {
		g.p.Socks = append(g.p.Socks, *s)
	}
	for _, ph := range g.phases {
		g.p.Phases = append(g.p.Phases, *ph)
	}
	return g.p
}

var gens = map[string]func(*gb){}

// Props lists the properties that have a generator.
func Props() (l []string) {
	for k := range gens {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

type gb struct {
	r      *Rng
	p      *Plan
	deep   bool
	socks  []*Sock
	phases []*Phase
	eps    int
	names  map[string]int
}

func GenNet(r *Rng) Net {
	n := Net{Seed: r.U64()}
	n.LatMin = Pick(r, 10, 50, 200)
	n.LatMax = n.LatMin + Pick(r, 0, 100, 2000, 20000)
	n.Buf = Pick(r, 2304, 2304, 4096, 16384, 65536, 1<<20)
	n.Chunk = Pick(r, 0, 0, 0, 17, 200, 3)
	n.Seg = Pick(r, 0, 0, 0, 100, 1400, 5)
	return n
}

func GenSched(r *Rng) Sched {
	s := Sched{Seed: r.U64(), Quantum: 3000, StepNs: Pick(r, 20, 100, 500), MaxSteps: 30000000}
	switch r.N(10) {
	case 0, 1, 2, 3:
		s.Policy = 0
		s.Gap = Pick(r, 2, 5, 15, 60, 300)
	case 4, 5, 6:
		s.Policy = 1
		s.Depth = r.R(1, 8)
		s.Len = Pick(r, 300, 2000, 10000)
		s.Gap = 200
	case 7, 8:
		s.Policy = 2
		s.Gap = Pick(r, 5, 40, 300)
	default:
		s.Policy = 3
		s.Gap = Pick(r, 0, 100)
	}
	if r.P(35) {
		s.StallPer = Pick(r, 10, 50, 200)
		s.StallMin = 50
		s.StallMax = Pick(r, 500, 5000, 100000)
	}
	return s
}

// ---- building blocks ----

func (g *gb) sock(typ string) *Sock {
	n := len(g.socks) + 1
	s := &Sock{Name: fmt.Sprintf("%s%d", lower(typ), n), Type: typ, Host: fmt.Sprintf("10.0.0.%d", n)}
	g.socks = append(g.socks, s)
	return s
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

func (g *gb) phase(name string, max, quiet int) *Phase {
	ph := &Phase{Name: name, Max: max, Quiet: quiet}
	g.phases = append(g.phases, ph)
	return ph
}

func (g *gb) pname(base string) string {
	if g.names == nil {
		g.names = map[string]int{}
	}
	g.names[base]++
	if g.names[base] == 1 {
		return base
	}
	return fmt.Sprint(base, "_", g.names[base])
}

func (g *gb) proc(ph *Phase, name string, ops ...Op) {
	ph.Procs = append(ph.Procs, Proc{Name: g.pname(name), Ops: ops})
}

func (g *gb) bg(ph *Phase, name string, ops ...Op) {
	ph.Procs = append(ph.Procs, Proc{Name: g.pname(name), Bg: true, Ops: ops})
}

// ep makes an endpoint for a listener.
func (g *gb) ep(transport string, s *Sock) string {
	g.eps++
	switch transport {
	case "ipc":
		return fmt.Sprintf("ipc://sk%d_%s", g.eps, s.Host)
	case "inproc":
		return fmt.Sprintf("inproc://ip%d", g.eps)
	}
	return fmt.Sprintf("tcp://%s:%d", s.Host, 5000+g.eps)
}

func (g *gb) transport() string { return Pick(g.r, "tcp", "tcp", "tcp", "tcp", "ipc", "inproc") }

// size draws one frame size.
func (g *gb) size() int {
	switch g.r.N(20) {
	case 0:
		return 0
	case 1:
		return g.r.R(1, 7)
	case 2:
		return Pick(g.r, 254, 255, 256, 257)
	case 3:
		return Pick(g.r, 8192, 8191, 4096, 3000)
	case 4:
		return g.r.R(258, 2000)
	}
	return g.r.R(8, 250)
}

// sizes draws the frames of one message; one frame always carries the uid.
func (g *gb) sizes(maxFrames int) []int {
	n := 1
	if maxFrames > 1 && g.r.P(50) {
		n = g.r.R(1, maxFrames)
	}
	sz := make([]int, n)
	for i := range sz {
		sz[i] = g.size()
	}
	sz[g.r.N(n)] = g.r.R(8, Pick(g.r, 40, 300))
	if maxFrames > 2 && g.r.P(2) { // many small frames
		for m := g.r.R(5, 70); m > 0; m-- {
			sz = append(sz, Pick(g.r, 0, 1, g.r.R(2, 20)))
		}
	}
	return sz
}

// limit keeps a plan cheap: tiny chunks and large messages do not mix.
func (g *gb) limit() {
	big := 0
	for _, ph := range g.phases {
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				for _, s := range o.Sz {
					if o.N > 0 {
						big += s * o.N
					} else {
						big += s
					}
				}
			}
		}
	}
	n := &g.p.Net
	if big > 20000 {
		if n.Chunk > 0 && n.Chunk < 200 {
			n.Chunk = 200
		}
		if n.Seg > 0 && n.Seg < 100 {
			n.Seg = 100
		}
	}
	if big > 400000 {
		n.Chunk, n.Seg = 0, 0
		if n.Buf < 65536 {
			n.Buf = 65536
		}
	}
}

func sockMode(s *Sock, r *Rng) { // dialer knobs that never matter for correctness
	s.Retry = Pick(r, 0, 20, 100)
	if s.MaxRet == 0 {
		s.MaxRet = -1
	}
}

// sendOps splits total messages over a few send operations with varied shapes.
func (g *gb) sendOps(s *Sock, total int, lead func() (string, int), reuse bool) (ops []Op) {
	for total > 0 {
		n := g.r.R(1, 4)
		if n > total {
			n = total
		}
		total -= n
		o := Op{K: Pick(g.r, "send", "send", "send", "sendm"), S: s.Name, N: n, Sz: g.sizes(4)}
		if lead != nil {
			var f int
			o.B, f = lead()
			o.Flag |= f
		}
		if g.r.P(30) {
			o.Us = g.r.R(1, 3000)
		}
		if reuse && g.r.P(40) {
			o.Flag |= 1
		}
		ops = append(ops, o)
		if g.r.P(15) {
			ops = append(ops, Op{K: "sleep", Us: g.r.R(10, 20000)})
		}
	}
	return
}

// connect adds a listen and a dial for every pair; either side may listen.
// Every socket listens at most once, so pairs share the listener's endpoint.
type link struct{ l, d *Sock } // listener, dialer

func (g *gb) connect(ph *Phase, transport string, links []link) map[*Sock]string {
	eps := map[*Sock]string{}
	for _, k := range links {
		if _, ok := eps[k.l]; !ok {
			eps[k.l] = g.ep(transport, k.l)
			ops := []Op{{K: "listen", S: k.l.Name, A: eps[k.l]}}
			if g.r.P(30) {
				ops = append([]Op{{K: "sleep", Us: g.r.R(1, Pick(g.r, 300, 30000))}}, ops...)
			}
			g.proc(ph, "listen_"+k.l.Name, ops...)
		}
	}
	for _, k := range links {
		ops := []Op{{K: "dial", S: k.d.Name, A: eps[k.l]}}
		if g.r.P(50) {
			ops = append([]Op{{K: "sleep", Us: g.r.R(1, Pick(g.r, 300, 30000))}}, ops...)
		}
		sockMode(k.d, g.r)
		g.proc(ph, "dial_"+k.d.Name, ops...)
	}
	return eps
}

func (g *gb) recvLoop(ph *Phase, s *Sock) {
	o := Op{K: "recv", S: s.Name, N: -1}
	if g.r.P(25) {
		o.Us = g.r.R(1, 4000)
	}
	g.bg(ph, "recv_"+s.Name, o)
	if g.r.P(15) {
		g.bg(ph, "recv2_"+s.Name, o)
	}
}

// star builds a hub and its leaves; the hub or the leaves listen.
func (g *gb) star(ph *Phase, transport string, hub *Sock, leaves []*Sock) []link {
	var links []link
	if g.r.P(60) || transport == "" {
		for _, l := range leaves {
			links = append(links, link{hub, l})
		}
	} else {
		for _, l := range leaves {
			links = append(links, link{l, hub})
		}
	}
	g.connect(ph, transport, links)
	return links
}

func (g *gb) setID(s *Sock) {
	s.ID = fmt.Sprintf("%s-%d", Pick(g.r, "id", "n", "peer-with-a-long-name"), len(g.socks)*7+g.r.N(5)*100+hashName(s.Name))
	switch k := g.r.N(100); {
	case k < 6:
		// As long as an identity may be: the command announcing it no longer
		// fits a short frame.
		s.ID += strings.Repeat("~", 200+g.r.N(56)-len(s.ID))
	case k < 11:
		s.ID = Pick(g.r, "\x01", "\n", " ", "\x7f") + s.ID + Pick(g.r, "", "\x00", "\x00\x00", "\r\n")
	}
}

func hashName(s string) int {
	h := 0
	for _, c := range s {
		h = h*31 + int(c)
	}
	return h % 1000 * 1000
}
