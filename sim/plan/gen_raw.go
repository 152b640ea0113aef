package plan

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
)

func init() {
	gens["C17"] = genC17
	gens["C10"] = genC10
	gens["C11"] = genC11
}

// raw makes a peer that speaks bytes.
func (g *gb) raw(typ, sec string) *Sock {
	s := g.sock(typ)
	s.Raw, s.Sec = true, sec
	s.Host = fmt.Sprintf("raw%d", len(g.socks))
	s.Name = "raw" + s.Name
	return s
}

// hs is a handshake as a conforming peer may perform it.
func (g *gb) hs(s *Sock) Op {
	o := Op{K: "rawhs", S: s.Name, M: g.r.N(3)}
	if g.r.P(30) {
		o.N = Pick(g.r, 1, 3, 10, 40)
	}
	return o
}

// encoding varies how a raw peer writes its messages.
func (g *gb) encoding(o *Op) {
	if g.r.P(30) {
		o.Flag |= 64
	}
	if g.r.P(30) {
		o.M = Pick(g.r, 1, 2, 9, 100)
	}
}

// rawUp connects a raw peer to a socket of the library.
func (g *gb) rawUp(ph *Phase, tr string, real, peer *Sock, eps map[*Sock]string, then ...Op) {
	r := g.r
	var ops []Op
	if r.P(50) {
		ops = append(ops, Op{K: "sleep", Us: r.R(1, Pick(r, 300, 30000))})
	}
	if r.P(55) {
		if eps[real] == "" {
			eps[real] = g.ep(tr, real)
			g.proc(ph, "listen_"+real.Name, Op{K: "listen", S: real.Name, A: eps[real]})
		}
		ops = append(ops, Op{K: "rawdial", S: peer.Name, A: eps[real]}, g.hs(peer))
	} else {
		ep := g.ep(tr, peer)
		ops = append(ops, Op{K: "rawlisten", S: peer.Name, A: ep}, Op{K: "rawaccept", S: peer.Name, Us: 30000000}, g.hs(peer))
		sockMode(real, r)
		g.proc(ph, "dial_"+real.Name, Op{K: "sleep", Us: r.R(0, 30000)}, Op{K: "dial", S: real.Name, A: ep})
	}
	g.proc(ph, "up_"+peer.Name, append(ops, then...)...)
}

// C17: the bytes on the wire are ZMTP 3.0, in both directions.
func genC17(g *gb) {
	r := g.r
	real := g.sock(Pick(r, "PUSH", "PULL", "PAIR", "DEALER", "DEALER", "ROUTER", "ROUTER", "REQ", "REP", "PUB", "XPUB", "SUB", "XSUB"))
	g.p.Scen = "wire_" + lower(real.Type)
	real.Sec = Pick(r, "", "", "null", "plain", anyPlain(r))
	if r.P(40) {
		real.ID = Pick(r, "i", "some-identity", "\x00\xff\x01", strings.Repeat("long", 63))
	}
	tr := g.transport()
	setup := g.phase("setup", 60000, 100)
	setup.Settle = 3000
	work := g.phase("work", 120000, 1000)
	work.Settle = 2000
	n := r.R(1, 3)
	if real.Type == "PAIR" {
		n = 1
	}
	eps := map[*Sock]string{}
	topics := []string{Pick(r, "", "a", "topic"), Pick(r, "ab", "z", strings.Repeat("x", 300))}
	var peers []*Sock
	kind := Pick(r, compatible[real.Type]...)
	for k := 0; k < n; k++ {
		p := g.raw(kind, real.Sec)
		peers = append(peers, p)
		if real.Type == "ROUTER" && kind != "REQ" || r.P(50) {
			g.setID(p)
		}
		var then []Op
		if p.Type == "SUB" || p.Type == "XSUB" {
			for _, t := range topics[:r.R(1, 2)] {
				o := Op{K: "rawsub", S: p.Name, A: t, N: 1}
				g.encoding(&o)
				then = append(then, o)
			}
			then = append(then, Op{K: "rawsub", S: p.Name, A: topics[0], N: 1})
		}
		g.rawUp(setup, tr, real, p, eps, then...)
	}
	sends := func(s *Sock, B string, flag int) (ops []Op) {
		for k := r.R(1, 4); k > 0; k-- {
			o := Op{K: Pick(r, "send", "sendm"), S: s.Name, N: r.R(1, 3), Sz: g.sizes(4), B: B, Flag: flag}
			if r.P(2) {
				o.Sz[len(o.Sz)-1], o.N = Pick(r, 65535, 65536, 70000), 1
			}
			if s.Raw {
				o.K = "rawmsg"
				g.encoding(&o)
			}
			ops = append(ops, o)
		}
		return
	}
	switch real.Type {
	case "SUB", "XSUB": // subscriptions before, while and after connecting
		for _, t := range topics {
			o := subOp(real, t)
			if real.Type == "SUB" {
				g.proc(setup, "sub", Op{K: "sleep", Us: Pick(r, 0, r.R(0, 60000))}, o)
			} else {
				g.proc(setup, "sub", Op{K: "sleep", Us: 20000000}, o)
			}
		}
		if real.Type == "SUB" && r.P(50) {
			g.proc(setup, "unsub", Op{K: "sub", S: real.Name, A: "gone"}, Op{K: "sleep", Us: r.R(0, 100000)}, Op{K: "unsub", S: real.Name, A: "gone"})
		}
	}
	if real.Type == "REQ" {
		for _, p := range peers {
			o := Op{K: "rawecho", S: p.Name, Sz: g.sizes(3)}
			g.encoding(&o)
			g.bg(work, "serve_"+p.Name, o)
		}
		g.proc(work, "ask", Op{K: "sleep", Us: 5000}, Op{K: "req", S: real.Name, N: r.R(1, 6), Sz: g.sizes(3), Flag: Pick(r, 0, 8)})
		g.limit()
		return
	}
	if real.Type == "REP" || real.Type == "ROUTER" && kind == "REQ" {
		o := Op{K: "rep", S: real.Name, Sz: g.sizes(3), Flag: Pick(r, 0, 8)}
		if real.Type == "ROUTER" {
			o.K, o.Flag = "echo", 2
		}
		g.bg(setup, "serve", o)
		for _, p := range peers {
			B := ""
			if p.Type == "DEALER" && r.P(50) {
				B = Pick(r, "env", "long envelope")
			}
			for k := r.R(1, 4); k > 0; k-- {
				o := Op{K: "rawmsg", S: p.Name, B: B, Flag: 2, Sz: g.sizes(3)}
				g.encoding(&o)
				g.proc(work, "ask_"+p.Name, Op{K: "sleep", Us: k * 300000}, o)
			}
		}
		g.limit()
		return
	}
	if real.Type == "DEALER" && kind == "REP" {
		for _, p := range peers {
			o := Op{K: "rawecho", S: p.Name, Sz: g.sizes(3)}
			g.encoding(&o)
			g.bg(work, "serve_"+p.Name, o)
		}
		g.bg(setup, "recv", Op{K: "recv", S: real.Name, N: -1})
		g.proc(work, "send", sends(real, "", 2)...)
		g.limit()
		return
	}
	lead := func() string {
		switch real.Type {
		case "PUB", "XPUB", "SUB", "XSUB":
			return topics[0] + Pick(r, "", "more")
		}
		return ""
	}
	switch real.Type {
	case "PUSH", "PAIR", "DEALER", "PUB", "XPUB", "ROUTER":
		for k := r.R(1, 2); k > 0; k-- {
			B := lead()
			if real.Type == "ROUTER" {
				B = peers[r.N(len(peers))].ID
			}
			g.proc(work, "send", sends(real, B, 0)...)
		}
	}
	switch real.Type {
	case "PULL", "PAIR", "DEALER", "SUB", "XSUB", "ROUTER":
		g.bg(setup, "recv", Op{K: "recv", S: real.Name, N: -1})
		for _, p := range peers {
			g.proc(work, "rawsend_"+p.Name, sends(p, lead(), 0)...)
		}
	}
	g.limit()
}

// deviation is a handshake that must not succeed.
type deviation struct {
	name  string
	parts [][]byte
	fate  string // "closed": must be closed; "hang": incomplete
}

func (g *gb) deviate(s, real *Sock, server bool) deviation {
	r := g.r
	parts := ZHandshake(s, server)
	last := len(parts) - 1
	mech := Mech(real.Sec)
	cut := func(name string, all []byte, k int) deviation {
		return deviation{name, [][]byte{all[:k]}, "hang"}
	}
	swap := func(name string, i int, b []byte) deviation {
		parts[i] = b
		return deviation{name, parts[:i+1], "closed"}
	}
	meta := ZMeta(s.Type, s.ID)
	cname := []string{"READY", "READY"}
	if mech == "PLAIN" {
		cname = []string{"HELLO", "INITIATE"}
		if server {
			cname = []string{"WELCOME", "READY"}
		}
	}
	withMeta := func(name string, m []byte) deviation { return swap(name, last, ZCmd(cname[1], m, false)) }
	kind := r.N(26)
	if mech == "PLAIN" && r.P(15) {
		kind = 25
	}
	switch kind {
	case 0:
		parts[0][0] = byte(r.N(255))
		return swap("signature", 0, parts[0])
	case 1:
		parts[0][9] = byte(r.N(127))
		return swap("signature", 0, parts[0])
	case 2:
		parts[0][10], parts[0][11] = byte(r.N(3)), byte(r.N(256))
		return swap("version", 0, parts[0])
	case 3, 4:
		m := Pick(r, "NULL", "PLAIN", "CURVE", "", "null", mech+"X", mech[:len(mech)-1], "GSSAPI", strings.Repeat("M", 20), mech+strings.Repeat(mech[:1], 20-len(mech)))
		if m == mech {
			m = "CURVE"
		}
		b := make([]byte, 20)
		copy(b, m)
		copy(parts[0][12:32], b)
		return swap("mechanism", 0, parts[0])
	case 5:
		parts[0][32] = byte(r.R(2, 255))
		return swap("as-server", 0, parts[0])
	case 6:
		return cut("greeting cut", parts[0], r.N(64))
	case 7:
		b := []byte("GET /index.html HTTP/1.1\r\nHost: example.org\r\nUser-Agent: something/1.0\r\n\r\n")
		if r.P(30) {
			return cut("http", b, 40)
		}
		return swap("http", 0, b)
	case 8:
		all := bytes.Join(parts, nil)
		return cut("handshake cut", all, r.R(64, len(all)-1))
	case 9:
		return swap("message instead of a command", r.R(1, last), ZMsg([][]byte{[]byte("\x05READYhello")}, false))
	case 10:
		i := r.R(1, last)
		n := Pick(r, "ERROR", "PING", "SUBSCRIBE", "FOO", "ready", "CANCEL")
		return swap("wrong command", i, ZCmd(n, meta, false))
	case 11:
		return swap("empty command", r.R(1, last), ZFrame(4, nil, false))
	case 12:
		return swap("command name too long", r.R(1, last), ZFrame(4, Pick(r, []byte("\x09READY"), []byte("\x06READY"), []byte{1}, []byte{255, 'R'}, append([]byte{byte(len(cname[0]) + 1)}, cname[0]...)), false))
	case 13:
		b := append(ZFrame(5, append([]byte{byte(len(cname[1]))}, cname[1]...), false), ZFrame(4, meta, false)...)
		return swap("command in two frames", last, b)
	case 14:
		k := r.R(1, len(meta)-1)
		if k == len(ZProp("Socket-Type", s.Type)) { // complete without an identity
			k--
		}
		return withMeta("metadata cut", meta[:k])
	case 15:
		m := append([]byte{}, meta...)
		binary.BigEndian.PutUint32(m[12:], Pick(r, uint32(len(m)), 1<<31, 1<<32-1))
		return withMeta("metadata overflow", m)
	case 16:
		return withMeta("no socket type", Pick(r, nil, ZProp("Identity", s.ID), ZProp("X-Socket-Type", s.Type)))
	case 17, 18:
		bad := []string{}
		for t := range compatible {
			ok := false
			for _, c := range compatible[real.Type] {
				ok = ok || c == t
			}
			if !ok {
				bad = append(bad, t)
			}
		}
		sortStrings(bad)
		return withMeta("incompatible socket type", ZMeta(bad[r.N(len(bad))], s.ID))
	case 19:
		return withMeta("unknown socket type", ZMeta(Pick(r, "", "FOO", lower(s.Type), s.Type+"X", s.Type[:len(s.Type)-1], "STREAM", "SERVER"), s.ID))
	case 20:
		b := make([]byte, 9)
		b[0] = 6
		binary.BigEndian.PutUint64(b[1:], Pick(r, uint64(1)<<63, ^uint64(0), 1<<63+1000))
		return swap("endless command", r.R(1, last), b)
	case 21:
		b := ZCmd(cname[1], meta, false)
		b[0] &^= 4
		return swap("command flag missing", last, b)
	}
	// about the mechanism's own steps
	if mech == "NULL" {
		return withMeta("incompatible socket type", ZMeta(real.Type+real.Type, s.ID))
	}
	user, pass, _ := Creds(real.Sec)
	hello := func(name string, body []byte) deviation {
		d := swap(name, 1, ZCmd("HELLO", body, r.P(20)))
		if r.P(50) { // goes on as if nothing had happened
			d.parts = parts
		}
		return d
	}
	if server {
		switch r.N(4) {
		case 0:
			return swap("ERROR instead of WELCOME", 1, ZCmd("ERROR", []byte("\x02no"), false))
		case 1:
			parts = [][]byte{parts[0], parts[2], parts[2]}
			return swap("READY without WELCOME", 2, parts[2])
		case 2:
			return swap("ERROR instead of READY", 2, ZCmd("ERROR", []byte("\x02no"), false))
		}
		return swap("WELCOME twice", 2, parts[1])
	}
	switch r.N(12) {
	case 0:
		return swap("no HELLO", 1, parts[2])
	case 1:
		return swap("HELLO twice", 2, parts[1])
	case 2:
		return swap("READY instead of HELLO", 1, ZCmd("READY", meta, false))
	case 3:
		return swap("READY instead of INITIATE", 2, ZCmd("READY", meta, false))
	case 4, 5, 6:
		h := ZHello(user, pass)
		for bytes.Equal(h, ZHello(user, pass)) {
			u, p := user, pass
			switch r.N(11) {
			case 0:
				p = "wrong"
			case 1:
				u = "root"
			case 2:
				u, p = "", ""
			case 3:
				p += Pick(r, "x", "\x00", " ")
			case 4:
				p = p[:r.N(len(p)+1)]
			case 5:
				u = u[:r.N(len(u)+1)]
			case 6:
				u += Pick(r, "x", "\x00", " ")
			case 7:
				k := r.N(len(u+p) + 1)
				u, p = (u + p)[:k], (u + p)[k:]
			case 8:
				u, p = p, u
			case 9:
				p = flip(r, p)
			case 10:
				u = flip(r, u)
			}
			if len(u) > 255 || len(p) > 255 {
				continue
			}
			h = ZHello(u, p)
		}
		return hello("wrong password", h)
	}
	h := ZHello(user, pass)
	x := r.N(len(h))
	switch r.N(5) {
	case 0:
		return hello("malformed HELLO", Pick(r, nil, []byte{200}, h[:1], []byte{0}, []byte("user secret")))
	case 1:
		return hello("malformed HELLO", h[:x])
	case 2:
		return hello("malformed HELLO", append(append([]byte{}, h...), Pick(r, []byte{0}, []byte("x"), h)...))
	case 3:
		return hello("malformed HELLO", append(append(append([]byte{}, h[:x]...), 7), h[x:]...))
	}
	return hello("malformed HELLO", append(append([]byte{}, h[:x]...), h[x+1:]...))
}

// anyPlain picks the credentials of PLAIN.
func anyPlain(r *Rng) string {
	if r.P(60) {
		return "plain"
	}
	return fmt.Sprint("plain", r.R(1, 5))
}

// flip changes a bit of s.
func flip(r *Rng, s string) string {
	if s == "" {
		return "x"
	}
	b := []byte(s)
	b[r.N(len(b))] ^= 1 << r.N(8)
	return string(b)
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// unusual is a handshake that looks odd but conforms.
func (g *gb) unusual(s *Sock, server bool) Op {
	r := g.r
	parts := ZHandshake(s, server)
	gr := parts[0]
	if r.P(40) {
		for i := 1; i < 9; i++ {
			gr[i] = byte(r.N(256))
		}
	}
	if r.P(40) {
		gr[10], gr[11] = Pick(r, byte(3), 3, 4, 9), byte(r.N(256))
	}
	if r.P(40) {
		for i := 33; i < 64; i++ {
			gr[i] = byte(r.N(256))
		}
	}
	m := ZMeta(s.Type, s.ID)
	if r.P(60) {
		props := [][]byte{ZProp(Pick(r, "Socket-Type", "Socket-Type", "socket-type"), s.Type), ZProp("Identity", s.ID)}
		if s.ID == "" && r.P(50) {
			props = props[:1]
		}
		for k := r.N(3); k > 0; k-- {
			props = append(props, ZProp(Pick(r, "X-Name", "Resource", "X-Long", "X-Empty")+fmt.Sprint(k), Pick(r, "", "value", strings.Repeat("v", 400))))
		}
		m = nil
		for _, i := range r.Perm(len(props)) {
			m = append(m, props[i]...)
		}
	}
	name := "READY"
	if Mech(s.Sec) == "PLAIN" && !server {
		name = "INITIATE"
	}
	parts[len(parts)-1] = ZCmd(name, m, r.P(40))
	o := g.hs(s)
	for i, p := range parts {
		if i > 0 {
			o.B += "|"
		}
		o.B += Hex(p)
	}
	return o
}

// exchange wires a pattern whose sockets exchange messages in a work phase.
func (g *gb) exchange(tr string, ptn ...string) (*wired, *Phase, *Phase) {
	r := g.r
	setup := g.phase("setup", 60000, 100)
	setup.Settle = 3000
	pt := pick(g, ptn...)
	w := g.wire(setup, pt, r.R(1, pt.max), tr)
	sec := anyPlain(r)
	for _, s := range g.socks {
		if s.Sec == "seal" || s.Sec == "plain" { // raw peers do not know the former
			s.Sec = sec
		}
	}
	g.subscribe(setup, w, "")
	g.receivers(setup, w, 0)
	work := g.phase("work", 120000, 1000)
	work.Settle = 2000
	g.traffic(work, w, 12, false)
	for _, s := range g.socks {
		s.Timeout = Pick(r, 0, 500)
	}
	return w, setup, work
}

// gentle bounds how slow stalled threads make everything: with short deadlines
// and bounds on delays, a machine that hardly proceeds is no healthy peer.
func (g *gb) gentle() {
	s := &g.p.Sched
	s.StallPer *= 4
	s.StallMax = min(s.StallMax, 2000)
}

// C10: no messages without a completed handshake.
func genC10(g *gb) {
	r := g.r
	g.gentle()
	tr := g.transport()
	pt := Pick(r, "fanout", "fanin", "pair", "dealerrouter", "dealers", "routers", "pubsub", "subpub", "xpubsub", "xpubxsub", "pubxsub")
	w, setup, work := g.exchange(tr, pt)
	g.p.Scen = w.name
	real := g.socks
	sec := w.hub.Sec
	for k := r.R(1, 3); k > 0; k-- {
		s := real[r.N(len(real))]
		if w.name == "pair" && r.P(50) {
			s = w.links[0].l
		}
		ph := Pick(r, setup, work, work)
		p := g.raw(Pick(r, compatible[s.Type]...), sec)
		if r.P(60) {
			g.setID(p)
			if s.Type == "ROUTER" && r.P(50) { // pretends to be somebody else
				p.ID = w.leaves[0].ID
			}
		}
		ep := w.eps[s]
		at := Op{K: "sleep", Us: r.R(0, 60000)}
		good := r.P(25) && w.name != "pair" && s.Type != "ROUTER"
		flag := 0
		if !good {
			flag = 256
		}
		server := ep == "" || r.P(30)
		var ops []Op
		if !server {
			ops = []Op{at, {K: "rawdial", S: p.Name, A: ep, Flag: flag}}
		} else {
			ep = g.ep(tr, p)
			ops = []Op{{K: "rawlisten", S: p.Name, A: ep, Flag: flag}, {K: "rawaccept", S: p.Name, Us: 10000000}}
			if s.MaxRet == 0 {
				sockMode(s, r)
			}
			g.proc(ph, "bad_dial_"+s.Name, at, Op{K: "sleep", Us: 30000}, Op{K: "dial", S: s.Name, A: ep})
			if !good {
				ph.Procs[len(ph.Procs)-1].Bg = true
			}
		}
		if good {
			ops = append(ops, g.unusual(p, server))
			if s.Type == "PUB" || s.Type == "XPUB" {
				ops = append(ops, Op{K: "rawsub", S: p.Name, N: 1})
			}
			switch s.Type {
			case "PULL", "DEALER", "SUB", "XSUB":
				ops = append(ops, Op{K: "rawmsg", S: p.Name, N: 2, Sz: g.sizes(3)})
			}
			g.proc(ph, "good_"+p.Name, ops...)
			continue
		}
		d := g.deviate(p, s, server)
		for i, b := range d.parts {
			if i > 0 && r.P(50) {
				ops = append(ops, Op{K: "sleep", Us: r.R(1, 50000)})
			}
			ops = append(ops, Op{K: "rawbytes", S: p.Name, A: Hex(b), N: Pick(r, 0, 0, 1, 7)})
		}
		msg := Op{K: "rawmsg", S: p.Name, N: r.R(1, 3), Sz: g.sizes(3)}
		if d.fate == "closed" {
			if r.P(60) {
				ops = append(ops, msg)
			}
			ops = append(ops, Op{K: "rawexpect", S: p.Name, A: d.name, Us: 3000000})
		} else if r.P(60) {
			ops = append(ops, Op{K: "sleep", Us: r.R(0, 200000)}, Op{K: "rawclose", S: p.Name})
		}
		g.p.P["dev "+d.name] = 1
		if d.fate == "closed" {
			g.proc(ph, "bad_"+p.Name, ops...)
		} else {
			g.bg(ph, "bad_"+p.Name, ops...)
		}
	}
	g.limit()
}

// hostile is something a peer may send to do harm.
type hostile struct {
	b     []byte
	fatal bool // the connection must be closed
	last  bool // an unfinished frame: nothing can follow
}

func long(flags byte, n uint64, b []byte) []byte {
	h := make([]byte, 9)
	h[0] = flags | 2
	binary.BigEndian.PutUint64(h[1:], n)
	return append(h, b...)
}

func (g *gb) hostile(s *Sock, uid uint32) hostile {
	r := g.r
	junk := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return b
	}
	marked := func(n int) []byte { // a body that would be recognised if it were delivered
		b := junk(max(n, 8))
		binary.BigEndian.PutUint16(b, 0x5A7D)
		binary.BigEndian.PutUint16(b[2:], 0)
		binary.BigEndian.PutUint32(b[4:], uid)
		return b
	}
	fl := Pick(r, byte(0), 0, 1, 4)
	switch r.N(15) {
	case 0, 1:
		return hostile{long(fl, Pick(r, uint64(1)<<63, ^uint64(0), 1<<63|1<<20, 0xff<<56), junk(r.N(50))), true, true}
	case 2, 3:
		return hostile{long(fl, Pick(r, uint64(1)<<62, 1<<40, 1<<33, 1<<31, 1<<31-1, 1<<30, 300<<20, 1<<20+1), marked(r.R(8, 3000))), false, true}
	case 4:
		b := ZMsg([][]byte{marked(r.R(20, 400)), marked(30)}, r.P(30))
		return hostile{b[:r.R(1, len(b)-1)], false, true}
	case 5: // a message that never ends
		return hostile{ZFrame(1, marked(50), false), false, true}
	case 6:
		return hostile{ZCmd(Pick(r, "PING", "PONG", "FOO", "READY", "SUBSCRIBE", "CANCEL", "ERROR"), junk(r.N(20)), r.P(20)), false, false}
	case 7:
		return hostile{ZFrame(4, Pick(r, nil, []byte{}, []byte{9}, []byte{255, 1, 2}), r.P(30)), false, false}
	case 8:
		return hostile{append(ZFrame(5, []byte("\x04PING"), false), ZFrame(Pick(r, byte(0), 4), junk(5), false)...), false, false}
	case 9:
		return hostile{append([]byte{byte(r.R(1, 31) << 3), 3}, junk(3)...), false, false}
	case 10:
		return hostile{ZGreeting(3, 0, "NULL", 0), false, true}
	case 11:
		return hostile{junk(r.R(1, 300)), false, true}
	case 12:
		var b []byte
		for k := r.R(1, 60); k > 0; k-- {
			b = append(b, ZMsg([][]byte{{}}, false)...)
		}
		return hostile{b, false, false}
	case 13:
		var fr [][]byte
		for k := r.R(1, 300); k > 0; k-- {
			fr = append(fr, nil)
		}
		return hostile{ZMsg(fr, false), false, false}
	}
	var b []byte
	switch s.Type {
	case "PUB", "XPUB":
		for k := r.R(1, 40); k > 0; k-- {
			b = append(b, Pick(r, ZMsg([][]byte{{1}, {2}}, false), ZMsg([][]byte{{2}}, false), ZMsg([][]byte{append([]byte{1}, junk(r.N(3))...)}, false),
				ZMsg([][]byte{append([]byte{0}, junk(r.N(3))...)}, false), ZMsg([][]byte{append([]byte{1}, junk(Pick(r, 300, 20000))...)}, false), ZMsg([][]byte{junk(5)}, false))...)
		}
	default:
		for k := r.R(1, 40); k > 0; k-- {
			b = append(b, Pick(r, ZMsg([][]byte{junk(5)}, false), ZMsg([][]byte{{}, {}}, false), ZMsg([][]byte{junk(3), {}}, false), ZMsg([][]byte{junk(3), {}, {}}, false), ZMsg([][]byte{{}, junk(4)}, true))...)
		}
	}
	return hostile{b, false, false}
}

// mangled is a handshake gone wrong in arbitrary ways.
func (g *gb) mangled(s *Sock, server bool) []byte {
	r := g.r
	parts := ZHandshake(s, server)
	for k := r.R(1, 3); k > 0; k-- {
		i := r.N(len(parts))
		if r.P(80) {
			i = r.R(1, len(parts)-1)
		}
		b := append([]byte{}, parts[i]...)
		if len(b) < 2 {
			continue
		}
		at := r.N(len(b))
		if r.P(50) {
			at = r.N(min(len(b), 12))
		}
		switch r.N(9) {
		case 0:
			b[at] = byte(r.N(256))
		case 1:
			b[at] += byte(Pick(r, 1, 255))
		case 2: // too short for what it announces, or for its own frame
			b = b[:at]
		case 3:
			b = append(b[:at:at], b[min(len(b), at+r.R(1, 5)):]...)
		case 4:
			b = append(append(b[:at:at], byte(r.N(256))), b[at:]...)
		case 5: // the body is cut, the frame is right
			if i > 0 && b[0]&2 == 0 {
				b = ZFrame(b[0], b[2:max(2, at)], r.P(10))
			}
		case 6: // so is the name
			if i > 0 && b[0]&2 == 0 && len(b) > 2 {
				b[2] = byte(len(b) - 3 + r.R(-2, 3))
			}
		case 7:
			b = append(b, parts[r.N(len(parts))]...)
		case 8:
			b = g.hostile(s, 0x7e000000).b
		}
		parts[i] = b
	}
	return bytes.Join(parts, nil)
}

// C11: a hostile peer harms nobody but itself.
// receives: somebody calls Recv on s all the time.
func (g *gb) receives(s *Sock) bool {
	for _, ph := range g.phases {
		for _, p := range ph.Procs {
			for _, o := range p.Ops {
				if o.S == s.Name && s.Type != "REQ" && (o.K == "recv" && o.N < 0 || o.K == "echo" || o.K == "rep") {
					return true
				}
			}
		}
	}
	return false
}

func genC11(g *gb) {
	r := g.r
	g.gentle()
	tr := Pick(r, "tcp", "tcp", "ipc", "inproc")
	reqrep := r.P(25)
	var real []*Sock
	var setup, work *Phase
	eps := map[*Sock]string{}
	sec := ""
	if reqrep {
		setup = g.phase("setup", 60000, 100)
		setup.Settle = 3000
		srv := g.sock(Pick(r, "REP", "REP", "ROUTER"))
		g.p.Scen = "reqrep"
		sec = Pick(r, "", anyPlain(r))
		srv.Sec = sec
		var links []link
		for k := r.R(1, 3); k > 0; k-- {
			c := g.sock("REQ")
			c.Sec = sec
			links = append(links, link{srv, c})
		}
		eps = g.connect(setup, tr, links)
		if srv.Type == "REP" {
			g.bg(setup, "rep", Op{K: "rep", S: srv.Name, Sz: g.sizes(2)})
		} else {
			g.bg(setup, "echo", Op{K: "echo", S: srv.Name, Sz: g.sizes(2), Flag: 2})
		}
		work = g.phase("work", 120000, 1000)
		work.Settle = 2000
		for _, c := range g.socks[1:] {
			g.proc(work, "ask_"+c.Name, Op{K: "sleep", Us: r.R(0, 30000)}, Op{K: "req", S: c.Name, N: r.R(1, 6), Sz: g.sizes(2), Us: Pick(r, 0, 3000)})
		}
		real = g.socks[:1]
		srv.Timeout = 200
	} else {
		var w *wired
		w, setup, work = g.exchange(tr, "fanout", "fanin", "dealerrouter", "dealers", "routers", "pubsub", "subpub", "xpubsub", "xpubxsub", "pubxsub")
		g.p.Scen = w.name
		eps = w.eps
		real = g.socks
		sec = w.hub.Sec
	}
	if r.P(20) { // a client that trusts a hostile server
		c := g.sock("REQ")
		c.Sec = sec
		c.Timeout = 200
		real = append(append([]*Sock{}, real...), c)
		g.bg(work, "victim", Op{K: "sleep", Us: 100000}, Op{K: "req", S: c.Name, N: 3, M: 2, Sz: []int{30}})
	}
	nreal := len(g.socks)
	for k := r.R(1, 3); k > 0; k-- {
		s := real[r.N(len(real))]
		if s.Type == "REQ" || r.P(10) {
			s = real[len(real)-1]
		}
		ph := Pick(r, setup, work, work)
		p := g.raw(Pick(r, compatible[s.Type]...), sec)
		if r.P(60) {
			g.setID(p)
		}
		noRead := 0
		if r.P(10) && s.Type != "ROUTER" && !reqrep {
			noRead = 1
		}
		var ops []Op
		at := Op{K: "sleep", Us: r.R(0, 60000)}
		if eps[s] != "" && r.P(70) {
			ops = []Op{at, {K: "rawdial", S: p.Name, A: eps[s]}}
		} else {
			ep := g.ep(tr, p)
			ops = []Op{{K: "rawlisten", S: p.Name, A: ep}, {K: "rawaccept", S: p.Name, Us: 10000000}}
			if s.MaxRet == 0 {
				sockMode(s, r)
			}
			g.proc(ph, "dial_"+s.Name, at, Op{K: "sleep", Us: 30000}, Op{K: "dial", S: s.Name, A: ep})
		}
		_ = noRead
		if r.P(25) { // harm before the handshake is complete
			for i := range ops {
				if ops[i].K == "rawlisten" {
					ops[i].Flag |= 512
					ph.Procs[len(ph.Procs)-1].Bg = true
				}
			}
			ops = append(ops, Op{K: "rawbytes", S: p.Name, A: Hex(g.mangled(p, ops[0].K == "rawlisten")), N: Pick(r, 0, 0, 1, 9)})
			if r.P(60) {
				ops = append(ops, Op{K: "sleep", Us: r.R(0, 100000)}, Op{K: "rawclose", S: p.Name})
			}
			g.bg(ph, "foe_"+p.Name, ops...)
			continue
		}
		ops = append(ops, g.hs(p))
		if (s.Type == "PUB" || s.Type == "XPUB") && r.P(70) {
			ops = append(ops, Op{K: "rawsub", S: p.Name, N: 1})
		}
		closed := false
		for j := r.R(1, 4); j > 0 && !closed; j-- {
			if r.P(30) && s.Type != "PUB" && s.Type != "XPUB" && s.Type != "PUSH" && s.Type != "REQ" {
				o := Op{K: "rawmsg", S: p.Name, N: r.R(1, 2), Sz: g.sizes(3)}
				if s.Type == "REP" || reqrep {
					o.Flag = 2
				}
				ops = append(ops, o)
				continue
			}
			h := g.hostile(s, uint32(0x7f000000+k*100+j))
			ops = append(ops, Op{K: "rawbytes", S: p.Name, A: Hex(h.b), N: Pick(r, 0, 0, 1, 9)})
			if r.P(30) {
				ops = append(ops, Op{K: "sleep", Us: r.R(0, 20000)})
			}
			if h.fatal {
				// the others read only when, and as much as, the application asks for
				if s.Type == "PUB" || g.receives(s) {
					ops = append(ops, Op{K: "rawexpect", S: p.Name, A: "oversized frame", Us: 5000000})
				}
				closed = true
			}
			if h.last {
				break
			}
		}
		if !closed && r.P(60) {
			ops = append(ops, Op{K: "sleep", Us: r.R(0, 100000)}, Op{K: "rawclose", S: p.Name})
		}
		g.bg(ph, "foe_"+p.Name, ops...)
	}
	_ = nreal
	// afterwards newcomers are still served
	calm := g.phase("calm", 60000, 300)
	calm.Calm = true
	calm.Settle = 1000
	if s := real[0]; eps[s] != "" {
		n := g.sock(g.socks[1].Type)
		n.Sec = sec
		n.MaxRet, n.Retry = -1, 50
		if n.Type == "ROUTER" || n.Type == "DEALER" {
			g.setID(n)
		}
		g.proc(calm, "newcomer", Op{K: "dial", S: n.Name, A: eps[s]})
	}
	g.limit()
}
