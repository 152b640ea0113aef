//go:build vsim

package main

import (
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/luxfi/zmq/v4/internal/inproc"
	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

// Raw peers speak bytes over the simulated network (or an inproc pipe),
// independently of the library: they behave well or badly as the plan says.

type rawPeer struct {
	spec    plan.Sock
	ln      net.Listener
	pending []*rawConn
	conns   []*rawConn
	cur     *rawConn
}

type rawConn struct {
	wmu    sync.Mutex
	p      *rawPeer
	idx    int
	c      net.Conn
	dec    zdec
	ended  bool // the other side closed or reset the connection
	endT   int64
	endErr string
	closed bool // by us
	server bool
	good   bool // completed a handshake
	noRead bool
}

var raws = map[string]*rawPeer{}
var rawNames []string

func newRaw(s plan.Sock) {
	raws[s.Name] = &rawPeer{spec: s}
	rawNames = append(rawNames, s.Name)
}

func (p *rawPeer) add(c net.Conn, server, noRead bool) *rawConn {
	rc := &rawConn{p: p, idx: len(p.conns), c: c, server: server, noRead: noRead}
	p.conns = append(p.conns, rc)
	racePublish()
	if !noRead {
		go rc.read()
	}
	return rc
}

func (rc *rawConn) read() {
	buf := make([]byte, 4096)
	for {
		n, err := rc.c.Read(buf)
		if n > 0 {
			lastEv = time.Now()
			for _, m := range rc.dec.feed(buf[:n]) {
				e := begin("raw", 0, len(rc.dec.msgs), "recv", rc.p.spec.Name)
				e.Frames = m
				e.UID = uidOf(m)
				e.N = rc.idx
				e.end(nil)
			}
		}
		if err != nil {
			if !rc.closed {
				rc.ended, rc.endT, rc.endErr = true, simNow(), err.Error()
			}
			return
		}
	}
}

func (rc *rawConn) cmd(name string) int {
	n := 0
	for _, c := range rc.dec.cmds {
		if c.name == name {
			n++
		}
	}
	return n
}

// until polls a condition for at most us microseconds.
func until(us int, f func() bool) bool {
	end := time.Now().Add(time.Duration(us) * time.Microsecond)
	for !f() {
		if !time.Now().Before(end) || ending {
			return f()
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

// write sends one unit (a message, a part of a handshake), never mixed with
// what another goroutine writes.
func (rc *rawConn) write(b []byte, chunk, us int) error {
	rc.wmu.Lock()
	defer rc.wmu.Unlock()
	for len(b) > 0 {
		k := len(b)
		if chunk > 0 && k > chunk {
			k = chunk
		}
		n, err := rc.c.Write(b[:k])
		if err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 {
			sleepUs(us)
		}
	}
	return nil
}

func splitEP(ep string) (network, addr string) {
	network, addr, _ = strings.Cut(ep, "://")
	if network == "ipc" {
		network = "unix"
	}
	return
}

var errNoConn = fmt.Errorf("no connection")

func (r *procRun) extOp(i int, op plan.Op) bool {
	if !strings.HasPrefix(op.K, "raw") {
		return false
	}
	p := raws[op.S]
	if p == nil {
		return true
	}
	ctx := hostCtx(rootC, p.spec.Host)
	network, addr := splitEP(op.A)
	rc := p.cur
	e := r.ev(i, 0, op)
	if rc == nil && op.K != "rawlisten" && op.K != "rawdial" && op.K != "rawaccept" {
		e.end(errNoConn)
		return true
	}
	switch op.K {
	case "rawlisten":
		var err error
		if network == "inproc" {
			p.ln, err = inproc.Transport{}.Listen(ctx, addr)
		} else {
			p.ln, err = nw.listen(ctx, network, addr)
		}
		if err == nil {
			go func() {
				for {
					c, err := p.ln.Accept()
					if err != nil {
						return
					}
					p.pending = append(p.pending, p.add(c, true, op.Flag&1 != 0))
				}
			}()
		}
		e.end(err)
	case "rawaccept": // wait for the next connection, at most Us
		if until(op.Us, func() bool { return len(p.pending) > 0 }) {
			p.cur = p.pending[0]
			p.pending = p.pending[1:]
			e.end(nil)
		} else {
			e.end(fmt.Errorf("nobody connected"))
		}
	case "rawdial":
		var c net.Conn
		err := fmt.Errorf("ended")
		for k := 0; k < 100 && err != nil && !ending; k++ {
			if network == "inproc" {
				c, err = inproc.Transport{}.Dial(ctx, nil, addr)
			} else {
				c, err = nw.dial(ctx, network, addr)
			}
			if err != nil {
				sleepUs(10000)
			}
		}
		if err == nil {
			p.cur = p.add(c, false, op.Flag&1 != 0)
		}
		e.end(err)
	case "rawhs":
		e.end(rc.handshake(op))
	case "rawbytes":
		e.A = fmt.Sprint(len(op.A)/2, " bytes")
		e.end(rc.write(unhex(op.A), op.N, op.Us))
	case "rawmsg": // N messages
		hist = hist[:len(hist)-1]
		n := max(op.N, 1)
		for k := 0; k < n && !ending; k++ {
			uid := uidFor(r.idx, i, k)
			m := r.ev(i, k, op)
			m.K, m.UID, m.Frames, m.N = "send", uid, payload(op, uid), rc.idx
			m.end(rc.write(plan.ZMsg(m.Frames, op.Flag&64 != 0), op.M, op.Us))
		}
	case "rawsub":
		e.N = op.N
		e.end(rc.write(plan.ZMsg([][]byte{append([]byte{byte(op.N)}, op.A...)}, op.Flag&64 != 0), op.M, op.Us))
	case "rawwait":
		if until(op.Us, func() bool { return len(rc.dec.msgs) >= op.N || rc.ended }) {
			e.end(nil)
		} else {
			e.end(fmt.Errorf("only %d messages", len(rc.dec.msgs)))
		}
	case "rawexpect": // the connection is closed within Us
		if until(op.Us, func() bool { return rc.ended }) {
			e.end(nil)
		} else {
			e.end(fmt.Errorf("still open"))
		}
	case "rawclose":
		rc.closed = true
		e.end(rc.c.Close())
	case "rawecho": // serve requests like a REP or ROUTER does
		hist = hist[:len(hist)-1]
		go rc.echo(r, i, op)
	default:
		panic("vsim: unknown op " + op.K)
	}
	return true
}

func (rc *rawConn) echo(r *procRun, i int, op plan.Op) {
	for k := 0; ; k++ {
		if !until(1<<30, func() bool { return len(rc.dec.msgs) > k || rc.ended || rc.closed }) || len(rc.dec.msgs) <= k {
			return
		}
		m := rc.dec.msgs[k]
		uid := uidOf(m)
		if uid == 0 {
			continue
		}
		sleepUs(op.Us)
		var fr [][]byte
		for _, f := range m {
			fr = append(fr, f)
			if len(f) == 0 {
				break
			}
		}
		fr = append(fr, replyFrames(uid, op.Sz)...)
		e := r.ev(i, k, op)
		e.K, e.UID, e.Frames, e.N = "send", uid|replyBit, fr, rc.idx
		e.end(rc.write(plan.ZMsg(fr, op.Flag&64 != 0), op.M, 0))
	}
}

// handshake behaves like a conforming peer. Styles (op.M): 0 sends everything
// at once, 1 takes turns, 2 sends the signature first, as libzmq does.
func (rc *rawConn) handshake(op plan.Op) error {
	s := rc.p.spec
	us := op.Us
	if us == 0 {
		us = 20000000
	}
	parts := plan.ZHandshake(&s, rc.server)
	if op.B != "" {
		parts = nil
		for _, h := range strings.Split(op.B, "|") {
			parts = append(parts, unhex(h))
		}
	}
	wait := func(what string, f func() bool) error {
		if !until(us, func() bool { return f() || rc.ended || rc.dec.bad != "" }) || !f() {
			return fmt.Errorf("no %s from the other side (ended %v, %s)", what, rc.ended, rc.dec.bad)
		}
		return nil
	}
	greeted := func() bool { return rc.dec.gr }
	if op.M == 2 {
		if err := rc.write(parts[0][:10], op.N, 100); err != nil {
			return err
		}
		if err := wait("signature", func() bool { return rc.dec.total >= 11 || rc.dec.gr }); err != nil {
			return err
		}
		parts[0] = parts[0][10:]
	}
	for i, b := range parts {
		if op.M > 0 && i > 0 {
			f, what := greeted, "greeting"
			switch {
			case len(parts) == 3 && rc.server && i == 1:
				f, what = func() bool { return rc.cmd("HELLO") > 0 }, "HELLO"
			case len(parts) == 3 && rc.server && i == 2:
				f, what = func() bool { return rc.cmd("INITIATE") > 0 }, "INITIATE"
			case len(parts) == 3 && !rc.server && i == 2:
				f, what = func() bool { return rc.cmd("WELCOME") > 0 }, "WELCOME"
			}
			if err := wait(what, f); err != nil {
				return err
			}
		}
		if err := rc.write(b, op.N, 100); err != nil {
			return err
		}
	}
	last := "READY"
	if len(parts) == 3 && rc.server {
		last = "INITIATE"
	}
	if err := wait(last, func() bool { return rc.cmd(last) > 0 }); err != nil {
		return err
	}
	rc.good = true
	return nil
}

func extTeardown() {
	for _, n := range rawNames {
		p := raws[n]
		if p.ln != nil {
			p.ln.Close()
		}
		for _, rc := range p.conns {
			if !rc.closed {
				rc.closed = true
				rc.c.Close()
			}
		}
	}
}

// rawFormat: whatever the library's sockets send is ZMTP 3.0.
func rawFormat() {
	for _, l := range nw.allListeners {
		if l.emfileMax > 1000 { // in at most 300 ms
			violate("accept: a listener that cannot accept spins", "%s: %d attempts in a row", l.addr, l.emfileMax)
		}
	}
	for _, n := range rawNames {
		for _, rc := range raws[n].conns {
			d := &rc.dec
			if d.bad != "" {
				violate("wire: not ZMTP 3.0", "to %s#%d: %s", n, rc.idx, d.bad)
			}
			if len(d.part) > 0 && rc.good && !rc.closed && knob("cuts", 0) == 0 {
				probe("partial_at_end", 1)
			}
			probe("wire_bytes", d.total)
			probe("wire_msgs", len(d.msgs))
		}
	}
}

var _ = context.Canceled
