//go:build vsim

package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/inproc"
	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

// Ends of connections that the application opens itself, with Open.
type cn struct {
	mu     sync.Mutex
	spec   plan.Sock
	ln     net.Listener
	c      *zmq4.Conn
	rw     net.Conn
	closed bool
	cbs    []*zmq4.Conn // what the callback was given, in order
	cbT    []int64
	wrote  int
	read   int
}

var cns = map[string]*cn{}
var cnNames []string

func newCn(s plan.Sock) {
	cns[s.Name] = &cn{spec: s}
	cnNames = append(cnNames, s.Name)
}

func (p *cn) callback(c *zmq4.Conn) {
	e := begin("callback", 0, 0, "cncb", p.spec.Name)
	p.mu.Lock()
	p.cbs = append(p.cbs, c)
	p.mu.Unlock()
	e.end(nil)
	if knob("cbuse", 0) != 0 { // the connection may be used by the callback
		x := begin("callback", 1, 0, "cnafter", p.spec.Name)
		x.A = "SendMsg"
		err := c.SendMsg(zmq4.NewMsgString("late"))
		x.Type = cnKind(err)
		x.end(err)
		x = begin("callback", 2, 0, "cncbclose", p.spec.Name)
		x.end(c.Close())
	}
}

// What became of an operation.
const (
	cnOK = iota
	cnClosedErr
	cnBadFrame
	cnOther
	cnMalformed // RecvMsg or RecvCmd failed, but the connection is still open
)

// What is not a command, although it is framed like one.
var malformed = [][]byte{
	{4, 0},
	{4, 1, 1},
	{4, 3, 200, 'A', 'B'},
	{5, 1, 0, 0, 0},
	{5, 2, 1, 'A', 4, 2, 1, 'B'},
	{5, 2, 1, 'A', 1, 0, 0, 3, 'a', 'b', 'c'},
	{6, 0, 0, 0, 0, 0, 0, 0, 2, 255, 'x'},
}

func cnKind(err error) int {
	switch {
	case err == nil:
		return cnOK
	case errors.Is(err, zmq4.ErrClosedConn):
		return cnClosedErr
	case errors.Is(err, zmq4.ErrBadFrame):
		return cnBadFrame
	}
	return cnOther
}

func (r *procRun) cnOp(i int, op plan.Op) bool {
	p := cns[op.S]
	if p == nil {
		return false
	}
	network, addr := splitEP(op.A)
	ctx := hostCtx(rootC, p.spec.Host)
	switch op.K {
	case "cnlisten":
		e := r.ev(i, 0, op)
		var ln net.Listener
		var err error
		if network == "inproc" {
			ln, err = inproc.Transport{}.Listen(ctx, addr)
		} else {
			ln, err = nw.listen(ctx, network, addr)
		}
		p.mu.Lock()
		p.ln = ln
		p.mu.Unlock()
		e.end(err)
		return true
	case "cnopen":
		p.mu.Lock()
		ln := p.ln
		p.mu.Unlock()
		var rw net.Conn
		err := errNoConn
		for k := 0; k < 100 && err != nil && !ending; k++ {
			switch {
			case ln != nil:
				rw, err = ln.Accept()
			case network == "inproc":
				rw, err = inproc.Transport{}.Dial(ctx, nil, addr)
			default:
				rw, err = nw.dial(ctx, network, addr)
			}
			if err != nil {
				sleepUs(10000)
			}
		}
		if err != nil {
			return true
		}
		p.mu.Lock()
		p.rw = rw
		p.mu.Unlock()
		e := r.ev(i, 0, op)
		var sec zmq4.Security = newSecurity(p.spec.Sec)
		c, err := zmq4.Open(rw, sec, zmq4.SocketType(p.spec.Type), zmq4.SocketIdentity(p.spec.ID), ln != nil, p.callback)
		if err == nil {
			e.List = []string{c.Peer.Meta["Socket-Type"], c.Peer.Meta["Identity"]}
			racePublish()
			p.mu.Lock()
			p.c = c
			p.mu.Unlock()
		}
		e.end(err)
		if err != nil {
			rw.Close()
		}
		return true
	}
	p.mu.Lock()
	c := p.c
	p.mu.Unlock()
	if c == nil {
		return true
	}
	switch op.K {
	case "cnmsg", "cncmd":
		for k := 0; k < op.N && !ending; k++ {
			e := r.ev(i, k, op)
			var err error
			if op.K == "cnmsg" {
				e.UID = uidFor(r.idx, i, k)
				e.Frames = payload(op, e.UID)
				err = c.SendMsg(zmq4.NewMsgFrom(payload(op, e.UID)...))
			} else {
				var b []byte
				if len(op.Sz) > 0 {
					e.UID = uidFor(r.idx, i, k)
					b = body(e.UID, 0, op.Sz[0])
					e.Frames = [][]byte{body(e.UID, 0, op.Sz[0])}
				}
				err = c.SendCmd(op.A, b)
			}
			e.Type = cnKind(err)
			e.end(err)
			sleepUs(op.Us)
		}
	case "cnjunk":
		for k := 0; k < op.N && !ending; k++ {
			e := r.ev(i, k, op)
			_, err := c.Write(malformed[op.Sz[k%len(op.Sz)]%len(malformed)])
			e.Type = cnKind(err)
			e.end(err)
			sleepUs(op.Us)
		}
	case "cnrecv":
		for k := 0; ; k++ {
			e := r.ev(i, k, op)
			var err error
			if op.M == 1 || op.M == 2 && plan.Mix(pl.Seed^uint64(r.idx)<<32^uint64(k))%3 == 0 {
				e.N = 1
				var cmd zmq4.Cmd
				cmd, err = c.RecvCmd()
				e.A = cmd.Name
				if err == nil {
					e.ref = [][]byte{cmd.Body}
				}
			} else {
				var m zmq4.Msg
				m, err = c.RecvMsg()
				if err == nil {
					e.ref = m.Frames
					if m.Type == zmq4.CmdMsg {
						e.M.From = "cmd"
					}
				}
			}
			for _, f := range e.ref {
				e.Frames = append(e.Frames, append([]byte(nil), f...))
			}
			if err == nil {
				e.UID = uidOf(e.ref)
			}
			e.Type = cnKind(err)
			if e.Type == cnOther && !c.Closed() {
				e.Type = cnMalformed
			}
			e.end(err)
			if err != nil && e.Type != cnBadFrame && e.Type != cnMalformed {
				break
			}
			sleepUs(op.Us)
		}
		p.after(r, i, op, c)
	case "cnwrite":
		for k := 0; k < op.N && !ending; k++ {
			b := make([]byte, op.Sz[k%len(op.Sz)])
			for x := range b {
				b[x] = ipByte("c"+p.spec.Name, 0, p.wrote+x)
			}
			e := r.ev(i, k, op)
			e.UID = uint32(len(b))
			n, err := c.Write(b)
			p.wrote += n
			e.N, e.Type = n, cnKind(err)
			e.end(err)
			sleepUs(op.Us)
		}
	case "cnread":
		for k := 0; ; k++ {
			b := make([]byte, op.Sz[k%len(op.Sz)])
			e := r.ev(i, k, op)
			e.UID = uint32(len(b))
			n, err := c.Read(b)
			e.N, e.Type = n, cnKind(err)
			e.Frames = [][]byte{b[:n]}
			e.end(err)
			p.read += n
			if err != nil {
				break
			}
			sleepUs(op.Us)
		}
		p.after(r, i, op, c)
	case "cnclose":
		e := r.ev(i, 0, op)
		p.mu.Lock()
		p.closed = true
		p.mu.Unlock()
		e.end(c.Close())
	default:
		panic("vsim: unknown op " + op.K)
	}
	return true
}

// after: a connection is lost for good.
func (p *cn) after(r *procRun, i int, op plan.Op, c *zmq4.Conn) {
	try := func(what string, f func() error) {
		e := r.ev(i, 0, op)
		e.K, e.A = "cnafter", what
		err := f()
		e.Type = cnKind(err)
		e.end(err)
	}
	e := r.ev(i, 0, op)
	e.K, e.A = "cnafter", "Closed"
	if c.Closed() {
		e.N = 1
	}
	e.end(nil)
	try("SendMsg", func() error { return c.SendMsg(zmq4.NewMsgString("late")) })
	try("SendCmd", func() error { return c.SendCmd("LATE", []byte("late")) })
	try("RecvMsg", func() error { _, err := c.RecvMsg(); return err })
	try("RecvCmd", func() error { _, err := c.RecvCmd(); return err })
	try("Write", func() error { _, err := c.Write([]byte("late")); return err })
	try("Read", func() error { _, err := c.Read(make([]byte, 1)); return err })
}

func cnTeardown() {
	for _, n := range cnNames {
		p := cns[n]
		p.mu.Lock()
		if p.ln != nil {
			p.ln.Close()
		}
		if p.rw != nil && !p.closed {
			p.rw.Close()
		}
		p.mu.Unlock()
	}
}

var _ = io.EOF
var _ = time.Now
var _ = fmt.Sprint
