//go:build vsim

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/luxfi/zmq/v4/internal/inproc"
	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

var (
	ipMu    sync.Mutex
	ipConns = map[string]net.Conn{}
	ipLs    = map[string]net.Listener{}
	ipAll   []net.Conn
	ipPos   = map[string]int{} // bytes written per end and writer
	ipWrote = map[string]int{} // bytes written per end
	ipRead  = map[string]int{}
	ipGone  = map[string]bool{}
	ipBusy  = map[string]int{} // Writes in progress per end
)

// Event types of reads: what the error was.
const (
	ipNone = iota
	ipEOF
	ipClosed
	ipTimeout
	ipOther
)

func ipKind(err error) int {
	var ne net.Error
	switch {
	case err == nil:
		return ipNone
	case err == io.EOF:
		return ipEOF
	case errors.As(err, &ne) && ne.Timeout():
		return ipTimeout
	case errors.Is(err, io.ErrClosedPipe) || errors.Is(err, net.ErrClosed) || errors.Is(err, inproc.ErrClosed):
		return ipClosed
	}
	return ipOther
}

func ipPut(name string, c net.Conn) {
	ipMu.Lock()
	defer ipMu.Unlock()
	ipConns[name] = c
	ipAll = append(ipAll, c)
}

func ipGet(name string) net.Conn {
	ipMu.Lock()
	defer ipMu.Unlock()
	return ipConns[name]
}

// ipByte is byte k of what writer w of an end writes.
func ipByte(end string, w, k int) byte {
	x := plan.Mix(uint64(k)>>3 ^ uint64(w)<<40 ^ uint64(len(end))<<50 ^ uint64(end[1])<<32 ^ uint64(end[2])<<56)
	return byte(w&3)<<6 | byte(x>>(uint(k&7)*8))&0x3f
}

func (r *procRun) ipOp(i int, op plan.Op) bool {
	switch op.K {
	case "iplisten":
		e := r.ev(i, 0, op)
		l, err := inproc.Listen(op.A)
		e.end(err)
		if err != nil {
			return true
		}
		ipMu.Lock()
		ipLs[op.S] = l
		ipMu.Unlock()
		for k := 0; k < 2; k++ {
			if op.Flag>>k&1 != 0 {
				wg.Add(1)
				go r.ipServe(i, op, l)
			}
		}
	case "iplclose":
		ipMu.Lock()
		l := ipLs[op.S]
		ipMu.Unlock()
		if l == nil {
			return true
		}
		e := r.ev(i, 0, op)
		e.end(l.Close())
	case "ipdial":
		e := r.ev(i, 0, op)
		c, err := inproc.Dial(op.A)
		if err == nil {
			ipPut(op.S, c)
		}
		e.end(err)
	case "ipaccept":
		ipMu.Lock()
		l := ipLs[op.S]
		ipMu.Unlock()
		e := r.ev(i, 0, op)
		c, err := l.Accept()
		if err == nil {
			ipPut(op.B, c)
		}
		e.end(err)
	case "ipclose":
		c := ipGet(op.S)
		ipMu.Lock()
		ipGone[op.S] = true
		ipMu.Unlock()
		e := r.ev(i, 0, op)
		e.end(c.Close())
	case "ipdeadline":
		c := ipGet(op.S)
		e := r.ev(i, 0, op)
		var t time.Time
		if op.M != 0 {
			t = time.Now().Add(time.Duration(op.Us) * time.Microsecond)
			e.UID = 1
			e.N = int(t.Sub(simBase))
		}
		var err error
		switch op.A {
		case "r":
			err = c.SetReadDeadline(t)
		case "w":
			err = c.SetWriteDeadline(t)
		default:
			err = c.SetDeadline(t)
		}
		e.Type = ipKind(err)
		e.end(err)
	case "ipwrite":
		c := ipGet(op.S)
		key := fmt.Sprint(op.S, op.M)
		ipMu.Lock()
		pos := ipPos[key]
		ipMu.Unlock()
		for k := 0; k < op.N && !ending; k++ {
			b := make([]byte, op.Sz[k%len(op.Sz)])
			for x := range b {
				b[x] = ipByte(op.S, op.M, pos+x)
			}
			e := r.ev(i, k, op)
			e.UID = uint32(pos)
			e.Frames = [][]byte{append([]byte(nil), b...)}
			ipMu.Lock()
			ipBusy[op.S]++
			ipMu.Unlock()
			n, err := c.Write(b)
			ipMu.Lock()
			ipBusy[op.S]--
			ipWrote[op.S] += n
			ipMu.Unlock()
			e.N, e.Type = n, ipKind(err)
			e.end(err)
			for x := range b { // the caller reuses its buffer
				b[x] = 0xEE
			}
			pos += n
			ipMu.Lock()
			ipPos[key] = pos
			ipMu.Unlock()
			if e.Type == ipClosed {
				break
			}
			if err != nil {
				sleepUs(300)
			}
			sleepUs(op.Us)
		}
	case "ipread":
		c := ipGet(op.S)
		buf := make([]byte, 1<<16)
		errs := 0
		for k := 0; op.N < 0 || k < op.N; k++ {
			if ending && op.N < 0 && k > 5000 {
				break
			}
			b := buf[:op.Sz[k%len(op.Sz)]]
			for x := range b {
				b[x] = 0xAA
			}
			e := r.ev(i, k, op)
			e.UID = uint32(len(b))
			n, err := c.Read(b)
			e.N, e.Type = n, ipKind(err)
			if n > 0 && n <= len(b) {
				e.Frames = [][]byte{append([]byte(nil), b[:n]...)}
			}
			e.end(err)
			ipMu.Lock()
			ipRead[op.S] += n
			ipMu.Unlock()
			for x := range b { // and so does the reader
				b[x] = 0xDD
			}
			if e.Type == ipEOF || e.Type == ipClosed {
				break
			}
			if err != nil {
				errs++
				if errs > 40 {
					sleepUs(20000)
				}
				if ending {
					break
				}
				sleepUs(1500)
			}
			if curPh < 2 && curPh > 0 && pl.Scen == "pipes" {
				sleepUs(op.Us)
			}
		}
	case "ipdrain": // wait until everything that goes to the end was read
		for k := 0; k < 4000 && !ending; k++ {
			ipMu.Lock()
			p := ipPeer(op.S)
			idle := ipGone[p] || ipGone[op.S] || ipBusy[p] == 0 && ipRead[op.S] == ipWrote[p]
			ipMu.Unlock()
			if idle {
				break
			}
			sleepUs(5000)
		}
	case "ipcall":
		e := r.ev(i, 0, op)
		e.K = "ipdial"
		c, err := inproc.Dial(op.A)
		e.end(err)
		if err != nil {
			return true
		}
		e = r.ev(i, 1, op)
		ipMu.Lock()
		ipAll = append(ipAll, c)
		ipMu.Unlock()
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, uint32(op.N))
		e.N = op.N
		if _, err = c.Write(b); err == nil {
			_, err = io.ReadFull(c, b)
			e.UID = binary.BigEndian.Uint32(b)
		}
		e.Type = ipKind(err)
		e.end(err)
		c.Close()
	case "ipburst": // several connections, all dialed before any is used
		var cs []net.Conn
		var es []*Ev
		for k := 0; k < op.M; k++ {
			e := r.ev(i, 2*k, op)
			e.K = "ipdial"
			c, err := inproc.Dial(op.A)
			e.end(err)
			cs = append(cs, c)
			if err == nil {
				ipMu.Lock()
				ipAll = append(ipAll, c)
				ipMu.Unlock()
			}
			sleepUs(op.Us)
		}
		errs := make([]error, len(cs))
		for k, c := range cs {
			es = append(es, nil)
			if c == nil {
				continue
			}
			e := r.ev(i, 2*k+1, op)
			e.K, e.N = "ipcall", op.N+k
			b := make([]byte, 4)
			binary.BigEndian.PutUint32(b, uint32(e.N))
			_, errs[k] = c.Write(b)
			es[k] = e
		}
		for k, c := range cs {
			e := es[k]
			if e == nil {
				continue
			}
			err := errs[k]
			if err == nil {
				b := make([]byte, 4)
				_, err = io.ReadFull(c, b)
				e.UID = binary.BigEndian.Uint32(b)
			}
			e.Type = ipKind(err)
			e.end(err)
			c.Close()
		}
	default:
		return false
	}
	return true
}

// ipServe accepts connections and answers one question on each.
func (r *procRun) ipServe(i int, op plan.Op, l net.Listener) {
	defer wg.Done()
	for k := 0; ; k++ {
		e := r.ev(i, k, op)
		e.K = "ipaccept"
		c, err := l.Accept()
		e.Type = ipKind(err)
		e.end(err)
		if err != nil {
			return
		}
		ipMu.Lock()
		ipAll = append(ipAll, c)
		ipMu.Unlock()
		b := make([]byte, 4)
		e = r.ev(i, k, op)
		e.K = "ipserved"
		_, err = io.ReadFull(c, b)
		if err == nil {
			e.N = int(binary.BigEndian.Uint32(b))
			binary.BigEndian.PutUint32(b, uint32(e.N)^0x5a5a5a5a)
			_, err = c.Write(b)
		}
		e.Type = ipKind(err)
		e.end(err)
		c.Close()
	}
}

func ipTeardown() {
	ipMu.Lock()
	defer ipMu.Unlock()
	for _, l := range ipLs {
		l.Close()
	}
	for _, c := range ipAll {
		c.Close()
	}
}
