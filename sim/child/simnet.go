//go:build vsim

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
	"weak"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

// The simulated network. It is a stub of the kernel's stream sockets: reliable
// ordered byte streams with latency, segmentation, bounded buffers and
// back-pressure, refused and timed-out connections, orderly shutdown, resets,
// stalls and partitions. All timing comes from the simulated clock and every
// random choice from a hash of the network seed and the connection's name, so
// that removing one part of a plan leaves the others' fates unchanged.

type hostKey struct{}

// hostInc is one incarnation of a host: it ends when the host crashes.
type hostInc struct {
	name string
	inc  int
}

func hostCtx(ctx context.Context, host string) context.Context {
	nw.mu.Lock()
	defer nw.mu.Unlock()
	return context.WithValue(ctx, hostKey{}, hostInc{host, nw.crashes[host]})
}

type simNetwork struct {
	handed []handed
	mu           quietMutex
	cfg          plan.Net
	start        time.Time
	listeners    map[string]*simListener
	allListeners []*simListener
	links        map[string]int // connections made per "a>b"
	conns        []*simConn     // every connection end ever made
	crashes      map[string]int // crashes per host
	at           []int          // when each fault starts (us since start), -1: not yet scheduled
	files        map[string]*simListener
	healed       bool
	cond         *sync.Cond

	dials []*dialRec

	// statistics of what actually happened
	stat map[string]int
	open int
	port int

	moved int // pieces read so far, for the end of phases
}

var nw *simNetwork

func newNetwork(cfg plan.Net) *simNetwork {
	n := &simNetwork{cfg: cfg, start: time.Now(), listeners: map[string]*simListener{}, links: map[string]int{},
		crashes: map[string]int{}, stat: map[string]int{}, port: 40000, files: map[string]*simListener{}}
	n.at = make([]int, len(cfg.Faults))
	for i := range n.at {
		n.at[i] = -1
	}
	if n.cfg.Buf <= 0 {
		n.cfg.Buf = 64 << 10
	}
	n.cond = sync.NewCond(&n.mu)
	return n
}

func (n *simNetwork) us() int { return int(time.Since(n.start) / time.Microsecond) }

func addrHost(network, a string) string {
	if network == "unix" { // sk<n>_<host>
		if _, h, ok := strings.Cut(a, "_"); ok {
			return h
		}
		return "unix:" + a
	}
	h, _, err := net.SplitHostPort(a)
	if err != nil {
		return a
	}
	return h
}

func lkey(network, a string) string { return network + "!" + a }

type simAddr struct{ network, s string }

func (a simAddr) Network() string { return a.network }
func (a simAddr) String() string  { return a.s }

func match(pat, s string) bool { return pat == "" || pat == s }

// blocked reports until when (us since start) nothing passes between a and b (-1: forever), 0 if open.
func (n *simNetwork) blocked(a, b string, kinds string) int {
	if n.healed {
		return 0
	}
	now := n.us()
	until := 0
	for i, f := range n.cfg.Faults {
		if n.at[i] < 0 || f.Kind != "stall" && f.Kind != "part" {
			continue
		}
		if !strings.Contains(kinds, f.Kind) {
			continue
		}
		if !(match(f.A, a) && match(f.B, b)) && !(match(f.A, b) && match(f.B, a)) {
			continue
		}
		if at := n.at[i]; now >= at && (f.Dur < 0 || now < at+f.Dur) {
			if f.Dur < 0 {
				return -1
			}
			if at+f.Dur > until {
				until = at + f.Dur
			}
		}
	}
	return until
}

// exhausted tells whether a listener's host has no file descriptors left.
func (n *simNetwork) exhausted(l *simListener) bool {
	now := n.us()
	for i, f := range n.cfg.Faults {
		if f.Kind == "emfile" && !n.healed && match(f.A, l.host) && n.at[i] >= 0 && now >= n.at[i] && now < n.at[i]+f.Dur {
			return true
		}
	}
	return false
}

func (n *simNetwork) hash(xs ...any) uint64 {
	h := plan.Mix(n.cfg.Seed)
	for _, c := range fmt.Sprint(xs...) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return plan.Mix(h)
}

func (n *simNetwork) lat(key string, i int) time.Duration {
	d := n.cfg.LatMin
	if n.cfg.LatMax > n.cfg.LatMin {
		d += int(n.hash("lat", key, i) % uint64(n.cfg.LatMax-n.cfg.LatMin+1))
	}
	return time.Duration(d) * time.Microsecond
}

func opErr(op, network string, err error) error {
	return &net.OpError{Op: op, Net: network, Err: err}
}

func sysErr(op, network, call string, e syscall.Errno) error {
	return &net.OpError{Op: op, Net: network, Err: os.NewSyscallError(call, e)}
}

// dialErr is the reason why an attempt to connect failed.
func (n *simNetwork) dialErr(network, key string) error {
	e := syscall.ECONNREFUSED
	if n.cfg.DialErr {
		l := []syscall.Errno{syscall.ECONNREFUSED, syscall.ECONNREFUSED, syscall.ETIMEDOUT, syscall.ETIMEDOUT, syscall.EHOSTUNREACH, syscall.ENETUNREACH, syscall.ECONNRESET, syscall.ECONNABORTED, syscall.EMFILE, syscall.EADDRNOTAVAIL}
		if e = l[n.hash("dialerr", key)%uint64(len(l))]; network == "unix" {
			e = []syscall.Errno{syscall.ECONNREFUSED, syscall.ENOENT, syscall.EAGAIN, syscall.EACCES}[n.hash("dialerr", key)%4]
		}
	}
	return sysErr("dial", network, "connect", e)
}

// heal ends every stall and partition; later scheduled faults never start.
func (n *simNetwork) heal() {
	n.mu.Lock()
	n.healed = true
	for _, c := range n.conns {
		c.out.cond.Broadcast()
		c.in.cond.Broadcast()
	}
	n.cond.Broadcast()
	n.mu.Unlock()
}

// scheduleFaults starts timers for the timed faults of a phase that begins now.
func (n *simNetwork) scheduleFaults(phase int) {
	for i := range n.cfg.Faults {
		f := n.cfg.Faults[i]
		if f.Ph != phase {
			continue
		}
		n.mu.Lock()
		n.at[i] = n.us() + f.At
		n.mu.Unlock()
		at := time.Duration(f.At) * time.Microsecond
		switch f.Kind {
		case "reset":
			time.AfterFunc(at, func() { n.resetLink(f.A, f.B) })
		case "stall", "part":
			time.AfterFunc(at, func() {
				n.mu.Lock()
				if !n.healed && n.live(f.A, f.B) > 0 {
					n.stat[f.Kind]++
				}
				n.mu.Unlock()
			})
			if f.Dur >= 0 {
				time.AfterFunc(at+time.Duration(f.Dur)*time.Microsecond+1, func() {
					n.mu.Lock()
					for _, c := range n.conns {
						c.in.cond.Broadcast()
					}
					n.cond.Broadcast()
					n.mu.Unlock()
				})
			}
		}
	}
}

func (n *simNetwork) live(a, b string) int {
	k := 0
	for _, c := range n.conns {
		if c.dialer && !c.closed && !c.in.reset && (match(a, c.la) && match(b, c.ra) || match(a, c.ra) && match(b, c.la)) {
			k++
		}
	}
	return k
}

func (n *simNetwork) resetLink(a, b string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.healed {
		return
	}
	for _, c := range n.conns {
		if c.dialer && !c.in.reset && !(c.closed && c.peer.closed) && (match(a, c.la) && match(b, c.ra) || match(a, c.ra) && match(b, c.la)) {
			n.stat["reset"]++
			c.kill()
		}
	}
}

// crash resets every connection of the host and drops its listeners.
func (n *simNetwork) crash(host string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.stat["crash"]++
	n.crashes[host]++
	for _, c := range n.conns {
		if c.dialer && !c.in.reset && (c.la == host || c.ra == host) {
			c.kill()
		}
	}
	for k, l := range n.listeners {
		if l.host == host {
			l.dead = true
			delete(n.listeners, k)
			n.cond.Broadcast()
		}
	}
}

type simListener struct {
	n         *simNetwork
	network   string
	addr      string
	host      string
	queue     []*simConn
	closed    bool
	dead      bool
	accepts   int
	emfile    int // failures in a row
	emfileMax int
}

func (n *simNetwork) listen(ctx context.Context, network, address string) (net.Listener, error) {
	if network != "tcp" && network != "unix" {
		return nil, opErr("listen", network, errors.New("simulated network: unsupported network"))
	}
	if network == "tcp" {
		h, p, err := net.SplitHostPort(address)
		if err != nil {
			return nil, opErr("listen", network, err)
		}
		if p == "0" {
			n.mu.Lock()
			n.port++
			address = net.JoinHostPort(h, fmt.Sprint(n.port))
			n.mu.Unlock()
		}
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if hi, ok := ctx.Value(hostKey{}).(hostInc); ok && n.crashes[hi.name] != hi.inc {
		return nil, opErr("listen", network, errors.New("host crashed"))
	}
	k := lkey(network, address)
	if _, dup := n.listeners[k]; dup && network != "unix" { // who may use a path, its file decides
		return nil, sysErr("listen", network, "bind", syscall.EADDRINUSE)
	}
	l := &simListener{n: n, network: network, addr: address, host: addrHost(network, address)}
	if hi, ok := ctx.Value(hostKey{}).(hostInc); ok {
		l.host = hi.name
	}
	if network == "unix" { // the socket file; it outlives a crash
		if old := n.files[address]; old != nil && old.dead {
			syscall.Unlink(address)
		}
		fd, err := syscall.Open(address, syscall.O_CREAT|syscall.O_EXCL|syscall.O_WRONLY, 0o600)
		if err != nil {
			return nil, sysErr("listen", network, "bind", syscall.EADDRINUSE)
		}
		syscall.Close(fd)
		n.files[address] = l
	}
	n.listeners[k] = l
	n.allListeners = append(n.allListeners, l)
	n.stat["listen"]++
	return l, nil
}

func (l *simListener) Addr() net.Addr { return simAddr{l.network, l.addr} }

func (l *simListener) Accept() (net.Conn, error) {
	n := l.n
	n.mu.Lock()
	defer n.mu.Unlock()
	for {
		if l.closed {
			return nil, opErr("accept", l.network, net.ErrClosed)
		}
		if len(l.queue) > 0 && !l.dead {
			l.accepts++
			if n.exhausted(l) {
				n.stat["emfile"]++
				l.emfile++
				if l.emfile > l.emfileMax {
					l.emfileMax = l.emfile
				}
				return nil, sysErr("accept", l.network, "accept4", syscall.EMFILE)
			}
			l.emfile = 0
			if !n.healed && n.cfg.AccFail > 0 && int(n.hash("acc", l.addr, l.accepts)%100) < n.cfg.AccFail {
				n.stat["acceptfail"]++
				return nil, sysErr("accept", l.network, "accept4", syscall.EMFILE)
			}
			c := l.queue[0]
			l.queue = l.queue[1:]
			n.stat["accept"]++
			c.accepted = true
			return n.handle(c), nil
		}
		n.cond.Wait()
	}
}

func (l *simListener) Close() error {
	n := l.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if l.closed {
		return opErr("close", l.network, net.ErrClosed)
	}
	l.closed = true
	if n.listeners[lkey(l.network, l.addr)] == l {
		delete(n.listeners, lkey(l.network, l.addr))
	}
	if l.network == "unix" && !l.dead { // like net.UnixListener: unlinks its path, whatever is there now
		syscall.Unlink(l.addr)
	}
	for _, c := range l.queue {
		c.kill() // the kernel resets connections nobody accepted
	}
	l.queue = nil
	n.cond.Broadcast()
	return nil
}

// dialRec is one attempt to connect.
type dialRec struct {
	host, ep   string
	start, end int64 // end is -1 while the attempt lasts
	err        string
	c          *simConn
	dup        *simConn // a connection to the same end-point that was alive
}

// dialsOf lists the attempts of a host to reach an end-point.
func (n *simNetwork) dialsOf(host, ep string) (l []*dialRec) {
	for _, d := range n.dials {
		if d.host == host && d.ep == ep {
			l = append(l, d)
		}
	}
	return
}

func (n *simNetwork) dial(ctx context.Context, network, address string) (net.Conn, error) {
	hi, _ := ctx.Value(hostKey{}).(hostInc)
	ep := network + "://" + address
	if network == "unix" {
		ep = "ipc://" + address
	}
	d := &dialRec{host: hi.name, ep: ep, start: simNow(), end: -1}
	n.mu.Lock()
	n.dials = append(n.dials, d)
	n.mu.Unlock()
	c, err := n.dial1(ctx, network, address, d)
	d.end = simNow()
	if err != nil {
		d.err = err.Error()
	}
	return c, err
}

func (n *simNetwork) dial1(ctx context.Context, network, address string, rec *dialRec) (net.Conn, error) {
	hi, _ := ctx.Value(hostKey{}).(hostInc)
	host := hi.name
	if host == "" {
		host = "?"
	}
	rhost := addrHost(network, address)
	if network == "udp" {
		return nil, opErr("dial", network, errors.New("simulated network: no udp"))
	}
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", network, err)
	}
	n.mu.Lock()
	if n.crashes[host] != hi.inc { // a crashed host does nothing any more
		n.mu.Unlock()
		<-ctx.Done()
		return nil, opErr("dial", network, ctx.Err())
	}
	n.links["dial "+host+">"+address]++
	k := n.links["dial "+host+">"+address]
	n.mu.Unlock()
	key := fmt.Sprint(host, ">", address, "#", k)
	wait := func(d time.Duration) error {
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-t.C:
			return nil
		}
	}
	// SYN
	for {
		n.mu.Lock()
		b := n.blocked(host, rhost, "part")
		now := n.us()
		n.mu.Unlock()
		if b == 0 {
			break
		}
		n.count("dialstalled")
		d := 10 * time.Second
		if b > 0 && b > now {
			d = time.Duration(b-now+1000) * time.Microsecond
		}
		if d > 200*time.Millisecond { // SYN retries
			d = 200 * time.Millisecond
		}
		if err := wait(d); err != nil {
			return nil, opErr("dial", network, err)
		}
	}
	if err := wait(n.lat(key, 0) + n.lat(key, 1)); err != nil {
		return nil, opErr("dial", network, err)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.crashes[host] != hi.inc {
		return nil, opErr("dial", network, errors.New("host crashed"))
	}
	if !n.healed && n.cfg.DialFail > 0 && int(n.hash("dial", key)%100) < n.cfg.DialFail {
		n.stat["dialfail"]++
		return nil, n.dialErr(network, key)
	}
	l := n.listeners[lkey(network, address)]
	if l != nil && network == "unix" {
		var st syscall.Stat_t
		if syscall.Stat(address, &st) != nil { // somebody removed the file
			l = nil
		}
	}
	if l == nil && network == "tcp" {
		_, p, _ := net.SplitHostPort(address)
		l = n.listeners[lkey(network, "0.0.0.0:"+p)]
	}
	if l == nil || l.dead || len(l.queue) >= 128 {
		n.stat["refused"]++
		return nil, n.dialErr(network, key)
	}
	n.links[host+">"+l.host]++
	idx := n.links[host+">"+l.host]
	n.port++
	laddr := simAddr{network, fmt.Sprint(host, ":", n.port)}
	raddr := simAddr{network, l.addr}
	ab := newPipe(n, host, l.host, fmt.Sprint(key, "/0"))
	ba := newPipe(n, l.host, host, fmt.Sprint(key, "/1"))
	for _, f := range n.cfg.Faults {
		if (f.Kind == "cut" || f.Kind == "fin") && match(f.A, host) && match(f.B, l.host) && (f.Nth == 0 && idx <= 200 || f.Nth == idx) && !n.healed {
			p := ab
			if f.Dir == 1 {
				p = ba
			}
			p.cutAt, p.cutKind = int64(f.Bytes), f.Kind
		}
	}
	c := &simConn{n: n, in: ba, out: ab, local: laddr, remote: raddr, dialer: true, la: host, ra: l.host, network: network}
	s := &simConn{n: n, in: ab, out: ba, local: raddr, remote: laddr, la: l.host, ra: host, network: network}
	c.peer, s.peer = s, c
	ab.w, ab.r, ba.w, ba.r = c, s, s, c
	for _, o := range n.dials {
		if o.host == rec.host && o.ep == rec.ep && o.c != nil && o.c.lostT == 0 {
			rec.dup = o.c
		}
	}
	rec.c = c
	n.conns = append(n.conns, c, s)
	l.queue = append(l.queue, s)
	n.stat["connect"]++
	n.cond.Broadcast()
	return n.handle(c), nil
}

func (n *simNetwork) count(k string) {
	n.mu.Lock()
	n.stat[k]++
	n.mu.Unlock()
}

// handle is what the code under test gets of a simConn; the simulator itself
// keeps none, so that a handle lives as long as somebody can still use it.
type handle struct{ *simConn }

type handed struct {
	w weak.Pointer[handle]
	c *simConn
}

func (n *simNetwork) handle(c *simConn) *handle {
	h := &handle{c}
	n.handed = append(n.handed, handed{weak.Make(h), c})
	return h
}

// retained counts the connections of a host that are closed and still held.
func (n *simNetwork) retained(host string) (kept, closed int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, h := range n.handed {
		if h.c.la == host && h.c.closed {
			closed++
			if h.w.Value() != nil {
				kept++
			}
		}
	}
	return
}

type seg struct {
	data []byte
	at   time.Time
}

type simPipe struct {
	n        *simNetwork
	a, b     string
	key      string
	cond     *sync.Cond
	segs     []seg
	inflight int
	nseg     int
	nread    int
	total    int64
	last     time.Time
	fin      bool
	finAt    time.Time
	reset    bool
	rclosed  bool
	rclosedN int
	cutAt    int64
	cutKind  string
	w, r     *simConn
	wakeAt   time.Time
}

func newPipe(n *simNetwork, a, b, key string) *simPipe {
	return &simPipe{n: n, a: a, b: b, key: key, cond: sync.NewCond(&n.mu), cutAt: -1}
}

type simConn struct {
	n        *simNetwork
	in, out  *simPipe
	peer     *simConn
	local    net.Addr
	remote   net.Addr
	network  string
	la, ra   string
	dialer   bool
	closed   bool
	accepted bool
	closes   int
	rdl      time.Time
	wdl      time.Time
	rbytes   int64
	lostT    int64 // when the connection was closed or reset, by whomever
}

// lost notes that the connection is over; called with the lock held.
func (c *simConn) lost() {
	if c.lostT == 0 {
		c.lostT = simNow()
		c.peer.lostT = c.lostT
	}
}

// kill resets both directions; called with the lock held.
func (c *simConn) kill() {
	c.lost()
	for _, p := range []*simPipe{c.in, c.out} {
		p.reset = true
		p.segs = nil
		p.inflight = 0
		p.cond.Broadcast()
	}
}

func (p *simPipe) wake(at time.Time) {
	if !p.wakeAt.IsZero() && !p.wakeAt.After(at) && p.wakeAt.After(time.Now()) {
		return
	}
	p.wakeAt = at
	d := time.Until(at)
	if d < 0 {
		d = 0
	}
	time.AfterFunc(d+1, func() {
		p.n.mu.Lock()
		p.cond.Broadcast()
		p.n.mu.Unlock()
	})
}

func (c *simConn) Read(b []byte) (int, error) {
	k, err := c.read(b)
	raceWrites(b[:k])
	return k, err
}

func (c *simConn) read(b []byte) (int, error) {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	p := c.in
	for {
		if c.closed {
			return 0, opErr("read", c.network, net.ErrClosed)
		}
		now := time.Now()
		if !c.rdl.IsZero() && !now.Before(c.rdl) {
			return 0, opErr("read", c.network, os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if p.reset {
			return 0, sysErr("read", c.network, "read", syscall.ECONNRESET)
		}
		if bl := n.blocked(p.a, p.b, "stall part"); bl != 0 {
			if bl > 0 {
				p.wake(n.start.Add(time.Duration(bl+1) * time.Microsecond))
			}
			p.cond.Wait()
			continue
		}
		if len(p.segs) > 0 {
			if s := &p.segs[0]; !s.at.After(now) {
				k := len(b)
				if n.cfg.Chunk > 0 {
					p.nread++
					if m := 1 + int(n.hash("chunk", p.key, p.nread)%uint64(n.cfg.Chunk)); m < k {
						k = m
					}
				}
				if k > len(s.data) {
					k = len(s.data)
				}
				copy(b, s.data[:k])
				s.data = s.data[k:]
				if len(s.data) == 0 {
					p.segs = p.segs[1:]
				}
				p.inflight -= k
				n.moved++
				c.rbytes += int64(k)
				p.cond.Broadcast()
				return k, nil
			}
			p.wake(p.segs[0].at)
		} else if p.fin {
			if !p.finAt.After(now) {
				return 0, io.EOF
			}
			p.wake(p.finAt)
		}
		if !c.rdl.IsZero() {
			p.wake(c.rdl)
		}
		p.cond.Wait()
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	raceReads(b)
	return c.write(b)
}

func (c *simConn) write(b []byte) (int, error) {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	p := c.out
	done := 0
	for {
		if c.closed {
			return done, opErr("write", c.network, net.ErrClosed)
		}
		if p.reset {
			return done, sysErr("write", c.network, "write", syscall.ECONNRESET)
		}
		now := time.Now()
		if !c.wdl.IsZero() && !now.Before(c.wdl) {
			return done, opErr("write", c.network, os.ErrDeadlineExceeded)
		}
		if p.rclosed {
			// The peer is gone: the first write is accepted and provokes a reset.
			p.rclosedN++
			if p.rclosedN > 1 {
				return done, sysErr("write", c.network, "write", syscall.EPIPE)
			}
			return len(b), nil
		}
		if done == len(b) {
			return done, nil
		}
		room := n.cfg.Buf - p.inflight
		if room > 0 {
			k := len(b) - done
			if k > room {
				k = room
			}
			p.nseg++
			if n.cfg.Seg > 0 {
				if m := 1 + int(n.hash("seg", p.key, p.nseg)%uint64(n.cfg.Seg)); m < k {
					k = m
				}
			}
			cut := false
			if p.cutAt >= 0 && !n.healed && p.total+int64(k) > p.cutAt {
				k = int(p.cutAt - p.total)
				cut = true
			}
			if k > 0 {
				at := now.Add(n.lat(p.key, p.nseg))
				if at.Before(p.last) {
					at = p.last
				}
				p.last = at
				p.segs = append(p.segs, seg{append([]byte(nil), b[done:done+k]...), at})
				p.inflight += k
				p.total += int64(k)
				done += k
				p.cond.Broadcast()
			}
			if cut {
				c.lost()
				n.stat[p.cutKind]++
				p.cutAt = -1
				if p.cutKind == "fin" {
					// everything sent so far arrives, then the stream ends both ways
					for _, q := range []*simPipe{c.out, c.in} {
						q.fin, q.finAt = true, q.last
						q.rclosed = true
						q.cond.Broadcast()
					}
					continue
				}
				if n.hash("lose", p.key)%2 == 0 {
					c.kill()
				} else { // data in flight is still delivered before the reset
					at := p.last
					c.in.reset, c.in.segs = true, nil
					c.in.cond.Broadcast()
					p.rclosed, p.rclosedN = true, 1
					time.AfterFunc(time.Until(at)+2000, func() {
						n.mu.Lock()
						c.kill()
						n.mu.Unlock()
					})
				}
			}
			continue
		}
		n.stat["backpressure"]++
		if !c.wdl.IsZero() {
			p.wake(c.wdl)
		}
		p.cond.Wait()
	}
}

func (c *simConn) Close() error {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	c.closes++
	if c.closed {
		return opErr("close", c.network, net.ErrClosed)
	}
	c.closed = true
	c.lost()
	if !c.out.fin {
		c.out.fin = true
		at := time.Now().Add(n.lat(c.out.key, -1))
		if at.Before(c.out.last) {
			at = c.out.last
		}
		c.out.finAt = at
	}
	c.in.rclosed = true
	c.in.segs = nil
	c.in.inflight = 0
	c.out.cond.Broadcast()
	c.in.cond.Broadcast()
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }

func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	c.n.mu.Lock()
	c.rdl = t
	c.in.cond.Broadcast()
	c.n.mu.Unlock()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.n.mu.Lock()
	c.wdl = t
	c.out.cond.Broadcast()
	c.n.mu.Unlock()
	return nil
}

// openConns lists connection ends that their owner never closed.
func (n *simNetwork) openConns(skipHost func(string) bool) (open []string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, c := range n.conns {
		if !c.closed && (c.dialer || c.accepted) && !skipHost(c.la) {
			side := "accepted"
			if c.dialer {
				side = "dialed"
			}
			open = append(open, fmt.Sprintf("%s connection %s -> %s", side, c.la, c.ra))
		}
	}
	return
}

func (n *simNetwork) openListeners() (open []string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, l := range n.listeners {
		open = append(open, l.network+"://"+l.addr)
	}
	return
}
