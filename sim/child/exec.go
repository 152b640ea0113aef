//go:build vsim

package main

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/inproc"
	"github.com/luxfi/zmq/v4/internal/vsim/plan"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

type sk struct {
	spec    plan.Sock
	sock    zmq4.Socket
	cancel  context.CancelFunc
	closing bool
	crashed bool
}

type flagT struct {
	ch   chan struct{}
	n    int
	need int
	done bool
}

var (
	pl      *plan.Plan
	socks   = map[string]*sk{}
	order   []string // socket names in creation order
	zombies []*sk
	flags   = map[string]*flagT{}
	stopAt  time.Time
	ending  bool // the run is in its teardown: loops should stop
	wg      sync.WaitGroup
	rootC   context.Context
	stopC   context.CancelFunc
)

var sockTypes = map[string]func(context.Context, ...zmq4.Option) zmq4.Socket{
	"PAIR": zmq4.NewPair, "PUB": zmq4.NewPub, "SUB": zmq4.NewSub, "REQ": zmq4.NewReq, "REP": zmq4.NewRep,
	"DEALER": zmq4.NewDealer, "ROUTER": zmq4.NewRouter, "PULL": zmq4.NewPull, "PUSH": zmq4.NewPush,
	"XPUB": zmq4.NewXPub, "XSUB": zmq4.NewXSub, "STREAM": zmq4.NewStream,
}

var sockMu sync.Mutex

func newSecurity(name string) zmq4.Security {
	if user, pass, ok := plan.Creds(name); ok {
		return plain.Security(user, pass)
	}
	switch name {
	case "seal":
		return seal{plain: null.Security()}
	case "picky": // cannot encrypt everything
		return seal{plain: null.Security(), enc: 5}
	case "choosy": // cannot decrypt everything
		return seal{plain: null.Security(), dec: 12}
	}
	return null.Security()
}

var securities = map[string]zmq4.Security{}

func init() {
	for _, n := range []string{"plain", "plain1", "plain2", "plain3", "plain4", "plain5", "null", "seal", "picky", "choosy"} {
		securities[n] = newSecurity(n)
	}
}

func newSock(s plan.Sock) *sk {
	if o := socks[s.Name]; o != nil { // restarted: the old one lives on until the teardown
		zombies = append(zombies, o)
	}
	ctx, cancel := context.WithCancel(hostCtx(context.Background(), s.Host))
	var opts []zmq4.Option
	if s.ID != "" {
		opts = append(opts, zmq4.WithID(zmq4.SocketIdentity(s.ID)))
	}
	if s.Timeout < 0 {
		opts = append(opts, zmq4.WithTimeout(0))
	}
	if s.Timeout > 0 {
		opts = append(opts, zmq4.WithTimeout(time.Duration(s.Timeout)*time.Millisecond))
	}
	if s.Retry > 0 {
		opts = append(opts, zmq4.WithDialerRetry(time.Duration(s.Retry)*time.Millisecond))
	}
	if s.MaxRet != 0 {
		opts = append(opts, zmq4.WithDialerMaxRetries(s.MaxRet))
	}
	if s.Recon != 0 {
		opts = append(opts, zmq4.WithAutomaticReconnect(s.Recon == 1))
	}
	if s.Sec != "" {
		sec := securities[s.Sec] // one object for all sockets
		if knob("sharesec", 0) == 0 {
			sec = newSecurity(s.Sec)
		}
		opts = append(opts, zmq4.WithSecurity(sec))
	}
	k := &sk{spec: s, sock: sockTypes[s.Type](ctx, opts...), cancel: cancel}
	racePublish()
	sockMu.Lock()
	defer sockMu.Unlock()
	m := map[string]*sk{s.Name: k} // never written to once visible: map writes are interleaved
	for n, o := range socks {
		if n != s.Name {
			m[n] = o
		}
	}
	socks = m
	order = append(order, s.Name)
	return k
}

func flag(name string) *flagT {
	f := flags[name]
	if f == nil {
		f = &flagT{ch: make(chan struct{}), need: 1}
		flags[name] = f
	}
	return f
}

func uidFor(proc, op, it int) uint32 {
	return uint32(proc+1)<<20 | uint32(op&0x7f)<<13 | uint32(it&0x1fff)
}

func sleepUs(us int) {
	if us > 0 {
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
}

func isClosedErr(err error) bool {
	if err == nil {
		return false
	}
	return errors.Is(err, context.Canceled) || strings.Contains(err.Error(), "closed")
}

var errPanic = "PANIC: "

type procRun struct {
	idx  int
	ph   int
	p    plan.Proc
	done bool
	at   string
}

var runs []*procRun

func (r *procRun) run() {
	defer wg.Done()
	defer func() { r.done = true }()
	for i, op := range r.p.Ops {
		if ending {
			return
		}
		r.at = fmt.Sprintf("%s[%d] %s %s", r.p.Name, i, op.K, op.S)
		r.op(i, op)
	}
}

func (r *procRun) ev(i, it int, op plan.Op) *Ev {
	e := begin(r.p.Name, i, it, op.K, op.S)
	e.A = op.A
	return e
}

func (r *procRun) op(i int, op plan.Op) {
	if r.extOp(i, op) || r.nodeOp(i, op) || r.ipOp(i, op) || r.cnOp(i, op) {
		return
	}
	switch op.K {
	case "sleep":
		sleepUs(op.Us)
		return
	case "signal":
		f := flag(op.A)
		f.n++
		if f.n >= f.need && !f.done {
			f.done = true
			close(f.ch)
		}
		return
	case "await": // wait for N signals of A, at most Us
		f := flag(op.A)
		if f.n >= f.need {
			return
		}
		t := time.NewTimer(time.Duration(op.Us) * time.Microsecond)
		defer t.Stop()
		select {
		case <-f.ch:
		case <-t.C:
		case <-rootC.Done():
		}
		return
	case "crash":
		e := r.ev(i, 0, op)
		for _, n := range order {
			if s := socks[n]; s.spec.Host == op.A && !s.closing {
				s.crashed = true
			}
		}
		nw.crash(op.A)
		if knob("crashclose", 0) != 0 { // whatever a dead process ran is gone
			for _, n := range order {
				if s := socks[n]; s.crashed && s.spec.Host == op.A && !s.closing {
					s.closing = true
					s.sock.Close()
				}
			}
		}
		e.end(nil)
		return
	case "new":
		for _, s := range pl.Socks {
			if s.Name == op.S {
				e := r.ev(i, 0, op)
				newSock(s)
				e.end(nil)
			}
		}
		return
	}
	s := socks[op.S]
	if s == nil {
		return
	}
	switch op.K {
	case "listen":
		e := r.ev(i, 0, op)
		for op.Flag&1 != 0 { // as soon as possible
			err := s.sock.Listen(op.A)
			if err == nil || ending || simNow()-e.Ti > 10e9 {
				e.end(err)
				return
			}
			sleepUs(op.Us)
		}
		e.end(s.sock.Listen(op.A))
	case "dial":
		e := r.ev(i, 0, op)
		e.end(s.sock.Dial(op.A))
	case "close":
		e := r.ev(i, 0, op)
		s.closing = true
		e.end(s.sock.Close())
	case "cancel":
		e := r.ev(i, 0, op)
		s.cancel()
		e.end(nil)
	case "sub", "unsub":
		e := r.ev(i, 0, op)
		o := zmq4.OptionSubscribe
		if op.K == "unsub" {
			o = zmq4.OptionUnsubscribe
		}
		e.end(s.sock.SetOption(o, op.A))
	case "hwm":
		e := r.ev(i, 0, op)
		e.N, e.A = op.N, zmq4.OptionHWM
		e.end(s.sock.SetOption(zmq4.OptionHWM, op.N))
	case "setopt":
		e := r.ev(i, 0, op)
		e.N = op.N
		e.end(s.sock.SetOption(op.A, op.N))
	case "getopt":
		e := r.ev(i, 0, op)
		v, err := s.sock.GetOption(op.A)
		if err == nil {
			e.List = []string{fmt.Sprint(v)}
		}
		e.end(err)
	case "topics":
		e := r.ev(i, 0, op)
		if t, ok := s.sock.(zmq4.Topics); ok {
			e.List = append([]string{}, t.Topics()...)
		}
		e.end(nil)
	case "addr":
		e := r.ev(i, 0, op)
		if a := s.sock.Addr(); a != nil {
			e.List = []string{a.String()}
		}
		e.end(nil)
	case "transports": // the registry of transports
		e := r.ev(i, 0, op)
		e.List = zmq4.Transports()
		e.end(zmq4.RegisterTransport(op.A, inproc.Transport{}))
	case "type":
		e := r.ev(i, 0, op)
		e.List = []string{string(s.sock.Type())}
		e.end(nil)
	case "send", "sendm":
		for k := 0; k < op.N && !ending && !s.crashed; k++ {
			r.send(s, i, k, op)
			sleepUs(op.Us)
		}
	case "recv":
		r.recvLoop(s, i, op)
	case "req":
		r.reqLoop(s, i, op)
	case "rep":
		r.repLoop(s, i, op)
	case "echo":
		r.echoLoop(s, i, op)
	case "xsub": // XSUB: raw subscription message
		e := r.ev(i, 0, op)
		e.N = op.N
		e.end(s.sock.Send(zmq4.NewMsg(append([]byte{byte(op.N)}, op.A...))))
	case "proxy":
		b := socks[op.B]
		if b == nil {
			return
		}
		e := r.ev(i, 0, op)
		e.end(zmq4.Proxy(s.sock, b.sock))
	default:
		panic("vsim: unknown op " + op.K)
	}
}

// payload builds message uid for op: optional literal leading frame op.B
// (routing identity or topic, per op.Flag), then frames of the given sizes.
func payload(op plan.Op, uid uint32) [][]byte {
	var fr [][]byte
	if op.B != "" && op.Flag&32 != 0 {
		for _, f := range strings.Split(op.B, "|") {
			fr = append(fr, []byte(f))
		}
	} else if op.B != "" {
		fr = append(fr, []byte(op.B))
	}
	if op.Flag&2 != 0 { // empty delimiter
		fr = append(fr, []byte{})
	}
	return append(fr, mkFrames(uid, op.Sz)...)
}

func cloneFrames(fr [][]byte) [][]byte {
	o := make([][]byte, len(fr))
	for i := range fr {
		o[i] = append([]byte{}, fr[i]...)
	}
	return o
}

var spare = []byte("spare")

// A shared message is sent by several goroutines, through several sockets.
var shared = map[int][][]byte{}

func sharedUID(op plan.Op) uint32 { return uint32(0x70000000 + op.M) }

func sharedFrames(op plan.Op) [][]byte { return shared[op.M] }

func makeShared(op plan.Op) {
	if op.Flag&128 != 0 && shared[op.M] == nil {
		fr := payload(op, sharedUID(op))
		shared[op.M] = append(fr, spare)[:len(fr)]
	}
}

func (r *procRun) send(s *sk, i, k int, op plan.Op) *Ev {
	uid := uidFor(r.idx, i, k)
	fr := payload(op, uid)
	e := r.ev(i, k, op)
	e.UID = uid
	e.Frames = fr
	// the caller's frames, in the middle of an array that has room for more
	give := append(cloneFrames(fr), spare)[:len(fr)]
	if op.Flag&128 != 0 {
		give = sharedFrames(op)
		e.UID = sharedUID(op)
		e.Frames = cloneFrames(give)
	}
	if op.Flag&1 == 0 {
		e.ref = give
	}
	msg := zmq4.NewMsgFrom(give...)
	var err error
	if op.K == "sendm" {
		err = s.sock.SendMulti(msg)
	} else {
		err = s.sock.Send(msg)
	}
	e.end(err)
	if op.Flag&1 != 0 && err == nil { // the caller reuses its buffers
		for _, f := range give {
			appWrites(f)
			for x := range f {
				f[x] = 0xEE
			}
		}
	}
	return e
}

func (r *procRun) recv1(s *sk, i, k int, op plan.Op) (*Ev, zmq4.Msg, error) {
	e := r.ev(i, k, op)
	e.K = "recv"
	msg, err := s.sock.Recv()
	if err == nil {
		e.Frames = cloneFrames(msg.Frames)
		e.ref = msg.Frames
		e.Type = int(msg.Type)
		e.UID = uidOf(msg.Frames)
		for _, f := range msg.Frames {
			appReads(f)
		}
	}
	e.end(err)
	if op.Flag&16 != 0 { // what was received belongs to the receiver
		e.ref = nil
		for _, f := range msg.Frames {
			appWrites(f)
			for x := range f {
				f[x] = 0xDD
			}
		}
	}
	return e, msg, err
}

// recvLoop receives N messages (N<0: until the socket is closed).
func (r *procRun) recvLoop(s *sk, i int, op plan.Op) {
	errs := 0
	for k, it := 0, 0; op.N < 0 || k < op.N; it++ {
		_, _, err := r.recv1(s, i, it, op)
		if ending || s.crashed || s.closing && err != nil {
			return
		}
		if err != nil {
			errs++
			if errs > 300 {
				return
			}
			if op.Flag&4 != 0 { // an error ends the loop
				return
			}
			sleepUs(1000)
			continue
		}
		k++
		sleepUs(op.Us)
	}
}

// reqLoop performs N request/reply exchanges, retrying failed ones up to M times.
func (r *procRun) reqLoop(s *sk, i int, op plan.Op) {
	it := 0
	for k := 0; k < op.N; k++ {
		for try := 0; try <= op.M; try++ {
			if ending || s.closing || s.crashed {
				return
			}
			so := op
			so.K = "send"
			if op.Flag&8 != 0 {
				so.K = "sendm"
			}
			e := r.send(s, i, it, so)
			it++
			if !e.ok() {
				sleepUs(20000)
				continue
			}
			e2, _, err := r.recv1(s, i, it, op)
			e2.A = fmt.Sprint(e.UID)
			if err == nil {
				break
			}
			sleepUs(20000)
		}
		sleepUs(op.Us)
	}
}

const replyBit = 0x80000000

// replyFrames is the reply a server sends for request uid.
func replyFrames(uid uint32, sz []int) [][]byte { return mkFrames(uid|replyBit, sz) }

// repLoop serves requests with REP: the reply is a function of the request's uid.
func (r *procRun) repLoop(s *sk, i int, op plan.Op) {
	errs := 0
	for it := 0; ; it += 2 {
		e, _, err := r.recv1(s, i, it, op)
		if ending || s.crashed || s.closing && err != nil {
			return
		}
		if err != nil {
			errs++
			if errs > 300 {
				return
			}
			sleepUs(1000)
			continue
		}
		sleepUs(op.Us)
		se := r.ev(i, it+1, op)
		se.K = "send"
		se.UID = e.UID | replyBit
		se.Frames = replyFrames(e.UID, op.Sz)
		msg := zmq4.NewMsgFrom(se.Frames...)
		if op.Flag&8 != 0 {
			err = s.sock.SendMulti(msg)
		} else {
			err = s.sock.Send(msg)
		}
		se.end(err)
	}
}

// echoLoop serves a ROUTER: replies go to the identity the request came from;
// the envelope up to and including an empty delimiter is kept if Flag&2.
func (r *procRun) echoLoop(s *sk, i int, op plan.Op) {
	errs := 0
	for it := 0; ; it += 2 {
		e, msg, err := r.recv1(s, i, it, op)
		if ending || s.crashed || s.closing && err != nil {
			return
		}
		if err != nil {
			errs++
			if errs > 300 {
				return
			}
			sleepUs(1000)
			continue
		}
		if len(msg.Frames) < 1 {
			continue
		}
		sleepUs(op.Us)
		fr := [][]byte{e.Frames[0]}
		if op.Flag&2 != 0 {
			fr = append(fr, []byte{})
		}
		fr = append(fr, replyFrames(e.UID, op.Sz)...)
		se := r.ev(i, it+1, op)
		se.K = "send"
		se.UID = e.UID | replyBit
		se.Frames = fr
		se.end(s.sock.Send(zmq4.NewMsgFrom(fr...)))
	}
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("vsim: bad hex")
	}
	return b
}

var _ = net.ErrClosed
