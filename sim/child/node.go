//go:build vsim

package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/luxfi/zmq/v4/internal/vsim/plan"
	"github.com/luxfi/zmq/v4/networking"
)

// node is a networking.Transport of the plan.
type node struct {
	spec    plan.Sock
	t       *networking.Transport
	cancel  context.CancelFunc
	inc     int // incarnation
	stopped bool
}

var (
	nodes    = map[string]*node{} // replaced, never written to: map writes are interleaved
	allNodes []*node
)

func newNode(s plan.Sock) *node {
	ctx, cancel := context.WithCancel(hostCtx(context.Background(), s.Host))
	n := &node{spec: s, cancel: cancel, t: networking.New(ctx, networking.Config{NodeID: s.Name, BasePort: s.Port, BindAddress: s.Host,
		MaxRetries: max(s.MaxRet, 0), RetryDelay: time.Duration(s.Retry) * time.Millisecond})}
	racePublish()
	m := map[string]*node{s.Name: n}
	for k, o := range nodes {
		if k != s.Name {
			m[k] = o
		} else {
			n.inc = o.inc + 1
		}
	}
	nodes = m
	allNodes = append(allNodes, n)
	return n
}

func specOf(name string) plan.Sock {
	for _, s := range pl.Socks {
		if s.Name == name {
			return s
		}
	}
	return plan.Sock{}
}

// nodeMsg is message uid: every field is a function of it.
func nodeMsg(typ string, uid uint32, sz []int) *networking.Message {
	m := &networking.Message{Type: typ, Height: uint64(uid), Round: uid * 2654435761}
	if sz[0] > 0 {
		m.SessionID = body(uid, 1, sz[0])
	}
	m.Data = nodeData(uid, sz[1])
	return m
}

func nodeData(uid uint32, n int) json.RawMessage {
	s := hex.EncodeToString(body(uid, 2, n))
	switch uid % 6 {
	case 0:
		return nil
	case 1:
		return json.RawMessage(`"` + s + `"`)
	case 2:
		return json.RawMessage(`{"b":[1,2.5,-3e7,null,true,{"x":"` + s + `"}],"a":{"":""}}`)
	case 3:
		return json.RawMessage("\"<\u00e9\u4e16&\u2028\\u0000\\n\\\"" + s + ">\"")
	case 4:
		return json.RawMessage(fmt.Sprint(uid))
	}
	return json.RawMessage(`["` + s + `",   "second"]`)
}

func (r *procRun) nodeOp(i int, op plan.Op) bool {
	if !strings.HasPrefix(op.K, "t.") {
		return false
	}
	n := nodes[op.S]
	if n == nil {
		return true
	}
	e := r.ev(i, n.inc, op)
	switch op.K {
	case "t.new":
		n = newNode(n.spec)
		e.It = n.inc
		e.end(nil)
	case "t.start":
		e.end(n.t.Start())
	case "t.stop":
		n.stopped = true
		n.t.Stop()
		e.end(nil)
	case "t.cancel":
		n.stopped = true
		n.cancel()
		e.end(nil)
	case "t.crash":
		n.stopped = true
		nw.crash(n.spec.Host)
		n.cancel()
		go n.t.Stop()
		e.end(nil)
	case "t.conn": // A: peer, N != 0: an address that is not the peer's
		e.List, e.N = []string{op.A}, op.N
		p := specOf(op.A)
		port := p.Port
		if op.N != 0 {
			port = op.N
		}
		if op.Flag&1 != 0 {
			e.end(n.t.ConnectPeer(op.A, port))
		} else {
			e.end(n.t.ConnectPeerWithAddress(op.A, p.Host, port))
		}
	case "t.disc":
		e.List = []string{op.A}
		n.t.DisconnectPeer(op.A)
		e.end(nil)
	case "t.bcast", "t.send":
		hist = hist[:len(hist)-1]
		for k := 0; k < max(op.N, 1) && !ending; k++ {
			n = nodes[op.S]
			e := r.ev(i, n.inc, op)
			e.UID = uidFor(r.idx, i, k)
			m := nodeMsg(op.A, e.UID, op.Sz)
			if op.Flag&4 != 0 {
				m.Data = json.RawMessage(`{"broken`)
				e.N = 1
			} else if op.Flag&1 != 0 { // several attempts
				e.N = 2
			}
			if op.Flag&8 != 0 { // used before
				m.From, m.Timestamp = "somebody", 12345
				if op.K == "t.send" {
					m.To = "else"
				}
			}
			e.M = *m
			e.M.From, e.M.To = op.S, op.B
			var err error
			switch {
			case op.K == "t.bcast" && op.Flag&1 == 0:
				err = n.t.Broadcast(m)
			case op.K == "t.bcast":
				err = n.t.BroadcastWithRetry(m)
			case op.Flag&1 == 0:
				e.List = []string{op.B}
				err = n.t.Send(op.B, m)
			default:
				e.List = []string{op.B}
				err = n.t.SendWithRetry(op.B, m)
			}
			e.M.Timestamp = m.Timestamp
			e.end(err)
			sleepUs(op.Us)
		}
	case "t.handle": // handler number N for type A; Flag 1: it answers
		e.N = op.N
		n.t.RegisterHandler(op.A, func(m *networking.Message) { n.handled(op, m) })
		e.end(nil)
	case "t.unhandle":
		n.t.UnregisterHandler(op.A)
		e.end(nil)
	case "t.peers":
		l := n.t.GetPeers()
		e.List = append([]string{}, l...)
		for i := range l { // the list is the caller's
			l[i] = "scribble"
		}
		e.end(nil)
	case "t.metrics":
		a, b, c := n.t.GetMetrics()
		e.List = []string{fmt.Sprint(a), fmt.Sprint(b), fmt.Sprint(c), n.t.GetNodeID()}
		e.end(nil)
	default:
		panic("vsim: unknown op " + op.K)
	}
	return true
}

func (n *node) handled(op plan.Op, m *networking.Message) {
	e := begin("handler", op.N, n.inc, "handled", n.spec.Name)
	e.A, e.N, e.UID, e.M = op.A, op.N, uint32(m.Height), *m
	e.List = []string{m.Type, m.From, m.To}
	e.end(nil)
	m.SessionID, m.Data = nil, nil // what was received belongs to the receiver
	sleepUs(op.Us)
	if op.Flag&1 == 0 || m.To == "" || ending || e.UID&replyBit != 0 {
		return
	}
	re := begin("reply", op.N, n.inc, "t.send", n.spec.Name)
	re.A, re.UID, re.List = m.Type, e.UID|replyBit, []string{m.From}
	rm := nodeMsg(m.Type, re.UID, []int{5, 20})
	re.M = *rm
	re.M.From, re.M.To = n.spec.Name, m.From
	err := n.t.Send(m.From, rm)
	re.M.Timestamp = rm.Timestamp
	re.end(err)
}

func nodeTeardown() {
	for _, n := range allNodes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n.t.Stop()
		}()
	}
}
