//go:build vsim

package main

import (
	"strings"
)

func init() {
	judges["C13"] = judgeC13
}

func judgeC13(w *world, li *leakInfo) {
	na, nb := knob("na", 1), knob("nb", 1)
	as, bs := pl.Socks[2:2+na], pl.Socks[2+na:2+na+nb]
	// what is connected to one side talks to what is connected to the other
	for _, s := range pl.Socks {
		w.peers[s.Name] = map[string]bool{}
	}
	for _, a := range as {
		for _, b := range bs {
			w.peers[a.Name][b.Name], w.peers[b.Name][a.Name] = true, true
		}
	}
	sub := map[string][]string{}
	var proxy *Ev
	var shut int64 = -1
	var shutT int64
	for _, e := range hist {
		switch e.K {
		case "sub":
			sub[e.S] = append(sub[e.S], e.A)
		case "proxy":
			proxy = e
		case "close", "cancel":
			if (e.S == pl.Socks[0].Name || e.S == pl.Socks[1].Name) && (shut < 0 || e.I < shut) {
				shut, shutT = e.I, e.Ti
			}
		}
	}
	w.integrity()
	nothingLeft(li)
	if proxy == nil {
		return
	}
	intact := true
	if proxy.R != 0 && proxy.R < shut {
		intact = false
		late := knob("late", 0) != 0 && pl.Socks[1].Timeout > 0 && strings.Contains(proxy.Err, "deadline")
		if knob("grief", 0) == 0 && !late {
			violate("proxy: ended although neither of its sockets failed", "%s", proxy)
		}
		probe("ended_early", 1)
	}
	if proxy.R != 0 && proxy.Err == "" {
		violate("proxy: ended without an error", "%s", proxy)
	}
	if proxy.R == 0 || proxy.Tr-max(shutT, proxy.Ti) > promptly {
		violate("proxy: goes on after one of its sockets was closed", "%s, closed at %.3fms", proxy, float64(shutT)/1e6)
	}
	grief := ""
	if k := knob("griefed", 0); k > 0 {
		grief = pl.Socks[k-1].Name
	}
	if pl.Scen != "broker" {
		w.once()
		w.fifo(nil)
		for _, s := range w.all {
			if !s.ok() && intact {
				violate("proxy: Send failed", "%s", s)
			}
		}
		if pl.Scen == "pubsub" {
			for _, s := range w.all {
				for _, b := range bs {
					want := false
					for _, t := range sub[b.Name] {
						want = want || strings.HasPrefix(string(s.Frames[0]), t)
					}
					got := len(w.got[s][b.Name])
					if want && got == 0 {
						violate("proxy: a message was not forwarded", "%s never got %s", b.Name, s)
					}
					if !want && got > 0 {
						violate("proxy: a message was forwarded to somebody not subscribed to it", "%s got %s", b.Name, s)
					}
				}
			}
			return
		}
		w.complete(func(s *Ev, r string) bool { return s.ok() && intact })
		return
	}
	for _, q := range w.all {
		if q.UID&replyBit != 0 {
			for r := range w.got[q] {
				mine := false
				for _, s := range w.sends[q.UID&^replyBit] {
					mine = mine || s.S == r
				}
				if !mine {
					violate("proxy: a reply went to somebody else", "%s got %s", r, q)
				}
			}
			continue
		}
		if q.S == grief || !intact {
			continue
		}
		for _, b := range bs {
			if n := len(w.got[q][b.Name]); n != 1 {
				violate("proxy: a request was not forwarded exactly once", "%s got %d times %s", b.Name, n, q)
			}
			n := 0
			for _, s := range w.sends[q.UID|replyBit] {
				if s.S == b.Name {
					n += len(w.got[s][q.S])
				}
			}
			if n != 1 {
				violate("proxy: a reply was not forwarded exactly once", "%d replies of %s received for %s", n, b.Name, q)
			}
			probe("exchanges", n)
		}
	}
}
