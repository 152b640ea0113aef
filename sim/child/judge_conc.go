//go:build vsim

package main

import (
	"fmt"
	"strings"

	zmq4 "github.com/luxfi/zmq/v4"
)

func init() {
	judges["C16"] = judgeC16
}

// judgeC16: data races, panics, deadlocks of the library's own locks and
// livelocks end a run on their own; here is what remains.
func judgeC16(w *world, li *leakInfo) {
	if !strings.HasPrefix(pl.Scen, "torture") {
		probe("borrowed", 1)
		return
	}
	endsPromptly(w)
	nothingLeft(li)
	w.untouched()
	registry()
	w.options()
	for _, e := range hist {
		switch e.K {
		case "listen", "dial":
			if n := strings.Split(e.A, "://"); e.ok() && (len(n) != 2 || n[0] != "tcp" && n[0] != "ipc" && n[0] != "inproc") {
				violate("option: something that is no endpoint was accepted", "%s", e)
			}
			if e.ok() && e.K == "listen" {
				probe("listened", 1)
			}
		case "recv":
			if e.ok() {
				probe("received", 1)
			}
			if e.ok() && e.ref != nil && !sameFrames(e.Frames, e.ref) {
				violate("integrity: a received message changed after Recv returned", "%s now %s", e, frameStr(e.ref))
			}
		case "addr", "topics", "type", "getopt", "setopt", "sub", "unsub", "hwm":
			probe("queries", 1)
		}
	}
	if strings.Contains(pl.Scen, "xpub") || strings.Contains(pl.Scen, "reqrep") || strings.Contains(pl.Scen, "xsub") {
		return
	}
	w.integrity()
	w.probes()
}

// registry: a name is registered once, by the first of those who try, and
// listed from then on.
func registry() {
	for _, e := range hist {
		if e.K != "transports" || e.R == 0 {
			continue
		}
		probe("registrations", 1)
		listed := false
		for _, n := range e.List {
			listed = listed || n == e.A
		}
		before, maybe := false, false
		for _, o := range hist {
			if o == e || o.K != "transports" || o.A != e.A || o.I > e.R {
				continue
			}
			maybe = true
			before = before || o.R != 0 && o.R < e.I
			if o.ok() && e.Err == "" {
				violate("transport: a name was registered twice", "%s\n%s", e, o)
			}
		}
		switch {
		case before && (!listed || e.Err == ""), !maybe && (listed || e.Err != ""), listed && e.Err == "":
			violate("transport: the list of transports contradicts what was registered", "%s %v", e, e.List)
		}
	}
}

// options: an option reads back as the last value that was set, the type and
// the address of a socket are what they are.
func (w *world) options() {
	for _, e := range hist {
		if e.R == 0 {
			continue
		}
		switch e.K {
		case "type":
			if e.List[0] != w.spec[e.S].Type {
				violate("option: a socket says it is of another type", "%s %v", e, e.List)
			}
		case "setopt", "hwm":
			t := w.spec[e.S].Type
			if bad := t == "SUB" || t == "PUB" && (e.A != zmq4.OptionHWM || e.N < 0); bad != (e.Err == zmq4.ErrBadProperty.Error()) || !bad && e.Err != "" {
				violate("option: wrongly set or refused", "%s %d", e, e.N)
			}
		case "addr":
			must, may := false, false
			for _, o := range hist {
				if o.K == "listen" && o.S == e.S && o.I < e.R {
					may = may || o.R == 0 || o.R > e.I || o.Err == ""
					must = must || o.ok() && o.R < e.I
				}
			}
			if must && len(e.List) == 0 || !may && len(e.List) != 0 {
				violate("option: the address of a socket is not that of its listener", "%s %v", e, e.List)
			}
		case "getopt":
			var sets []*Ev
			for _, o := range hist {
				if (o.K == "setopt" || o.K == "hwm") && o.S == e.S && o.A == e.A && o.I < e.R && o.Err == "" {
					sets = append(sets, o)
				}
			}
			ok := e.Err == zmq4.ErrBadProperty.Error()
			for _, o := range sets {
				if e.Err != "" {
					ok = ok && (o.R == 0 || o.R > e.I)
					continue
				}
				over := fmt.Sprint(o.N) != e.List[0]
				for _, p := range sets {
					over = over || o.R != 0 && p.I > o.R && p.R != 0 && p.R < e.I
				}
				ok = ok || !over
			}
			if !ok {
				violate("option: does not read back as it was set", "%s %v", e, e.List)
			}
			probe("options", 1)
		}
	}
}
