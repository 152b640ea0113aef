//go:build vsim

package main

import (
	"encoding/binary"
	"fmt"
)

// zdec decodes a ZMTP 3.0 byte stream strictly, written from RFC 23 and
// independent of the code under test.
type zdec struct {
	buf   []byte
	mech  string
	gr    bool // greeting complete
	srv   byte
	cmds  []zcmd
	msgs  [][][]byte
	part  [][]byte
	bad   string // the first thing that is not ZMTP
	total int
}

type zcmd struct {
	name string
	body []byte
	at   int64 // simulated time of arrival
}

func (d *zdec) fail(f string, a ...any) {
	if d.bad == "" {
		d.bad = fmt.Sprintf(f, a...)
	}
}

// feed takes bytes and returns the messages they complete.
func (d *zdec) feed(b []byte) (out [][][]byte) {
	d.total += len(b)
	d.buf = append(d.buf, b...)
	for d.bad == "" {
		if !d.gr {
			if len(d.buf) < 64 {
				return
			}
			d.greeting(d.buf[:64])
			d.gr = true
			d.buf = d.buf[64:]
			continue
		}
		if len(d.buf) < 2 {
			return
		}
		fl := d.buf[0]
		if fl&^7 != 0 {
			d.fail("reserved flag bits are set: %#x", fl)
			return
		}
		n, h := int(d.buf[1]), 2
		if fl&2 != 0 {
			if len(d.buf) < 9 {
				return
			}
			x := binary.BigEndian.Uint64(d.buf[1:])
			if x > 1<<30 {
				d.fail("a frame of %d bytes is announced", x)
				return
			}
			n, h = int(x), 9
		}
		if len(d.buf) < h+n {
			return
		}
		body := append([]byte{}, d.buf[h:h+n]...)
		d.buf = d.buf[h+n:]
		if fl&4 != 0 {
			if fl&1 != 0 {
				d.fail("a command frame announces more frames")
			}
			if len(d.part) > 0 {
				d.fail("a command in the middle of a message")
			}
			d.command(body)
			continue
		}
		d.part = append(d.part, body)
		if fl&1 == 0 {
			d.msgs = append(d.msgs, d.part)
			out = append(out, d.part)
			d.part = nil
		}
	}
	return
}

func (d *zdec) greeting(b []byte) {
	switch {
	case b[0] != 0xff || b[9] != 0x7f:
		d.fail("greeting: bad signature % x", b[:10])
	case b[10] != 3:
		d.fail("greeting: major version %d", b[10])
	case b[32] > 1:
		d.fail("greeting: as-server is %d", b[32])
	}
	i := 0
	for i < 20 && b[12+i] != 0 {
		i++
	}
	d.mech = string(b[12 : 12+i])
	for ; i < 20; i++ {
		if b[12+i] != 0 {
			d.fail("greeting: the mechanism is not padded with zeros: %q", b[12:32])
		}
	}
	for _, x := range b[33:] {
		if x != 0 {
			d.fail("greeting: the filler is not zero")
		}
	}
	d.srv = b[32]
}

func (d *zdec) command(b []byte) {
	if len(b) == 0 || int(b[0]) > len(b)-1 || b[0] == 0 {
		d.fail("malformed command %q", b)
		return
	}
	if string(b[1:1+b[0]]) == "ERROR" && (len(b) < 7 || int(b[6]) != len(b)-7) {
		d.fail("the reason of an ERROR command is malformed: %q", b[6:])
	}
	d.cmds = append(d.cmds, zcmd{string(b[1 : 1+b[0]]), b[1+b[0]:], simNow()})
}

// meta decodes metadata strictly.
func meta(b []byte) (map[string]string, error) {
	m := map[string]string{}
	for len(b) > 0 {
		k := int(b[0])
		if k == 0 || len(b) < 1+k+4 {
			return nil, fmt.Errorf("truncated property")
		}
		name := string(b[1 : 1+k])
		v := binary.BigEndian.Uint32(b[1+k:])
		b = b[1+k+4:]
		if uint64(v) > uint64(len(b)) {
			return nil, fmt.Errorf("truncated value of %q", name)
		}
		if _, dup := m[name]; dup {
			return nil, fmt.Errorf("duplicate property %q", name)
		}
		m[name] = string(b[:v])
		b = b[v:]
	}
	return m, nil
}
