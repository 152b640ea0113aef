package plan

import (
	"encoding/binary"
	"encoding/hex"
	"strings"
)

// An encoder of ZMTP 3.0 written from RFC 23, independent of the code under test.

func Hex(b []byte) string { return hex.EncodeToString(b) }

// ZGreeting builds a greeting.
func ZGreeting(major, minor byte, mech string, server byte) []byte {
	b := make([]byte, 64)
	b[0], b[9] = 0xff, 0x7f
	b[10], b[11] = major, minor
	copy(b[12:32], mech)
	b[32] = server
	return b
}

// ZFrame builds a frame; flags: 1 more, 4 command; long forces the long form.
func ZFrame(flags byte, body []byte, long bool) []byte {
	if len(body) > 255 || long {
		b := make([]byte, 9, 9+len(body))
		b[0] = flags | 2
		binary.BigEndian.PutUint64(b[1:], uint64(len(body)))
		return append(b, body...)
	}
	return append([]byte{flags, byte(len(body))}, body...)
}

// ZMsg builds a message of several frames.
func ZMsg(frames [][]byte, long bool) (b []byte) {
	for i, f := range frames {
		fl := byte(0)
		if i < len(frames)-1 {
			fl = 1
		}
		b = append(b, ZFrame(fl, f, long)...)
	}
	return
}

// ZCmd builds a command frame.
func ZCmd(name string, body []byte, long bool) []byte {
	b := append([]byte{byte(len(name))}, name...)
	return ZFrame(4, append(b, body...), long)
}

// ZProp builds one metadata property.
func ZProp(k, v string) []byte {
	b := append([]byte{byte(len(k))}, k...)
	b = binary.BigEndian.AppendUint32(b, uint32(len(v)))
	return append(b, v...)
}

// ZMeta builds the usual metadata.
func ZMeta(typ, id string) []byte {
	return append(ZProp("Socket-Type", typ), ZProp("Identity", id)...)
}

// ZHello builds the body of a PLAIN HELLO.
func ZHello(user, pass string) []byte {
	b := append([]byte{byte(len(user))}, user...)
	b = append(b, byte(len(pass)))
	return append(b, pass...)
}

var creds = map[string][2]string{
	"plain":  {"user", "secret"},
	"plain1": {"", ""},
	"plain2": {"user", ""},
	"plain3": {"", "secret"},
	"plain4": {strings.Repeat("\xff\x00long", 42) + "usr", strings.Repeat("p", 254) + "w"},
	"plain5": {"u", "\x06secret"},
}

// Creds are the user and the password of a socket's Sec; ok if that is PLAIN.
func Creds(sec string) (user, pass string, ok bool) {
	c, ok := creds[sec]
	return c[0], c[1], ok
}

// Mech is the mechanism of a socket's Sec.
func Mech(sec string) string {
	if _, _, ok := Creds(sec); ok {
		return "PLAIN"
	}
	return "NULL"
}

// ZHandshake builds everything a well-behaved peer sends until it is ready.
func ZHandshake(s *Sock, server bool) [][]byte {
	if Mech(s.Sec) == "NULL" {
		return [][]byte{ZGreeting(3, 0, "NULL", 0), ZCmd("READY", ZMeta(s.Type, s.ID), false)}
	}
	if server {
		return [][]byte{ZGreeting(3, 0, "PLAIN", 1), ZCmd("WELCOME", nil, false), ZCmd("READY", ZMeta(s.Type, s.ID), false)}
	}
	user, pass, _ := Creds(s.Sec)
	return [][]byte{ZGreeting(3, 0, "PLAIN", 0), ZCmd("HELLO", ZHello(user, pass), false), ZCmd("INITIATE", ZMeta(s.Type, s.ID), false)}
}

var compatible = map[string][]string{
	"PAIR": {"PAIR"}, "PUB": {"SUB", "XSUB"}, "SUB": {"PUB", "XPUB"}, "REQ": {"REP", "ROUTER"}, "REP": {"REQ", "DEALER"},
	"DEALER": {"REP", "DEALER", "ROUTER"}, "ROUTER": {"REQ", "DEALER", "ROUTER"}, "PULL": {"PUSH"}, "PUSH": {"PULL"},
	"XPUB": {"SUB", "XSUB"}, "XSUB": {"PUB", "XPUB"},
}
