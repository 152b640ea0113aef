//go:build vsim

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/vsim/plan"
)

// seal is a security mechanism of an application: what it writes for a frame
// is scrambled, and longer than the frame.
type seal struct {
	plain    zmq4.Security
	enc, dec int // one frame out of so many cannot be encrypted, or decrypted; 0: none
}

func (seal) Type() zmq4.SecurityType { return "SEAL" }

func (s seal) Handshake(c *zmq4.Conn, server bool) error { return s.plain.Handshake(c, server) }

const sealExtra = 12

func sealKey(nonce uint64, k int) byte {
	return byte(plan.Mix(nonce^uint64(k>>3)) >> (uint(k&7) * 8))
}

func sealSum(b []byte) (h uint32) {
	h = 2166136261
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	return
}

// refuses tells whether a frame is among those that cannot be processed.
func refuses(data []byte, n int) bool {
	if n == 0 || len(data) == 0 {
		return false
	}
	for _, cmd := range []string{"\x05READY", "\x04PING", "\x04PONG"} {
		if bytes.HasPrefix(data, []byte(cmd)) {
			return false
		}
	}
	return sealSum(data)>>8%uint32(n) == 1
}

func (s seal) Encrypt(w io.Writer, data []byte) (int, error) {
	if refuses(data, s.enc) {
		return 0, errSeal
	}
	b := make([]byte, len(data)+sealExtra)
	n := plan.Mix(uint64(sealSum(data))<<32 | uint64(len(data)))
	binary.BigEndian.PutUint64(b, n)
	binary.BigEndian.PutUint32(b[8:], sealSum(data))
	for k, c := range data {
		b[sealExtra+k] = c ^ sealKey(n, k)
	}
	return w.Write(b)
}

var errSeal = errors.New("seal: broken")

func (s seal) Decrypt(w io.Writer, data []byte) (int, error) {
	if len(data) < sealExtra {
		return 0, errSeal
	}
	b := make([]byte, len(data)-sealExtra)
	n := binary.BigEndian.Uint64(data)
	for k := range b {
		b[k] = data[sealExtra+k] ^ sealKey(n, k)
	}
	if refuses(b, s.dec) {
		return 0, errSeal
	}
	if sealSum(b) != binary.BigEndian.Uint32(data[8:]) {
		return 0, errSeal
	}
	return w.Write(b)
}
