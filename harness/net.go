package zharness

import (
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
)

// link: two connections that completed their handshake, and their raw ends
type link struct {
	a, b   *prot.Conn
	ta, tb *net.TCPConn
}

// connect runs the handshake of both ends; a is the initiator
func connect(ida, idb string) *link {
	l := &link{}
	l.ta, l.tb = zverif.TCPPair()
	done := make(chan *prot.Conn)
	go func() { done <- prot.NewConn(prot.NewParams(idb, false, false), l.tb) }()
	l.a = prot.NewConn(prot.NewParams(ida, true, false), l.ta)
	l.b = <-done
	return l
}

func newLink() *link {
	l := connect("node-a", "node-b")
	ok(!l.a.HasErr() && !l.b.HasErr(), "the handshake of two nodes fails")
	return l
}

// rawU64, rawFrame: wire forms written by a hand-made peer
func rawU64(v uint64) []byte {
	var b []byte
	for i := 0; i < 8; i++ {
		b = append(b, byte(v>>(56-8*i)))
	}
	return b
}

func rawFrame(d []byte) []byte {
	return append([]byte{byte(len(d) >> 8), byte(len(d))}, d...)
}

func rawHash(h core.HashT) []byte {
	d := h.Data()
	return append([]byte{}, d[:]...)
}

func send(c *net.TCPConn, bs ...[]byte) {
	for _, b := range bs {
		_, err := c.Write(b)
		setup(err)
	}
}

func txEq(a, b core.Tx) bool {
	r := zverif.And(a.IsCoinbase == b.IsCoinbase, a.MinBlock == b.MinBlock, len(a.Inputs) == len(b.Inputs), len(a.Outputs) == len(b.Outputs))
	if len(a.Inputs) != len(b.Inputs) || len(a.Outputs) != len(b.Outputs) {
		return false
	}
	for i, x := range a.Inputs {
		y := b.Inputs[i]
		r = zverif.And(r, x.Utxo.TxId == y.Utxo.TxId, x.Utxo.Ind == y.Utxo.Ind, x.Utxo.Value == y.Utxo.Value, eqBytes(x.PublicKey, y.PublicKey), eqBytes(x.Signature, y.Signature))
	}
	for i, x := range a.Outputs {
		r = zverif.And(r, x.Value == b.Outputs[i].Value, x.PublicKeyHash == b.Outputs[i].PublicKeyHash)
	}
	return r
}

// received: what the raw end gets until the connection is silent or ends
func received(c *net.TCPConn) (b []byte) {
	var one [1]byte
	for {
		c.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
		n, err := c.Read(one[:])
		b = append(b, one[:n]...)
		if err != nil {
			c.SetReadDeadline(time.Time{})
			return
		}
	}
}

// heard: the same as framed texts
func heard(c *net.TCPConn) (l []string) {
	for b := received(c); len(b) >= 2; {
		n := 2 + int(b[0])<<8 + int(b[1])
		if n > len(b) {
			n = len(b)
		}
		l = append(l, string(b[2:n]))
		b = b[n:]
	}
	return
}
