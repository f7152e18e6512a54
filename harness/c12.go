package zharness

import (
	"os"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// step: write something at one end, read it at the other
func wireStep(l *link, name string) {
	switch zverif.Choice(name+".kind", 5) {
	case 0:
		s := zverif.Str(name+".str", zverif.Int(name+".len", 0, 4))
		l.a.WriteString(s)
		ok(l.b.ReadString() == s, "a string is read back different")
	case 1:
		d := zverif.Bytes(name+".bytes", zverif.Int(name+".len", 0, 4))
		l.a.Write(d)
		ok(eqBytes(l.b.Read(), d), "a byte string is read back different")
	case 2:
		v := zverif.U64(name + ".num")
		l.a.WriteUint64(v)
		ok(l.b.ReadUint64() == v, "a number is read back different")
	case 3:
		v := zverif.Bool(name + ".flag")
		l.a.WriteBool(v)
		ok(l.b.ReadBool() == v, "a flag is read back different")
	case 4:
		h := symHash(name + ".hash")
		l.a.WriteHashT(h)
		ok(l.b.ReadHashT() == h, "a hash is read back different")
	}
	ok(!l.a.HasErr() && !l.b.HasErr(), "an ordinary message sets an error")
}

// Strings, byte strings, numbers, flags and hashes are read back equal, one after another, with nothing left over, however the stream is cut.
// bounds: two messages of any kind; texts up to 4 bytes; up to two short reads anywhere
// cfg: paths=20000 short=2
// cfg-thorough: paths=200000 short=4
func C12_values() {
	l := newLink()
	wireStep(l, "first")
	wireStep(l, "second")
	ok(zverif.NetPending(l.tb) == 0, "reading leaves bytes of the message behind")
	ok(zverif.NetPending(l.ta) == 0, "reading sends something back")
}

// wireTx: a transaction of every small shape and any content
func wireTx(name string, nin, nout int) core.Tx {
	t := core.Tx{IsCoinbase: zverif.Bool(name + ".coinbase"), MinBlock: zverif.U64(name + ".min"), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for i := 0; i < nin; i++ {
		n := name + ".in" + sprint(i)
		lens := [][2]int{{0, 0}, {0, 3}, {3, 0}, {2, 1}}[zverif.Choice(n+".lens", 4)]
		t.Inputs = append(t.Inputs, core.TxIn{
			Utxo:      core.Utxo{TxId: symHash(n + ".tx"), Ind: zverif.U64(n + ".ind"), Value: zverif.U64(n + ".value")},
			PublicKey: zverif.Bytes(n+".pub", lens[0]), Signature: zverif.Bytes(n+".sig", lens[1]),
		})
	}
	for i := 0; i < nout; i++ {
		n := name + ".out" + sprint(i)
		t.Outputs = append(t.Outputs, out(zverif.U64(n+".value"), symHash(n+".pkh")))
	}
	return t
}

// Blocks, tree nodes and transactions are read back equal by their id, and under any other id they are refused.
// bounds: any field values; transactions up to 2 inputs and 2 outputs, keys and signatures up to 3 bytes; any other 256-bit id; up to one short read
// assumes: ideal hash
// reach: equal refused
// cfg: paths=20000 short=1
// cfg-thorough: paths=100000 short=2
func C12_objects() {
	l := newLink()
	wrong := zverif.Bool("wrong id")
	want := func(id core.HashT) core.HashT {
		if wrong {
			o := symHash("other")
			zverif.Assume(o != id)
			return o
		}
		return id
	}
	switch zverif.Choice("kind", 3) {
	case 0:
		b := core.Block{PrevBlockId: symHash("prev"), MerkleRoot: symHash("root"), Target: symHash("target"), Noise: symHash("noise"), Nonce: zverif.U64("nonce"), MinedTime: zverif.U64("time")}
		l.a.WriteBlock(b)
		g := l.b.ReadBlock(want(b.Hash()))
		ok(wrong || zverif.And(g.PrevBlockId == b.PrevBlockId, g.MerkleRoot == b.MerkleRoot, g.Target == b.Target, g.Noise == b.Noise, g.Nonce == b.Nonce, g.MinedTime == b.MinedTime), "a block is read back different")
		ok(!wrong || g == core.Block{}, "a refused block is returned")
	case 1:
		n := core.MerkleNode{LChild: symHash("left"), RChild: symHash("right")}
		l.a.WriteMerkle(n)
		g := l.b.ReadMerkle(want(n.Hash()))
		ok(wrong || g.LChild == n.LChild && g.RChild == n.RChild, "a tree node is read back different")
		ok(!wrong || g == core.MerkleNode{}, "a refused tree node is returned")
	case 2:
		t := wireTx("tx", zverif.Int("inputs", 0, 2), zverif.Int("outputs", 0, 2))
		l.a.WriteTx(t)
		g := l.b.ReadTx(want(t.Hash()))
		ok(wrong || txEq(g, t), "a transaction is read back different")
		ok(!wrong || g.Inputs == nil && g.Outputs == nil, "a refused transaction is returned")
	}
	ok(!l.a.HasErr(), "an ordinary object cannot be written")
	ok(l.b.HasErr() == wrong, "an object is refused under its own id, or not under another")
	if wrong {
		zverif.Reach("refused")
	} else {
		zverif.Reach("equal")
	}
	l.b.Err()
	l.a.WriteBool(true)
	ok(l.b.ReadBool() && !l.b.HasErr(), "the connection is out of step after an object")
	ok(zverif.NetPending(l.tb) == 0, "reading leaves bytes of the object behind")
}

// Byte strings around the 16-bit length are read back equal or refused with nothing sent.
// bounds: lengths 255, 256, 65534..65537 and 70000, three arbitrary bytes in them
// reach: equal refused
// cfg: paths=200 steps=400000000
func C12_frame() {
	l := newLink()
	d := []byte(strings.Repeat("x", []int{255, 256, 65534, 65535, 65536, 65537, 70000}[zverif.Choice("length", 7)]))
	d[0], d[len(d)/2], d[len(d)-1] = zverif.U8("first"), zverif.U8("middle"), zverif.U8("last")
	if zverif.Bool("string") {
		l.a.WriteString(string(d))
	} else {
		l.a.Write(d)
	}
	if l.a.HasErr() {
		ok(len(d) > 65535, "a byte string that fits is refused")
		ok(zverif.NetPending(l.tb) == 0, "a refused byte string is sent in part")
		zverif.Reach("refused")
		return
	}
	g := l.b.Read()
	ok(!l.b.HasErr() && len(g) == len(d), "a long byte string is read back with another length")
	ok(g[0] == d[0] && g[len(d)/2] == d[len(d)/2] && g[len(d)-1] == d[len(d)-1], "a long byte string is read back different")
	ok(zverif.NetPending(l.tb) == 0, "reading leaves bytes of a long message behind")
	zverif.Reach("equal")
}

// After any error nothing more is read or sent until the error is taken, which it can be once.
// bounds: six causes of an error; each kind of read and write afterwards
// cfg: paths=5000
func C12_sticky() {
	l := newLink()
	c := l.a
	closed := false
	switch zverif.Choice("cause", 6) {
	case 0: // not a flag
		v := zverif.U8("flag")
		zverif.Assume(v > 1)
		send(l.tb, []byte{v})
		c.ReadBool()
	case 1: // another string than expected
		s := zverif.Str("got", zverif.Int("len", 0, 3))
		zverif.Assume(s != "yes")
		l.b.WriteString(s)
		c.ReadStringExpected("yes")
	case 2: // too long
		c.Write(make([]byte, 65537))
	case 3: // nothing comes
		c.ReadUint64()
		ok(c.HasErr(), "reading nothing for long sets no error")
	case 4: // an object of another id
		l.b.WriteMerkle(core.MerkleNode{LChild: symHash("left"), RChild: symHash("right")})
		c.ReadMerkle(tag(1))
	case 5: // the peer went away
		l.tb.Close()
		closed = true
		c.ReadHashT()
	}
	ok(c.HasErr(), "a fault sets no error")
	if !closed {
		send(l.tb, rawFrame([]byte("abcdefgh")))
	}
	switch zverif.Choice("then", 15) {
	case 0:
		c.WriteString("x")
	case 1:
		c.Write([]byte("x"))
	case 2:
		c.WriteUint64(1)
	case 3:
		c.WriteBool(true)
	case 4:
		c.WriteHashT(tag(1))
	case 5:
		c.WriteTx(core.Tx{MinBlock: 4})
	case 6:
		c.WriteBlock(core.Block{Nonce: 1})
	case 7:
		c.WriteMerkle(core.MerkleNode{})
	case 8:
		ok(c.ReadString() == "", "something is read despite an error")
	case 9:
		ok(len(c.Read()) == 0, "something is read despite an error")
	case 10:
		ok(c.ReadUint64() == 0, "something is read despite an error")
	case 11:
		ok(!c.ReadBool(), "something is read despite an error")
	case 12:
		ok(c.ReadHashT() == core.HashT{}, "something is read despite an error")
	case 13:
		t := c.ReadTx(tag(1))
		ok(len(t.Inputs) == 0 && len(t.Outputs) == 0 && t.MinBlock == 0, "something is read despite an error")
	case 14:
		ok(c.ReadBlock(tag(1)) == core.Block{} && c.ReadMerkle(tag(1)) == core.MerkleNode{}, "something is read despite an error")
		c.ReadStringExpected("abcdefgh")
	}
	ok(c.HasErr(), "an error goes away without being taken")
	ok(c.Err() != nil, "the error cannot be taken")
	ok(!c.HasErr() && c.Err() == nil, "a taken error stays")
	if closed {
		return
	}
	ok(zverif.NetPending(l.tb) == 0, "something is sent despite an error")
	ok(c.ReadString() == "abcdefgh" && !c.HasErr(), "reads despite an error consumed bytes")
	c.WriteUint64(7)
	ok(l.b.ReadUint64() == 7 && !l.b.HasErr(), "the connection is unusable after its error was taken")
}

// A transaction with a key or signature too long to frame sets an error.
// bounds: key or signature of 65536 or 65537 bytes in the first or second of two inputs
// cfg: paths=300
func C12_longkey() {
	l := newLink()
	t := wireTx("tx", 2, 1)
	d := make([]byte, zverif.Int("length", 65536, 65537))
	i := &t.Inputs[zverif.Choice("input", 2)]
	if zverif.Bool("signature") {
		i.Signature = d
	} else {
		i.PublicKey = d
	}
	l.a.WriteTx(t)
	ok(l.a.HasErr(), "a transaction that cannot be framed is written")
	l.ta.Close()
	g := l.b.ReadTx(tag(1))
	ok(l.b.HasErr() && len(g.Inputs) == 0, "a transaction that cannot be framed is read")
}

// A reader that polls gets each message whole, wherever the stream pauses.
// bounds: two messages of up to 3 bytes; one pause of 50, 150 or 250 ms at any byte; polling every 100 ms
// cfg: paths=2000
func C12_late() {
	l := newLink()
	x, y := zverif.Bytes("first", zverif.Int("len1", 0, 3)), zverif.Bytes("second", zverif.Int("len2", 0, 1))
	d := append(rawFrame(x), rawFrame(y)...)
	cut := zverif.Int("cut", 0, len(d))
	wait := []int{50, 150, 250}[zverif.Choice("pause", 3)]
	go func() {
		send(l.ta, d[:cut])
		time.Sleep(time.Duration(wait) * time.Millisecond)
		send(l.ta, d[cut:])
	}()
	poll := func() []byte {
		for i := 0; ; i++ {
			m := l.b.ReadTimeout(100 * time.Millisecond)
			if !l.b.HasErr() {
				return m
			}
			ok(i < 5, "a message never arrives")
			ok(os.IsTimeout(l.b.Err()), "a late message is an error")
		}
	}
	ok(eqBytes(poll(), x), "a message that arrives in pieces is read back different")
	ok(eqBytes(poll(), y), "the message after one that arrived in pieces is read back different")
	ok(zverif.NetPending(l.tb) == 0, "reading in pieces leaves bytes behind")
}
