package zharness

import (
	"net"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/peer"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
	"github.com/levilutz/basiccoin/pkg/topic"
)

// hostile: a node with a chain of two blocks and one peer, whose end of the connection the harness writes
type hostile struct {
	*forks
	raw     *net.TCPConn
	closing *topic.SubCh[bus.PeerClosingEvent]
	over    bool
	whole   bool // the stream is not cut
}

// greet opens a connection to the node by hand and leaves a running peer
func greet(n *node, head core.HashT, id string, nodeInitiates bool) *net.TCPConn {
	ta, tb := zverif.TCPPair()
	done := make(chan *prot.Conn)
	go func() { done <- prot.NewConn(prot.NewParams("node-a", nodeInitiates, false), ta) }()
	for _, s := range []string{"levilutz/basiccoin", "v0.0.0", id, "continue"} {
		send(tb, rawFrame([]byte(s)))
	}
	c := <-done
	ok(!c.HasErr(), "a proper handshake is refused")
	skip(tb, 2+18+2+6+2+6+2+8)
	go peer.NewPeer(n.bus, n.inv, c, head).Loop()
	return tb
}

// skip reads and drops n bytes
func skip(c *net.TCPConn, n int) []byte {
	b := make([]byte, n)
	for k := 0; k < n; {
		m, err := c.Read(b[k:])
		setup(err)
		k += m
	}
	return b
}

func newHostile(nodeInitiates bool) *hostile { return newHostileWith(testParams(), nodeInitiates) }

func newHostileWith(p core.Params, nodeInitiates bool) *hostile {
	f := &forks{p: p, k0: keyN(0), k1: keyN(1)}
	f.t1 = next(p, nil, f.k0.pkh)
	f.t2 = next(p, f.t1, f.k0.pkh)
	f.pkhs = []core.HashT{f.k0.pkh, f.k1.pkh, tag(1), tag(2), tag(3)}
	f.n = newNode(p, false, nil)
	f.start()
	h := &hostile{forks: f, closing: f.n.bus.PeerClosing.SubCh()}
	h.raw = greet(f.n, f.t2.id, "evil", nodeInitiates)
	return h
}

// newStranger: the same with nothing behind the connection but an inventory of one transaction
func newStranger(nodeInitiates bool) *hostile {
	p := testParams()
	f := &forks{p: p, n: &node{p: p, bus: bus.NewBus(), inv: inv.NewInv(p, nil)}}
	f.x = coinbase(1, 1000, tag(1))
	setup(f.n.inv.StoreTx(f.x))
	h := &hostile{forks: f, closing: f.n.bus.PeerClosing.SubCh()}
	h.raw = greet(f.n, core.HashT{}, "evil", nodeInitiates)
	return h
}

// add sends a segment, unless the stream ended; it may end before it or after one byte of it
func (h *hostile) add(f func() []byte) {
	if h.over {
		return
	}
	if !h.whole && zverif.Bool("stop") {
		h.over = true
		if zverif.Bool("partial") {
			if d := f(); len(d) > 0 {
				send(h.raw, d[:1])
			}
		}
		return
	}
	send(h.raw, f())
}

func (h *hostile) raws(bs ...[]byte) {
	for _, b := range bs {
		h.add(func() []byte { return b })
	}
}
func (h *hostile) text(s string)            { h.raws(rawFrame([]byte(s))) }
func (h *hostile) bad(name string, max int) { h.add(func() []byte { return badText(name, max) }) }

// word sends a command and lets the node take it (a connection gone before that is in C13_message)
func (h *hostile) word(s string) {
	send(h.raw, rawFrame([]byte(s)))
	zverif.Settle()
}

// end: the peer closes or stays silent; the node must be well
func (h *hostile) end(closes bool) {
	if closes {
		h.raw.Close()
	}
	zverif.Settle()
	if closes {
		zverif.Settle()
	}
	cnt := 0
	for more := true; more; {
		select {
		case e := <-h.closing.C:
			ok(e.PeerRuntimeId == "evil", "another peer is closed")
			cnt++
			zverif.Settle()
		default:
			more = false
		}
	}
	ok(cnt <= 1, "a peer is closed twice")
	ok(cnt == 1 || !closes, "a peer that went away is not closed")
	ok(h.n.chain == nil || h.n.height() >= 2, "the chain does not answer after a hostile peer")
	if cnt == 1 {
		zverif.Reach("closed")
	} else {
		zverif.Reach("open")
	}
}

// odd: a byte that is anything where it is content, and one of a few values where it could be misread as a length
func odd(name string) byte { return []byte{0, 1, 0xff}[zverif.Choice(name, 3)] }

// badText: a framed text whose length field is right, too large or too small
func badText(name string, max int) []byte {
	var d []byte
	for i, n := 0, zverif.Int(name+".len", 0, max); i < n; i++ {
		d = append(d, odd(name+sprint(i)))
	}
	f := rawFrame(d)
	switch zverif.Choice(name+".frame", 3) {
	case 1:
		f[0] = 0xff
	case 2:
		f[1] = byte(len(d) / 2)
	}
	return f
}

func num50(name string) []byte {
	v := zverif.U64(name)
	zverif.Assume(v < 1<<50)
	return rawU64(v)
}

// Arbitrary bytes in place of a message or a command.
// bounds: a message of up to 2 odd bytes and an ordinary one, the first with or without the command prefix, with a right, too large or too small length, cut anywhere between or one byte into one; then close or silence; either end may have opened the connection
// reach: closed open
// cfg: paths=40000 alloc=262144
func C13_message() {
	h := newStranger(zverif.Bool("node initiates"))
	if zverif.Bool("command") {
		h.add(func() []byte {
			return rawFrame(append([]byte("cmd:"), zverif.Bytes("cmd", zverif.Int("len", 0, 4))...))
		})
	}
	h.bad("msg", 2)
	h.text("cmd:ping")
	h.end(zverif.Bool("close"))
}

// Malformed address announcements and address lists.
// bounds: an address of up to 2 odd bytes with a right, too large or too small length; a list with any count (64 bits), up to two entries and an odd third one; cut after any field or one byte into it, then close or silence
// reach: closed open
// cfg: paths=40000 alloc=262144 budget=300
func C13_addrs() {
	h := newStranger(false)
	if zverif.Bool("announce") {
		h.word("cmd:announce-addr")
		h.bad("addr", 2)
	} else {
		h.word("cmd:peer-addrs")
		n := zverif.U64("count")
		h.raws(rawU64(n))
		for i := uint64(0); i < 2 && i < n; i++ {
			h.text("peer" + sprint(int(i)))
			h.text("addr")
		}
		if n > 2 {
			h.bad("id", 1)
		}
	}
	h.end(zverif.Bool("close"))
}

// Malformed transactions.
// bounds: any id, flag and (below 2^50) numbers, any counts (64 bits) with up to one input and one output sent, a public key of right, too large or too small length, cut after any field or one byte into it, then close or silence
// assumes: ideal hash
// reach: closed open
// cfg: paths=40000 alloc=262144 budget=300
func C13_tx() {
	h := newStranger(false)
	h.word("cmd:new-tx")
	if zverif.Bool("known") {
		h.raws(rawHash(h.x.Hash()))
		h.bad("more", 1)
		h.end(zverif.Bool("close"))
		return
	}
	id := symHash("id")
	zverif.Assume(id != h.x.Hash())
	h.raws(rawHash(id))
	zverif.Settle() // the node answers this
	// what follows a wrong flag or length is read as messages, see C13_message
	h.add(func() []byte {
		flag := odd("coinbase")
		if flag > 1 {
			h.over = true
		}
		return []byte{flag}
	})
	in, out := zverif.U64("inputs"), zverif.U64("outputs")
	h.raws(num50("min"), rawU64(in), rawU64(out))
	if in > 0 {
		h.raws(append(rawHash(tag(3)), num50("in.ind")...), num50("in.value"))
		h.add(func() []byte {
			k := zverif.Choice("pub", 4)
			if k < 3 {
				h.over = true
			}
			return [][]byte{{0, 2, 7, 7}, {0xff, 0, 1}, {0, 1, 1, 1}, {0, 1, 1}}[k]
		})
		h.raws(rawFrame([]byte("sig")))
	}
	if in < 2 && out > 0 {
		h.raws(num50("out.value"), rawHash(tag(4)))
	}
	h.end(zverif.Bool("close"))
}

// pick sends one of the words
func (h *hostile) pick(name string, words ...string) string {
	w := words[zverif.Choice(name, len(words))]
	h.text(w)
	return w
}

// startSync: the hostile end makes the node compare chains and gives its own side
func (h *hostile) startSync(work, head core.HashT) {
	h.word("cmd:sync-chain")
	h.raws(rawHash(work), rawHash(head))
}

// A peer that claims any work and any head and then answers out of turn.
// bounds: every 256-bit work; known, unknown or zero head; either end may have opened the connection; two words out of those of the exchange, cut anywhere or one byte into a part, then close or silence
// assumes: ideal hash
// reach: closed open
// cfg: paths=40000 alloc=262144 budget=300
func C13_claims() {
	h := newHostile(zverif.Bool("node initiates"))
	head := h.t2.id
	switch zverif.Choice("head", 4) {
	case 1:
		head = h.t1.id
	case 2:
		head = tag(9)
	case 3:
		head = core.HashT{}
	}
	h.startSync(symHash("work"), head)
	h.pick("first", "continue", "cancel", "sync:send", "")
	h.pick("second", "sync:recv", "sync:send", "cancel", "cmd:ping")
	h.end(zverif.Bool("close"))
}

func rawBlockMsg(b core.Block) []byte {
	var d []byte
	for _, x := range []core.HashT{b.PrevBlockId, b.MerkleRoot, b.Target, b.Noise} {
		d = append(d, rawHash(x)...)
	}
	return append(append(d, rawU64(b.Nonce)...), rawU64(b.MinedTime)...)
}

// A peer that claims more work and sends a chain of its making.
// bounds: one or two block ids before a known, zero or unknown one; blocks with any of four parents, four targets (zero, one, ordinary, the highest) and a tree root that is zero, known, unknown or made of a tree and a transaction it sends when asked (four coinbase values; wrong entity, wrong flag, none); or a chain like the node's own, cut anywhere or one byte into a part; then close or silence
// assumes: ideal hash
// reach: closed open accepted refused
// cfg: paths=40000 alloc=262144 budget=400
func C13_feed() {
	h := newHostile(false)
	h.n.lastHead()
	anchors := []core.HashT{h.t2.id, h.t1.id, {}, tag(8)}
	h.whole = !zverif.Bool("cut")
	value := uint64(1000)
	anchor, answers := anchors[0], 0
	if h.whole {
		value = []uint64{1000, 1001, 0, 1<<64 - 1}[zverif.Choice("value", 4)]
		anchor = anchors[zverif.Choice("anchor", 4)]
		answers = zverif.Choice("answers", 4)
	}
	parent := anchor
	if h.whole && zverif.Bool("another parent") {
		parent = anchors[zverif.Choice("parent", 4)]
	}
	cb := coinbase(3, value, tag(1))
	ms, root := tree([]core.HashT{cb.Hash()})
	var bs []core.Block
	for i, n := 0, zverif.Int("blocks", 1, zverif.Tier(1, 2)); i < n; i++ {
		b := core.Block{PrevBlockId: parent, Target: h.p.OriginalTarget, MinedTime: timeAt(3), MerkleRoot: root}
		if h.whole && value == 1000 {
			b.Target = []core.HashT{b.Target, {}, pow2m1(1), pow2m1(256)}[zverif.Choice("target", 4)]
			b.MerkleRoot = []core.HashT{root, h.t2.b.MerkleRoot, h.t2.txs[0].Hash(), tag(7), {}}[zverif.Choice("root"+sprint(i), 5)]
		}
		if zverif.HashLess([32]byte{1: 1}, b.Target.Data()) {
			b = mine(b)
		}
		bs = append(bs, b)
		parent = b.Hash()
	}
	h.startSync(pow2m1(256), parent)
	h.text("continue")
	h.text("sync:send")
	for i := range bs {
		h.raws(rawHash(bs[len(bs)-1-i].Hash()))
	}
	h.raws(rawHash(anchor))
	for i := range bs {
		h.raws(rawBlockMsg(bs[len(bs)-1-i]))
	}
	zverif.Settle()
	switch answers {
	case 0: // what was asked for, if that is known to exist
		h.raws(append([]byte{0}, rawHash(ms[0].LChild)...), rawHash(ms[0].RChild))
		h.raws(append([]byte{1, 1}, rawU64(3)...), append(rawU64(0), rawU64(1)...), append(rawU64(value), rawHash(tag(1))...))
	case 1:
		h.raws(append([]byte{0}, rawHash(tag(5))...), rawHash(tag(6)))
	case 2:
		h.add(func() []byte { return []byte{odd("flag")} })
	}
	zverif.Settle()
	if _, any := h.n.lastHead(); any {
		zverif.Reach("accepted")
	} else {
		zverif.Reach("refused")
	}
	h.end(zverif.Bool("close"))
}

// A peer that claims less work and asks for the node's chain in its own way.
// bounds: up to 4 answers to offered ids (have it, don't, garbage); verdict on the blocks; up to two requests for known, unknown or zero entities; a final word or not; or ordinary answers cut anywhere or one byte into one; then close or silence
// assumes: ideal hash
// reach: closed open
// cfg: paths=40000 alloc=262144 budget=300
func C13_ask() {
	h := newHostile(zverif.Bool("node initiates"))
	h.whole = !zverif.Bool("cut")
	h.startSync(core.HashT{}, core.HashT{})
	h.text("continue")
	h.text("sync:recv")
	n := zverif.Int("unknown to the peer", 0, 4)
	for i := 0; i < n; i++ {
		h.raws([]byte{0})
	}
	h.add(func() []byte {
		if h.whole && zverif.Bool("garbage") {
			return []byte{0xff}
		}
		return []byte{1}
	})
	h.add(func() []byte {
		if h.whole {
			return []byte{odd("verdict")}
		}
		return []byte{1}
	})
	ids := []core.HashT{h.t1.b.MerkleRoot, h.t1.txs[0].Hash(), h.t1.id, tag(9), {}}
	asks, kinds := 1, 1
	if h.whole {
		asks, kinds = zverif.Int("asks", 0, 2), len(ids)
	}
	for i := 0; i < asks; i++ {
		h.raws(rawHash(ids[zverif.Choice("ask"+sprint(i), kinds)]))
	}
	h.pick("end", "complete", "cmd:ping")
	h.end(zverif.Bool("close"))
}
