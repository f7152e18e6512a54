package zharness

import (
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/peer"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
	"github.com/levilutz/basiccoin/pkg/topic"
)

// A node agrees to a connection exactly when the other end speaks this protocol and version, is another node and agrees.
// bounds: any name of 17..18 bytes, any version of 5..6 bytes, id of 0..3 arbitrary bytes, any reply of 6 or 8 bytes or one of the known ones; the other end may leave after each part
// reach: agreed refused
// cfg: paths=20000
func C14_handshake() {
	own := zverif.Str("own", 2)
	initiator := zverif.Bool("initiator")
	ta, tb := zverif.TCPPair()
	done := make(chan *prot.Conn)
	go func() { done <- prot.NewConn(prot.NewParams(own, initiator, false), ta) }()
	odd := func(name, right string) string {
		switch zverif.Choice(name+" is", 3) {
		case 1:
			return zverif.Str(name, len(right))
		case 2:
			return zverif.Str(name, len(right)-1)
		}
		return right
	}
	name := odd("name", "levilutz/basiccoin")
	version := odd("version", "v0.0.0")
	id := zverif.Str("id", zverif.Int("id length", 0, 3))
	reply := odd("reply", []string{"continue", "cancel", ""}[zverif.Choice("reply kind", 2)])
	parts := zverif.Int("parts", 0, 4)
	for _, s := range []string{name, version, id, reply}[:parts] {
		send(tb, rawFrame([]byte(s)))
	}
	zverif.Settle()
	if parts < 4 {
		tb.Close()
	}
	c := <-done
	good := zverif.And(name == "levilutz/basiccoin", version == "v0.0.0", id != own)
	agreed := zverif.And(good, reply == "continue", parts == 4)
	ok(zverif.Iff(agreed, !c.HasErr()), "a connection is made exactly with another node of this protocol that agrees")
	if agreed {
		zverif.Reach("agreed")
		ok(c.PeerRuntimeId() == id, "the other end's id is wrong")
		ok(c.WeAreInitiator() == initiator, "the initiator is forgotten")
	} else {
		zverif.Reach("refused")
	}
	if parts == 4 {
		want := []string{"levilutz/basiccoin", "v0.0.0", own}
		if good {
			want = append(want, "continue")
		} else if zverif.And(name == "levilutz/basiccoin", version == "v0.0.0") {
			want = append(want, "cancel")
		}
		l := heard(tb)
		ok(len(l) == len(want), "the node says too much or too little in a handshake")
		for i := range l {
			ok(l[i] == want[i], "the node says something else in a handshake")
		}
	}
}

// Both ends come to the same conclusion.
// bounds: any two ids of 0..2 bytes
// reach: connected self
func C14_both() {
	a, b := zverif.Str("a", zverif.Int("a length", 0, 2)), zverif.Str("b", zverif.Int("b length", 0, 2))
	l := connect(a, b)
	ok(zverif.Iff(l.a.HasErr(), a == b), "a connects exactly to another node")
	ok(zverif.Iff(l.b.HasErr(), a == b), "b connects exactly to another node")
	if a == b {
		zverif.Reach("self")
		return
	}
	zverif.Reach("connected")
	ok(l.a.PeerRuntimeId() == b && l.b.PeerRuntimeId() == a, "the ends do not know each other's id")
	v := zverif.U64("value")
	l.a.WriteUint64(v)
	l.b.WriteUint64(v + 1)
	ok(l.b.ReadUint64() == v, "the first value after a handshake is wrong")
	ok(l.a.ReadUint64() == v+1, "the first value after a handshake is wrong")
}

// side: one of two nodes connected to each other, as far as the peer sees it
type side struct {
	id, other string
	bus       *bus.Bus
	inv       *inv.Inv
	addr      *topic.SubCh[bus.PeerAnnouncedAddrEvent]
	got       *topic.SubCh[bus.PeersReceivedEvent]
	asked     *topic.SubCh[bus.PeersRequestedEvent]
	tx        *topic.SubCh[bus.CandidateTxEvent]
	head      *topic.SubCh[bus.CandidateHeadEvent]
	closing   *topic.SubCh[bus.PeerClosingEvent]
	x         core.Tx
	says      string
}

func newSide(id, other string, x core.Tx) *side {
	b := bus.NewBus()
	s := &side{id: id, other: other, bus: b, inv: inv.NewInv(testParams(), nil), x: x, says: zverif.Str("addr of "+id, 3),
		addr: b.PeerAnnouncedAddr.SubCh(), got: b.PeersReceived.SubCh(), asked: b.PeersRequested.SubCh(),
		tx: b.CandidateTx.SubCh(), head: b.CandidateHead.SubCh(), closing: b.PeerClosing.SubCh()}
	setup(s.inv.StoreTx(x))
	return s
}

// issue gives the peer one thing to tell the other end
func (s *side) issue(cmd int) {
	switch cmd {
	case 0:
		s.bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: s.other, Addr: s.says})
	case 1:
		s.bus.SendPeers.Pub(bus.SendPeersEvent{TargetRuntimeId: s.other, PeerAddrs: map[string]string{"p1": "known by " + s.id, "p2": "x"}})
	case 2:
		s.bus.ShouldRequestPeers.Pub(bus.ShouldRequestPeersEvent{TargetRuntimeId: s.other})
	case 3:
		s.bus.ValidatedTx.Pub(bus.ValidatedTxEvent{TxId: s.x.Hash()})
	case 4:
		s.bus.ValidatedHead.Pub(bus.ValidatedHeadEvent{})
	case 5: // not for this peer
		s.bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: "someone", Addr: "wrong"})
	}
}

// drain counts what the channel holds
func drain[T any](c chan T, f func(T)) int {
	for n := 0; ; n++ {
		select {
		case e := <-c:
			f(e)
			zverif.Settle()
		default:
			return n
		}
	}
}

// check: exactly the commands issued by the other end arrived here, with their content
func (s *side) check(from *side, cmds []int) {
	var want [6]int
	for _, c := range cmds {
		want[c]++
	}
	ok(drain(s.addr.C, func(e bus.PeerAnnouncedAddrEvent) {
		ok(e.PeerRuntimeId == from.id && e.Addr == from.says, "an announced address is garbled")
	}) == want[0], "an address announcement is lost or repeated")
	ok(drain(s.got.C, func(e bus.PeersReceivedEvent) {
		ok(len(e.PeerAddrs) == 2 && e.PeerAddrs["p1"] == "known by "+from.id && e.PeerAddrs["p2"] == "x", "an address list is garbled")
	}) == want[1], "an address list is lost or repeated")
	ok(drain(s.asked.C, func(e bus.PeersRequestedEvent) {
		ok(e.PeerRuntimeId == from.id, "a request is attributed to another peer")
	}) == want[2], "a request for addresses is lost or repeated")
	ok(drain(s.tx.C, func(e bus.CandidateTxEvent) {
		ok(txEq(e.Tx, from.x), "a transaction is garbled")
	}) == want[3], "a transaction is lost or repeated")
	ok(drain(s.head.C, func(bus.CandidateHeadEvent) {}) == 0, "a head appears from nowhere")
	ok(drain(s.closing.C, func(bus.PeerClosingEvent) {}) == 0, "a peer is closed")
}

// Commands issued at the same moment are all carried out exactly once on either side, and the connection stays usable.
// bounds: up to two commands of six kinds on one side and one (thorough: two) on the other, 0 to 120 ms apart (a loop turn takes 100 ms)
// reach: crossed
// cfg: paths=20000 budget=600 alloc=262144
func C14_crossing() {
	x, y := coinbase(1, 1000, tag(1)), coinbase(1, 1000, tag(2))
	a, b := newSide("node-a", "node-b", x), newSide("node-b", "node-a", y)
	l := newLink()
	go peer.NewPeer(a.bus, a.inv, l.a, core.HashT{}).Loop()
	go peer.NewPeer(b.bus, b.inv, l.b, core.HashT{}).Loop()
	zverif.Settle()
	var ca, cb []int
	n := 6
	for i, k := 0, zverif.Int("commands of a", 1, 2); i < k; i++ {
		c := zverif.Choice("a"+sprint(i), n)
		ca = append(ca, c)
		a.issue(c)
	}
	time.Sleep(time.Duration(zverif.Choice("wait", 7)) * 20 * time.Millisecond)
	for i, k := 0, zverif.Int("commands of b", 1, zverif.Tier(1, 2)); i < k; i++ {
		c := zverif.Choice("b"+sprint(i), n)
		cb = append(cb, c)
		b.issue(c)
	}
	for i := 0; i < 8; i++ {
		zverif.Settle()
	}
	a.check(b, cb)
	b.check(a, ca)
	// still usable
	a.issue(0)
	b.issue(0)
	for i := 0; i < 4; i++ {
		zverif.Settle()
	}
	a.check(b, []int{0})
	b.check(a, []int{0})
	zverif.Reach("crossed")
}
