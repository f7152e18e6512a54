package zharness

import (
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/internal/zverif"
)

// visitor: a hand-made node that dialled the factory
type visitor struct {
	c    *net.TCPConn
	id   string
	addr string // announced
	in   bool
}

// crowd: a factory and what it should know
type crowd struct {
	bus  *bus.Bus
	addr string
	own  string
	max  int
	vs   []*visitor
}

func newCrowd(max int, own string) *crowd {
	c := &crowd{bus: bus.NewBus(), addr: zverif.FreeAddr(), own: own, max: max}
	c.run(nil)
	return c
}

func (c *crowd) run(seeds []string) {
	pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: c.addr, MinPeers: 1, MaxPeers: c.max,
		RuntimeId: c.own, SeekNewPeersFreq: time.Hour}, c.bus, inv.NewInv(testParams(), nil))
	pf.SetSeeds(seeds)
	go pf.Loop()
	zverif.Settle()
}

func (c *crowd) peers() (n int) {
	for _, v := range c.vs {
		if v.in {
			n++
		}
	}
	return
}

func (c *crowd) has(id string) bool {
	for _, v := range c.vs {
		if v.in && v.id == id {
			return true
		}
	}
	return false
}

// known: addresses of the present peers, by id
func (c *crowd) known() map[string]string {
	r := make(map[string]string)
	for _, v := range c.vs {
		if v.in && v.addr != "" {
			r[v.id] = v.addr
		}
	}
	return r
}

func frames(ss ...string) (b []byte) {
	for _, s := range ss {
		b = append(b, rawFrame([]byte(s))...)
	}
	return
}

// list takes an address list apart and compares it with the known addresses; the rest is returned
func (c *crowd) list(b []byte) []byte {
	want := c.known()
	ok(len(b) >= 8, "an address list is cut short")
	n := uint64(0)
	for _, x := range b[:8] {
		n = n<<8 | uint64(x)
	}
	ok(n == uint64(len(want)), "an address list has the wrong number of entries")
	b = b[8:]
	text := func() string {
		ok(len(b) >= 2, "an address list is cut short")
		k := int(b[0])<<8 | int(b[1])
		ok(len(b) >= 2+k, "an address list is cut short")
		s := string(b[2 : 2+k])
		b = b[2+k:]
		return s
	}
	seen := make(map[string]bool)
	for i := uint64(0); i < n; i++ {
		id := text()
		a, has := want[id]
		ok(has && !seen[id], "an address list names a node that is no peer, or one twice")
		ok(text() == a, "an address list has a wrong address")
		seen[id] = true
	}
	return b
}

// visit dials the factory under an id and checks that it is admitted or refused as it should be
func (c *crowd) visit(id string) *visitor {
	a, err := net.ResolveTCPAddr("tcp", c.addr)
	setup(err)
	t, err := net.DialTCP("tcp", nil, a)
	if err != nil {
		ok(false, "the node does not listen")
	}
	v := &visitor{c: t, id: id}
	send(t, frames("levilutz/basiccoin", "v0.0.0", id, "continue"))
	zverif.Settle()
	c.meet(v)
	return v
}

// meet checks what a new connection is told
func (c *crowd) meet(v *visitor) {
	self := v.id == c.own
	admit := !self && c.peers() < c.max && !c.has(v.id)
	b := received(v.c)
	hello := frames("levilutz/basiccoin", "v0.0.0", c.own)
	if self {
		hello = append(hello, frames("cancel")...)
	} else {
		hello = append(hello, frames("continue")...)
	}
	ok(len(b) >= len(hello) && eqBytes(b[:len(hello)], hello), "a connection is greeted in another way")
	b = b[len(hello):]
	if self {
		ok(len(b) == 0, "a connection to oneself goes on")
		v.c.Close()
		zverif.Reach("self")
		return
	}
	if !admit {
		if len(c.known()) > 0 {
			h := frames("cmd:peer-addrs")
			ok(len(b) >= len(h) && eqBytes(b[:len(h)], h), "a refused node is not offered the known addresses")
			b = c.list(b[len(h):])
		}
		ok(eqBytes(b, frames("cmd:close")), "a refused node is not told to close")
		zverif.Reach("refused")
		v.c.Close()
		return
	}
	v.in = true
	c.vs = append(c.vs, v)
	ok(eqBytes(b, frames("cmd:announce-addr")), "an admitted node is not told our address")
	send(v.c, frames("ack:announce-addr"))
	zverif.Settle()
	ok(eqBytes(received(v.c), frames(c.addr)), "an admitted node is told another address")
	zverif.Reach("admitted")
}

func (c *crowd) announce(v *visitor, addr string) {
	send(v.c, frames("cmd:announce-addr", addr))
	v.addr = addr
}

func (c *crowd) settleAnnounced(v *visitor) {
	zverif.Settle()
	ok(eqBytes(received(v.c), frames("ack:announce-addr")), "an announcement is not acknowledged")
}

func (c *crowd) leave(v *visitor, how int) {
	if how == 0 {
		v.c.Close()
	} else {
		send(v.c, frames("cmd:close"))
	}
	v.in = false
}

// ask: the addresses the factory knows
func (c *crowd) ask(v *visitor) {
	send(v.c, frames("cmd:addrs-request"))
	zverif.Settle()
	ok(eqBytes(received(v.c), frames("ack:addrs-request", "cmd:peer-addrs")), "a request for addresses is not answered")
	send(v.c, frames("ack:peer-addrs"))
	zverif.Settle()
	ok(len(c.list(received(v.c))) == 0, "an address list has something behind it")
}

// Nodes come, announce addresses and go: admission respects the limit, identities and oneself, refusals offer what is known, and those who left are forgotten.
// bounds: limit of 1..2, any own id of one byte, four (thorough five) steps: an arrival under any id of one byte, an announcement, or a departure in one of two ways, later or directly after an announcement, the two taken up in either order
// reach: admitted refused self left
// cfg: paths=40000 sel=3 budget=300
func C27_admission() {
	own := zverif.Str("own", 1)
	c := newCrowd(zverif.Int("max", 1, 2), own)
	for i, n := 0, zverif.Tier(4, 5); i < n; i++ {
		var here []*visitor
		for _, v := range c.vs {
			if v.in {
				here = append(here, v)
			}
		}
		acts := 1
		if len(here) > 0 {
			acts = 4
		}
		switch zverif.Choice("act", acts) {
		case 0:
			c.visit(zverif.Str("id"+sprint(i), 1))
		case 1:
			v := here[zverif.Choice("who", len(here))]
			c.announce(v, "addr"+sprint(i))
			c.settleAnnounced(v)
		case 2:
			v := here[zverif.Choice("who", len(here))]
			c.leave(v, zverif.Choice("how", 2))
			zverif.Settle()
			zverif.Reach("left")
		case 3:
			v := here[zverif.Choice("who", len(here))]
			if zverif.Bool("taken up late") {
				// the two events are on different topics, so the factory may see them in this order too
				c.leave(v, 0)
				zverif.Settle()
				c.bus.PeerAnnouncedAddr.Pub(bus.PeerAnnouncedAddrEvent{PeerRuntimeId: v.id, Addr: "addr" + sprint(i)})
			} else {
				c.announce(v, "addr"+sprint(i))
				c.leave(v, 0)
			}
			zverif.Settle()
		}
	}
	for _, v := range c.vs {
		if v.in {
			c.ask(v)
			break
		}
	}
	if c.peers() == 0 {
		v := c.visit("x" + own)
		c.ask(v)
	}
}

// host: an address where the harness accepts connections under an id
type host struct {
	addr  string
	conns []*net.TCPConn
}

func newHost() *host {
	h := &host{addr: zverif.FreeAddr()}
	a, err := net.ResolveTCPAddr("tcp", h.addr)
	setup(err)
	l, err := net.ListenTCP("tcp", a)
	setup(err)
	go func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			h.conns = append(h.conns, c)
		}
	}()
	return h
}

// The node dials its seeds and the nodes it is told of, but neither itself nor a node it is connected to, and admits what it dialled under the same rules.
// bounds: limit of 1..2; any own id and ids of one byte; a seed, then a list from it of one or two entries under any ids that differ
// reach: dialled spared full
// cfg: paths=40000 maporder=1 budget=300
func C27_outbound() {
	own := zverif.Str("own", 1)
	seed, x, y := newHost(), newHost(), newHost()
	c := &crowd{bus: bus.NewBus(), addr: zverif.FreeAddr(), own: own, max: zverif.Int("max", 1, 2)}
	c.run([]string{seed.addr})
	ok(len(seed.conns) == 1, "a seed is not dialled once")
	first := zverif.Str("first", 1)
	zverif.Assume(first != own)
	greetDialled := func(h *host, id string) *visitor {
		v := &visitor{c: h.conns[len(h.conns)-1], id: id}
		send(v.c, frames("levilutz/basiccoin", "v0.0.0", id, "continue"))
		zverif.Settle()
		return v
	}
	// a peer that was dialled is asked to compare chains first
	sync := func(v *visitor) {
		b := received(v.c)
		hello := frames("levilutz/basiccoin", "v0.0.0", own, "continue", "cmd:sync-chain")
		ok(eqBytes(b, hello), "a dialled node is greeted in another way")
		send(v.c, frames("ack:sync-chain"), make([]byte, 64), frames("cancel"))
		zverif.Settle()
		b = received(v.c)
		tail := append(make([]byte, 64), frames("cancel", "cmd:announce-addr")...)
		ok(eqBytes(b, tail), "a dialled node is not synchronised with and told our address")
		send(v.c, frames("ack:announce-addr"))
		zverif.Settle()
		ok(eqBytes(received(v.c), frames(c.addr)), "a dialled node is told another address")
		v.in = true
		c.vs = append(c.vs, v)
	}
	v := greetDialled(seed, first)
	sync(v)
	// the seed is dialled once more and then refused, as the node is known
	if len(seed.conns) == 2 {
		w := greetDialled(seed, first)
		ok(eqBytes(received(w.c), frames("levilutz/basiccoin", "v0.0.0", own, "continue", "cmd:close")), "a second connection to one node is kept")
	}
	idx, idy := zverif.Str("idx", 1), zverif.Str("idy", 1)
	zverif.Assume(idx != idy)
	two := zverif.Bool("two")
	n := byte(1)
	if two {
		n = 2
	}
	msg := append(frames("cmd:peer-addrs"), 0, 0, 0, 0, 0, 0, 0, n)
	msg = append(msg, frames(idx, x.addr)...)
	if two {
		msg = append(msg, frames(idy, y.addr)...)
	}
	send(v.c, msg)
	zverif.Settle()
	ok(eqBytes(received(v.c), frames("ack:peer-addrs")), "an address list is not acknowledged")
	hosts, ids := []*host{x, y}, []string{idx, idy}
	want, met := []bool{true, two}, make([]bool, 2)
	for i, id := range ids {
		if zverif.Or(id == own, id == first) {
			want[i] = false
			zverif.Reach("spared")
		}
	}
	for round := 0; round < 2; round++ { // one after the other, in any order
		for i, h := range hosts {
			if met[i] || len(h.conns) == 0 {
				continue
			}
			ok(want[i], "a node is dialled that is known, is ourselves or was not named")
			zverif.Reach("dialled")
			met[i] = true
			w := greetDialled(h, ids[i])
			if c.peers() < c.max {
				sync(w)
			} else {
				ok(eqBytes(received(w.c), frames("levilutz/basiccoin", "v0.0.0", own, "continue", "cmd:close")), "a node is kept beyond the limit")
				zverif.Reach("full")
			}
		}
	}
	for i, h := range hosts {
		ok(met[i] == want[i], "a node that a peer named is not dialled")
		ok(len(h.conns) <= 1, "a node is dialled twice")
	}
}
