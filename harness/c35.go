package zharness

import (
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// member: a whole node (chain, inventory, peer factory) of a network, and what it should have
type member struct {
	forks
	pf     *peerfactory.PeerFactory
	addr   string
	head   *blk
	joined bool
}

type network struct {
	ms []*member
}

func settleNet() {
	for i := 0; i < 3; i++ {
		zverif.Settle()
	}
}

func newNetwork(f *forks, n int) *network {
	w := &network{}
	for i := 0; i < n; i++ {
		m := &member{forks: *f, addr: zverif.FreeAddr()}
		if i > 0 {
			m.n = newNode(f.p, false, nil)
		}
		m.known = nil
		m.pf = peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: m.addr, MinPeers: 1, MaxPeers: 4,
			RuntimeId: "node-" + sprint(i), SeekNewPeersFreq: time.Hour}, m.n.bus, m.n.inv)
		w.ms = append(w.ms, m)
	}
	return w
}

// join starts a member's networking; it knows one other member's address
func (w *network) join(i, seed int) {
	m := w.ms[i]
	if seed != i {
		m.pf.SetSeeds([]string{w.ms[seed].addr})
	}
	go m.pf.Loop()
	m.joined = true
	settleNet()
	w.spread()
}

// spread: the heaviest chain of the joined members is everybody's
func (w *network) spread() {
	var best *blk
	for _, m := range w.ms {
		if m.joined && m.head != nil && (best == nil || m.head.height > best.height) {
			best = m.head
		}
	}
	for _, m := range w.ms {
		if m.joined && best != nil && (m.head == nil || m.head.height < best.height) {
			m.head = best
			for _, b := range best.path() {
				m.note(b.txs...)
			}
		}
	}
}

// find: a member finds a block on its head
func (w *network) find(i int, txs []core.Tx) {
	m := w.ms[i]
	b := next(m.p, m.head, tag(byte(i+1)), txs...)
	zverif.Assume(applicable(b))
	m.give(b.id, b)
	m.head = b
	settleNet()
	if m.joined {
		w.spread()
	}
}

// submit: a transaction is given to a joined member
func (w *network) submit(i int, t core.Tx) {
	m := w.ms[i]
	known := m.has(t)
	ok(m.n.offerTx(t) == nil, "an admissible transaction is refused")
	settleNet()
	if known {
		return
	}
	for _, o := range w.ms {
		// pending transactions from before a node joined are not sent to it, so neither can it take what spends them
		if o.joined && (t.Hash() != o.y.Hash() || o.has(o.x)) {
			o.note(t)
		}
	}
}

func (m *member) has(t core.Tx) bool {
	for _, k := range m.known {
		if k.Hash() == t.Hash() {
			return true
		}
	}
	return false
}

func (w *network) heads() {
	for i, m := range w.ms {
		if m.joined {
			ok(m.n.height() == m.head.height, "node "+sprint(i)+" is not on the heaviest chain")
		}
	}
}

func (w *network) check() {
	w.heads()
	for i, m := range w.ms {
		if m.joined {
			m.forks.check(m.head, "node "+sprint(i)+" of a network")
		}
	}
}

// Blocks and transactions given to any node of a network reach all the others, also over a node in between; a node that joins later takes over the chain; all ledgers agree.
// bounds: three whole nodes, the second joined to the first, the third joining either of them first, or the second between or after the other steps, fresh or (after them) with a branch of its own; 2 steps (3 thorough): a transaction (four, one spending another, two in conflict) submitted to any joined node or a block with one of four contents found by any of them; every amount
// assumes: ideal hash and signature
// reach: relayed late
// cfg: paths=20000 budget=400 alloc=262144
func C35_spread() {
	f := newForks(testParams(), false, nil)
	w := newNetwork(f, 3)
	a := w.ms[0]
	a.start()
	a.known = nil
	a.note(a.t1.txs...)
	a.note(a.t2.txs...)
	a.head = a.t2
	w.join(0, 0)
	w.join(1, 0)
	c := w.ms[2]
	steps := zverif.Tier(2, 3)
	at := zverif.Int("third joins", 0, steps)
	seed := 1
	if at == 0 {
		seed = zverif.Choice("third's seed", 2)
	}
	own := at == steps && zverif.Bool("own chain")
	if own {
		c.give(c.t1.id, c.t1)
		c.head = c.t1
		w.find(2, nil)
	}
	for s := 0; ; s++ {
		if s == at {
			w.join(2, seed)
			if s > 0 {
				zverif.Reach("late")
			}
		}
		if s == steps {
			break
		}
		nodes := 2
		if c.joined {
			nodes = 3
		}
		i := zverif.Choice("node", nodes)
		if zverif.Bool("block") {
			w.find(i, w.ms[i].menu(zverif.Choice("content", 4)))
		} else {
			t := []core.Tx{f.x, f.y, f.z, f.w}[zverif.Choice("tx", 4)]
			zverif.Assume(t.Hash() != f.y.Hash() || w.ms[i].has(f.x))
			w.submit(i, t)
		}
		w.heads()
	}
	w.check()
	zverif.Reach("relayed")
}

// Two nodes act at the same moment, then one of them finds a block: both end on its chain, with every transaction either node was given.
// bounds: two connected whole nodes, each at once given one of two transactions (three thorough) or finding a block with one of three contents, or nothing; then a block with one of two (four) contents on either one's head; every amount; either order of the two acts
// assumes: ideal hash and signature
// reach: tie ahead
// cfg: paths=20000 budget=300
func C35_meanwhile() {
	f := newForks(testParams(), false, nil)
	w := newNetwork(f, 2)
	a, b := w.ms[0], w.ms[1]
	a.start()
	a.known = nil
	a.note(a.t1.txs...)
	a.note(a.t2.txs...)
	a.head = a.t2
	w.join(0, 0)
	w.join(1, 0)
	order := []*member{a, b}
	if zverif.Bool("other first") {
		order[0], order[1] = b, a
	}
	var given []core.Tx
	var blocks []*blk
	for i, m := range order {
		switch what := zverif.Choice("act", zverif.Tier(6, 7)); {
		case what < 3:
			nb := next(m.p, m.head, tag(byte(i+1)), m.menu([]int{0, 1, 3}[what])...)
			m.note(nb.txs...)
			e := bus.CandidateHeadEvent{Head: nb.id, Blocks: []core.Block{nb.b}, Merkles: nb.ms, Txs: nb.txs}
			m.n.bus.CandidateHead.Pub(e)
			m.head = nb
			blocks = append(blocks, nb)
		case what != 5:
			t := []core.Tx{f.x, f.w, {}, f.z}[what-3]
			m.n.bus.CandidateTx.Pub(bus.CandidateTxEvent{Tx: t})
			given = append(given, t)
		}
		if i == 0 && zverif.Bool("pause") {
			zverif.Quiesce()
		}
	}
	settleNet()
	settleNet()
	a.note(given...)
	b.note(given...)
	w.spread()
	w.check()
	if len(blocks) == 2 {
		zverif.Reach("tie")
	} else {
		zverif.Reach("ahead")
	}
	last := zverif.Choice("last", 2)
	w.find(last, w.ms[last].menu(zverif.Choice("content", zverif.Tier(2, 4))))
	ok(a.head == b.head, "setup: the last block is not ahead")
	w.check()
}
