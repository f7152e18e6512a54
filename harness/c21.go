package zharness

import (
	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/miner"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// offers: a node that supports miners, on a chain that pays key 0 four times, and transactions with any fees:
// A spends the first coinbase, B the first and third, C the second, D the fourth and second, E spends A's output.
type offers struct {
	*forks
	all  []core.Tx
	t3   *blk
	head *blk
}

func newOffers(limit func(a, c, d core.Tx) uint64) *offers {
	p := testParams()
	p.DifficultyPeriod = 100
	f := &forks{p: p, k0: keyN(0), k1: keyN(1)}
	f.t1 = next(p, nil, f.k0.pkh)
	f.t2 = next(p, f.t1, f.k0.pkh)
	t3 := next(p, f.t2, f.k0.pkh)
	o := &offers{forks: f, t3: t3, head: next(p, t3, f.k0.pkh)}
	v := func(name string, under uint64) uint64 {
		x := zverif.U64(name)
		zverif.Assume(x < under)
		return x
	}
	av := v("A0", 1000)
	a := pay(f.k0, utxoOf(f.t1.txs[0], 0), out(av, f.k1.pkh))
	b := payN(f.k0, 0, []core.Utxo{utxoOf(f.t1.txs[0], 0), utxoOf(t3.txs[0], 0)}, out(v("B0", 2000), f.k1.pkh))
	c := payN(f.k0, zverif.U64("minblock"), []core.Utxo{utxoOf(f.t2.txs[0], 0)}, out(v("C0", 1000), f.k0.pkh))
	d := payN(f.k0, 0, []core.Utxo{utxoOf(o.head.txs[0], 0), utxoOf(f.t2.txs[0], 0)}, out(v("D0", 2000), f.k0.pkh))
	e := pay(f.k1, utxoOf(a, 0), out(v("E0", av), f.k0.pkh))
	o.all = []core.Tx{a, b, c, d, e}
	f.p.MaxBlockVSize = limit(a, c, d)
	f.pkhs = []core.HashT{f.k0.pkh, f.k1.pkh, tag(1), tag(2), tag(3)}
	f.n = newNode(f.p, true, nil)
	return o
}

func (o *offers) begin() {
	o.give(o.head.id, o.t1, o.t2, o.t3, o.head)
	h, any := o.n.lastHead()
	ok(any && h == o.head.id, "a valid first chain is not adopted")
}

func fee(t core.Tx) uint64 { return t.InputsValue() - t.OutputsValue() }

// atLeast: rate(a) >= rate(b)
func atLeast(a, b core.Tx) bool { return fee(a)*b.VSize() >= fee(b)*a.VSize() }

func conflict(a, b core.Tx) bool {
	for _, i := range a.Inputs {
		for _, j := range b.Inputs {
			if i.Utxo == j.Utxo {
				return true
			}
		}
	}
	return false
}

// spendable: all inputs are unspent in the chain ending in head
func spendable(head *blk, t core.Tx) bool {
	l := ledger(head)
	for _, i := range t.Inputs {
		found := false
		for _, c := range l {
			found = found || c.u == i.Utxo
		}
		if !found {
			return false
		}
	}
	return true
}

// judge one offer against the pending transactions
func (o *offers) judge(e bus.MinerTargetEvent, head *blk) (n int) {
	ok(e.Head == head.id, "miners are pointed at another head")
	ok(e.Target == head.b.Target, "miners are given another target than the next block's")
	pend := o.pending(head)
	var in []core.Tx
	size := core.CoinbaseVSize()
	for k, id := range e.TxIds {
		found := false
		for _, t := range pend {
			if t.Hash() == id && !found {
				found = true
				ok(!t.IsCoinbase, "a displaced coinbase is offered to miners")
				ok(spendable(head, t), "an offered transaction is not spendable at the head")
				ok(t.MinBlock <= head.height+1, "an offered transaction is below its minimum block")
				for _, p := range in {
					ok(p.Hash() != id, "a transaction is offered twice")
					ok(!conflict(p, t), "two offered transactions spend the same output")
				}
				if k > 0 {
					ok(atLeast(in[k-1], t), "the offer is not ordered by fee rate")
				}
				in = append(in, t)
				size += t.VSize()
			}
		}
		ok(found, "an offered transaction is not pending")
	}
	ok(size <= o.p.MaxBlockVSize, "the offer does not fit the block size")
	for _, t := range pend {
		if t.IsCoinbase || !spendable(head, t) || offered(e, t.Hash()) {
			continue
		}
		// left out: too early, in conflict with one that pays as much, or no room after those that pay as much
		why := t.MinBlock > head.height+1
		size := core.CoinbaseVSize() + t.VSize()
		for _, p := range in {
			better := atLeast(p, t)
			if conflict(p, t) {
				why = zverif.Or(why, better)
			}
			size += zverif.IteU64(better, p.VSize(), 0)
		}
		why = zverif.Or(why, size > o.p.MaxBlockVSize)
		ok(why, "a better paying transaction is left out of the offer")
	}
	return len(in)
}

// Miners are always offered the pending transactions that pay best, as far as they can be in one valid block.
// bounds: four of five transactions (any fees below 1000 at two sizes; two pairs in conflict, one spending another's output, one with any minimum block) pending in any combination; three block size limits; the offer is judged after each arrival, after a block that includes some and (thorough) after that block is replaced by a branch
// assumes: ideal hash and signature
// reach: none one two
// cfg: paths=60000 budget=450
// cfg-thorough: paths=400000 budget=800
func C21_offer() {
	lim := zverif.Choice("limit", 3)
	o := newOffers(func(a, c, d core.Tx) uint64 {
		switch lim {
		case 0:
			return 4000
		case 1:
			return core.CoinbaseVSize() + a.VSize() + c.VSize()
		}
		return core.CoinbaseVSize() + d.VSize() // one large or one small with no room for another
	})
	targets := o.n.bus.MinerTarget.SubCh()
	o.begin()
	judge := func(must bool) {
		e, any := lastTarget(targets)
		ok(any || !must, "miners are not given a new target")
		if any {
			switch o.judge(e, o.head) {
			case 0:
				zverif.Reach("none")
			case 1:
				zverif.Reach("one")
			case 2:
				zverif.Reach("two")
			}
		}
	}
	judge(true)
	skip := zverif.Choice("without", 4) // A, B, C or D is not there
	if skip == 0 {
		o.all = o.all[:4] // E needs A
	}
	for i, t := range o.all {
		if i != skip {
			setup(o.n.offerTx(t))
			o.note(t)
		}
	}
	judge(true)
	if skip == 0 || !zverif.Bool("block") {
		return
	}
	// a block that includes A
	trunk := o.head
	o.head = next(o.p, trunk, tag(1), o.all[0])
	o.give(o.head.id, o.head)
	h, any := o.n.lastHead()
	ok(any && h == o.head.id, "a valid block is not adopted")
	judge(true)
	if !zverif.Thorough() || !zverif.Bool("replaced") {
		return
	}
	b1 := next(o.p, trunk, tag(2))
	b2 := next(o.p, b1, tag(2))
	o.head = b2
	o.give(b2.id, b1, b2)
	h, any = o.n.lastHead()
	ok(any && h == b2.id, "a heavier branch is not adopted")
	judge(true)
	zverif.Reach("displaced")
}

// After a reorganisation the displaced transactions and those that were pending compete for a place by what they pay.
// bounds: one transaction displaced by a heavier branch, two pending; any fees below 1000; room for all or for two; the branch includes one of the pending or none
// assumes: ideal hash and signature
// reach: two three
// cfg: paths=20000 budget=300
func C21_displaced() {
	tight := zverif.Bool("tight")
	o := newOffers(func(a, c, d core.Tx) uint64 {
		if tight {
			return core.CoinbaseVSize() + a.VSize() + c.VSize()
		}
		return 4000
	})
	targets := o.n.bus.MinerTarget.SubCh()
	o.begin()
	a, c := o.all[0], o.all[2]
	fv := zverif.U64("F0")
	zverif.Assume(fv < 1000)
	f := pay(o.k0, utxoOf(o.t3.txs[0], 0), out(fv, o.k1.pkh))
	zverif.Assume(c.MinBlock <= o.head.height+2)
	trunk := o.head
	in := next(o.p, trunk, tag(1), a)
	o.give(in.id, in)
	h, any := o.n.lastHead()
	ok(any && h == in.id, "a valid block is not adopted")
	for _, t := range []core.Tx{c, f} {
		setup(o.n.offerTx(t))
		o.note(t)
	}
	var with []core.Tx
	if zverif.Bool("other") {
		with = append(with, f)
	}
	b1 := next(o.p, trunk, tag(2), with...)
	o.head = next(o.p, b1, tag(2))
	o.give(o.head.id, b1, o.head)
	h, any = o.n.lastHead()
	ok(any && h == o.head.id, "a heavier branch is not adopted")
	e, any := lastTarget(targets)
	ok(any, "miners are not given a new target")
	zverif.Reach([]string{"none", "one", "two", "three"}[o.judge(e, o.head)])
}

// leafIds: leaves of a tree given by its nodes, a doubled last one counted once
func leafIds(ms []core.MerkleNode, id core.HashT) []core.HashT {
	for _, m := range ms {
		if m.Hash() == id {
			l := leafIds(ms, m.LChild)
			if m.RChild != m.LChild {
				l = append(l, leafIds(ms, m.RChild)...)
			}
			return l
		}
	}
	return []core.HashT{id}
}

// A block mined from an offer carries a coinbase of reward plus fees and then the offered transactions, on the offered head and target, and the node that made the offer accepts it, for any number of miners sharing the offer.
// bounds: one or two miners; offers of zero to three transactions with any fees below 1000; each miner tries two or three nonces; the clock anywhere in the two hours after the head
// assumes: ideal hash and signature; a miner's noise is any 256-bit value
// reach: mined both none
// cfg: paths=20000 budget=300 freeze=Block).Hash,mine,3 native=no
func C21_miner() {
	o := newOffers(func(a, c, d core.Tx) uint64 { return 4000 })
	targets := o.n.bus.MinerTarget.SubCh()
	o.begin()
	for _, k := range [][]int{{}, {0, 2}, {3}, {0, 1, 2, 3}}[zverif.Choice("pending", 4)] {
		if k == 2 {
			zverif.Assume(o.all[k].MinBlock <= 4)
		}
		setup(o.n.offerTx(o.all[k]))
		o.note(o.all[k])
	}
	zverif.Settle()
	e, any := lastTarget(targets)
	ok(any, "miners are not given a target")
	now := zverif.U64("clock")
	zverif.Assume(now > o.head.b.MinedTime && now < o.head.b.MinedTime+7200)
	zverif.SetNow(now)
	heads := o.n.bus.CandidateHead.SubCh()
	n := zverif.Int("miners", 1, 2)
	pay := []core.HashT{tag(1), tag(2)}
	for i := 0; i < n; i++ {
		go miner.NewMiner(miner.NewParams(pay[i]), o.n.bus, o.n.inv).Loop()
	}
	zverif.Settle()
	o.n.bus.MinerTarget.Pub(e)
	zverif.Settle()
	var first *blk
	for {
		var ev bus.CandidateHeadEvent
		select {
		case ev = <-heads.C:
		default:
			ev.Head = core.HashT{}
		}
		if ev.Head.EqZero() {
			break
		}
		ok(len(ev.Blocks) == 1 && len(ev.Txs) >= 1, "a mined candidate is incomplete")
		b, cb := ev.Blocks[0], ev.Txs[0]
		ok(b.Hash() == ev.Head, "the mined candidate's head is not its block")
		ok(zverif.HashLess(ev.Head.Data(), e.Target.Data()), "a block that does not meet its target is published")
		ok(b.PrevBlockId == e.Head && b.Target == e.Target, "the mined block is not on the offered head and target")
		fees := uint64(0)
		var txs []core.Tx
		for _, id := range e.TxIds {
			t := o.n.inv.GetTx(id)
			txs = append(txs, t)
			fees += fee(t)
		}
		ok(cb.IsCoinbase && cb.MinBlock == o.head.height+1 && len(cb.Inputs) == 0, "the mined block's coinbase is malformed")
		ok(len(cb.Outputs) == 1 && cb.Outputs[0].Value == o.p.BlockReward+fees, "the coinbase is not worth reward plus fees")
		ok(cb.Outputs[0].PublicKeyHash == pay[0] || n == 2 && cb.Outputs[0].PublicKeyHash == pay[1], "the coinbase pays another address than the miner's")
		ids := leafIds(ev.Merkles, b.MerkleRoot)
		ok(len(ids) == len(e.TxIds)+1 && ids[0] == cb.Hash(), "the mined block does not carry its coinbase and the offered transactions")
		for i, id := range e.TxIds {
			ok(ids[i+1] == id, "the mined block does not carry the offered transactions in order")
		}
		if first == nil {
			first = &blk{b: b, id: ev.Head, txs: append([]core.Tx{cb}, txs...), prev: o.head, height: o.head.height + 1}
		} else if cb.Outputs[0].PublicKeyHash != first.txs[0].Outputs[0].PublicKeyHash {
			zverif.Reach("both")
		}
		o.note(cb)
		zverif.Settle()
	}
	h, any := o.n.lastHead()
	if first == nil {
		ok(!any, "the head changes without a mined block")
		zverif.Reach("none")
		return
	}
	ok(any && h == first.id, "the node does not adopt the block mined from its offer")
	o.check(first, "after mining")
	zverif.Reach("mined")
}
