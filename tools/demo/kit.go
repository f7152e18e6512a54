// Helpers for the demonstrations: keys, transactions, blocks and an in-process node.
package main

import (
	"crypto/ecdsa"
	"encoding/hex"
	"fmt"
	"os"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

func check(ok bool, msg string) {
	if !ok {
		fmt.Println("BROKEN:", msg)
		os.Exit(1)
	}
}

func setup(err error) {
	if err != nil {
		fmt.Println("setup:", err)
		os.Exit(1)
	}
}

func mustHex(s string) []byte {
	b, err := hex.DecodeString(s)
	setup(err)
	return b
}

// within fails the demonstration when f does not return in time
func within(d time.Duration, msg string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		check(false, msg)
	}
}

func testParams() core.Params {
	easy := core.NewHashTFromStringAssert("0fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
	return core.Params{BlockReward: 1000, DifficultyPeriod: 4, BlockTargetTime: 10,
		MaxBlockVSize: 4000, MaxTxVSize: 2000, MaxTarget: easy, OriginalTarget: easy}
}

var keyHex = []string{
	"30770201010420871030169aba51dde5eab59917d30a4b0d2869222ff143611fdd12ba58980622a00a06082a8648ce3d030107a144034200045d9f8cd91b6626c0b2dd31b203c683dcfb2cb091bb82e5c17857224a1e7de3892a4fc09591d76334aca7ed70c168fafb0555777f1c9388a9284bab17ef06290d",
	"3077020101042079526cb0d4357a51a22d17418a8460a07f0111e743a8c87f00d157dc3f06ac4ba00a06082a8648ce3d030107a1440342000470b76597908699f7873f9ead3b745e1e86e2996b373dd6e3a8b05e2a5374deeb39aa48c64df51eab714161577479873b5165d1c9e63338e85c97b57f58764553",
	"3077020101042091368d7fcf47b74bcf51be9d66885c269bf0c4e88ddfa991c6fc6a1631501778a00a06082a8648ce3d030107a1440342000497c2edb7b7970795cb471e0f09fd207fa574ea3b613c4df2f744b5596994e74b75edcdf6caa79f0a725ede87f9c2b967f411396dbfd6847d2d4f85c2c6c080d0",
	"307702010104207f01edbb1cd3f9719dd4baa7f53577ed3f6de56a5516ed49d1baeb9d44877f1da00a06082a8648ce3d030107a14403420004f08d06943c1ce35b9ba112548f8ed47dc161234c20589e62d7fcfbfa9fa7b74ec8f45532a0e19dc2dc91abfff390bd026d4c3521dd0eb1add0b6c946cbb95d90",
}

type key struct {
	priv *ecdsa.PrivateKey
	pub  []byte
	pkh  core.HashT
}

func keyN(i int) key {
	k, err := core.ParseECDSAPrivate(mustHex(keyHex[i]))
	setup(err)
	pub, err := core.MarshalEcdsaPublic(k)
	setup(err)
	return key{k, pub, core.DHashBytes(pub)}
}

// ---------- transactions

func out(v uint64, pkh core.HashT) core.TxOut { return core.TxOut{Value: v, PublicKeyHash: pkh} }

// utxo of an output
func utxoOf(tx core.Tx, i int) core.Utxo {
	return core.Utxo{TxId: tx.Hash(), Ind: uint64(i), Value: tx.Outputs[i].Value}
}

func coinbase(height, value uint64, pkh core.HashT) core.Tx {
	return core.Tx{IsCoinbase: true, MinBlock: height, Inputs: []core.TxIn{}, Outputs: []core.TxOut{out(value, pkh)}}
}

func sign(k key, minBlock uint64, outs []core.TxOut) []byte {
	s, err := core.EcdsaSign(k.priv, core.TxHashPreSig(minBlock, outs))
	setup(err)
	return s
}

// payN spends ins (all owned by k) to outs
func payN(k key, minBlock uint64, ins []core.Utxo, outs ...core.TxOut) core.Tx {
	tx := core.Tx{MinBlock: minBlock, Inputs: []core.TxIn{}, Outputs: append([]core.TxOut{}, outs...)}
	s := sign(k, minBlock, tx.Outputs)
	for _, u := range ins {
		tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: u, PublicKey: append([]byte{}, k.pub...), Signature: append([]byte{}, s...)})
	}
	return tx
}

func pay(k key, in core.Utxo, outs ...core.TxOut) core.Tx {
	return payN(k, 0, []core.Utxo{in}, outs...)
}

// ---------- blocks

const baseTime = 1_700_000_000

type blk struct {
	b      core.Block
	id     core.HashT
	txs    []core.Tx // coinbase first
	ms     []core.MerkleNode
	prev   *blk
	height uint64
}

func (b *blk) path() []*blk { // origin block first
	if b == nil {
		return nil
	}
	return append(b.prev.path(), b)
}

func (b *blk) has(id core.HashT) bool {
	for p := b; p != nil; p = p.prev {
		for _, t := range p.txs {
			if t.Hash() == id {
				return true
			}
		}
	}
	return false
}

// tree over the ids, pairing neighbours, an odd last one with itself
func tree(ids []core.HashT) ([]core.MerkleNode, core.HashT) {
	var ms []core.MerkleNode
	for first := true; first || len(ids) > 1; first = false {
		var up []core.HashT
		for i := 0; i < len(ids); i += 2 {
			r := ids[i]
			if i+1 < len(ids) {
				r = ids[i+1]
			}
			n := core.MerkleNode{LChild: ids[i], RChild: r}
			ms = append(ms, n)
			up = append(up, n.Hash())
		}
		ids = up
	}
	return ms, ids[0]
}

func feesOf(txs []core.Tx) uint64 {
	f := uint64(0)
	for _, t := range txs {
		for _, i := range t.Inputs {
			f += i.Utxo.Value
		}
		for _, o := range t.Outputs {
			f -= o.Value
		}
	}
	return f
}

func mine(b core.Block) core.Block {
	for ; !b.Hash().Lt(b.Target); b.Nonce++ {
	}
	return b
}

// rawBlock builds and mines a block from exactly the given transactions
func rawBlock(prev *blk, target core.HashT, minedTime uint64, txs []core.Tx) *blk {
	ids := make([]core.HashT, len(txs))
	for i, t := range txs {
		ids[i] = t.Hash()
	}
	ms, root := tree(ids)
	r := &blk{txs: txs, ms: ms, prev: prev, height: 1}
	b := core.Block{MerkleRoot: root, Target: target, MinedTime: minedTime}
	if prev != nil {
		b.PrevBlockId = prev.id
		r.height = prev.height + 1
	}
	r.b = mine(b)
	r.id = r.b.Hash()
	return r
}

var start = uint64(time.Now().Unix()) - 100000

func timeAt(height uint64) uint64 { return start + 10*height }

// next builds a valid successor carrying txs, paying reward and fees to pkh
func next(p core.Params, prev *blk, pkh core.HashT, txs ...core.Tx) *blk {
	h := uint64(1)
	target := p.OriginalTarget
	if prev != nil {
		h = prev.height + 1
		target = prev.b.Target
	}
	all := append([]core.Tx{coinbase(h, p.BlockReward+feesOf(txs), pkh)}, txs...)
	return rawBlock(prev, target, timeAt(h), all)
}

// chainOf builds n empty blocks on top of prev
func chainOf(p core.Params, prev *blk, n int, pkh core.HashT) *blk {
	for i := 0; i < n; i++ {
		prev = next(p, prev, pkh)
	}
	return prev
}

// store puts the block and all below it into an inventory
func store(v *inv.Inv, b *blk) {
	if b == nil || v.HasBlock(b.id) {
		return
	}
	store(v, b.prev)
	setup(storeTop(v, b))
}

// storeTop puts one block, its tree and transactions into an inventory
func storeTop(v *inv.Inv, b *blk) error {
	for _, t := range b.txs {
		if !v.HasTx(t.Hash()) {
			if err := v.StoreTx(t); err != nil {
				return err
			}
		}
	}
	for _, m := range b.ms {
		if !v.HasMerkle(m.Hash()) {
			if err := v.StoreMerkle(m); err != nil {
				return err
			}
		}
	}
	return v.StoreBlock(b.b)
}

// ---------- node

type node struct {
	p     core.Params
	bus   *bus.Bus
	inv   *inv.Inv
	chain *chain.Chain
	heads *topic.SubCh[bus.ValidatedHeadEvent]
	txs   *topic.SubCh[bus.ValidatedTxEvent]
	mts   *topic.SubCh[bus.MinerTargetEvent]
	last  core.HashT
}

func newNode(p core.Params, miners bool, dir *string) *node {
	n := &node{p: p, bus: bus.NewBus()}
	if dir != nil {
		d := *dir + "/inv"
		n.inv = inv.NewInv(p, &d)
		c := *dir + "/chain"
		dir = &c
	} else {
		n.inv = inv.NewInv(p, nil)
	}
	n.heads = n.bus.ValidatedHead.SubCh()
	n.txs = n.bus.ValidatedTx.SubCh()
	n.mts = n.bus.MinerTarget.SubCh()
	n.chain = chain.NewChain(n.bus, n.inv, miners, dir)
	go n.chain.Loop()
	return n
}

// offer publishes the blocks (oldest first) with everything in them as a candidate and waits
func (n *node) offer(head core.HashT, bs ...*blk) {
	e := bus.CandidateHeadEvent{Head: head}
	for _, b := range bs {
		e.Blocks = append(e.Blocks, b.b)
		e.Merkles = append(e.Merkles, b.ms...)
		e.Txs = append(e.Txs, b.txs...)
	}
	n.bus.CandidateHead.Pub(e)
	time.Sleep(100 * time.Millisecond)
}

func (n *node) adopt(head *blk) {
	n.offer(head.id, head.path()...)
	check(n.head() == head.id, "setup: chain not adopted")
}

// head returns the last announced head
func (n *node) head() (h core.HashT) {
	for {
		select {
		case e := <-n.heads.C:
			n.last = e.Head
		case <-time.After(50 * time.Millisecond):
			return n.last
		}
	}
}

// target returns the last mining target offered
func (n *node) target() (t bus.MinerTargetEvent) {
	for {
		select {
		case t = <-n.mts.C:
		case <-time.After(100 * time.Millisecond):
			return
		}
	}
}

// offerTx submits a transaction and returns the node's answer
func (n *node) offerTx(tx core.Tx) error {
	ret := make(chan error)
	n.bus.CandidateTx.Pub(bus.CandidateTxEvent{Ret: ret, Tx: tx})
	return <-ret
}

func (n *node) height() uint64 {
	r := make(chan uint64)
	n.bus.HeadHeight.Pub(bus.HeadHeightQuery{Ret: r})
	return <-r
}

func (n *node) balances(pkhs ...core.HashT) map[core.HashT]uint64 {
	r := make(chan map[core.HashT]uint64)
	n.bus.PkhBalance.Pub(bus.PkhBalanceQuery{Ret: r, PublicKeyHashes: pkhs})
	return <-r
}

func (n *node) utxos(excl bool, pkhs ...core.HashT) map[core.Utxo]core.HashT {
	r := make(chan map[core.Utxo]core.HashT)
	n.bus.PkhUtxos.Pub(bus.PkhUtxosQuery{Ret: r, PublicKeyHashes: pkhs, ExcludeMempool: excl})
	return <-r
}

func (n *node) rich(max uint64) map[core.HashT]uint64 {
	r := make(chan map[core.HashT]uint64)
	n.bus.RichList.Pub(bus.RichListQuery{Ret: r, MaxLen: max})
	return <-r
}

func (n *node) confirms(ids ...core.HashT) map[core.HashT]uint64 {
	r := make(chan map[core.HashT]uint64)
	n.bus.TxConfirms.Pub(bus.TxConfirmsQuery{Ret: r, TxIds: ids})
	return <-r
}

func (n *node) included(ids ...core.HashT) map[core.HashT]core.HashT {
	r := make(chan map[core.HashT]core.HashT)
	n.bus.TxIncludedBlock.Pub(bus.TxIncludedBlockQuery{Ret: r, TxIds: ids})
	return <-r
}

