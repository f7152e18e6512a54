package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// A consolidation keeps the funds less a fee, richest outputs first, and is admitted by a node; when that is impossible building fails.
// bounds: 0..4 outputs of any worth owned by two keys (5 thorough), fee rates 1, 1/4 and 5/2, size limits that admit any, one, two or no inputs, every minimum block
// assumes: ideal signatures; the network's outputs sum below 2^64
// reach: built failed
// cfg: paths=40000 budget=500
func C20_consolidate() {
	w := newPurse(zverif.Tier(4, 5), 4)
	zverif.Assume(fits64(w.top))
	minBlock := zverif.U64("minblock")
	tx, err := core.MakeConsolidateTx(w.p, w.privs, w.m, w.rate, minBlock)

	n := 0 // as many as fit
	for n < len(w.utxos) && w.sizeOf(n+1, 1) <= w.p.MaxTxVSize {
		n++
	}
	size := w.sizeOf(n, 1)
	possible := false
	if n > 0 && len(w.utxos) > 1 {
		possible = zverif.SumCmp(w.top[:n], []uint64{w.fee(size)}) >= 0
	}
	if err != nil {
		ok(zverif.Not(possible), "a possible consolidation is not built")
		ok(tx == nil, "a failed consolidation returns a transaction")
		zverif.Reach("failed")
		return
	}
	ok(possible, "an impossible consolidation is built")
	ok(!tx.IsCoinbase && tx.MinBlock == minBlock, "the consolidation's header fields are wrong")
	w.checkInputs(*tx)
	ok(len(tx.Inputs) == n, "the consolidation does not spend as many outputs as fit")
	ok(len(tx.Outputs) == 1, "the consolidation does not have one output")
	ok(w.own(tx.Outputs[0].PublicKeyHash), "the consolidated funds go to an address of another owner")
	ok(zverif.SumCmp(inVals(*tx), w.top[:n]) == 0, "the consolidation does not spend the richest outputs")
	ok(zverif.SumCmp(append(outVals(*tx), w.fee(size)), inVals(*tx)) == 0, "the consolidated funds are not the inputs less the fee")
	ok(tx.VSize() <= w.p.MaxTxVSize, "the consolidation is over the size limit")
	ok(w.v.StoreTx(*tx) == nil, "the consolidation is not admitted by a node")
	zverif.Reach("built")
}
