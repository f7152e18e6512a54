package zharness

import (
	"crypto/ecdsa"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// purse: outputs of arbitrary worth that a wallet with two keys owns, known to a node
type purse struct {
	p     core.Params
	v     *inv.Inv
	keys  []key
	privs []*ecdsa.PrivateKey
	utxos []core.Utxo
	owner []key
	m     map[core.Utxo]core.HashT
	rate  float64
	top   []uint64 // values, largest first
}

func newPurse(most, limits int) *purse {
	w := &purse{p: testParams(), keys: []key{keyN(0), keyN(1)}, m: map[core.Utxo]core.HashT{}}
	w.p.BlockReward = 0
	// room for any number, one, two or no inputs
	w.p.MaxTxVSize = []uint64{5000, 72 + 48 + 91 + 72 + 3*40, 72 + 2*(48+91+72) + 3*40, 100}[zverif.Choice("limit", limits)]
	for _, k := range w.keys {
		w.privs = append(w.privs, k.priv)
	}
	w.rate = []float64{1.0, 0.25, 2.5}[zverif.Choice("rate", 3)]
	n := zverif.Int("outputs", 0, most)
	w.v = inv.NewInv(w.p, nil)
	for i := 0; i < n; i++ {
		k := w.keys[0]
		if i > 0 {
			k = w.keys[zverif.Choice("owner"+sprint(i), 2)]
		}
		cb := coinbase(uint64(i+1), zverif.U64("value"+sprint(i)), k.pkh)
		if w.p.MaxTxVSize >= 112 {
			setup(w.v.StoreTx(cb))
		}
		u := utxoOf(cb, 0)
		w.utxos, w.owner = append(w.utxos, u), append(w.owner, k)
		w.m[u] = k.pkh
		w.top = append(w.top, u.Value)
	}
	for i := range w.top {
		for j := 0; j+1 < len(w.top)-i; j++ {
			lo, hi := minMax(w.top[j], w.top[j+1])
			w.top[j], w.top[j+1] = hi, lo
		}
	}
	return w
}

func (w *purse) sizeOf(inputs, outputs int) uint64 { // with the largest signatures
	return uint64(72 + inputs*(48+len(w.keys[0].pub)+len(core.ExampleMaxSigAsn())) + outputs*40)
}

func (w *purse) fee(size uint64) uint64 { return uint64(w.rate * float64(size)) }

// checkInputs: each input is one of the given outputs, once, with its worth, signed by its owner
func (w *purse) checkInputs(tx core.Tx) {
	presig := core.TxHashPreSig(tx.MinBlock, tx.Outputs)
	seen := map[int]bool{}
	for _, in := range tx.Inputs {
		found := -1
		for i, u := range w.utxos {
			if u.TxId == in.Utxo.TxId && u.Ind == in.Utxo.Ind {
				found = i
			}
		}
		ok(found >= 0, "an output that was not given is spent")
		ok(!seen[found], "an output is spent twice")
		seen[found] = true
		ok(in.Utxo.Value == w.utxos[found].Value, "an input states another worth than its output")
		ok(core.DHashBytes(in.PublicKey) == w.owner[found].pkh, "an input carries another key than its owner's")
		good, err := core.EcdsaVerify(in.PublicKey, presig, in.Signature)
		ok(err == nil && good, "an input is not signed by its owner")
	}
}

func (w *purse) own(pkh core.HashT) bool { return pkh == w.keys[0].pkh || pkh == w.keys[1].pkh }
