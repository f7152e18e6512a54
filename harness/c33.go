package zharness

import (
	"errors"

	"github.com/levilutz/basiccoin/internal/rest/client"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

func (b *backend) client() *client.WalletClient {
	b.serve(false, true, "")
	addr := b.url
	if zverif.Choice("slash", 2) == 1 {
		addr += "/"
	}
	c, err := client.NewWalletClient(addr, "v0.0.0-dev")
	noErr(err, "a client cannot connect to its own node")
	return c
}

// A wallet connects to a node of its version only.
// bounds: every other version of 0..11 characters (texts of the network names and arbitrary 2-byte texts)
// reach: end
func C33_version() {
	b := newBackend()
	b.serve(false, zverif.Choice("wallet", 2) == 1, "")
	v := []string{"", "v0.0.0", "v0.0.0-dev", "v0.0.0-de", "v0.0.0-dev2", zverif.Str("version", 2)}[zverif.Choice("which", 6)]
	c, err := client.NewWalletClient(b.url, v)
	ok((err == nil) == (v == "v0.0.0-dev"), "a client connects to a node of another version, or refuses its own")
	ok((c != nil) == (err == nil), "a refused connection gives a client")
	_, err = client.NewWalletClient("", v)
	ok(err != nil, "a client connects to no address")
	zverif.Reach("end")
}

func mapIs[V comparable](got map[core.HashT]V, keys []core.HashT, vals []V, what string) {
	ok(len(got) == len(keys), what+" has more or fewer entries than the node answered")
	for i, k := range keys {
		v, has := got[k]
		ok(has && v == vals[i], what+" differs from the node's answer")
	}
}

// Every query of the client reaches the node with exactly the ids given and returns what the node answered.
// bounds: 1..2 ids (3 thorough), each arbitrary, every answer with 0..2 entries, every height and list length
// reach: height balance balances utxos confirms included rich
// cfg: paths=8000
func C33_query() {
	b := newBackend()
	c := b.client()
	n := zverif.Int("ids", 1, zverif.Tier(2, 3))
	ids := make([]core.HashT, n)
	for i := range ids {
		ids[i] = symHash("id")
	}
	m := zverif.Int("answers", 0, 2)
	b.sums, b.utxos, b.included = map[core.HashT]uint64{}, map[core.Utxo]core.HashT{}, map[core.HashT]core.HashT{}
	var keys, vals []core.HashT
	var nums []uint64
	var outs []core.Utxo
	for i := 0; i < m; i++ {
		keys = append(keys, symHash("key"))
		if i > 0 {
			zverif.Assume(keys[0] != keys[1])
		}
		vals = append(vals, symHash("val"))
		nums = append(nums, zverif.U64("num"))
		outs = append(outs, core.Utxo{TxId: keys[i], Ind: zverif.U64("ind"), Value: nums[i]})
		b.sums[keys[i]] = nums[i]
		b.included[keys[i]] = vals[i]
		b.utxos[outs[i]] = vals[i]
	}
	asked := func(kind string) {
		ok(b.asked == 1 && b.kind == kind && sameHashes(b.ids, ids), "the client asks the node something else than it is told to")
	}
	switch zverif.Choice("query", 7) {
	case 0:
		b.height = zverif.U64("height")
		h, err := c.GetHeadHeight()
		noErr(err, "a query fails")
		ok(h == b.height, "the client reports another height")
		zverif.Reach("height")
	case 1:
		v, err := c.GetBalance(ids[0])
		ids = ids[:1]
		asked("balance")
		want, has := b.sums[ids[0]]
		ok((err == nil) == has, "the client takes an answer without the key it asked for, or refuses one with it")
		ok(err != nil || v == want, "the client reports another balance")
		zverif.Reach("balance")
	case 2:
		got, err := c.GetManyBalances(ids)
		noErr(err, "a query fails")
		asked("balance")
		mapIs(got, keys, nums, "a balance answer")
		zverif.Reach("balances")
	case 3:
		ex := zverif.Choice("exclude", 2) == 1
		got, err := c.GetManyUtxos(ids, ex)
		noErr(err, "a query fails")
		asked("utxos")
		ok(b.exclude == ex, "pending transactions are counted differently than asked")
		ok(len(got) == m, "an output answer has more or fewer entries than the node answered")
		for i, u := range outs {
			o, has := got[u]
			ok(has && o == vals[i], "an output answer differs from the node's answer")
		}
		zverif.Reach("utxos")
	case 4:
		got, err := c.GetTxConfirms(ids)
		noErr(err, "a query fails")
		asked("confirms")
		mapIs(got, keys, nums, "a confirmation answer")
		zverif.Reach("confirms")
	case 5:
		got, err := c.GetTxIncludedBlock(ids)
		noErr(err, "a query fails")
		asked("included")
		mapIs(got, keys, vals, "an inclusion answer")
		zverif.Reach("included")
	case 6:
		max := zverif.U64("length")
		got, err := c.GetRichList(max)
		noErr(err, "a query fails")
		ok(b.asked == 1 && b.kind == "rich" && b.max == max, "the client asks for another rich list")
		mapIs(got, keys, nums, "a rich list")
		zverif.Reach("rich")
	}
}

// A sent transaction reaches the node unchanged; the client reports success exactly when the node took it.
// bounds: transactions with 0..2 inputs and outputs (3 thorough), all field values, keys and signatures of 2 bytes, both verdicts
// reach: accepted refused
// cfg: paths=4000
func C33_post() {
	b := newBackend()
	c := b.client()
	k := zverif.Tier(2, 3)
	t := symTx("t", zverif.Int("ins", 0, k), zverif.Int("outs", 0, k), 2, 2)
	if zverif.Choice("verdict", 2) == 1 {
		b.txErr = errors.New("refused")
	}
	id, err := c.PostTx(t)
	if err == nil {
		ok(b.asked == 1 && b.kind == "tx" && b.txErr == nil, "the client reports success for a transaction that the node did not take")
		ok(id == t.Hash(), "the client reports another transaction id")
		zverif.Reach("accepted")
	} else {
		ok(b.asked == 0 || b.txErr != nil, "the client reports failure for a transaction that the node took")
		zverif.Reach("refused")
	}
	ok(b.asked == 0 || txEq(b.tx, t), "a sent transaction reaches the node changed")
}

// Transactions, tree nodes and blocks read through the client are those the node has.
// bounds: a node with 2 blocks and 1 payment of any amount; 1..2 ids (3 thorough) out of known ones of every kind and an unknown one
// reach: txs merkles blocks none
// cfg: paths=8000
func C33_entities() {
	b := newBackend()
	p := testParams()
	b1 := next(p, nil, keyN(0).pkh)
	v := zverif.U64("amount")
	zverif.Assume(v < 1000)
	b2 := next(p, b1, keyN(1).pkh, pay(keyN(0), utxoOf(b1.txs[0], 0), out(v, tag(7))))
	store(b.inv, b2)
	c := b.client()
	kind := zverif.Choice("kind", 3)
	pool := [][]core.HashT{{tag(9), b1.txs[0].Hash(), b2.txs[0].Hash(), b2.txs[1].Hash()}, {tag(9), b1.b.MerkleRoot, b2.b.MerkleRoot}, {tag(9), b1.id, b2.id}}[kind]
	var ids []core.HashT
	want := 0
	n := zverif.Int("ids", 1, zverif.Tier(2, 3))
	for i := 0; i < n; i++ {
		id := pool[zverif.Choice("id", len(pool))]
		dup := id == tag(9)
		for _, x := range ids {
			dup = dup || x == id
		}
		if !dup {
			want++
		}
		ids = append(ids, id)
	}
	switch kind {
	case 0:
		got, err := c.GetTx(ids)
		ok((err == nil) == (want > 0), "a query for known transactions fails, or one for unknown ones succeeds")
		ok(len(got) == want, "an answer has more or fewer transactions than asked for")
		for id, t := range got {
			ok(t.Hash() == id && txEq(t, b.inv.GetTx(id)), "a transaction is read differently than stored")
		}
		zverif.Reach("txs")
	case 1:
		got, err := c.GetMerkle(ids)
		ok((err == nil) == (want > 0), "a query for known tree nodes fails, or one for unknown ones succeeds")
		ok(len(got) == want, "an answer has more or fewer tree nodes than asked for")
		for id, m := range got {
			ok(m.Hash() == id && m == b.inv.GetMerkle(id), "a tree node is read differently than stored")
		}
		zverif.Reach("merkles")
	case 2:
		got, err := c.GetBlock(ids)
		ok((err == nil) == (want > 0), "a query for known blocks fails, or one for unknown ones succeeds")
		ok(len(got) == want, "an answer has more or fewer blocks than asked for")
		for id, x := range got {
			ok(x.Hash() == id && x == b.inv.GetBlock(id), "a block is read differently than stored")
		}
		zverif.Reach("blocks")
	}
	if want == 0 {
		zverif.Reach("none")
	}
}
