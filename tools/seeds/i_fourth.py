W = "cmd/bcwallet/bcwallet.go"

seed("gc-idle", "C23",
 [("pkg/topic/topic.go", "		if sub.Closed() {", "		if sub.Closed() || sub.Size() == 0 {")],
 """
package main

import (
	"time"

	"github.com/levilutz/basiccoin/pkg/topic"
)

// A subscription that was idle for a while still gets what is published.
func main() {
	t := topic.NewTopic[int]()
	s := t.Sub()
	time.Sleep(16 * time.Second)
	t.Pub(7)
	v, has := s.Pop()
	check(has && v == 7, "a message published to an idle subscriber is lost")
}
""",
 "a subscriber whose queue is empty when the collector runs, 15 seconds after the topic was made",
 "an open subscription is dropped and gets nothing any more")

seed("lca-by-work", "C26",
 [("internal/inv/inv.go", """	for inv.GetBlockHeight(blockId) > inv.GetBlockHeight(otherBlockId) {
		blockId = inv.GetBlockParentId(blockId)
	}
	for inv.GetBlockHeight(otherBlockId) > inv.GetBlockHeight(blockId) {""", """	for inv.GetBlockTotalWork(otherBlockId).Lt(inv.GetBlockTotalWork(blockId)) {
		blockId = inv.GetBlockParentId(blockId)
	}
	for inv.GetBlockTotalWork(blockId).Lt(inv.GetBlockTotalWork(otherBlockId)) {""")],
 """
package main

import (
	"fmt"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
)

// The common ancestor of branches whose blocks have different targets.
func main() {
	p := testParams()
	v := inv.NewInv(p, nil)
	grow := func(prev *blk, n int, spacing uint64, to key) *blk {
		for i := 0; i < n; i++ {
			h, at, last := uint64(1), start, core.HashT{}
			if prev != nil {
				h, at, last = prev.height+1, prev.b.MinedTime+spacing, prev.id
			}
			prev = rawBlock(prev, core.NextTarget(p, v, last), at, []core.Tx{coinbase(h, p.BlockReward, to.pkh)})
			setup(storeTop(v, prev))
		}
		return prev
	}
	trunk := grow(nil, 2, 10, keyN(0))
	a, b := grow(trunk, 3, 1, keyN(1)), grow(trunk, 5, 100, keyN(2))
	defer func() { check(recover() == nil, "looking for the common ancestor aborts") }()
	got := v.GetBlockLCA(a.id, b.id)
	check(got == trunk.id, fmt.Sprintf("another block than the common ancestor is found: %s", got))
}
""",
 "branches with blocks of different targets",
 "the common ancestor of two branches is not found")

seed("confirm-anything", "C34",
 [(W, """inp != "y" && inp != "Y" {
				return fmt.Errorf("tx cancelled")
			}

			// Send tx
			resp, err := ctx.Client.PostTx(*tx)
			if err != nil {
				return err
			}

			fmt.Println(greenStr(resp.String()))
			return nil
		},
	},
	{
		Name:           "consolidate",""", """inp == "n" || inp == "N" {
				return fmt.Errorf("tx cancelled")
			}

			// Send tx
			resp, err := ctx.Client.PostTx(*tx)
			if err != nil {
				return err
			}

			fmt.Println(greenStr(resp.String()))
			return nil
		},
	},
	{
		Name:           "consolidate",""")],
 """
package main

import "strings"

// Only a yes sends.
func main() {
	a, b := keyN(0), keyN(1)
	p := testParams()
	p.BlockReward = 1000000
	n := newNode(p, false, nil)
	n.adopt(next(p, nil, a.pkh))
	load(serve(n), a)
	out := wallet("no\\n", "send", b.pkh.String()+":5")
	check(strings.Contains(out, "cancelled"), "a payment is sent without a yes: "+out)
}
""",
 "a user who answers with something else than y or n",
 "money is sent although the user did not confirm", "wallet")

seed("rich-length-base", "C34",
 [(W, "				maxLen, err = strconv.ParseUint(ctx.Args[0], 10, 64)", "				maxLen, err = strconv.ParseUint(ctx.Args[0], 0, 64)")],
 """
package main

import "strings"
import "github.com/levilutz/basiccoin/pkg/core"

// A length written with a zero in front is the number it looks like.
func main() {
	p := testParams()
	n := newNode(p, false, nil)
	var last *blk
	for i := 0; i < 12; i++ {
		last = next(p, last, core.DHashUint64(uint64(i)))
		n.adopt(last)
	}
	load(serve(n), keyN(0))
	out := wallet("", "rich-list", "010")
	lines := 0
	for _, l := range strings.Split(out, "\\n") {
		if strings.HasSuffix(l, "\\t1000") {
			lines++
		}
	}
	check(lines == 10, "the rich list has another length: "+out)
}
""",
 "a length with a zero in front",
 "the rich list shown has another length than asked for", "wallet")

seed("one-key-signs", "C20",
 [("pkg/core/txfactory.go", """	// Add utxos until we reach max size
	totalIn := uint64(0)
	for _, utxo := range utxos {
		txIn""", """	// Nothing to look up if the richest key owns the richest output
	if len(pkhPrivs) > 1 && utxoPkhs[utxos[0]] == richestPkh {
		for pkh := range pkhPrivs {
			pkhPrivs[pkh] = pkhPrivs[richestPkh]
		}
	}

	// Add utxos until we reach max size
	totalIn := uint64(0)
	for _, utxo := range utxos {
		txIn""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"
import "github.com/levilutz/basiccoin/internal/inv"
import "crypto/ecdsa"

// Each input is signed by its owner.
func main() {
	p := testParams()
	v := inv.NewInv(p, nil)
	a, b := keyN(0), keyN(1)
	c1, c2 := coinbase(1, 900000, a.pkh), coinbase(2, 800000, b.pkh)
	setup(v.StoreTx(c1))
	setup(v.StoreTx(c2))
	us := map[core.Utxo]core.HashT{utxoOf(c1, 0): a.pkh, utxoOf(c2, 0): b.pkh}
	tx, err := core.MakeConsolidateTx(p, []*ecdsa.PrivateKey{a.priv, b.priv}, us, 1.0, 0)
	setup(err)
	check(v.StoreTx(*tx) == nil, "a node refuses the consolidation")
}
""",
 "a wallet with two keys",
 "a consolidation of outputs of two keys is not admitted")
