W = "cmd/bcwallet/bcwallet.go"
CFG = "cmd/bcwallet/config.go"

seed("import-stops", "C32",
 [(CFG, """		if !c.HasPublicKeyHash(kc.PublicKeyHash) {
			c.Keys = append(c.Keys, kc)
		}
""", """		if c.HasPublicKeyHash(kc.PublicKeyHash) {
			break // Already imported
		}
		c.Keys = append(c.Keys, kc)
""")],
 """
package main

import (
	"os"
	"strings"
)

// Every key of an imported file is in the wallet afterwards.
func main() {
	a, b := keyN(0), keyN(1)
	addr := serve(newNode(testParams(), false, nil))
	load(addr, a)
	setup(os.WriteFile(scratch+"/more.json", walletFile(addr, a, b), 0600))
	wallet("", "import", "more.json")
	out := wallet("", "balance")
	check(strings.Contains(out, a.pkh.String()), "an old key is gone")
	check(strings.Contains(out, b.pkh.String()), "an imported key is not in the wallet")
}
""",
 "an imported file in which a key the wallet already has comes before a new one",
 "importing drops new keys and reports success", "wallet")

seed("change-last", "C34",
 [("pkg/core/txfactory.go", """	// Add placeholder change output, going to wealthiest controlled pkh
	tx.Outputs[0] = TxOut{""", """	// Add placeholder change output, going to wealthiest controlled pkh
	changeInd := len(dests)
	tx.Outputs[changeInd] = TxOut{"""),
  ("pkg/core/txfactory.go", """	i := 1
	for pkh, val := range dests {""", """	i := 0
	for pkh, val := range dests {"""),
  ("pkg/core/txfactory.go", "	tx.Outputs[0].Value = totalIn - totalOut - tx.FeeFromRate(targetFeeRate)", "	tx.Outputs[changeInd].Value = totalIn - totalOut - tx.FeeFromRate(targetFeeRate)")],
 """
package main

import "strings"

// The question before sending states what is paid.
func main() {
	a, b := keyN(0), keyN(1)
	p := testParams()
	p.BlockReward = 1000000
	n := newNode(p, false, nil)
	n.adopt(next(p, nil, a.pkh))
	load(serve(n), a)
	out := wallet("n\\n", "send", b.pkh.String()+":5")
	check(strings.Contains(out, "outputs: 5\\n"), "the question states another amount: "+out)
}
""",
 "the wallet program assumes the change comes first, the payment is built elsewhere",
 "the user confirms an amount that is not what is paid", "wallet")

seed("balance-twice", "C34",
 [(W, """				if !covered.Includes(pkh) {
					total += balances[pkh]
					covered.Add(pkh)""", """				total += balances[pkh]
				if !covered.Includes(pkh) {
					covered.Add(pkh)""")],
 """
package main

import "strings"

// The total is over the addresses shown.
func main() {
	a := keyN(0)
	p := testParams()
	n := newNode(p, false, nil)
	n.adopt(next(p, nil, a.pkh))
	load(serve(n), a)
	h := a.pkh.String()
	out := wallet("", "balance", h, h)
	check(strings.Contains(out, "total\\t1000\\n"), "the total counts an address twice: "+out)
}
""",
 "the same address given twice",
 "the total balance shown counts an address twice", "wallet")

seed("empty-address", "C32",
 [(CFG, "		err = NewConfig(getDefaultServer(dev), dev).Save()\n	}\n	if err != nil {", "		err = NewConfig(getDefaultServer(dev), dev).Save()\n	} else if err == nil && GetConfig(getConfigPath(dev)).NodeAddr == \"\" {\n		// Fall back to the default node\n		err = NewConfig(getDefaultServer(dev), dev).Save()\n	}\n	if err != nil {")],
 """
package main

import (
	"strings"
)

// A wallet file without a node's address keeps its keys.
func main() {
	a := keyN(0)
	addr := serve(newNode(testParams(), false, nil))
	load("", a)
	wallet("", "connect", addr)
	out := wallet("", "balance")
	check(strings.Contains(out, a.pkh.String()), "a key is gone: "+out)
}
""",
 "a wallet file in which the node's address is empty",
 "the wallet's keys are replaced by an empty wallet", "wallet")
