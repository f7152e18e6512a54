From cfa9103d4c2860083eeb04734261573c973058b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 01/22] fix: stored transaction records: keep an empty last
 row, refuse impossible counts

A transaction whose last row is empty (no outputs, empty signature) did not parse back
because trailing newlines were trimmed. Huge or negative counts overflowed the expected
row count and aborted in make.
---
 internal/inv/serialize.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/inv/serialize.go b/internal/inv/serialize.go
index fade6c8..1264c00 100644
--- a/internal/inv/serialize.go
+++ b/internal/inv/serialize.go
@@ -108,7 +108,8 @@ func (m MerkleRecord) String() string {
 }
 
 func TxRecordFromString(raw string) (record TxRecord, err error) {
-	rows := strings.Split(strings.Trim(raw, "\n"), "\n")
+	// The last row may be empty (an empty signature), so don't trim it off
+	rows := strings.Split(strings.TrimLeft(raw, "\n"), "\n")
 	if len(rows) < 5 {
 		return TxRecord{}, fmt.Errorf("too few rows: %d", len(rows))
 	}
@@ -136,7 +137,13 @@ func TxRecordFromString(raw string) (record TxRecord, err error) {
 	if err != nil {
 		return TxRecord{}, fmt.Errorf("failed to parse NumOutputs: %s", err)
 	}
+	if numInputs < 0 || numInputs > len(rows) || numOutputs < 0 || numOutputs > len(rows) {
+		return TxRecord{}, fmt.Errorf("impossible counts for %d rows: %d inputs, %d outputs", len(rows), numInputs, numOutputs)
+	}
 	expectRows := 5 + numInputs*5 + numOutputs*2
+	for len(rows) > expectRows && rows[len(rows)-1] == "" {
+		rows = rows[:len(rows)-1]
+	}
 	if len(rows) != expectRows {
 		return TxRecord{}, fmt.Errorf("expected %d rows, got %d", expectRows, len(rows))
 	}
-- 
2.43.0


From 0adc756226bf675ef8892d4b8487699c267ee6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 02/22] fix: util.Prepend must not write into the given list's
 storage

The miners share one list of tx ids and each prepends its own coinbase; with spare
capacity they overwrote each other's first entries.
---
 pkg/util/util.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 1270868..9954dbc 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -11,18 +11,11 @@ func MapKeys[K comparable, V any](in map[K]V) []K {
 	return out
 }
 
-// Prepend into slice.
+// Prepend into slice. Does not modify in-place, returns a new one.
 func Prepend[K any](ls []K, items ...K) []K {
-	for _, item := range items {
-		if len(ls) == 0 {
-			ls = []K{item}
-		} else {
-			ls = append(ls, item)
-			copy(ls[1:], ls)
-			ls[0] = item
-		}
-	}
-	return ls
+	out := make([]K, 0, len(ls)+len(items))
+	out = append(out, Reverse(items)...)
+	return append(out, ls...)
 }
 
 // Reverse a slice. Does not modify in-place, returns a new one.
-- 
2.43.0


From d771e93071fde4b8749c68450b2f82dc0dedab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 03/22] fix: queue.NewQueue must not keep the caller's list as
 its storage

---
 pkg/queue/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/queue.go b/pkg/queue/queue.go
index 2256a57..d5fc28f 100644
--- a/pkg/queue/queue.go
+++ b/pkg/queue/queue.go
@@ -8,7 +8,7 @@ type Queue[K any] struct {
 // Create a new queue.
 func NewQueue[K any](keys ...K) *Queue[K] {
 	return &Queue[K]{
-		q: keys,
+		q: append([]K(nil), keys...),
 	}
 }
 
-- 
2.43.0


From c1494aa49a0e0b8247992dbb7efe481c255a3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:50 +0000
Subject: [PATCH 04/22] fix: check the time of the last block of a difficulty
 period

Operator precedence made the check never run, so a period could end 'before' it
began and computing the next target then aborted the node.
---
 pkg/core/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 79cb135..afff546 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -183,7 +183,7 @@ func (v Verifier) VerifyBlock(b Block) error {
 
 	// If last block in period, verify time is ahead of first block in period
 	// This prevents panics in ExpectedTargetAdjustment
-	if newBlockHeight+1%v.params.DifficultyPeriod == 0 {
+	if (newBlockHeight+1)%v.params.DifficultyPeriod == 0 {
 		var firstBlockId HashT
 		if newBlockHeight+1 == v.params.DifficultyPeriod {
 			if !v.inv.GetBlockSpecificAncestor(b.PrevBlockId, int(v.params.DifficultyPeriod-2)).EqZero() {
-- 
2.43.0


From ea9160e9906e6084cf696d8ad46a7553c6a95699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:43 +0000
Subject: [PATCH 05/22] fix: refuse transactions and blocks whose value totals
 overflow

Totals were summed modulo 2^64, so outputs worth more than the inputs could be
made to look like less.
---
 pkg/core/transaction.go | 24 ++++++++++++++++++++++++
 pkg/core/verify.go      | 13 +++++++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/pkg/core/transaction.go b/pkg/core/transaction.go
index 55f01ed..d7d6b9b 100644
--- a/pkg/core/transaction.go
+++ b/pkg/core/transaction.go
@@ -80,6 +80,30 @@ func (tx Tx) OutputsValue() uint64 {
 	return total
 }
 
+// Add two values, returns false if the sum cannot be represented.
+func addValues(a, b uint64) (uint64, bool) {
+	sum := a + b
+	return sum, sum >= a
+}
+
+// Return whether the total input or output value cannot be represented.
+func (tx Tx) valuesOverflow() bool {
+	ok := true
+	total := uint64(0)
+	for _, txi := range tx.Inputs {
+		if total, ok = addValues(total, txi.Utxo.Value); !ok {
+			return true
+		}
+	}
+	total = 0
+	for _, txo := range tx.Outputs {
+		if total, ok = addValues(total, txo.Value); !ok {
+			return true
+		}
+	}
+	return false
+}
+
 func (tx Tx) VSize() uint64 {
 	// 8 from MinBlock, 32 each from top-level hash of Inputs and Outputs
 	vSize := uint64(8 + 32 + 32)
diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index afff546..be34f14 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -138,8 +138,12 @@ func (v Verifier) VerifyBlock(b Block) error {
 		if i != 0 && tx.IsCoinbase {
 			return fmt.Errorf("only first block tx may be coinbase")
 		}
-		totalInputs += tx.InputsValue()
-		totalOutputs += tx.OutputsValue()
+		var inOk, outOk bool
+		totalInputs, inOk = addValues(totalInputs, tx.InputsValue())
+		totalOutputs, outOk = addValues(totalOutputs, tx.OutputsValue())
+		if !inOk || !outOk {
+			return fmt.Errorf("block total inputs or outputs overflow")
+		}
 	}
 
 	// Verify block's total inputs and outputs match
@@ -249,6 +253,11 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		return fmt.Errorf("tx vSize exceeds limit")
 	}
 
+	// Verify input and output totals can be represented
+	if tx.valuesOverflow() {
+		return fmt.Errorf("tx total inputs or outputs overflow")
+	}
+
 	if tx.IsCoinbase {
 		// Verify coinbase has no inputs
 		if len(tx.Inputs) > 0 {
-- 
2.43.0


From 6d11829fe4e206dedca0c9fa5035bfc16bda5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:18 +0000
Subject: [PATCH 06/22] fix: refuse transactions that spend the same output
 twice

The value of an output listed twice as an input was counted twice.
---
 pkg/core/verify.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index be34f14..afadf8b 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -253,6 +253,15 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		return fmt.Errorf("tx vSize exceeds limit")
 	}
 
+	// Verify no utxo is spent more than once
+	spent := set.NewSet[Utxo]()
+	for _, txi := range tx.Inputs {
+		if spent.Includes(txi.Utxo) {
+			return fmt.Errorf("tx spends the same utxo more than once")
+		}
+		spent.Add(txi.Utxo)
+	}
+
 	// Verify input and output totals can be represented
 	if tx.valuesOverflow() {
 		return fmt.Errorf("tx total inputs or outputs overflow")
-- 
2.43.0


From 928453fe2d17c8f0e4f3725eec8d31b632bd25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:10 +0000
Subject: [PATCH 07/22] fix: rewind a block's transactions last to first

A transaction spending an output created earlier in the same block could not be
undone, and the node aborted on such a reorganisation.
---
 internal/chain/state.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 1975c7e..86eb3ad 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -85,7 +85,9 @@ func (s *State) Rewind() {
 	}
 	rBlock := s.inv.GetBlock(s.head)
 	rTxs := s.inv.GetMerkleTxs(rBlock.MerkleRoot)
-	for _, tx := range rTxs {
+	// Undo txs last to first, as a tx may consume outputs of an earlier tx in the same block
+	for i := len(rTxs) - 1; i >= 0; i-- {
+		tx := rTxs[i]
 		txId := tx.Hash()
 		// Return tx back to mempool
 		s.mempool.Add(txId)
-- 
2.43.0


From bd442828e1e8206b59832ca01955adc9937121b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 08/22] fix: rich list lengths above the signed range

A list length of 2^63 or more became negative and emptied the rich list.
---
 internal/chain/state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 86eb3ad..e597401 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -384,9 +384,9 @@ func (s *State) GetRichList(maxLen uint64) map[core.HashT]uint64 {
 		return pkhBals[pkhs[i]] > pkhBals[pkhs[j]]
 	})
 	// outLen = min(maxLen, len(pkhs))
-	outLen := int(maxLen)
-	if len(pkhs) < outLen {
-		outLen = len(pkhs)
+	outLen := len(pkhs)
+	if maxLen < uint64(outLen) {
+		outLen = int(maxLen)
 	}
 	out := make(map[core.HashT]uint64, outLen)
 	for i := 0; i < outLen; i++ {
-- 
2.43.0


From b0eb98153918ea70ef2b92270181b1004c72e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 09/22] fix: outbound txs: refuse empty balances and
 overflowing totals

Building from no utxos aborted, and destination amounts summing past 2^64 passed
the balance check and gave a transaction worth more than its inputs.
---
 pkg/core/txfactory.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 129d5af..b4e3303 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -23,6 +23,11 @@ func MakeOutboundTx(
 	targetFeeRate float64,
 	minBlock uint64,
 ) (*Tx, error) {
+	// Verify there's anything to spend
+	if len(utxoPkhs) == 0 {
+		return nil, fmt.Errorf("insufficient balance")
+	}
+
 	// Make mapping from pkh to private keys
 	pkhPrivs, err := getPkkPrivs(privateKeys)
 	if err != nil {
@@ -38,7 +43,10 @@ func MakeOutboundTx(
 	// Get total outputs and verify <= utxos
 	totalOut := uint64(0)
 	for _, val := range dests {
-		totalOut += val
+		var ok bool
+		if totalOut, ok = addValues(totalOut, val); !ok {
+			return nil, fmt.Errorf("insufficient balance: total outputs too high")
+		}
 	}
 	if totalOut >= balance {
 		return nil, fmt.Errorf("insufficient balance: %d < %d", balance, totalOut)
-- 
2.43.0


From a443d23e38a9c7c4988982c7e596dbbb034dc93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 10/22] fix: refuse to consolidate less than the fee

The output's value wrapped around when the inputs did not cover the fee, or no
input fit in the size limit.
---
 pkg/core/txfactory.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index b4e3303..c6d3983 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -208,8 +208,14 @@ func MakeConsolidateTx(
 		tx.Inputs = append(tx.Inputs, txIn)
 	}
 
+	// Verify the inputs cover the fee, and at least one input fit
+	fee := tx.FeeFromRate(targetFeeRate)
+	if len(tx.Inputs) == 0 || totalIn < fee {
+		return nil, fmt.Errorf("insufficient balance to pay target fee rate - %d < %d", totalIn, fee)
+	}
+
 	// Set the output amount
-	tx.Outputs[0].Value = totalIn - tx.FeeFromRate(targetFeeRate)
+	tx.Outputs[0].Value = totalIn - fee
 
 	// Sign the inputs, replacing placeholders
 	preSigHash := TxHashPreSig(tx.MinBlock, tx.Outputs)
-- 
2.43.0


From 600f14677e45887fd41e52b03007f1c826109eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 11/22] fix: outbound txs: amounts plus fee may exceed the
 value range

The sum of the outputs and the fee wrapped around, and the change output was
given nearly 2^64.
---
 pkg/core/txfactory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index c6d3983..34cc2ee 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -101,7 +101,7 @@ func MakeOutboundTx(
 		}
 
 		// Check if we now have enough inputs to cover outputs + fees
-		if totalIn >= totalOut+tx.FeeFromRate(targetFeeRate) {
+		if totalIn >= totalOut && totalIn-totalOut >= tx.FeeFromRate(targetFeeRate) {
 			break
 		}
 
-- 
2.43.0


From cd343dfa990d2fa9497a65d892d51328b2733c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 12/22] fix: refuse to frame 65536 bytes, whose length wraps to
 zero

---
 pkg/prot/conn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index af67bb3..9ca6069 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -128,8 +128,8 @@ func (c *Conn) writeRawTimeout(data []byte, timeout time.Duration) {
 	if c.err != nil {
 		return
 	}
-	if len(data) > 65536 {
-		c.err = fmt.Errorf("too many bytes to write: %d > 65536", len(data))
+	if len(data) > 65535 { // Size must fit 2 bytes
+		c.err = fmt.Errorf("too many bytes to write: %d > 65535", len(data))
 		return
 	}
 	if c.params.Debug {
@@ -170,8 +170,8 @@ func (c *Conn) Write(data []byte) {
 	if c.err != nil {
 		return
 	}
-	if len(data) > 65536 {
-		c.err = fmt.Errorf("too many bytes to write: %d > 65536", len(data))
+	if len(data) > 65535 { // Size must fit 2 bytes
+		c.err = fmt.Errorf("too many bytes to write: %d > 65535", len(data))
 		return
 	}
 	sizeB := make([]byte, 2)
-- 
2.43.0


From 477a8634a1290cd2292b58dbb68ebe7d70d8954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 13/22] fix: don't reserve memory for the tx inputs and outputs
 a peer claims to send

---
 pkg/prot/core.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/prot/core.go b/pkg/prot/core.go
index 53d5cfd..c7518a6 100644
--- a/pkg/prot/core.go
+++ b/pkg/prot/core.go
@@ -101,14 +101,14 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 	tx := core.Tx{
 		IsCoinbase: c.ReadBool(),
 		MinBlock:   c.ReadUint64(),
-		Inputs:     make([]core.TxIn, c.ReadUint64()),
-		Outputs:    make([]core.TxOut, c.ReadUint64()),
-	}
-	if c.err != nil {
-		return core.Tx{}
-	}
-	for i := range tx.Inputs {
-		tx.Inputs[i] = core.TxIn{
+		Inputs:     make([]core.TxIn, 0),
+		Outputs:    make([]core.TxOut, 0),
+	}
+	numInputs := c.ReadUint64()
+	numOutputs := c.ReadUint64()
+	// The counts are only claims, so only make space for what we actually receive
+	for i := uint64(0); i < numInputs && c.err == nil; i++ {
+		tx.Inputs = append(tx.Inputs, core.TxIn{
 			Utxo: core.Utxo{
 				TxId:  c.ReadHashT(),
 				Ind:   c.ReadUint64(),
@@ -116,13 +116,13 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 			},
 			PublicKey: c.Read(),
 			Signature: c.Read(),
-		}
+		})
 	}
-	for i := range tx.Outputs {
-		tx.Outputs[i] = core.TxOut{
+	for i := uint64(0); i < numOutputs && c.err == nil; i++ {
+		tx.Outputs = append(tx.Outputs, core.TxOut{
 			Value:         c.ReadUint64(),
 			PublicKeyHash: c.ReadHashT(),
-		}
+		})
 	}
 	if c.err != nil {
 		return core.Tx{}
-- 
2.43.0


From 67308d99a314153e1fef1f919b5e92ff055c824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 14/22] fix: don't reserve memory or keep looping for the
 addresses a peer claims to send

---
 internal/peer/handlers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index ffce87c..8813fc0 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -41,8 +41,9 @@ var peerAddrsCmd = "peer-addrs"
 
 func (p *Peer) handleReadPeerAddrs() error {
 	numPeers := p.conn.ReadUint64()
-	peerAddrs := make(map[string]string, numPeers)
-	for i := 0; i < int(numPeers); i++ {
+	// The count is only a claim, so only make space for what we actually receive
+	peerAddrs := make(map[string]string)
+	for i := uint64(0); i < numPeers && !p.conn.HasErr(); i++ {
 		runtimeId := p.conn.ReadString()
 		peerAddrs[runtimeId] = p.conn.ReadString()
 	}
-- 
2.43.0


From f99e5b7ed1a6e5a8c7a8dba173de58bc2534b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 15/22] fix: report why a received chain was refused instead of
 panicking

---
 internal/peer/sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index cd13447..8abfdba 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -139,7 +139,7 @@ func (p *Peer) handleInboundSyncChain() error {
 		if p.conn.HasErr() {
 			return p.conn.Err()
 		}
-		return fmt.Errorf("failed to verify received chain: %s", p.conn.Err().Error())
+		return fmt.Errorf("failed to verify received chain: %s", err.Error())
 	}
 	p.conn.WriteBool(true)
 	if p.conn.HasErr() {
-- 
2.43.0


From 4c57354382209fe71fd9a520556dc141b1888211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 16/22] fix: sync txs in chain order, so that none comes before
 a tx it spends

---
 internal/peer/sync.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index 8abfdba..29c1a85 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/levilutz/basiccoin/internal/bus"
 	"github.com/levilutz/basiccoin/pkg/core"
-	"github.com/levilutz/basiccoin/pkg/queue"
 	"github.com/levilutz/basiccoin/pkg/set"
 	"github.com/levilutz/basiccoin/pkg/util"
 )
@@ -148,13 +147,15 @@ func (p *Peer) handleInboundSyncChain() error {
 	// Request the peer for entities we don't know about
 	newMerkles := make([]core.MerkleNode, 0)
 	newTxs := make([]core.Tx, 0)
-	idQueue := queue.NewQueue[core.HashT]()
 	receivedIds := set.NewSet[core.HashT]()
+	// Depth first from the oldest block, so txs are received in the order the chain includes them
+	idStack := make([]core.HashT, 0)
 	for _, block := range newBlocks {
-		idQueue.Push(block.MerkleRoot)
+		idStack = append(idStack, block.MerkleRoot)
 	}
-	for idQueue.Size() > 0 {
-		id, _ := idQueue.Pop()
+	for len(idStack) > 0 {
+		id := idStack[len(idStack)-1]
+		idStack = idStack[:len(idStack)-1]
 		if p.inv.HasEntity(id) || receivedIds.Includes(id) {
 			continue
 		}
@@ -168,7 +169,7 @@ func (p *Peer) handleInboundSyncChain() error {
 				return p.conn.Err()
 			}
 			newMerkles = append(newMerkles, merkle)
-			idQueue.Push(merkle.LChild, merkle.RChild)
+			idStack = append(idStack, merkle.RChild, merkle.LChild)
 		} else {
 			tx := p.conn.ReadTx(id)
 			if p.conn.HasErr() {
@@ -183,12 +184,12 @@ func (p *Peer) handleInboundSyncChain() error {
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	}
-	// Send the new entities to the head (reversed so they're inserted in correct order)
+	// Send the new entities to the head (blocks and merkles reversed so they're inserted in correct order)
 	p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
 		Head:                   newHead,
 		Blocks:                 util.Reverse(newBlocks),
 		Merkles:                util.Reverse(newMerkles),
-		Txs:                    util.Reverse(newTxs),
+		Txs:                    newTxs,
 		AutoAddMempoolInsecure: false,
 	})
 	return nil
-- 
2.43.0


From cc6ec5f816bb4fdcf785a472d4ea257ed5990089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 17/22] fix: an interrupted save must not leave a partial
 record or head file

---
 internal/chain/chain.go        | 7 ++++++-
 pkg/disksyncmap/disksyncmap.go | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 781aa9b..b95e1b8 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -226,7 +226,12 @@ func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 }
 
 func (c *Chain) saveHeadToFile(head core.HashT) error {
-	return os.WriteFile(*c.saveDir+"/head", []byte(head.String()), 0666)
+	// Write elsewhere then move, so an interrupted write can't leave a partial file
+	path := *c.saveDir + "/head"
+	if err := os.WriteFile(path+".tmp", []byte(head.String()), 0666); err != nil {
+		return err
+	}
+	return os.Rename(path+".tmp", path)
 }
 
 func loadHeadFromFile(saveDir *string) (head *core.HashT, err error) {
diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index 1268a8c..2c4b1c9 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -75,7 +75,11 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 
 // Write to the given file on disk.
 func (dsm *DiskSyncMap[K, V]) saveFile(path string, val V) error {
-	return os.WriteFile(path, []byte(val.String()), 0666)
+	// Write elsewhere then move, so an interrupted write can't leave a partial file at path
+	if err := os.WriteFile(path+".tmp", []byte(val.String()), 0666); err != nil {
+		return err
+	}
+	return os.Rename(path+".tmp", path)
 }
 
 // Load the given file from disk and parse.
-- 
2.43.0


From 74f6cf8b987a7ca7148f8f57c10355a13187730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 18/22] fix: after a restart, accept txs known from disk that
 are neither pending nor included

---
 internal/chain/chain.go |  9 ++++++---
 internal/chain/state.go | 10 +++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index b95e1b8..d7e5e1f 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -208,11 +208,14 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 
 func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 	txId := event.Tx.Hash()
-	if c.inv.HasTx(txId) {
+	if c.state.HasTx(txId) {
 		return nil
 	}
-	if err := c.inv.StoreTx(event.Tx); err != nil {
-		return err
+	// A tx we know from disk might be neither pending nor included yet
+	if !c.inv.HasTx(txId) {
+		if err := c.inv.StoreTx(event.Tx); err != nil {
+			return err
+		}
 	}
 	c.state.AddMempoolTx(txId)
 	c.bus.ValidatedTx.Pub(bus.ValidatedTxEvent{
diff --git a/internal/chain/state.go b/internal/chain/state.go
index e597401..8f1baaa 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -226,7 +226,9 @@ func (s *State) VerifyTxIncludable(txId core.HashT, autoAddMempoolInsecure bool)
 		return fmt.Errorf("tx cannot be included in block - too low")
 	}
 	if !s.mempool.Includes(txId) {
-		if autoAddMempoolInsecure {
+		// A tx we know from disk might be neither pending nor included yet
+		_, included := s.includedTxBlocks[txId]
+		if autoAddMempoolInsecure || !included {
 			s.AddMempoolTx(txId)
 		} else {
 			return fmt.Errorf("tx does not exist in mempool")
@@ -256,6 +258,12 @@ func (s *State) GetSortedIncludableMempool() []core.HashT {
 	return memL
 }
 
+// Check whether a tx is pending or included in our current chain.
+func (s *State) HasTx(txId core.HashT) bool {
+	_, included := s.includedTxBlocks[txId]
+	return included || s.mempool.Includes(txId)
+}
+
 // Add a tx to the mempool.
 func (s *State) AddMempoolTx(txId core.HashT) {
 	tx := s.inv.GetTx(txId)
-- 
2.43.0


From 7b46142bab52e260f657667248b3e823f34a8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 19/22] fix: a message whose size bytes arrive apart must not
 be torn by a read timeout

---
 pkg/prot/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index 9ca6069..2099a76 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -149,7 +149,9 @@ func (c *Conn) ReadTimeout(timeout time.Duration) []byte {
 	if c.err != nil {
 		return nil
 	}
-	sizeB := c.readRawTimeout(2, timeout)
+	// Once the first byte arrived, don't drop it because the second is late
+	sizeB := c.readRawTimeout(1, timeout)
+	sizeB = append(sizeB, c.readRawTimeout(1, defaultTimeout)...)
 	if c.err != nil {
 		return nil
 	}
-- 
2.43.0


From 678ed57ea4334a248f17c0069df04859bdfb4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 20/22] fix: don't remember the announced address of a peer
 that already closed

---
 internal/peerfactory/peerfactory.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 268af5e..b49c0e9 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -121,7 +121,10 @@ func (pf *PeerFactory) Loop() {
 			pf.addConn(conn)
 
 		case event := <-pf.subs.PeerAnnouncedAddr.C:
-			pf.knownPeerAddrs[event.PeerRuntimeId] = event.Addr
+			// The peer might have closed by the time we process this
+			if pf.knownPeers.Includes(event.PeerRuntimeId) {
+				pf.knownPeerAddrs[event.PeerRuntimeId] = event.Addr
+			}
 
 		case event := <-pf.subs.PeerClosing.C:
 			pf.knownPeers.Remove(event.PeerRuntimeId)
-- 
2.43.0


From 128423eda56b9a4c2da318b37d6248089b8bdb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 21/22] fix: an interrupted save of the wallet must not lose
 its keys

---
 cmd/bcwallet/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/config.go b/cmd/bcwallet/config.go
index b80f79b..c44b87e 100644
--- a/cmd/bcwallet/config.go
+++ b/cmd/bcwallet/config.go
@@ -202,7 +202,12 @@ func (c *Config) Save() error {
 		return fmt.Errorf("config file is a directory: %s", getConfigPath(c.Dev))
 	}
 
-	return os.WriteFile(getConfigPath(c.Dev), rawConfig, 0600)
+	// Write elsewhere then move, so an interrupted write can't lose the keys we already had
+	path := getConfigPath(c.Dev)
+	if err := os.WriteFile(path+".tmp", rawConfig, 0600); err != nil {
+		return err
+	}
+	return os.Rename(path+".tmp", path)
 }
 
 func EnsureConfig(dev bool) {
-- 
2.43.0


From dae61b804809d61ca65062a8068ccb546ce2f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 22/22] fix: refuse to send to the same publicKeyHash twice
 instead of dropping an amount

---
 cmd/bcwallet/bcwallet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 8d4cc35..ea79e12 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -200,6 +200,9 @@ var commands = []Command{
 				if err != nil {
 					return err
 				}
+				if _, ok := dests[pkh]; ok {
+					return fmt.Errorf("publicKeyHash given more than once: %s", pkh)
+				}
 				dests[pkh] = val
 			}
 
-- 
2.43.0

