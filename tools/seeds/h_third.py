seed("password-prefix", "C28",
 [("internal/rest/server.go", """			givenPw := r.Header.Get("Pw")
			if givenPw != s.params.Password {
""", """			givenPw := r.Header.Get("Pw")
			// Compare all bytes, so the time taken doesn't tell how far the guess is right
			diff := byte(0)
			for i := 0; i < len(givenPw); i++ {
				diff |= givenPw[i] ^ s.params.Password[i%len(s.params.Password)]
			}
			if diff != 0 {
""")],
 """
package main

import (
	"fmt"
	"net"
	"net/http"
	"time"

	"github.com/levilutz/basiccoin/internal/rest"
)

// Only the configured password opens the administrative endpoints.
func main() {
	n := newNode(testParams(), false, nil)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	var pr rest.Params
	pr.Port, pr.EnableAdmin, pr.Password = port, true, "SeCret"
	go rest.NewServer(pr, n.bus, n.inv).Start()
	time.Sleep(300 * time.Millisecond)
	for _, pw := range []string{"S", "SeCre", "secret", "SeCretS"} {
		rq, err := http.NewRequest("POST", fmt.Sprintf("http://127.0.0.1:%d/admin/terminate", port), nil)
		setup(err)
		rq.Header.Set("Pw", pw)
		rs, err := http.DefaultClient.Do(rq)
		setup(err)
		check(rs.StatusCode == 401, "another password is let in")
	}
}
""",
 "a password that is the beginning of the right one, or the right one with its beginning repeated",
 "wrong passwords open the administrative endpoints")

seed("minblock-sign", "C29",
 [("internal/chain/state.go", """	if height+1 < tx.MinBlock {
""", """	if int64(height)+1 < int64(tx.MinBlock) {
"""), ("internal/chain/state.go", """		if height < tx.MinBlock {
""", """		if int64(height) < int64(tx.MinBlock) {
""")],
 """
package main

// A transaction is not included before its minimum block.
func main() {
	p := testParams()
	k := keyN(0)
	n := newNode(p, true, nil)
	b1 := next(p, nil, k.pkh)
	n.adopt(b1)
	t := payN(k, 1<<63, []coreUtxo{utxoOf(b1.txs[0], 0)}, out(500, keyN(1).pkh))
	n.offerTx(t)
	check(len(n.target().TxIds) == 0, "a transaction is offered to miners before its minimum block")
	b2 := next(p, b1, k.pkh, t)
	n.offer(b2.id, b2)
	check(n.head() == b1.id, "a block with a transaction before its minimum block is adopted")
}
""".replace("package main", "package main\n\nimport \"github.com/levilutz/basiccoin/pkg/core\"\n\ntype coreUtxo = core.Utxo"),
 "a minimum block of 2^63 or more (two sites cooperate)",
 "such transactions can be included at once")

seed("divide-first", "C08",
 [("pkg/core/difficulty.go", """	targetInt.Mul(targetInt, actualInt)
	targetInt.Div(targetInt, desiredInt)
""", """	targetInt.Div(targetInt, desiredInt)
	targetInt.Mul(targetInt, actualInt)
""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// The next target is the last one times actual over desired time.
func main() {
	p := testParams()
	p.OriginalTarget = core.NewHashTFromStringAssert("0400000000000000000000000000000000000000000000000000000000000001")
	n := newNode(p, false, nil)
	var b *blk
	for h := uint64(1); h <= 3; h++ {
		b = rawBlock(b, p.OriginalTarget, start+10*h, []core.Tx{coinbase(h, p.BlockReward, keyN(0).pkh)})
	}
	n.adopt(b)
	// Two blocks in the desired time
	check(core.NextTarget(p, n.inv, b.id) == p.OriginalTarget, "blocks in the desired time change the target")
}
""",
 "a target that is not a multiple of the desired time of a period",
 "the next target is rounded before it is scaled, so it differs from what other nodes compute")

seed("huge-index", "C07",
 [("internal/inv/inv.go", "	return ind < uint64(len(inv.GetTx(txId).Outputs))", "	return int(ind) < len(inv.GetTx(txId).Outputs)")],
 """
package main

import "time"

// A transaction that names an output which does not exist is refused.
func main() {
	p := testParams()
	k := keyN(0)
	n := newNode(p, false, nil)
	b1 := next(p, nil, k.pkh)
	n.adopt(b1)
	u := utxoOf(b1.txs[0], 0)
	u.Ind = 1 << 63
	within(3*time.Second, "a transaction is not answered", func() {
		check(n.offerTx(pay(k, u, out(500, keyN(1).pkh))) != nil, "a transaction that spends nothing is accepted")
	})
	check(n.height() == 1, "the chain does not answer")
}
""",
 "an input whose index is 2^63 or more",
 "such a transaction stops the node")

seed("first-too-big", "C21",
 [("internal/chain/target.go", """		if totalSize+vSize > c.inv.GetCoreParams().MaxBlockVSize {
			continue
		}""", """		if totalSize+vSize > c.inv.GetCoreParams().MaxBlockVSize {
			break
		}""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// A transaction that still fits is offered, even if a better paying one did not fit.
func main() {
	p := testParams()
	k := keyN(0)
	b3 := chainOf(p, nil, 3, k.pkh)
	big := payN(k, 0, []core.Utxo{utxoOf(b3.txs[0], 0), utxoOf(b3.prev.txs[0], 0)}, out(100, keyN(1).pkh))
	small := pay(k, utxoOf(b3.prev.prev.txs[0], 0), out(900, keyN(1).pkh))
	p.MaxBlockVSize = core.CoinbaseVSize() + small.VSize() + 20
	n := newNode(p, true, nil)
	n.adopt(b3)
	check(n.offerTx(big) == nil && n.offerTx(small) == nil, "setup: payments refused")
	t := n.target()
	check(len(t.TxIds) == 1 && t.TxIds[0] == small.Hash(), "a transaction that fits is not offered")
}
""",
 "a pending transaction that does not fit and pays better than one that does",
 "the blocks offered to miners stay emptier than they could be")

seed("closed-unlocked", "C24",
 [("pkg/syncqueue/syncqueue.go", """func (q *SyncQueue[K]) Pop() (key K, ok bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.closed {
		return key, false
	}
""", """func (q *SyncQueue[K]) Pop() (key K, ok bool) {
	// Don't compete for the lock once closed
	if q.Closed() {
		return key, false
	}
	q.mu.Lock()
	defer q.mu.Unlock()
""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/syncqueue"

// Closing a queue while it is read is safe.
func main() {
	for i := 0; i < 300000; i++ {
		q := syncqueue.NewSyncQueue[int](1, 2, 3, 4, 5, 6)
		started := make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() { check(recover() == nil, "reading a queue while it is closed fails") }()
			close(started)
			for _, ok := q.Pop(); ok; _, ok = q.Pop() {
			}
		}()
		<-started
		q.Close()
		<-done
	}
}
""",
 "a queue closed between the two steps of a read",
 "the reader panics")

seed("alternatives-self", "C27",
 [("pkg/prot/conn.go", """			for runtimeId, addr := range alternatives {
				c.WriteString""", """			for runtimeId, addr := range alternatives {
				if runtimeId == c.peerRuntimeId {
					continue // It knows its own address
				}
				c.WriteString""")],
 """
package main

import (
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/pkg/prot"
)

// A refused node gets the known addresses and is told to close.
func main() {
	n := newNode(testParams(), false, nil)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	addr := l.Addr().String()
	l.Close()
	pr := peerfactory.Params{RuntimeId: "me", LocalAddr: addr, Listen: true, MaxPeers: 4, SeekNewPeersFreq: time.Hour}
	pf := peerfactory.NewPeerFactory(pr, n.bus, n.inv)
	go pf.Loop()
	time.Sleep(300 * time.Millisecond)
	a, err := prot.ResolveConn(prot.NewParams("twice", true, false), addr)
	setup(err)
	a.ReadStringExpected("cmd:announce-addr")
	a.WriteString("ack:announce-addr")
	a.ReadString()
	a.WriteString("cmd:announce-addr")
	a.ReadStringExpected("ack:announce-addr")
	a.WriteString("here:1")
	time.Sleep(500 * time.Millisecond)
	setup(a.Err())
	b, err := prot.ResolveConn(prot.NewParams("twice", true, false), addr)
	setup(err)
	b.ReadStringExpected("cmd:peer-addrs")
	num := b.ReadUint64()
	setup(b.Err())
	for i := uint64(0); i < num; i++ {
		id, where := b.ReadString(), b.ReadString()
		check(b.Err() == nil && id == "twice" && where == "here:1", "a refused node does not get the addresses promised")
	}
	b.ReadStringExpected("cmd:close")
	check(b.Err() == nil, "a refused node is not told to close")
}
""",
 "a node that connects again after its address became known",
 "the refusal promises more addresses than it sends, so the close is read as an address")

seed("restart-early", "C18",
 [("internal/chain/chain.go", """	subs := &subscriptions{
		CandidateHead:   msgBus.CandidateHead.SubCh(),
""", """	if saveDir != nil {
		// Nothing to do for a head that is known to the inventory only in part
		if head, err := loadHeadFromFile(saveDir); err == nil && inv.HasBlock(*head) {
			if (inv.GetBlockHeight(*head)+1)%inv.GetCoreParams().DifficultyPeriod == 0 {
				// Don't resume between two periods, get the rest from our peers
				saveDir = nil
			}
		}
	}
	subs := &subscriptions{
		CandidateHead:   msgBus.CandidateHead.SubCh(),
""")],
 """
package main

import "os"

// A restarted node has the head it had.
func main() {
	p := testParams()
	dir, err := os.MkdirTemp(os.Getenv("SCRATCH"), "r")
	setup(err)
	n := newNode(p, false, &dir)
	b := chainOf(p, nil, 3, keyN(0).pkh)
	n.adopt(b)
	m := newNode(p, false, &dir)
	check(m.height() == 3 || func() bool { m.head(); return m.height() == 3 }(), "a restarted node does not have its head")
}
""",
 "a restart when the last block of a period is the head",
 "the node starts from nothing and does not save any more")
