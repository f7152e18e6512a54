seed("late-joiner", "C35",
 [("internal/peerfactory/peerfactory.go", """		case event := <-pf.subs.ValidatedHead.C:
			pf.curHead = event.Head
""", """		case event := <-pf.subs.ValidatedHead.C:
			// While we have peers, they follow the head themselves
			if pf.knownPeers.Size() == 0 {
				pf.curHead = event.Head
			}
""")],
 """
package main

import (
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/peerfactory"
)

func addr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	defer l.Close()
	return l.Addr().String()
}

func join(n *node, id, own string, seeds ...string) *peerfactory.PeerFactory {
	pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: own, MinPeers: 1, MaxPeers: 4, RuntimeId: id, SeekNewPeersFreq: time.Hour}, n.bus, n.inv)
	pf.SetSeeds(seeds)
	return pf
}

// A node that joins takes over the chain found before.
func main() {
	p := testParams()
	a, b, c := newNode(p, false, nil), newNode(p, false, nil), newNode(p, false, nil)
	own := addr()
	fa := join(a, "a", own)
	b1 := next(p, nil, keyN(1).pkh)
	a.adopt(b1)
	go fa.Loop()
	time.Sleep(300 * time.Millisecond)
	go join(b, "b", addr(), own).Loop()
	time.Sleep(1500 * time.Millisecond)
	check(b.height() == 1, "a node that joins does not take over the chain")
	b2 := next(p, b1, keyN(1).pkh)
	a.offer(b2.id, b2)
	time.Sleep(1500 * time.Millisecond)
	check(b.height() == 2, "a block does not reach a peer")
	go join(c, "c", addr(), own).Loop()
	time.Sleep(2500 * time.Millisecond)
	check(c.height() == 2, "a node that joins later does not get the newest block")
}
""",
 "a node joins a node that had peers already when its head changed",
 "a joining node is offered an old chain")

seed("relay-foreign", "C35",
 [("internal/peer/handlers.go", """	p.bus.CandidateTx.Pub(bus.CandidateTxEvent{
		Tx: tx,
	})
""", """	p.relayed.Add(txId)
	p.bus.CandidateTx.Pub(bus.CandidateTxEvent{
		Tx: tx,
	})
"""),
  ("internal/peer/peer.go", """	shouldClose bool
	curHead     core.HashT
}""", """	shouldClose bool
	curHead     core.HashT
	relayed     *set.Set[core.HashT] // txs this peer sent us, which it doesn't need back
}"""),
  ("internal/peer/peer.go", """		curHead:     curHead,
""", """		curHead:     curHead,
		relayed:     relayed,
"""),
  ("internal/peer/peer.go", """// Create a new peer given a message bus instance.
""", """var relayed = set.NewSet[core.HashT]()

// Create a new peer given a message bus instance.
"""),
  ("internal/peer/peer.go", """		case event := <-p.subs.ValidatedTx.C:
""", """		case event := <-p.subs.ValidatedTx.C:
			if p.relayed.Includes(event.TxId) {
				continue
			}
"""),
  ("internal/peer/peer.go", """	"github.com/levilutz/basiccoin/pkg/prot"
""", """	"github.com/levilutz/basiccoin/pkg/prot"
	"github.com/levilutz/basiccoin/pkg/set"
""")],
 """
package main

import (
	"net"
	"os"
	"os/exec"
	"time"

	"github.com/levilutz/basiccoin/internal/peerfactory"
)

func addr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	defer l.Close()
	return l.Addr().String()
}

func factory(n *node, id, own string, seeds ...string) {
	pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: own, MinPeers: 1, MaxPeers: 4, RuntimeId: id, SeekNewPeersFreq: time.Hour}, n.bus, n.inv)
	pf.SetSeeds(seeds)
	go pf.Loop()
	time.Sleep(1500 * time.Millisecond)
}

// A transaction reaches a node's peer over the node in between; each node is a process of its own.
func main() {
	p := testParams()
	k := keyN(0)
	if len(os.Args) > 1 { // the node in between
		factory(newNode(p, false, nil), "b", os.Args[1], os.Args[2])
		time.Sleep(60 * time.Second)
		return
	}
	a, c := newNode(p, false, nil), newNode(p, false, nil)
	addrA, addrB := addr(), addr()
	factory(a, "a", addrA)
	self, err := os.Executable()
	setup(err)
	b := exec.Command(self, addrB, addrA)
	setup(b.Start())
	defer b.Process.Kill()
	time.Sleep(2 * time.Second)
	factory(c, "c", addr(), addrB)
	b1 := mined(p, k)
	a.offer(b1.id, b1)
	time.Sleep(2 * time.Second)
	good := c.height() == 1
	t := pay(k, utxoOf(b1.txs[0], 0), out(5, k.pkh))
	good = good && a.offerTx(t) == nil
	time.Sleep(2 * time.Second)
	_, has := c.confirms(t.Hash())[t.Hash()]
	b.Process.Kill()
	check(good, "setup: the chain is not relayed")
	check(has, "a transaction is not relayed")
}
// mined: the origin block
func mined(p coreP, k key) *blk { return next(p, nil, k.pkh) }
""".replace("coreP", "core.Params").replace('''	"github.com/levilutz/basiccoin/internal/peerfactory"
''', '''	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/pkg/core"
'''),
 "a transaction that has to be relayed by a node between two others (the set of received transactions is shared by all of a node's peers)",
 "nodes do not relay transactions they got from a peer")
