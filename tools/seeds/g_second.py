seed("median-of-six", "C06",
 [("pkg/core/verify.go", "v.inv.GetBlockAncestors(b.PrevBlockId, 4)...)", "v.inv.GetBlockAncestors(b.PrevBlockId, 5)...)")],
 """
package main

import "github.com/levilutz/basiccoin/internal/inv"

// A block not later than the median of the five blocks below it is refused.
func main() {
	p := testParams()
	p.DifficultyPeriod = 100
	v := inv.NewInv(p, nil)
	b6 := chainOf(p, nil, 6, keyN(0).pkh)
	store(v, b6)
	c := []coreTx{coinbase(7, p.BlockReward, keyN(0).pkh)}
	// Times are ten apart, so the median of blocks 2 to 6 is that of block 4
	check(storeTop(v, rawBlock(b6, p.OriginalTarget, timeAt(4)-2, c)) != nil, "a block before the median is accepted")
	check(storeTop(v, rawBlock(b6, p.OriginalTarget, timeAt(4), c)) != nil, "a block at the median is accepted")
	check(storeTop(v, rawBlock(b6, p.OriginalTarget, timeAt(4)+1, c)) == nil, "a block after the median is refused")
}
""".replace('import "github.com/levilutz/basiccoin/internal/inv"', 'import (\n\t"github.com/levilutz/basiccoin/internal/inv"\n\t"github.com/levilutz/basiccoin/pkg/core"\n)\n\ntype coreTx = core.Tx'),
 "a block with at least six ancestors, timed between the medians of the last five and the last six",
 "the median is taken over six blocks, so a block not later than that of the last five is accepted")

seed("sig-once-per-key", "C03",
 [("pkg/core/verify.go", """	for _, txi := range tx.Inputs {
		valid, err""", """	checked := set.NewSet[string]()
	for _, txi := range tx.Inputs {
		// A key signs the same hash for each of its inputs, so checking it once is enough
		if checked.Includes(string(txi.PublicKey)) {
			continue
		}
		checked.Add(string(txi.PublicKey))
		valid, err""")],
 """
package main

// Each input has to carry a valid signature.
func main() {
	p := testParams()
	k := keyN(0)
	n := newNode(p, false, nil)
	b2 := chainOf(p, nil, 2, k.pkh)
	n.adopt(b2)
	tx := payN(k, 0, []coreUtxo{utxoOf(b2.txs[0], 0), utxoOf(b2.prev.txs[0], 0)}, out(1500, keyN(1).pkh))
	bad := tx
	bad.Inputs = append(tx.Inputs[:1:1], tx.Inputs[1])
	bad.Inputs[1].Signature = []byte("anything")
	check(n.offerTx(bad) != nil, "a transaction whose second signature is not valid is accepted")
	check(n.offerTx(tx) == nil, "a well signed transaction is refused")
}
""".replace("package main", "package main\n\nimport \"github.com/levilutz/basiccoin/pkg/core\"\n\ntype coreUtxo = core.Utxo"),
 "a transaction with two inputs of the same key, the second with a signature that is not valid",
 "inputs without a valid signature are accepted; anyone can alter the id of a payment")

seed("rewind-rate", "C21",
 [("internal/chain/state.go", """		s.mempool.Add(txId)
		s.mempoolRates[txId] = tx.Rate()
		for _, utxo := range tx.GetConsumedUtxos() {
			if _, ok := s.mempoolUtxoSpends[utxo]; !ok {
				s.mempoolUtxoSpends[utxo] = set.NewSet[core.HashT]()
			}
			s.mempoolUtxoSpends[utxo].Add(txId)
		}
		// Return""", """		s.mempool.Add(txId)
		for _, utxo := range tx.GetConsumedUtxos() {
			if _, ok := s.mempoolUtxoSpends[utxo]; !ok {
				s.mempoolUtxoSpends[utxo] = set.NewSet[core.HashT]()
			}
			s.mempoolUtxoSpends[utxo].Add(txId)
		}
		// Return""")],
 """
package main

// Miners are offered the best paying transactions first, also after a reorganisation.
func main() {
	p := testParams()
	k := keyN(0)
	n := newNode(p, true, nil)
	b2 := chainOf(p, nil, 2, k.pkh)
	n.adopt(b2)
	high := pay(k, utxoOf(b2.txs[0], 0), out(500, keyN(1).pkh))
	low := pay(k, utxoOf(b2.prev.txs[0], 0), out(990, keyN(1).pkh))
	b3 := next(p, b2, keyN(2).pkh, high)
	n.offer(b3.id, b3)
	check(n.offerTx(low) == nil, "setup: payment refused")
	c3 := next(p, b2, keyN(3).pkh)
	c4 := next(p, c3, keyN(3).pkh)
	n.offer(c4.id, c3, c4)
	check(n.head() == c4.id, "setup: branch not adopted")
	t := n.target()
	check(t.Head == c4.id && len(t.TxIds) == 2, "both payments are offered")
	check(t.TxIds[0] == high.Hash(), "the better paying transaction does not come first")
}
""",
 "a reorganisation that displaces a payment while another one is pending",
 "displaced transactions count as paying nothing when mining candidates are chosen")

seed("reverse-in-place", "C25",
 [("pkg/util/util.go", """	out := make([]K, len(ls))
	for i, item := range ls {
		out[len(ls)-i-1] = item
	}
	return out""", """	for i := 0; i < len(ls)/2; i++ {
		ls[i], ls[len(ls)-i-1] = ls[len(ls)-i-1], ls[i]
	}
	return ls""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/util"

// Reversing gives a new list and leaves the given one.
func main() {
	l := []int{1, 2, 3}
	r := util.Reverse(l)
	check(r[0] == 3 && r[1] == 2 && r[2] == 1, "not reversed")
	check(l[0] == 1 && l[1] == 2 && l[2] == 3, "the given list is changed")
}
""",
 "a caller that uses its list after reversing it",
 "reversing changes the given list")

seed("sub-id-count", "C23",
 [("pkg/topic/topic.go", """	t.subs[t.nextId] = sub
	t.nextId++
""", """	t.subs[uint64(len(t.subs))] = sub
"""), ("pkg/topic/topic.go", """	mu     sync.RWMutex
	subs   map[uint64]*syncqueue.SyncQueue[T]
	nextId uint64
""", """	mu   sync.RWMutex
	subs map[uint64]*syncqueue.SyncQueue[T]
""")],
 """
package main

import (
	"time"

	"github.com/levilutz/basiccoin/pkg/topic"
)

// A live subscription gets every message, whoever else leaves or joins.
func main() {
	t := topic.NewTopic[int]()
	a, b := t.Sub(), t.Sub()
	a.Close()
	time.Sleep(16 * time.Second)
	c := t.Sub()
	t.Pub(7)
	for _, s := range []topic.Sub[int]{b, c} {
		m, ok := s.Pop()
		check(ok && m == 7, "a live subscription misses a message")
	}
}
""",
 "a subscription closed and collected, which happens every 15 s, then a new one",
 "the new subscription takes the place of a live one, which gets nothing more")

seed("anonymous-slot", "C27",
 [("internal/peerfactory/peerfactory.go", """			pf.knownPeers.Remove(event.PeerRuntimeId)
			delete(pf.knownPeerAddrs, event.PeerRuntimeId)
""", """			if _, ok := pf.knownPeerAddrs[event.PeerRuntimeId]; ok {
				pf.knownPeers.Remove(event.PeerRuntimeId)
				delete(pf.knownPeerAddrs, event.PeerRuntimeId)
			}
""")],
 """
package main

import (
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/pkg/prot"
)

// A peer that left frees its place, whether it announced an address or not.
func main() {
	n := newNode(testParams(), false, nil)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	addr := l.Addr().String()
	l.Close()
	pr := peerfactory.Params{RuntimeId: "me", LocalAddr: addr, Listen: true, MaxPeers: 1, SeekNewPeersFreq: time.Hour}
	pf := peerfactory.NewPeerFactory(pr, n.bus, n.inv)
	go pf.Loop()
	time.Sleep(300 * time.Millisecond)
	for _, id := range []string{"one", "two"} {
		c, err := prot.ResolveConn(prot.NewParams(id, true, false), addr)
		setup(err)
		setup(c.Err())
		m := string(c.ReadTimeout(2 * time.Second))
		if m == "cmd:sync-chain" {
			m = string(c.ReadTimeout(2 * time.Second))
		}
		check(m == "cmd:announce-addr", "a peer is refused although there is room")
		c.WriteString("cmd:close")
		time.Sleep(time.Second)
	}
}
""",
 "a peer that does not listen connects and leaves, then another connects to a node without room for two",
 "places of peers that never announced an address are never freed")

seed("richlist-base", "C28",
 [("internal/rest/wallet.go", "strconv.ParseUint(maxLenStr[0], 10, 64)", "strconv.ParseUint(maxLenStr[0], 0, 64)")],
 """
package main

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/rest"
)

// A length is a decimal number.
func main() {
	p := testParams()
	n := newNode(p, false, nil)
	var b *blk
	for i := 0; i < 12; i++ {
		k := keyN(0).pkh
		b = next(p, b, k.Next())
		for j := 0; j < i; j++ {
			k = k.Next()
		}
		if b.prev != nil {
			b = next(p, b.prev, k)
		} else {
			b = next(p, nil, k)
		}
	}
	n.adopt(b)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	var pr rest.Params
	pr.Port, pr.EnableWallet = port, true
	go rest.NewServer(pr, n.bus, n.inv).Start()
	time.Sleep(300 * time.Millisecond)
	rs, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/wallet/richlist?maxLen=010", port))
	setup(err)
	body, err := io.ReadAll(rs.Body)
	setup(err)
	check(rs.StatusCode == 200 && strings.Count(string(body), ":") == 11, "another number of entries than asked for")
}
""".replace("""		k := keyN(0).pkh
		b = next(p, b, k.Next())
		for j := 0; j < i; j++ {
			k = k.Next()
		}
		if b.prev != nil {
			b = next(p, b.prev, k)
		} else {
			b = next(p, nil, k)
		}
""", """		b = next(p, b, core.DHashBytes([]byte{byte(i)}))
""").replace("""internal/rest"
""", """internal/rest"
	"github.com/levilutz/basiccoin/pkg/core"
"""),
 "a length written with a leading zero (or in another base)",
 "such lengths are read in another base")

seed("tie-by-hash", "C04",
 [("internal/chain/chain.go", """	if !curWork.Lt(newWork) {
""", """	if newWork.Lt(curWork) || (newWork.Eq(curWork) && !event.Head.Lt(curHead)) {
""")],
 """
package main

// A chain of the same work does not replace the current one.
func main() {
	p := testParams()
	n := newNode(p, false, nil)
	a := next(p, nil, keyN(0).pkh)
	b := next(p, nil, keyN(1).pkh)
	if a.id.Lt(b.id) {
		a, b = b, a
	}
	n.adopt(a)
	n.offer(b.id, b)
	check(n.head() == a.id, "a chain of no more work is adopted")
}
""",
 "a competing chain of exactly the same work whose head has the lower id",
 "a chain that does not have more work is adopted")

seed("reorg-back", "C05",
 [("internal/chain/state.go", """		delete(s.includedTxBlocks, txId)
	}
	s.head = rBlock""", """		if !tx.IsCoinbase { // A coinbase belongs to its block for good
			delete(s.includedTxBlocks, txId)
		}
	}
	s.head = rBlock""")],
 """
package main

// The node follows the heaviest chain back to a branch it left.
func main() {
	p := testParams()
	n := newNode(p, false, nil)
	a1 := next(p, nil, keyN(0).pkh)
	n.adopt(a1)
	b1 := next(p, nil, keyN(1).pkh)
	b2 := next(p, b1, keyN(1).pkh)
	n.offer(b2.id, b1, b2)
	check(n.head() == b2.id, "setup: branch not adopted")
	a2 := next(p, a1, keyN(0).pkh)
	a3 := next(p, a2, keyN(0).pkh)
	n.offer(a3.id, a2, a3)
	check(n.head() == a3.id, "the node does not return to a branch that became heavier")
	bal := n.balances(keyN(0).pkh, keyN(1).pkh)
	check(bal[keyN(0).pkh] == 3000 && bal[keyN(1).pkh] == 0, "wrong balances")
}
""",
 "a reorganisation, then one back to the branch that was left",
 "the coinbase of a left branch stays recorded as included; the branch cannot be adopted again")

seed("work-from-head", "C15",
 [("internal/peer/sync.go", "	newWork := p.inv.GetBlockTotalWork(lcaId)\n", "	newWork := p.inv.GetBlockTotalWork(p.curHead)\n")],
 """
package main

import (
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/peer"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
)
""" + PIPE + """
// A peer claims more work than the fork it sends has.
func main() {
	p := testParams()
	n := newNode(p, false, nil)
	a3 := chainOf(p, nil, 3, keyN(0).pkh)
	n.adopt(a3)
	ca, cb := pipe("a", "b")
	fork := next(p, a3.prev.prev, keyN(1).pkh)
	sub := n.bus.CandidateHead.SubCh()
	go peer.NewPeer(n.bus, n.inv, cb, a3.id).Loop()
	ca.WriteString("cmd:sync-chain")
	ca.ReadStringExpected("ack:sync-chain")
	w := core.HashT{}
	for i := 0; i < 9; i++ {
		w = w.WorkAppendTarget(p.OriginalTarget)
	}
	ca.WriteHashT(w)
	ca.WriteHashT(fork.id)
	ca.ReadHashT()
	ca.ReadHashT()
	ca.WriteString("continue")
	ca.ReadStringExpected("continue")
	ca.WriteString("sync:send")
	ca.ReadStringExpected("sync:recv")
	for _, id := range []core.HashT{fork.id, a3.prev.prev.id} {
		ca.WriteHashT(id)
		ca.ReadBool()
	}
	ca.WriteBlock(fork.b)
	okd := ca.ReadBool()
	setup(ca.Err())
	check(!okd, "a chain of less work passes the first checks")
	select {
	case <-sub.C:
		check(false, "a chain of less work is published as candidate")
	case <-time.After(200 * time.Millisecond):
	}
}
""",
 "a hostile peer that claims more work than the fork it sends, from below our head, has",
 "the work of a received fork is counted on top of our own chain")

NODE = '''
var dir string

// node starts the program
func program(args ...string) *exec.Cmd {
	c := exec.Command(dir+"/bcnode", args...)
	setup(c.Start())
	return c
}

func build() {
	var err error
	dir, err = os.MkdirTemp(os.Getenv("SCRATCH"), "n")
	setup(err)
	setup(exec.Command("go", "build", "-buildvcs=false", "-o", dir+"/bcnode", "./cmd/bcnode").Run())
}

func port() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}
'''
seed("http-kinds-swapped", "C36",
 [("cmd/bcnode/bcnode.go", """			flags.HttpAdminEnabled,
			flags.HttpWalletEnabled,
			flags.HttpAdminPw,
""", """			flags.HttpWalletEnabled,
			flags.HttpAdminEnabled,
			flags.HttpAdminPw,
""")],
 """
package main

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"time"
)
""" + NODE + """
// With -http-wallet alone there are wallet endpoints and no administrative ones.
func main() {
	build()
	p := port()
	c := program("-dev", "-http", fmt.Sprint(p), "-http-wallet")
	defer c.Process.Kill()
	good := false
	for i := 0; i < 50 && !good; i++ {
		time.Sleep(100 * time.Millisecond)
		if rs, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/version", p)); err == nil {
			good = rs.StatusCode == 200
		}
	}
	w, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/wallet/head/height", p))
	a, err2 := http.Post(fmt.Sprintf("http://127.0.0.1:%d/admin/terminate", p), "", nil)
	c.Process.Kill()
	check(good && err == nil && err2 == nil, "no http server")
	check(w.StatusCode == 200, "the wallet endpoints were enabled but are not there")
	check(a.StatusCode == 404, "the administrative endpoints are there though not enabled")
}
""",
 "exactly one of the two kinds of endpoints enabled",
 "enabling the wallet endpoints opens the administrative ones instead")

seed("seeds-for-new-network", "C36",
 [("cmd/bcnode/flags.go", """	if *newNetwork || (*seedAddrs == "" && *dev) {
		seedAddrsList = []string{}
	} else if *seedAddrs != "" {
		seedAddrsList = strings.Split(*seedAddrs, ",")
	} else {""", """	if *seedAddrs != "" {
		seedAddrsList = strings.Split(*seedAddrs, ",")
	} else if *newNetwork || *dev {
		seedAddrsList = []string{}
	} else {""")],
 """
package main

import (
	"net"
	"os"
	"os/exec"
	"time"
)
""" + NODE + """
// A node that starts a new network joins none.
func main() {
	build()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	joined := make(chan struct{})
	go func() {
		if _, err := l.Accept(); err == nil {
			close(joined)
		}
	}()
	c := program("-new-network", "-seeds", l.Addr().String())
	var in bool
	select {
	case <-joined:
		in = true
	case <-time.After(3 * time.Second):
	}
	c.Process.Kill()
	check(!in, "a node started for a new network connects to the given seeds")
}
""",
 "both -new-network and -seeds",
 "a node that was to start a new network joins another")
