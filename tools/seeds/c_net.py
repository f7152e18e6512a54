PIPE = '''
// pipe gives two connected ends (initiator first)
func pipe(idA, idB string) (*prot.Conn, *prot.Conn) {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	setup(err)
	defer l.Close()
	ch := make(chan *prot.Conn)
	go func() {
		t, err := l.AcceptTCP()
		setup(err)
		ch <- prot.NewConn(prot.NewParams(idB, false, false), t)
	}()
	a, err := prot.ResolveConn(prot.NewParams(idA, true, false), l.Addr().String())
	setup(err)
	b := <-ch
	setup(a.Err())
	setup(b.Err())
	return a, b
}
'''
seed("coinbase-unchecked", "C12",
 [("pkg/prot/core.go", "	} else if tx.Hash() != expectId {", "	} else if !tx.IsCoinbase && tx.Hash() != expectId {")],
 """
package main

import (
	"net"

	"github.com/levilutz/basiccoin/pkg/prot"
)
""" + PIPE + """
// A transaction that is not the one requested is refused, coinbase or not.
func main() {
	a, b := pipe("a", "b")
	t1, t2 := coinbase(1, 1000, keyN(0).pkh), coinbase(1, 2000, keyN(1).pkh)
	go a.WriteTx(t1)
	b.ReadTx(t2.Hash())
	check(b.HasErr(), "a coinbase other than the requested one was accepted")
}
""",
 "a peer that answers the request for a coinbase with another coinbase",
 "content that does not match the requested id is accepted")

seed("short-id-log", "C13",
 [("pkg/prot/conn.go", """	c.WriteString("continue")
	c.peerRuntimeId = peerRuntimeId
""", """	c.WriteString("continue")
	c.peerRuntimeId = peerRuntimeId
	if c.params.Debug || c.err == nil {
		// The start of the id is enough to follow a peer through the log
		fmt.Printf("handshake with %s\\n", peerRuntimeId[:8])
	}
""")],
 """
package main

import (
	"net"

	"github.com/levilutz/basiccoin/pkg/prot"
)
""" + PIPE + """
// Any identity a peer gives is handled without aborting.
func main() {
	a, b := pipe("0123456789", "x")
	check(a.PeerRuntimeId() == "x" && b.PeerRuntimeId() == "0123456789", "ids not exchanged")
}
""",
 "a peer whose runtime id is shorter than eight characters",
 "a peer crashes the node during the handshake")

seed("same-command", "C14",
 [("internal/peer/peer.go", """	if bytes.HasPrefix(resp, []byte("cmd:")) {
		if""", """	if bytes.Equal(resp, []byte("cmd:"+command)) {
		// We both want the same, so carry it out together
		p.conn.WriteString("ack:" + command)
		p.conn.ReadStringExpected("ack:" + command)
		if p.conn.HasErr() {
			return p.conn.Err()
		}
		return handler()
	}
	if bytes.HasPrefix(resp, []byte("cmd:")) {
		if""")],
 """
package main

import (
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/peer"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
)
""" + PIPE + """
// Both ends announce an address at the same moment: each must learn the other's.
func main() {
	p := testParams()
	na, nb := newNode(p, false, nil), newNode(p, false, nil)
	ca, cb := pipe("a", "b")
	pa := peer.NewPeer(na.bus, na.inv, ca, core.HashT{})
	pb := peer.NewPeer(nb.bus, nb.inv, cb, core.HashT{})
	sa, sb := na.bus.PeerAnnouncedAddr.SubCh(), nb.bus.PeerAnnouncedAddr.SubCh()
	for i := 0; i < 8; i++ {
		na.bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: "b", Addr: "addr-a"})
		nb.bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: "a", Addr: "addr-b"})
	}
	time.Sleep(200 * time.Millisecond)
	go pa.Loop()
	go pb.Loop()
	got := 0
	for t := time.After(5 * time.Second); got < 16; {
		select {
		case e := <-sa.C:
			check(e.Addr == "addr-b", "wrong address received")
			got++
		case e := <-sb.C:
			check(e.Addr == "addr-a", "wrong address received")
			got++
		case <-t:
			check(false, "announcements made at the same moment are lost")
		}
	}
}
""",
 "both ends issuing the same command at the same moment, other than a sync",
 "both ends write and nobody reads: the commands are lost and the connection gets out of step")

seed("last-link", "C15",
 [("internal/peer/sync.go", "	for i := 0; i < len(newBlocks)-1; i++ {\n		if newBlocks[i].PrevBlockId != newBlocks[i+1].Hash() {", "	for i := 1; i < len(newBlocks)-1; i++ {\n		if newBlocks[i].PrevBlockId != newBlocks[i+1].Hash() {")],
 """
package main

import (
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/peer"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
)
""" + PIPE + """
// A peer offers a head that is not a child of the block it sends below it.
func main() {
	p := testParams()
	n := newNode(p, false, nil)
	ca, cb := pipe("a", "b")
	low := next(p, nil, keyN(0).pkh)
	elsewhere := next(p, nil, keyN(1).pkh)
	top := next(p, elsewhere, keyN(0).pkh)
	sub := n.bus.CandidateHead.SubCh()
	go peer.NewPeer(n.bus, n.inv, cb, core.HashT{}).Loop()
	ca.WriteString("cmd:sync-chain")
	ca.ReadStringExpected("ack:sync-chain")
	w := core.HashT{}.WorkAppendTarget(p.OriginalTarget).WorkAppendTarget(p.OriginalTarget)
	ca.WriteHashT(w)
	ca.WriteHashT(top.id)
	ca.ReadHashT()
	ca.ReadHashT()
	ca.WriteString("continue")
	ca.ReadStringExpected("continue")
	ca.WriteString("sync:send")
	ca.ReadStringExpected("sync:recv")
	for _, id := range []core.HashT{top.id, low.id, {}} {
		ca.WriteHashT(id)
		ca.ReadBool()
	}
	ca.WriteBlock(top.b)
	ca.WriteBlock(low.b)
	okd := ca.ReadBool()
	setup(ca.Err())
	check(!okd, "a discontinuous chain passes the first checks")
	select {
	case <-sub.C:
		check(false, "a discontinuous chain is published as candidate")
	case <-time.After(200 * time.Millisecond):
	}
}
""",
 "a hostile peer that sends a head which does not follow the block below it",
 "a discontinuous chain is accepted for download and published as a candidate")

seed("read-unfinished", "C17",
 [("pkg/disksyncmap/disksyncmap.go", """	if !dsm.fileExists(path) {
		return""", """	// Use a save that was not finished if there is nothing else
	if !dsm.fileExists(path) && dsm.fileExists(path+".tmp") {
		path += ".tmp"
	}
	if !dsm.fileExists(path) {
		return""")],
 """
package main

import (
	"os"
	"strings"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
)

// The process stops while a tree record is being written: the record is absent or right afterwards.
func main() {
	p := testParams()
	d := os.Getenv("SCRATCH") + "/save"
	v := inv.NewInv(p, &d)
	t := coinbase(1, 1000, keyN(0).pkh)
	setup(v.StoreTx(t))
	m := core.MerkleNode{LChild: t.Hash(), RChild: t.Hash()}
	setup(v.StoreMerkle(m))
	size := v.GetMerkleVSize(m.Hash())
	f := d + "/merkles/" + m.Hash().String()
	raw, err := os.ReadFile(f)
	setup(err)
	// the state a stop leaves behind when the last byte is not written yet
	setup(os.WriteFile(f+".tmp", raw[:len(raw)-1], 0666))
	setup(os.Remove(f))
	w := inv.NewInv(p, &d)
	check(!w.HasMerkle(m.Hash()) || w.GetMerkleVSize(m.Hash()) == size, "an unfinished record reads back wrong: "+strings.TrimSpace(f))
}
""",
 "a stop in the middle of writing a record, then a restart",
 "unfinished files are read back as records with wrong content")

seed("sub-id-race", "C23",
 [("pkg/topic/topic.go", """	t.mu.Lock()
	defer t.mu.Unlock()
	sub := syncqueue.NewSyncQueue[T]()
	t.subs[t.nextId] = sub
	t.nextId++
	return sub""", """	sub := syncqueue.NewSyncQueue[T]()
	t.mu.RLock()
	id := t.nextId
	t.mu.RUnlock()
	// Only hold the lock exclusively while touching the map
	t.mu.Lock()
	defer t.mu.Unlock()
	t.subs[id] = sub
	t.nextId = id + 1
	return sub""")],
 """
package main

import (
	"sync"

	"github.com/levilutz/basiccoin/pkg/topic"
)

// Subscriptions made at the same time all receive.
func main() {
	for r := 0; r < 20000; r++ {
		if r%100 == 0 {
			tp = topic.NewTopic[int]()
		}
		var subs [8]topic.Sub[int]
		var wg sync.WaitGroup
		for i := range subs {
			wg.Add(1)
			go func(i int) { subs[i] = tp.Sub(); wg.Done() }(i)
		}
		wg.Wait()
		tp.Pub(r)
		for i := range subs {
			v, ok := subs[i].Pop()
			check(ok && v == r, "a subscriber did not receive a message")
			subs[i].Close()
		}
	}
}

var tp *topic.Topic[int]
""",
 "two subscriptions made at the same moment",
 "one of two simultaneous subscriptions is lost and receives nothing")

seed("peek-then-pop", "C24",
 [("pkg/syncqueue/syncqueue.go", """func (q *SyncQueue[K]) Pop() (key K, ok bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.closed {
		return key, false
	}
	return q.q.Pop()
}""", """func (q *SyncQueue[K]) Pop() (key K, ok bool) {
	if key, ok = q.Peek(); !ok {
		return key, false
	}
	q.mu.Lock()
	defer q.mu.Unlock()
	if !q.closed {
		q.q.Pop()
	}
	return key, true
}""")],
 """
package main

import (
	"sync"

	"github.com/levilutz/basiccoin/pkg/syncqueue"
)

// Two readers never take the same item and none is lost.
func main() {
	for r := 0; r < 300; r++ {
		q := syncqueue.NewSyncQueue[int]()
		for i := 0; i < 500; i++ {
			q.Push(i)
		}
		var mu sync.Mutex
		seen := map[int]int{}
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					v, ok := q.Pop()
					if !ok {
						return
					}
					mu.Lock()
					seen[v]++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		for i := 0; i < 500; i++ {
			check(seen[i] == 1, "an item was delivered twice or lost")
		}
	}
}
""",
 "two readers popping at the same moment",
 "items are delivered twice and others lost")

seed("refuse-forgets", "C27",
 [("internal/peerfactory/peerfactory.go", """		// Try to inform them we're closing, ignore any errs
		conn""", """		// Try to inform them we're closing, ignore any errs
		pf.knownPeers.Remove(runtimeId)
		conn""")],
 """
package main

import (
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/pkg/prot"
)

// However often one node connects, only one connection is kept.
func main() {
	n := newNode(testParams(), false, nil)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	addr := l.Addr().String()
	l.Close()
	pr := peerfactory.Params{RuntimeId: "me", LocalAddr: addr, Listen: true, MaxPeers: 8, SeekNewPeersFreq: time.Hour}
	pf := peerfactory.NewPeerFactory(pr, n.bus, n.inv)
	go pf.Loop()
	time.Sleep(300 * time.Millisecond)
	kept := 0
	for i := 0; i < 3; i++ {
		c, err := prot.ResolveConn(prot.NewParams("other", true, false), addr)
		setup(err)
		setup(c.Err())
		time.Sleep(300 * time.Millisecond)
		if m := string(c.ReadTimeout(2 * time.Second)); m == "cmd:announce-addr" {
			kept++
		}
	}
	check(kept == 1, "several connections of one node are kept")
}
""",
 "a node that connects three times",
 "the refusal of a duplicate forgets the kept peer, so the next duplicate is kept too")

seed("password-case", "C28",
 [("internal/rest/server.go", """			if givenPw != s.params.Password {
				fmt.Println(givenPw)
""", """			if !strings.EqualFold(givenPw, s.params.Password) {
				fmt.Println(givenPw)
"""), ("internal/rest/server.go", """	"net/http"
""", """	"net/http"
	"strings"
""")],
 """
package main

import (
	"fmt"
	"net"
	"net/http"
	"time"

	"github.com/levilutz/basiccoin/internal/rest"
)

// Only the configured password opens the administrative endpoints.
func main() {
	n := newNode(testParams(), false, nil)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	var pr rest.Params
	pr.Port, pr.EnableAdmin, pr.Password = port, true, "SeCret"
	term := n.bus.Terminate.SubCh()
	go rest.NewServer(pr, n.bus, n.inv).Start()
	time.Sleep(300 * time.Millisecond)
	rq, err := http.NewRequest("POST", fmt.Sprintf("http://127.0.0.1:%d/admin/terminate", port), nil)
	setup(err)
	rq.Header.Set("Pw", "secret")
	rs, err := http.DefaultClient.Do(rq)
	setup(err)
	check(rs.StatusCode == 401, "another password is let in")
	select {
	case <-term.C:
		check(false, "another password terminates the node")
	case <-time.After(200 * time.Millisecond):
	}
}
""",
 "a request whose password differs in case only",
 "a wrong password opens the administrative endpoints")

seed("richlist-width", "C33",
 [("internal/rest/client/wallet.go", """fmt.Sprintf("?maxLen=%d", maxLen)""", """fmt.Sprintf("?maxLen=%d", uint32(maxLen))""")],
 """
package main

import (
	"fmt"
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/rest/client"
)

// A very large list length reaches the node as it is.
func main() {
	p := testParams()
	n := newNode(p, false, nil)
	n.adopt(next(p, nil, keyN(0).pkh))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	var pr rest.Params
	pr.Port, pr.EnableWallet, pr.Version = port, true, "v"
	go rest.NewServer(pr, n.bus, n.inv).Start()
	time.Sleep(300 * time.Millisecond)
	c, err := client.NewWalletClient(fmt.Sprintf("http://127.0.0.1:%d", port), "v")
	setup(err)
	r, err := c.GetRichList(1 << 32)
	setup(err)
	check(len(r) == 1, "the list length was changed on its way")
}
""",
 "a list length of 2^32 or more",
 "the requested length is truncated")
