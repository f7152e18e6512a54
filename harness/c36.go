package zharness

import (
	"flag"
	"net"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/internal/rest/client"
	"github.com/levilutz/basiccoin/internal/zbcnode"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// program: the node program, started with arguments
type program struct {
	url   string
	ended bool
}

func portOf(addr string) string {
	_, port, err := net.SplitHostPort(addr)
	setup(err)
	return port
}

func bcnode(args ...string) *program {
	zverif.SetNow(baseTime + 1000)
	port := portOf(zverif.FreeAddr())
	r := &program{url: "http://127.0.0.1:" + port}
	os.Args = append([]string{"bcnode", "-http", port}, args...)
	flag.CommandLine = flag.NewFlagSet("bcnode", flag.PanicOnError)
	go func() {
		defer func() {
			recover()
			r.ended = true
		}()
		zbcnode.ZMain()
	}()
	time.Sleep(time.Second)
	zverif.Settle()
	return r
}

func onOff(args []string, name string) ([]string, bool) {
	on := zverif.Bool(name)
	if on {
		args = append(args, "-"+name)
	}
	return args, on
}

// The program serves exactly the interfaces it is told to, on the given port, under the version of its network, and ends when and only when told so with the password.
// bounds: both networks, each interface on and off, passwords and given passwords of 0..2 bytes
// reach: off wallet admin ended refused
func C36_http() {
	args, dev := onOff([]string{"-new-network"}, "dev")
	args, admin := onOff(args, "http-admin")
	args, wallet := onOff(args, "http-wallet")
	pw := zverif.Str("password", zverif.Int("password length", 0, 2))
	r := bcnode(append(args, "-admin-pw", pw)...)
	ok(!r.ended, "the program does not start")
	version, other := "v0.0.0", "v0.0.0-dev"
	if dev {
		version, other = other, version
	}
	c, err := client.NewWalletClient(r.url, version)
	ok((err == nil) == (admin || wallet), "the interface is served although it is off, or not served although it is on")
	_, err = client.NewWalletClient(r.url, other)
	ok(err != nil, "the program poses as one of another network")
	if !admin && !wallet {
		zverif.Reach("off")
		return
	}
	h, err := c.GetHeadHeight()
	ok((err == nil) == wallet && h == 0, "the wallet interface is not as told")
	if wallet {
		zverif.Reach("wallet")
	}
	given := pw
	if zverif.Bool("other password") {
		given = zverif.Str("given", zverif.Int("given length", 0, 2))
	}
	head := http.Header{}
	head.Set("Pw", given)
	code, _ := request("POST", "/admin/terminate", "", head, nil)
	zverif.Settle()
	ok((code != 0) == admin, "the administrative interface is not as told")
	if !admin {
		ok(!r.ended, "a program without administration is ended")
		return
	}
	zverif.Reach("admin")
	if pw == "" || pw == given {
		ok(code == 200 && r.ended, "the program does not end when told")
		zverif.Reach("ended")
	} else {
		ok(code == 401 && !r.ended, "the program ends without the password")
		zverif.Reach("refused")
	}
}

// knock: whether somebody greets us as a node at an address, and the address it announces
func knock(addr string) (greeted bool, announced string) {
	a, err := net.ResolveTCPAddr("tcp", addr)
	setup(err)
	c, err := net.DialTCP("tcp", nil, a)
	if err != nil {
		return false, ""
	}
	defer c.Close()
	send(c, frames("levilutz/basiccoin", "v0.0.0", "visitor", "continue"))
	zverif.Settle()
	l := heard(c)
	ok(len(l) == 5 && l[0] == "levilutz/basiccoin" && l[1] == "v0.0.0" && l[3] == "continue", "a visitor is greeted in another way")
	if l[4] != "cmd:announce-addr" {
		return true, ""
	}
	send(c, frames("ack:announce-addr"))
	zverif.Settle()
	l = heard(c)
	ok(len(l) == 1, "no address is announced")
	return true, l[0]
}

// The program connects to the seeds it is given unless it starts a new network, and listens only when told, under the address it is told.
// bounds: both networks; 1..2 seeds or (development or new network) none; every combination of listening and starting a new network
// reach: connected new listening silent
func C36_peers() {
	var args []string
	args, fresh := onOff(args, "new-network")
	args, dev := onOff(args, "dev")
	args, listen := onOff(args, "listen")
	least := 1
	if fresh || dev {
		least = 0
	}
	n := zverif.Int("seeds", least, 2)
	var addrs []string
	met := make([]int, n)
	for i := 0; i < n; i++ {
		addr := zverif.FreeAddr()
		addrs = append(addrs, addr)
		a, err := net.ResolveTCPAddr("tcp", addr)
		setup(err)
		l, err := net.ListenTCP("tcp", a)
		setup(err)
		at := &met[i]
		go func() {
			for {
				c, err := l.AcceptTCP()
				if err != nil {
					return
				}
				*at++
				send(c, frames("levilutz/basiccoin", "v0.0.0", addr, "continue"))
			}
		}()
	}
	if n > 0 {
		args = append(args, "-seeds", strings.Join(addrs, ","))
	}
	own := zverif.FreeAddr()
	r := bcnode(append(args, "-addr", own)...)
	ok(!r.ended, "the program does not start")
	for i := range met {
		if fresh {
			ok(met[i] == 0, "a program that starts a new network connects to the seeds")
			zverif.Reach("new")
		} else {
			ok(met[i] > 0, "the program does not connect to a seed it is given")
			zverif.Reach("connected")
		}
	}
	greeted, as := knock(own)
	ok(greeted == listen, "the program listens although it is not told to, or not although it is told to")
	if listen {
		ok(as == own, "the program announces another address than the one it is given")
		zverif.Reach("listening")
	} else {
		zverif.Reach("silent")
	}
}

// The program resumes the chain in its save directory, saves what it takes, and without one neither resumes nor saves.
// bounds: a saved chain of 0..2 blocks, the second with payments; a payment of any amount posted to the program; save directory given or not
// assumes: ideal hash and signature
// reach: resumed saved fresh
func C36_save() {
	dir := "save"
	p := core.DevNetParams()
	p.MaxTarget, p.OriginalTarget = testParams().MaxTarget, testParams().MaxTarget
	a, b := keyN(0), keyN(1)
	n := nodeIn(p, false, &dir, &dir)
	zverif.Settle()
	var head *blk
	owned := uint64(0)
	k := zverif.Int("blocks", 0, 2)
	for i := 0; i < k; i++ {
		var txs []core.Tx
		if i == 1 {
			txs = []core.Tx{pay(b, utxoOf(head.txs[0], 0), out(300, a.pkh), out(600, b.pkh))}
			owned = 300
		}
		head = next(p, head, []core.HashT{b.pkh, a.pkh}[i], txs...)
		if i == 1 {
			owned += 1100
		}
		n.offer(head.id, head)
	}
	ok(n.height() == uint64(k), "the chain is not adopted")
	args := []string{"-dev", "-new-network", "-http-wallet", "-http-admin"}
	use := zverif.Bool("save-dir")
	if use {
		args = append(args, "-save-dir", dir)
	}
	r := bcnode(args...)
	ok(!r.ended, "the program does not start")
	c, err := client.NewWalletClient(r.url, "v0.0.0-dev")
	noErr(err, "the program does not answer")
	h, err := c.GetHeadHeight()
	noErr(err, "the program does not answer")
	if !use {
		ok(h == 0, "a program without a save directory resumes a chain")
		zverif.Reach("fresh")
		return
	}
	ok(h == uint64(k), "the program does not resume the chain in its save directory")
	sum, err := c.GetBalance(a.pkh)
	ok(sum == owned, "the program resumes another ledger")
	zverif.Reach("resumed")
	if k == 0 {
		return
	}
	v := zverif.U64("amount")
	zverif.Assume(v < 600)
	from := utxoOf(head.txs[0], 0)
	by := b
	if k == 2 {
		from, by = utxoOf(head.txs[1], 1), b
	}
	t := pay(by, from, out(v, a.pkh))
	id, err := c.PostTx(t)
	noErr(err, "the program refuses an admissible transaction")
	ok(id == t.Hash(), "a transaction is taken under another id")
	code, _ := request("POST", "/admin/terminate", "", nil, nil)
	zverif.Settle()
	ok(code == 200 && r.ended, "the program does not end when told")
	again := inv.NewInv(p, &dir)
	ok(again.HasTx(id) && txEq(again.GetTx(id), t), "the program does not save what it takes")
	zverif.Reach("saved")
}

func newPeers(n *node, addr string) {
	pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: addr, MinPeers: 1, MaxPeers: 4,
		RuntimeId: "other", SeekNewPeersFreq: time.Hour}, n.bus, n.inv)
	pf.SetSeeds(nil)
	go pf.Loop()
	zverif.Settle()
}

// The program takes over the chain of the network it is told to join and no other.
// bounds: both networks for either side; a chain of 1..2 blocks at the seed before the program starts and one after
// assumes: ideal hash
// reach: joined foreign
// cfg: native=no
func C36_joins() {
	ps := []core.Params{core.DevNetParams(), core.ProdNetParams()}
	w := zverif.Choice("network", 2)
	n := newNode(ps[w], false, nil)
	zverif.SetNow(baseTime + 1000)
	addr := zverif.FreeAddr()
	newPeers(n, addr)
	a := keyN(0)
	var head *blk
	for i := zverif.Int("blocks", 1, 2); i > 0; i-- {
		head = next(ps[w], head, a.pkh)
		n.offer(head.id, head)
	}
	ok(n.height() == head.height, "a block of the network is refused")
	args, dev := onOff([]string{"-seeds", addr, "-http-wallet"}, "dev")
	r := bcnode(args...)
	ok(!r.ended, "the program does not start")
	version := "v0.0.0"
	if dev {
		version = "v0.0.0-dev"
	}
	c, err := client.NewWalletClient(r.url, version)
	noErr(err, "the program does not answer")
	for i := 0; i < 2; i++ {
		h, err := c.GetHeadHeight()
		noErr(err, "the program does not answer")
		if dev != (w == 0) {
			ok(h == 0, "the program takes blocks of another network")
			zverif.Reach("foreign")
			return
		}
		ok(h == head.height, "the program does not take over the chain of its network")
		sum, err := c.GetBalance(a.pkh)
		noErr(err, "the program does not answer")
		ok(sum == ps[w].BlockReward*head.height, "the program has another ledger than its network")
		head = next(ps[w], head, a.pkh)
		n.offer(head.id, head)
		zverif.Settle()
	}
	zverif.Reach("joined")
}

// The program mines to the address it is told, with as many miners as told, and without miners not at all; without a proper address it does not start to mine.
// bounds: 0..2 miners, of which each tries two or three nonces; both networks; the payout address given, missing or malformed
// assumes: ideal hash; a miner's noise is any 256-bit value
// reach: mined idle refused
// cfg: freeze=Block).Hash,mine,3 native=no
func C36_mine() {
	args, dev := onOff([]string{"-new-network", "-http-wallet"}, "dev")
	n := zverif.Int("miners", 0, 2)
	to := tag(5)
	args = append(args, "-miners", sprint(n))
	how := zverif.Choice("payout", 3)
	switch how {
	case 0:
		args = append(args, "-payout", to.String())
	case 2:
		args = append(args, "-payout", to.String()[1:])
	}
	r := bcnode(args...)
	if how != 0 && n > 0 {
		ok(r.ended, "the program mines without a proper payout address")
		zverif.Reach("refused")
		return
	}
	ok(!r.ended, "the program does not start")
	version, reward := "v0.0.0", core.ProdNetParams().BlockReward
	if dev {
		version, reward = "v0.0.0-dev", core.DevNetParams().BlockReward
	}
	c, err := client.NewWalletClient(r.url, version)
	noErr(err, "the program does not answer")
	h, err := c.GetHeadHeight()
	noErr(err, "the program does not answer")
	sum, err := c.GetBalance(to)
	noErr(err, "the program does not answer")
	ok(sum == h*reward, "mined blocks pay another address, or another reward")
	if n == 0 {
		ok(h == 0, "a program without miners mines")
		zverif.Reach("idle")
	} else if h == 0 {
		// none has found a block, so each has tried all the nonces it is granted
		ok(zverif.Frozen() == n, "a miner the program is told to run does not mine")
	} else if h > 0 {
		zverif.Reach("mined")
	}
}
