package zharness

import (
	"encoding/json"
	"errors"
	"strconv"
	"strings"

	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// purseShell: a wallet with two keys whose node knows outputs of arbitrary worth
func purseShell(least, most int) (*shell, *purse) {
	s := newShell()
	w := &purse{p: core.DevNetParams(), keys: []key{keyN(0), keyN(1)}, m: map[core.Utxo]core.HashT{}, rate: 1}
	s.put(s.file, s.addr, w.keys...)
	n := zverif.Int("outputs", least, most)
	for i := 0; i < n; i++ {
		k := w.keys[i%2]
		if i == 0 && most < 3 {
			k = w.keys[zverif.Choice("owner", 2)]
		}
		u := core.Utxo{TxId: tag(byte(100 + i)), Ind: uint64(i), Value: zverif.U64("value" + sprint(i))}
		w.utxos, w.owner = append(w.utxos, u), append(w.owner, k)
		w.m[u] = k.pkh
		w.top = append(w.top, u.Value)
	}
	if most > 1 {
		sortDown(w.top)
	}
	zverif.Assume(fits64(w.top))
	s.utxos = w.m
	s.height = zverif.U64("height")
	return s, w
}

func sortDown(l []uint64) {
	for i := range l {
		for j := 0; j+1 < len(l)-i; j++ {
			lo, hi := minMax(l[j], l[j+1])
			l[j], l[j+1] = hi, lo
		}
	}
}

// typed: what the user types at the question and whether it is a yes; a yes may be refused by the node
func (s *shell) typed() (string, bool) {
	c := zverif.Choice("typed", 7)
	if c == 1 {
		s.txErr = errors.New("refused")
	}
	return []string{"y\n", "y\n", "Y\n", "n\n", "\n", "yes please\n", ""}[c], c < 3
}

const success = "\033[32msuccess\033[0m"

func dec(v uint64) string { return strconv.FormatUint(v, 10) }

func hasLine(out, line string) bool {
	any := false
	for _, l := range strings.Split(out, "\n") {
		any = zverif.Or(any, l == line)
	}
	return any
}

// named: the id is shown in green (possibly on the line of the question the user answered)
func named(out string, id core.HashT) bool {
	any := false
	for _, l := range strings.Split(out, "\033") {
		any = zverif.Or(any, l == "[32m"+id.String())
	}
	return any
}

func (s *shell) outcome(out string, sent bool) {
	ok(len(s.posted) <= 1, "a transaction is sent twice")
	ok((len(s.posted) == 1) == sent, "a transaction is sent without a yes, or not sent after one")
	good := hasLine(out, success)
	ok(good == (sent && s.txErr == nil), "the wallet reports success for something not done, or failure for something done")
	ok(!good || (sent && named(out, s.tx.Hash())), "the wallet does not name the transaction it sent")
}

// The send command sends, after a yes only, one transaction that pays exactly the given amounts from the wallet's outputs, and says truly what it costs.
// bounds: 0..2 outputs (3 thorough) of any worth owned by two keys, 1..2 destinations: any hash, an own one, the same again; any amounts, any head height, six answers to the question, both verdicts of the node (other answers than a yes only with one destination)
// assumes: ideal signatures; the network's outputs sum below 2^64
// reach: sent refused impossible same declined
// cfg: paths=20000 budget=100
func C34_send() {
	s, w := purseShell(0, zverif.Tier(2, 3))
	in, yes := "y\n", true
	usual := zverif.Bool("usual destination")
	if usual {
		in, yes = s.typed()
	}
	var to []core.HashT
	var amounts []uint64
	args := []string{"send"}
	same := false
	n := 1
	if !usual {
		n = zverif.Int("destinations", 1, 2)
	}
	for i := 0; i < n; i++ {
		pkh := symHash("to")
		if n == 1 && !usual {
			pkh = w.keys[1].pkh
		} else if i == 1 {
			switch zverif.Choice("second", 3) {
			case 1:
				pkh = w.keys[1].pkh
			case 2:
				pkh = to[0]
			}
		}
		for _, x := range to {
			if x == pkh {
				same = true
			}
		}
		a := zverif.U64("amount")
		to, amounts = append(to, pkh), append(amounts, a)
		args = append(args, pkh.String()+":"+dec(a))
	}
	out, _ := bcwallet(in, args...)
	possible := false
	for k := 1; k <= len(w.utxos); k++ {
		need := append([]uint64{w.sizeOf(k, len(to)+1)}, amounts...)
		possible = zverif.Or(possible, zverif.SumCmp(w.top[:k], need) >= 0)
	}
	if !possible {
		s.outcome(out, false)
		zverif.Reach("impossible")
		return
	}
	if same && len(s.posted) == 0 { // one destination given twice may be refused
		s.outcome(out, false)
		zverif.Reach("same")
		return
	}
	s.outcome(out, yes)
	if !yes {
		zverif.Reach("declined")
		return
	}
	tx := s.tx
	ok(!tx.IsCoinbase && tx.MinBlock == s.height, "a payment's header fields are wrong")
	w.checkInputs(tx)
	ok(s.exclude, "a payment may spend what a pending transaction spends")
	used := map[int]bool{}
	for i, pkh := range to {
		found := false
		for k, o := range tx.Outputs {
			if !used[k] && !found && o.PublicKeyHash == pkh && o.Value == amounts[i] {
				used[k], found = true, true
			}
		}
		ok(found, "a destination is not paid exactly the amount asked for")
	}
	ok(len(tx.Outputs) == len(to)+1, "a payment has other outputs than asked for plus change")
	for k, o := range tx.Outputs {
		ok(used[k] || w.own(o.PublicKeyHash), "the change goes to an address of another owner")
	}
	fee := tx.InputsValue() - tx.OutputsValue()
	var total uint64
	for _, a := range amounts {
		total += a
	}
	ok(fee >= tx.VSize() && fee <= w.sizeOf(len(tx.Inputs), len(tx.Outputs)), "a payment's fee is not the fee for its size")
	ok(hasLine(out, "outputs: "+dec(total)), "the question states another amount than is paid")
	ok(hasLine(out, "total debit: "+dec(total+fee)), "the question states another total than is paid")
	if s.txErr == nil {
		zverif.Reach("sent")
	} else {
		zverif.Reach("refused")
	}
}

// Something that is not a list of hash:amount pairs is not sent.
// bounds: 15 malformed arguments, alone, before and after a right one
// reach: end
func C34_malformed() {
	s, _ := purseShell(1, 1)
	h := symHash("to").String()
	n := dec(zverif.U64("amount"))
	bad := []string{"", ":", h, h + ":", ":" + n, n, h + ":-" + n, h + ":" + n + ":", h + ":" + n + ":" + n, h + "0:" + n, h[:62] + ":" + n, h + ":18446744073709551616", h + ": 5", h + ":5.5", h + ":0x5"}[zverif.Choice("bad", 15)]
	right := tag(1).String() + ":5"
	args := [][]string{{"send", bad}, {"send", bad, right}, {"send", right, bad}}[zverif.Choice("place", 3)]
	out, _ := bcwallet("y\n", args...)
	s.outcome(out, false)
	zverif.Reach("end")
}

// The consolidate command sends, after a yes only, one transaction that moves the wallet's outputs into one of its own, less the fee it states.
// bounds: 0..3 outputs (4 thorough) of any worth owned by two keys, any head height, six answers to the question, both verdicts of the node
// assumes: ideal signatures; the network's outputs sum below 2^64
// reach: sent refused impossible declined
// cfg: paths=20000 budget=100
func C34_consolidate() {
	s, w := purseShell(0, zverif.Tier(3, 4))
	in, yes := s.typed()
	out, _ := bcwallet(in, "consolidate")
	n := len(w.utxos)
	fee := w.sizeOf(n, 1)
	if n < 2 || zverif.SumCmp(w.top, []uint64{fee}) < 0 {
		s.outcome(out, false)
		zverif.Reach("impossible")
		return
	}
	s.outcome(out, yes)
	if !yes {
		zverif.Reach("declined")
		return
	}
	tx := s.tx
	ok(!tx.IsCoinbase && tx.MinBlock == s.height, "a consolidation's header fields are wrong")
	w.checkInputs(tx)
	ok(s.exclude, "a consolidation may spend what a pending transaction spends")
	ok(len(tx.Inputs) == n && len(tx.Outputs) == 1, "a consolidation does not turn all outputs into one")
	ok(w.own(tx.Outputs[0].PublicKeyHash), "the consolidated funds go to an address of another owner")
	ok(zverif.SumCmp(append(outVals(tx), fee), inVals(tx)) == 0, "the consolidated funds are not the inputs less the fee")
	ok(hasLine(out, "inputs: "+dec(tx.InputsValue())) && hasLine(out, "outputs: "+dec(tx.Outputs[0].Value)), "the question states other amounts than are moved")
	if s.txErr == nil {
		zverif.Reach("sent")
	} else {
		zverif.Reach("refused")
	}
}

// The balance command shows each of its hashes once with what the node answered, and their total.
// bounds: the wallet's 0..2 keys or 1..2 given hashes (any, own or the same again), every balance the node may answer
// assumes: the network's outputs sum below 2^64
// reach: own given none
// cfg: paths=8000
func C34_balance() {
	s := newShell()
	var ks []key
	nk := zverif.Choice("keys", 3)
	for i := 0; i < nk; i++ {
		ks = append(ks, keyN(i))
	}
	s.put(s.file, s.addr, ks...)
	args := []string{"balance"}
	var of []core.HashT
	if zverif.Bool("given") {
		n := zverif.Int("hashes", 1, 2)
		for i := 0; i < n; i++ {
			h := symHash("hash")
			switch zverif.Choice("which", 3) {
			case 1:
				h = keyN(1).pkh
			case 2:
				zverif.Assume(i == 1)
				h = of[0]
			}
			of = append(of, h)
			args = append(args, h.String())
		}
	} else {
		for _, k := range ks {
			of = append(of, k.pkh)
		}
	}
	s.sums = map[core.HashT]uint64{}
	var vals []uint64
	for _, h := range of {
		if _, has := s.sums[h]; !has {
			v := zverif.U64("balance")
			s.sums[h] = v
			vals = append(vals, v)
		}
	}
	zverif.Assume(fits64(vals))
	out, failed := bcwallet("", args...)
	if len(of) == 0 {
		ok(s.asked == 0 && !hasLine(out, success), "a wallet without keys shows a balance")
		zverif.Reach("none")
		return
	}
	ok(!failed && hasLine(out, success), "the balance is not shown")
	var total uint64
	lines := strings.Split(out, "\n")
	for h, v := range s.sums {
		total += v
		once, twice := false, false
		for _, l := range lines {
			same := l == h.String()+"\t"+dec(v)
			twice = zverif.Or(twice, zverif.And(once, same))
			once = zverif.Or(once, same)
		}
		ok(zverif.And(once, zverif.Not(twice)), "a balance is not shown, or shown twice")
	}
	ok(hasLine(out, "total\t"+dec(total)), "the total shown is not the sum of the balances")
	if len(args) > 1 {
		zverif.Reach("given")
	} else {
		zverif.Reach("own")
	}
}

// count: how often a line is shown
func countLine(lines []string, line string) uint64 {
	n := uint64(0)
	for _, l := range lines {
		n += zverif.IteU64(l == line, 1, 0)
	}
	return n
}

func paint(c, s string) string { return "\033[" + c + "m" + s + "\033[0m" }

// The lookup commands ask for exactly the given hashes, show each answer once and say of each other hash that there is none; the rich list is shown richest first.
// bounds: 1..2 hashes (any, or among those answered), answers with 0..2 entries of any content
// reach: utxos confirms included rich
// cfg: paths=20000
func C34_lookup() {
	s := newShell()
	s.put(s.file, s.addr, keyN(0))
	m := zverif.Int("answers", 0, 2)
	s.sums, s.utxos, s.included = map[core.HashT]uint64{}, map[core.Utxo]core.HashT{}, map[core.HashT]core.HashT{}
	var keys, vals []core.HashT
	var nums []uint64
	for i := 0; i < m; i++ {
		keys = append(keys, symHash("key"))
		if i > 0 {
			zverif.Assume(keys[0] != keys[1])
		}
		vals = append(vals, symHash("val"))
		nums = append(nums, zverif.U64("num"))
		s.sums[keys[i]] = nums[i]
		s.included[keys[i]] = vals[i]
	}
	kind := zverif.Choice("command", 4)
	args := []string{[]string{"utxos", "tx-confirms", "tx-block", "rich-list"}[kind]}
	var ids []core.HashT
	for i := zverif.Int("ids", 1, 2); i > 0 && kind != 3; i-- {
		id := symHash("id")
		if m > 0 && zverif.Bool("answered") {
			id = keys[m-1]
		}
		ids = append(ids, id)
		args = append(args, id.String())
	}
	show := func() []string {
		s.asked = 0
		out, failed := bcwallet("", args...)
		ok(!failed && hasLine(out, success), "a lookup fails")
		ok(s.asked == 1 && sameHashes(s.ids, ids), "a lookup asks for something else than the given hashes")
		return strings.Split(out, "\n")
	}
	switch kind {
	case 0:
		var outs []core.Utxo
		for i := range keys {
			u := core.Utxo{TxId: keys[i], Ind: zverif.U64("ind"), Value: nums[i]}
			outs = append(outs, u)
			s.utxos[u] = vals[i]
		}
		lines := show()
		ok(s.kind == "utxos" && !s.exclude, "the outputs shown lack those in pending transactions")
		for _, u := range outs {
			ok(countLine(lines, u.TxId.String()+"["+dec(u.Ind)+"]\t"+dec(u.Value)) == 1, "an output is not shown, or more than once")
		}
		ok(len(lines) == len(outs)+2, "more is shown than there is")
		zverif.Reach("utxos")
	case 1, 2:
		lines := show()
		extra := 0
		for i, k := range keys {
			if kind == 1 {
				c := paint("32", dec(nums[i]))
				if nums[i] == 0 {
					c = paint("33", "0")
				}
				ok(countLine(lines, k.String()+"\t"+c) == 1, "a confirmation count is not shown, or more than once")
			} else {
				at := -1
				for j := 0; j+1 < len(lines); j++ {
					if lines[j] == k.String() {
						ok(at < 0, "a transaction is shown twice")
						at = j
					}
				}
				ok(at >= 0, "a transaction's block is not shown")
				ok(lines[at+1] == "\t"+paint("32", vals[i].String()), "a transaction is shown with another block")
				extra++
			}
		}
		missing := []string{"not known", "not included"}[kind-1]
		none := 0
		for _, id := range ids {
			has := false
			for _, k := range keys {
				has = has || k == id
			}
			n := countLine(lines, id.String()+"\t"+paint("31", missing))
			ok((n > 0) == !has, "a hash without an answer is not named, or one with an answer is")
			if !has {
				none++
			}
		}
		ok(len(lines) <= m+extra+none+2, "more is shown than there is")
		if kind == 1 {
			ok(s.kind == "confirms", "another question is asked than for confirmations")
			zverif.Reach("confirms")
		} else {
			ok(s.kind == "included", "another question is asked than for the blocks")
			zverif.Reach("included")
		}
	case 3:
		want := uint64(10)
		if zverif.Bool("length") {
			want = zverif.U64("max")
			text := dec(want)
			if zverif.Bool("zeros") { // a number may be written with zeros in front
				text = "0" + text
			}
			args = append(args, text)
		}
		s.asked = 0
		out, failed := bcwallet("", args...)
		ok(!failed && s.asked == 1 && s.kind == "rich" && s.max == want, "another rich list is asked for")
		ok(hasLine(out, success) == (m > 0), "an empty rich list is shown, or one is not shown")
		lines := strings.Split(out, "\n")
		var at []int
		for i, k := range keys {
			for j, l := range lines {
				if l == k.String()+"\t"+dec(nums[i]) {
					at = append(at, j)
				}
			}
		}
		ok(len(at) == m, "an entry of the rich list is not shown, or more than once")
		if m == 2 {
			ok(zverif.Or(nums[0] == nums[1], (at[0] < at[1]) == (nums[0] > nums[1])), "the rich list is not shown richest first")
		}
		ok(m == 0 || len(lines) == m+2, "more is shown than there is")
		zverif.Reach("rich")
	}
}

// The get commands show the transaction, tree node or block of each known hash and say of each other hash that it is not known.
// bounds: a node with 2 blocks and 1 payment of any amount; 1..2 hashes out of known ones of every kind and an unknown one
// reach: shown none
// cfg: paths=8000
func C34_entities() {
	s := newShell()
	s.put(s.file, s.addr, keyN(0))
	p := testParams()
	b1 := next(p, nil, keyN(0).pkh)
	v := zverif.U64("amount")
	zverif.Assume(v < 1000)
	b2 := next(p, b1, keyN(1).pkh, pay(keyN(0), utxoOf(b1.txs[0], 0), out(v, tag(7))))
	store(s.inv, b2)
	kind := zverif.Choice("kind", 3)
	pool := [][]core.HashT{{tag(9), b1.txs[0].Hash(), b2.txs[0].Hash(), b2.txs[1].Hash()}, {tag(9), b1.b.MerkleRoot, b2.b.MerkleRoot}, {tag(9), b1.id, b2.id}}[kind]
	args := []string{[]string{"get-tx", "get-merkle", "get-block"}[kind]}
	var ids []core.HashT
	known := 0
	n := zverif.Int("ids", 1, 2)
	for i := 0; i < n; i++ {
		id := pool[zverif.Choice("id", len(pool))]
		if id != tag(9) {
			known++
		}
		ids = append(ids, id)
		args = append(args, id.String())
	}
	text, failed := bcwallet("", args...)
	ok(!failed && hasLine(text, success) == (known > 0), "a lookup of known things fails, or one of nothing succeeds")
	if known == 0 {
		zverif.Reach("none")
		return
	}
	lines := strings.Split(text, "\n")
	for _, id := range ids {
		none := countLine(lines, id.String()+"\t"+paint("31", "not known"))
		if id == tag(9) {
			ok(none > 0, "an unknown hash is not named")
			continue
		}
		ok(none == 0, "a known hash is called unknown")
		var is []byte
		var err error
		switch kind {
		case 0:
			is, err = json.MarshalIndent(s.inv.GetTx(id), "", "    ")
		case 1:
			is, err = json.MarshalIndent(s.inv.GetMerkle(id), "", "    ")
		case 2:
			is, err = json.MarshalIndent(s.inv.GetBlock(id), "", "    ")
		}
		setup(err)
		want := append([]string{paint("32", id.String()) + ":"}, strings.Split(string(is), "\n")...)
		shown := 0
		for j := 0; j+len(want) <= len(lines); j++ {
			same := true
			for k := range want {
				if same && lines[j+k] != want[k] {
					same = false
				}
			}
			if same {
				shown++
			}
		}
		ok(shown == 1, "a known thing is not shown once")
	}
	zverif.Reach("shown")
}
