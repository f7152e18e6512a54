package zharness

import (
	"encoding/json"
	"errors"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

// backend: a node behind the HTTP server that counts what it is asked, remembers it, and answers with free values
type backend struct {
	url      string
	bus      *bus.Bus
	inv      *inv.Inv
	asked    int
	stops    int
	kind     string
	ids      []core.HashT
	exclude  bool
	max      uint64
	tx       core.Tx
	txErr    error
	posted   []core.Tx
	height   uint64
	sums     map[core.HashT]uint64
	utxos    map[core.Utxo]core.HashT
	included map[core.HashT]core.HashT
}

func listen[T any](b *backend, kind string, t *topic.Topic[T], f func(T)) {
	c := t.SubCh()
	go func() {
		for e := range c.C {
			b.asked++
			b.kind = kind
			f(e)
		}
	}()
}

func newBackend() *backend {
	b := &backend{bus: bus.NewBus(), inv: inv.NewInv(testParams(), nil)}
	listen(b, "tx", b.bus.CandidateTx, func(e bus.CandidateTxEvent) {
		b.tx = e.Tx
		b.posted = append(b.posted, e.Tx)
		e.Ret <- b.txErr
	})
	listen(b, "terminate", b.bus.Terminate, func(e bus.TerminateCommand) { b.stops++ })
	listen(b, "height", b.bus.HeadHeight, func(e bus.HeadHeightQuery) { e.Ret <- b.height })
	listen(b, "balance", b.bus.PkhBalance, func(e bus.PkhBalanceQuery) {
		b.ids = e.PublicKeyHashes
		e.Ret <- b.sums
	})
	listen(b, "utxos", b.bus.PkhUtxos, func(e bus.PkhUtxosQuery) {
		b.ids, b.exclude = e.PublicKeyHashes, e.ExcludeMempool
		e.Ret <- b.utxos
	})
	listen(b, "rich", b.bus.RichList, func(e bus.RichListQuery) {
		b.max = e.MaxLen
		e.Ret <- b.sums
	})
	listen(b, "confirms", b.bus.TxConfirms, func(e bus.TxConfirmsQuery) {
		b.ids = e.TxIds
		e.Ret <- b.sums
	})
	listen(b, "included", b.bus.TxIncludedBlock, func(e bus.TxIncludedBlockQuery) {
		b.ids = e.TxIds
		e.Ret <- b.included
	})
	return b
}

func (b *backend) serve(admin, wallet bool, password string) {
	_, port, err := net.SplitHostPort(zverif.FreeAddr())
	setup(err)
	n, err := strconv.Atoi(port)
	setup(err)
	b.url = "http://127.0.0.1:" + port
	s := rest.NewServer(rest.NewParams(n, admin, wallet, password, true), b.bus, b.inv)
	go s.Start()
	zverif.Settle()
}

// request sends one request; code 0 means that the path is not mounted
func request(method, path, query string, header http.Header, body []byte) (int, string) {
	w := &zverif.Answer{}
	if header == nil {
		header = http.Header{}
	}
	r := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: query}, Header: header, Body: &zverif.Body{B: body}}
	if !zverif.HTTP(path, w, r) {
		return 0, ""
	}
	zverif.Settle()
	if w.Code == 0 {
		w.Code = 200
	}
	return w.Code, w.Text
}

func get(path, query string) (int, string) { return request("GET", path, query, nil, nil) }

func (b *backend) quiet(why string) {
	ok(b.asked == 0, why)
}

// The node is stopped over HTTP exactly by a POST that carries the configured password, where the administrative interface is enabled.
// bounds: passwords and given passwords of 0..3 bytes (5 thorough), header absent, present, or another, GET, POST, PUT, DELETE and HEAD, administration on and off
// reach: stopped refused open method off
// cfg: paths=4000
func C28_admin() {
	k := zverif.Tier(3, 5)
	pw := zverif.Str("password", zverif.Int("password length", 0, k))
	b := newBackend()
	on := zverif.Choice("admin", 2) == 1
	b.serve(on, zverif.Choice("wallet", 2) == 1, pw)
	h := http.Header{}
	given := ""
	switch zverif.Choice("header", 3) {
	case 1:
		given = zverif.Str("given", zverif.Int("given length", 0, k))
		h.Set("Pw", given)
	case 2:
		h.Set("Other", pw)
	}
	method := []string{"POST", "GET", "PUT", "DELETE", "HEAD"}[zverif.Choice("method", 5)]
	code, _ := request(method, "/admin/terminate", "", h, nil)
	if !on {
		ok(code == 0 && b.asked == 0, "an administrative request has an effect although administration is disabled")
		zverif.Reach("off")
		return
	}
	if pw == "" {
		zverif.Reach("open")
	} else if given != pw {
		ok(code == 401, "a request without the password is not refused as unauthorized")
		b.quiet("a request without the password has an effect")
		zverif.Reach("refused")
		return
	}
	if method != "POST" {
		ok(code == 405, "a method that is not offered is not refused as such")
		b.quiet("a request with a method that is not offered has an effect")
		zverif.Reach("method")
		return
	}
	ok(code == 200, "a request with the password is refused")
	ok(b.stops == 1 && b.asked == 1, "an accepted stop request does not stop the node")
	zverif.Reach("stopped")
}

var walletPaths = []string{"/wallet/head/height", "/wallet/balance", "/wallet/utxos", "/wallet/tx", "/wallet/tx/confirms",
	"/wallet/tx/block", "/wallet/merkle", "/wallet/block", "/wallet/richlist"}

var idKeys = map[string]string{"/wallet/balance": "publicKeyHash", "/wallet/utxos": "publicKeyHash", "/wallet/tx": "txId",
	"/wallet/tx/confirms": "txId", "/wallet/tx/block": "txId", "/wallet/merkle": "merkleId", "/wallet/block": "blockId"}

// Every endpoint refuses the methods it does not offer, and exists only where its interface is enabled.
// bounds: every endpoint with GET, POST, PUT, DELETE, HEAD, get and the empty method, the wallet interface on and off
// reach: off refused version
// cfg: paths=2000
func C28_methods() {
	b := newBackend()
	on := zverif.Choice("wallet", 2) == 1
	b.serve(zverif.Choice("admin", 2) == 1, on, "secret")
	i := zverif.Choice("path", len(walletPaths)+1)
	method := []string{"GET", "POST", "PUT", "DELETE", "HEAD", "get", ""}[zverif.Choice("method", 7)]
	if i == len(walletPaths) {
		code, text := request(method, "/version", "", nil, nil)
		if method == "GET" {
			ok(code == 200 && text == "v0.0.0-dev", "the version is not answered")
			zverif.Reach("version")
		} else {
			ok(code == 405, "a method that is not offered is not refused as such")
		}
		b.quiet("asking for the version has an effect")
		return
	}
	path := walletPaths[i]
	if on {
		zverif.Assume(method != "GET" && !(method == "POST" && path == "/wallet/tx"))
	}
	code, _ := request(method, path, "", nil, nil)
	if on {
		ok(code == 405, "a method that is not offered is not refused as such")
		zverif.Reach("refused")
	} else {
		ok(code == 0, "a wallet endpoint answers although the wallet interface is disabled")
		zverif.Reach("off")
	}
	b.quiet("a refused request has an effect")
}

// A request whose ids are missing or malformed gets a client error and asks the node nothing.
// bounds: every id endpoint; no id key, the wrong key, an empty value, ids of 62..66 hex digits, one id with an arbitrary character at any of 4 places, malformed alone, before or after a valid id; list lengths: every text of 0..2 characters (3 thorough), 2^64 and beyond
// reach: missing malformed wellformed length goodlength
// cfg: paths=20000
func C28_malformed() {
	b := newBackend()
	b.serve(false, true, "")
	i := zverif.Choice("path", len(walletPaths)-1)
	path := walletPaths[1+i]
	if path == "/wallet/richlist" {
		text := ""
		good := false
		switch zverif.Choice("length", 3) {
		case 0:
			text = zverif.Str("text", zverif.Int("digits", 0, zverif.Tier(2, 3)))
			good = len(text) > 0
			for k := 0; k < len(text); k++ {
				c := text[k]
				zverif.Assume(zverif.And(c > ' ', c < 0x7f, c != '&', c != '%', c != '+', c != '=', c != ';', c != '#'))
				good = zverif.And(good, c >= '0', c <= '9')
			}
		case 1:
			text = "18446744073709551616"
		case 2:
			text = "0018446744073709551615"
			good = true
		}
		code, _ := get(path, "maxLen="+text)
		if good {
			ok(code == 200 && b.asked == 1, "a well formed list length is refused")
			zverif.Reach("goodlength")
		} else {
			ok(code == 400, "a malformed list length is not a client error")
			b.quiet("a malformed list length reaches the node")
			zverif.Reach("length")
		}
		return
	}
	key := idKeys[path]
	good := tag(5).String()
	bad := good
	isBad := true
	switch zverif.Choice("what", 4) {
	case 0:
		query := []string{"", "other=" + good, key + "s=" + good, "&" + good}[zverif.Choice("query", 4)]
		code, _ := get(path, query)
		ok(code == 400, "a request without ids is not a client error")
		b.quiet("a request without ids reaches the node")
		zverif.Reach("missing")
		return
	case 1:
		bad = ""
	case 2:
		bad = (good + good)[:zverif.Int("id length", 62, 66)]
		isBad = len(bad) != 64
	case 3:
		at := []int{0, 1, 40, 63}[zverif.Choice("at", 4)]
		c := zverif.U8("c")
		zverif.Assume(zverif.And(c > ' ', c < 0x7f, c != '&', c != '%', c != '+', c != '=', c != ';', c != '#'))
		t := []byte(good)
		t[at] = c
		bad = string(t)
		isBad = zverif.Not(isHex(c))
	}
	query := key + "=" + bad
	n := 1
	switch zverif.Choice("place", 3) {
	case 1:
		query += "&" + key + "=" + good
		n++
	case 2:
		query = key + "=" + good + "&" + query
		n++
	}
	code, _ := get(path, query)
	if isBad {
		ok(code == 400, "a malformed id is not a client error")
		b.quiet("a malformed id reaches the node")
		zverif.Reach("malformed")
	} else {
		if path != "/wallet/tx" && path != "/wallet/merkle" && path != "/wallet/block" {
			ok(code == 200 && b.asked == 1 && len(b.ids) == n, "well formed ids are refused")
		} else {
			ok(code == 400, "asking for something unknown is not a client error")
		}
		zverif.Reach("wellformed")
	}
}

func sameHashes(a, b []core.HashT) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = zverif.And(r, a[i] == b[i])
	}
	return r
}

// A well formed query asks the node for exactly the ids given and answers what the node says.
// bounds: 1..2 ids (3 thorough), each arbitrary, on every endpoint, every answer of the node with 0..2 entries, flag texts in several spellings, every list length
// reach: height balance utxos confirms included rich
// cfg: paths=8000
func C28_query() {
	b := newBackend()
	b.serve(false, true, "")
	n := zverif.Int("ids", 1, zverif.Tier(2, 3))
	ids := make([]core.HashT, n)
	list := func(key string) (q string) {
		for i := range ids {
			ids[i] = symHash("id")
			if i > 0 {
				q += "&"
			}
			q += key + "=" + ids[i].String()
		}
		return
	}
	m := zverif.Int("answers", 0, 2)
	b.sums, b.utxos, b.included = map[core.HashT]uint64{}, map[core.Utxo]core.HashT{}, map[core.HashT]core.HashT{}
	var keys, vals []core.HashT
	var nums []uint64
	var outs []core.Utxo
	for i := 0; i < m; i++ {
		keys = append(keys, symHash("key"))
		if i > 0 {
			zverif.Assume(keys[0] != keys[1])
		}
		vals = append(vals, symHash("val"))
		nums = append(nums, zverif.U64("num"))
		outs = append(outs, core.Utxo{TxId: keys[i], Ind: zverif.U64("ind"), Value: nums[i]})
		b.sums[keys[i]] = nums[i]
		b.included[keys[i]] = vals[i]
		b.utxos[outs[i]] = vals[i]
	}
	sums := func(text, name string) {
		got := map[string]map[string]uint64{}
		noErr(json.Unmarshal([]byte(text), &got), "an answer is not valid")
		ok(len(got[name]) == m, "an answer has more or fewer entries than the node gave")
		for i := range keys {
			v, has := got[name][keys[i].String()]
			ok(has && v == nums[i], "an answer differs from what the node gave")
		}
	}
	switch zverif.Choice("path", 6) {
	case 0:
		b.height = zverif.U64("height")
		code, text := get("/wallet/head/height", "")
		ok(code == 200 && text == sprintU(b.height), "the height is not answered")
		zverif.Reach("height")
	case 1:
		code, text := get("/wallet/balance", list("publicKeyHash"))
		ok(code == 200 && b.asked == 1 && b.kind == "balance" && sameHashes(b.ids, ids), "the node is not asked for the balances of the keys given")
		sums(text, "balances")
		zverif.Reach("balance")
	case 2:
		flag := zverif.Choice("flag", 7)
		q := list("publicKeyHash") + []string{"", "&excludeMempool=true", "&excludeMempool=True", "&excludeMempool=false", "&excludeMempool=", "&excludeMempool=1", "&excludeMempool=TRUE"}[flag]
		code, text := get("/wallet/utxos", q)
		ok(code == 200 && b.asked == 1 && b.kind == "utxos" && sameHashes(b.ids, ids), "the node is not asked for the outputs of the keys given")
		ok(b.exclude == (flag == 1 || flag == 2 || flag == 6), "pending transactions are counted differently than asked")
		got := map[string][]struct {
			Utxo core.Utxo  `json:"utxo"`
			Pkh  core.HashT `json:"pkh"`
		}{}
		noErr(json.Unmarshal([]byte(text), &got), "an answer is not valid")
		ok(len(got["utxos"]) == m, "an answer has more or fewer entries than the node gave")
		for i := range outs {
			found := false
			for _, g := range got["utxos"] {
				found = zverif.Or(found, zverif.And(g.Utxo == outs[i], g.Pkh == vals[i]))
			}
			ok(found, "an answer differs from what the node gave")
		}
		zverif.Reach("utxos")
	case 3:
		code, text := get("/wallet/tx/confirms", list("txId"))
		ok(code == 200 && b.asked == 1 && b.kind == "confirms" && sameHashes(b.ids, ids), "the node is not asked for the confirmations of the transactions given")
		sums(text, "confirms")
		zverif.Reach("confirms")
	case 4:
		code, text := get("/wallet/tx/block", list("txId"))
		ok(code == 200 && b.asked == 1 && b.kind == "included" && sameHashes(b.ids, ids), "the node is not asked for the blocks of the transactions given")
		got := map[string]map[string]core.HashT{}
		noErr(json.Unmarshal([]byte(text), &got), "an answer is not valid")
		ok(len(got["includedBlocks"]) == m, "an answer has more or fewer entries than the node gave")
		for i := range keys {
			v, has := got["includedBlocks"][keys[i].String()]
			ok(has && v == vals[i], "an answer differs from what the node gave")
		}
		zverif.Reach("included")
	case 5:
		want := uint64(10)
		q := ""
		if zverif.Choice("length given", 2) == 1 {
			want = zverif.U64("length")
			q = "maxLen=" + sprintU(want)
		}
		code, text := get("/wallet/richlist", q)
		ok(code == 200 && b.asked == 1 && b.kind == "rich" && b.max == want, "the node is not asked for a rich list of the length given")
		sums(text, "richList")
		zverif.Reach("rich")
	}
}

// A posted transaction reaches the node unchanged and the node's verdict is answered; one that pays no fee is refused.
// bounds: transactions with 0..2 inputs and outputs (3 thorough), all field values, keys and signatures of 2 bytes, both verdicts
// reach: accepted rejected nosurplus
// cfg: paths=4000
func C28_post() {
	b := newBackend()
	b.serve(false, true, "")
	k := zverif.Tier(2, 3)
	t := symTx("t", zverif.Int("ins", 0, k), zverif.Int("outs", 0, k), 2, 2)
	if zverif.Choice("verdict", 2) == 1 {
		b.txErr = errors.New("refused")
	}
	body, err := json.Marshal(t)
	setup(err)
	code, text := request("POST", "/wallet/tx", "", nil, body)
	fits := zverif.And(fits64(inVals(t)), fits64(outVals(t)))
	if b.asked == 0 {
		ok(code == 400, "a transaction that is not passed on is not a client error")
		ok(zverif.Not(zverif.And(fits, zverif.SumCmp(inVals(t), outVals(t)) > 0)), "a transaction that pays a fee is not passed on")
		zverif.Reach("nosurplus")
		return
	}
	ok(b.asked == 1 && b.kind == "tx", "a posted transaction is passed on more than once")
	ok(txEq(b.tx, t), "a posted transaction is passed on changed")
	ok(zverif.Not(zverif.And(fits, zverif.SumCmp(inVals(t), outVals(t)) <= 0)), "a transaction that pays no fee is passed on")
	if b.txErr != nil {
		ok(code == 400, "a transaction that the node refuses is not a client error")
		zverif.Reach("rejected")
	} else {
		ok(code == 200 && text == t.Hash().String(), "an accepted transaction is not answered with its id")
		zverif.Reach("accepted")
	}
}

// A posted text that is not a transaction is refused and nothing is passed on.
// bounds: a valid text cut at every place, and 16 texts with wrong types, numbers out of range, wrong hashes or missing parts
// reach: end
// cfg: paths=4000
func C28_post_text() {
	b := newBackend()
	b.serve(false, true, "")
	t := core.Tx{MinBlock: 5, Inputs: []core.TxIn{{Utxo: core.Utxo{TxId: tag(1), Ind: 2, Value: 30}, PublicKey: []byte{1, 2, 3}, Signature: []byte{4, 5, 6}}},
		Outputs: []core.TxOut{{Value: 7, PublicKeyHash: tag(2)}}}
	raw, err := json.Marshal(t)
	setup(err)
	good := string(raw)
	code, _ := request("POST", "/wallet/tx", "", nil, raw)
	ok(code == 200 && b.asked == 1 && txEq(b.tx, t), "a transaction is refused or changed")
	b.asked = 0
	text := ""
	if zverif.Choice("how", 2) == 0 {
		text = good[:zverif.Choice("cut", len(good))]
	} else {
		h := tag(1).String()
		bad := []string{"null", "[]", "{}", "7", `"x"`, good + "}", good + good, `{"inputs":{}}`,
			strings.Replace(good, `"minBlock":5`, `"minBlock":-5`, 1),
			strings.Replace(good, `"value":30`, `"value":18446744073709551616`, 1),
			strings.Replace(good, `"value":30`, `"value":30.5`, 1),
			strings.Replace(good, `"value":30`, `"value":"30"`, 1),
			strings.Replace(good, h, h[:62], 1),
			strings.Replace(good, h, h+"00", 1),
			strings.Replace(good, h, "z"+h[1:], 1),
			strings.Replace(good, `"AQID"`, `"AQ*D"`, 1),
		}
		text = bad[zverif.Choice("text", len(bad))]
	}
	code, _ = request("POST", "/wallet/tx", "", nil, []byte(text))
	ok(code == 400 || code == 422, "a text that is not a paying transaction is not a client error")
	b.quiet("a text that is not a paying transaction reaches the node")
	zverif.Reach("end")
}

// A query for transactions, tree nodes and blocks answers exactly those asked for that the node has, unchanged.
// bounds: a node with 2 blocks and 1 payment of any amount; 1..2 ids (3 thorough) out of known ones of every kind, unknown and twice the same
// reach: found none
// cfg: paths=8000
func C28_entities() {
	b := newBackend()
	p := testParams()
	b1 := next(p, nil, keyN(0).pkh)
	v := zverif.U64("amount")
	zverif.Assume(v < 1000)
	b2 := next(p, b1, keyN(1).pkh, pay(keyN(0), utxoOf(b1.txs[0], 0), out(v, tag(7))))
	store(b.inv, b2)
	b.serve(false, true, "")
	pool := []core.HashT{tag(9), b1.id, b2.id, b2.txs[0].Hash(), b2.txs[1].Hash(), b1.b.MerkleRoot, b2.b.MerkleRoot}
	var ids []core.HashT
	q := ""
	kind := zverif.Choice("kind", 3)
	key := []string{"txId", "merkleId", "blockId"}[kind]
	n := zverif.Int("ids", 1, zverif.Tier(2, 3))
	for i := 0; i < n; i++ {
		id := pool[zverif.Choice("id", len(pool))]
		dup := false
		for _, x := range ids {
			dup = dup || x == id
		}
		if !dup {
			ids = append(ids, id)
		}
		q += "&" + key + "=" + id.String()
	}
	code, text := get([]string{"/wallet/tx", "/wallet/merkle", "/wallet/block"}[kind], q[1:])
	b.quiet("reading stored data asks the node")
	want := 0
	var txs map[string]map[string]core.Tx
	var ms map[string]map[string]core.MerkleNode
	var bs map[string]map[string]core.Block
	if code == 200 {
		switch kind {
		case 0:
			noErr(json.Unmarshal([]byte(text), &txs), "an answer is not valid")
		case 1:
			noErr(json.Unmarshal([]byte(text), &ms), "an answer is not valid")
		case 2:
			noErr(json.Unmarshal([]byte(text), &bs), "an answer is not valid")
		}
	}
	for _, id := range ids {
		for _, x := range []*blk{b1, b2} {
			for _, t := range x.txs {
				if kind == 0 && t.Hash() == id {
					want++
					g, has := txs["txs"][id.String()]
					ok(has && txEq(g, t), "a transaction the node has is missing or changed in an answer")
				}
			}
			for _, m := range x.ms {
				if kind == 1 && m.Hash() == id {
					want++
					g, has := ms["merkles"][id.String()]
					ok(has && g == m, "a tree node the node has is missing or changed in an answer")
				}
			}
			if kind == 2 && x.id == id {
				want++
				g, has := bs["blocks"][id.String()]
				ok(has && g == x.b, "a block the node has is missing or changed in an answer")
			}
		}
	}
	if want == 0 {
		ok(code == 400, "asking only for unknown data is not a client error")
		zverif.Reach("none")
		return
	}
	ok(code == 200 && len(txs["txs"])+len(ms["merkles"])+len(bs["blocks"]) == want, "an answer names data that was not asked for")
	zverif.Reach("found")
}
