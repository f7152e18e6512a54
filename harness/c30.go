package zharness

import (
	"math/big"

	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Printing a hash gives 64 lower-case hex digits which parse back to the same hash.
// bounds: every 256-bit hash
// reach: end
func C30_print_parse() {
	h := symHash("h")
	s := h.String()
	ok(len(s) == 64, "a hash does not print as 64 characters")
	for i := 0; i < 64; i++ {
		c := s[i]
		ok(zverif.Or(zverif.And(c >= '0', c <= '9'), zverif.And(c >= 'a', c <= 'f')), "a printed hash has a character that is not a lower-case hex digit")
	}
	g, err := core.NewHashTFromString(s)
	noErr(err, "a printed hash is refused by the parser")
	ok(g.Eq(h), "a printed hash parses to another hash")
	ok(g.Data() == h.Data(), "a printed hash parses to other bytes")
	zverif.Reach("end")
}

// Two hashes print alike only when they are equal.
// bounds: every pair of 256-bit hashes
// reach: end
func C30_print_injective() {
	a, b := symHash("a"), symHash("b")
	if a.String() == b.String() {
		ok(a == b, "two different hashes print alike")
		zverif.Reach("end")
	} else {
		ok(a != b, "one hash prints in two ways")
		zverif.Reach("end")
	}
}

func isHex(c byte) bool {
	return zverif.Or(zverif.And(c >= '0', c <= '9'), zverif.And(c >= 'a', c <= 'f'), zverif.And(c >= 'A', c <= 'F'))
}

func hexVal(c byte) byte {
	if c <= '9' {
		return c - '0'
	}
	if c <= 'F' {
		return c - 'A' + 10
	}
	return c - 'a' + 10
}

// Any text of 64 bytes is accepted exactly when all are hex digits, and then has that value.
// bounds: texts of 64 bytes with arbitrary bytes at 4 positions (first, second, middle, last), hex zeros elsewhere
// reach: accepted refused
// cfg: paths=4000
func C30_parse_arbitrary() {
	at := []int{0, 1, 37, 63}
	b := make([]byte, 64)
	for i := range b {
		b[i] = '0'
	}
	good := true
	for _, i := range at {
		b[i] = zverif.U8("c")
		good = zverif.And(good, isHex(b[i]))
	}
	h, err := core.NewHashTFromString(string(b))
	if err == nil {
		ok(good, "text with a character that is not a hex digit is accepted as a hash")
		d := h.Data()
		ok(d[0] == hexVal(b[0])<<4|hexVal(b[1]), "first byte of a parsed hash is wrong")
		ok(d[31] == hexVal(b[63]), "last byte of a parsed hash is wrong")
		ok(d[18] == hexVal(b[37]), "middle byte of a parsed hash is wrong")
		zverif.Reach("accepted")
	} else {
		ok(zverif.Not(good), "64 hex digits are refused as a hash")
		zverif.Reach("refused")
	}
}

// Texts of any other length are refused.
// bounds: hex-digit texts of 0..130 characters
// reach: refused accepted
func C30_parse_length() {
	n := zverif.Int("len", 0, 130)
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdef"[i%16]
	}
	_, err := core.NewHashTFromString(string(b))
	ok((err == nil) == (n == 64), "a text that is not 64 characters long is accepted as a hash, or one that is, is refused")
	if err != nil {
		zverif.Reach("refused")
	} else {
		zverif.Reach("accepted")
	}
	raw := b
	func() {
		defer func() {
			r := recover()
			ok((r == nil) == (n == 32), "a byte list that is not 32 bytes long makes a hash, or one that is does not")
		}()
		h := core.NewHashTFromBytes(raw)
		d := h.Data()
		ok(string(d[:]) == string(raw), "a hash made from bytes differs from them")
	}()
}

// Conversions to and from big integers and byte lists are exact inverses.
// bounds: every 256-bit hash; every integer below 2^256
// reach: end
func C30_bigint() {
	h := symHash("h")
	ok(core.NewHashTFromBigInt(h.BigInt()) == h, "hash -> integer -> hash changes the hash")
	d := h.Data()
	ok(core.NewHashTFromBytes(d[:]) == h, "hash -> bytes -> hash changes the hash")
	raw := zverif.Bytes("n", 32)
	n := new(big.Int).SetBytes(raw)
	ok(core.NewHashTFromBigInt(n).BigInt().Cmp(n) == 0, "integer -> hash -> integer changes the integer")
	// the byte list is copied, not shared
	g := core.NewHashTFromBytes(raw)
	first := raw[0]
	raw[0] = raw[0] + 1
	gd := g.Data()
	ok(gd[0] == first, "a hash shares storage with the bytes it was made from")
	zverif.Reach("end")
}

// Lists and maps of hashes convert element by element and back; an invalid element is refused.
// bounds: 0..3 hashes, each arbitrary
// reach: end bad
func C30_lists_maps() {
	n := zverif.Int("n", 0, 3)
	hs := make([]core.HashT, n)
	for i := range hs {
		hs[i] = symHash("h")
	}
	ss := core.MarshalHashTSlice(hs)
	ok(len(ss) == n, "a converted list has another length")
	for i := range ss {
		ok(ss[i] == hs[i].String(), "a converted list has another element")
	}
	back, err := core.UnmarshalHashTSlice(ss)
	noErr(err, "a converted list does not parse")
	ok(len(back) == n, "a parsed list has another length")
	for i := range back {
		ok(back[i] == hs[i], "a parsed list has another element")
	}
	for i := range hs {
		for j := 0; j < i; j++ {
			zverif.Assume(hs[i] != hs[j])
		}
	}
	m := map[core.HashT]uint64{}
	for i := range hs {
		m[hs[i]] = uint64(i) + 7
	}
	sm := core.MarshalHashTMap(m)
	ok(len(sm) == n, "a converted map has another size")
	for i := range hs {
		v, have := sm[hs[i].String()]
		ok(have && v == uint64(i)+7, "a converted map lost an entry")
	}
	bm, err := core.UnmarshalHashTMap(sm)
	noErr(err, "a converted map does not parse")
	ok(len(bm) == n, "a parsed map has another size")
	for i := range hs {
		v, have := bm[hs[i]]
		ok(have && v == uint64(i)+7, "a parsed map lost an entry")
	}
	if n > 0 {
		k := zverif.Choice("badAt", n)
		bad := append([]string{}, ss...)
		bad[k] = bad[k][:63] + "g"
		_, err := core.UnmarshalHashTSlice(bad)
		ok(err != nil, "a list with an invalid hash is accepted")
		_, err = core.UnmarshalHashTMap(map[string]int{bad[k]: 1})
		ok(err != nil, "a map with an invalid hash is accepted")
		zverif.Reach("bad")
	}
	zverif.Reach("end")
}

// The JSON form is the quoted text form, and parses back.
// bounds: every 256-bit hash
// reach: end
func C30_json() {
	h := symHash("h")
	b, err := h.MarshalJSON()
	noErr(err, "a hash has no JSON form")
	ok(string(b) == "\""+h.String()+"\"", "the JSON form of a hash is not its quoted text form")
	var g core.HashT
	noErr(g.UnmarshalJSON(b), "the JSON form of a hash does not parse")
	ok(g == h, "the JSON form of a hash parses to another hash")
	zverif.Reach("end")
}
