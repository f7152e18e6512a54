// Package zharness holds the verification harnesses: ordinary Go over the exported interface of the
// code under test. The symbolic engine executes them (zverif.* are symbolic inputs and assertions).
package zharness

import (
	"encoding/hex"
	"strconv"

	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

func ok(b bool, msg string) { zverif.Assert(b, msg) }

func noErr(err error, msg string) {
	zverif.Assert(err == nil, msg)
}

func setup(err error) {
	if err != nil {
		panic("harness setup: " + err.Error())
	}
}

func symHash(name string) core.HashT {
	h := zverif.Hash32(name)
	return core.NewHashTFromBytes(h[:])
}

// concrete, pairwise different, non-zero hash
func tag(n byte) core.HashT {
	var b [32]byte
	b[0] = 0xa0
	b[31] = n
	return core.NewHashTFromBytes(b[:])
}

func hexHash(s string) core.HashT { return core.NewHashTFromStringAssert(s) }

const easy = "0fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"

// test network: easy targets, small periods; consensus code is the same for every parameter set
func testParams() core.Params {
	return core.Params{
		BlockReward:      1000,
		DifficultyPeriod: 4,
		BlockTargetTime:  10,
		MaxBlockVSize:    4000,
		MaxTxVSize:       2000,
		MaxTarget:        hexHash(easy),
		OriginalTarget:   hexHash(easy),
	}
}

func eqBytes(a, b []byte) bool { return string(a) == string(b) }

func mustHex(s string) []byte {
	b, err := hex.DecodeString(s)
	setup(err)
	return b
}

func sprintU(v uint64) string { return strconv.FormatUint(v, 10) }
