package zharness

import (
	"strconv"
	"strings"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// A block record written as text parses back to the same record.
// bounds: every field value
// reach: end
func C16_block() {
	r := inv.BlockRecord{Block: symBlock("b"), Height: zverif.U64("height"), TotalWork: symHash("work")}
	g, err := inv.BlockRecordFromString(r.String())
	noErr(err, "a written block record is refused")
	ok(g.Block.PrevBlockId == r.Block.PrevBlockId, "a block record reads back with another parent")
	ok(g.Block.MerkleRoot == r.Block.MerkleRoot, "a block record reads back with another tree")
	ok(g.Block.Target == r.Block.Target, "a block record reads back with another target")
	ok(g.Block.Noise == r.Block.Noise, "a block record reads back with another noise")
	ok(g.Block.Nonce == r.Block.Nonce, "a block record reads back with another nonce")
	ok(g.Block.MinedTime == r.Block.MinedTime, "a block record reads back with another time")
	ok(g.Height == r.Height, "a block record reads back with another height")
	ok(g.TotalWork == r.TotalWork, "a block record reads back with other work")
	zverif.Reach("end")
}

// A merkle record written as text parses back to the same record.
// bounds: every field value
// reach: end
func C16_merkle() {
	r := inv.MerkleRecord{Merkle: core.MerkleNode{LChild: symHash("l"), RChild: symHash("r")}, VSize: zverif.U64("vsize")}
	g, err := inv.MerkleRecordFromString(r.String())
	noErr(err, "a written merkle record is refused")
	ok(g.Merkle == r.Merkle, "a merkle record reads back with other children")
	ok(g.VSize == r.VSize, "a merkle record reads back with another size")
	zverif.Reach("end")
}

// A transaction record written as text parses back to the same record.
// bounds: 0..2 inputs and 0..2 outputs (3 thorough), keys and signatures of 0..4 bytes, every field value
// reach: end
// cfg: paths=6000
func C16_tx() {
	k := zverif.Tier(2, 3)
	pl, sl := zverif.Int("publen", 0, 4), zverif.Int("siglen", 0, 4)
	r := inv.TxRecord{Tx: symTx("t", zverif.Int("ins", 0, k), zverif.Int("outs", 0, k), pl, sl), VSize: zverif.U64("vsize")}
	g, err := inv.TxRecordFromString(r.String())
	noErr(err, "a written transaction record is refused")
	ok(g.VSize == r.VSize, "a transaction record reads back with another size")
	ok(g.Tx.IsCoinbase == r.Tx.IsCoinbase, "a transaction record reads back with another coinbase flag")
	ok(g.Tx.MinBlock == r.Tx.MinBlock, "a transaction record reads back with another minimum block")
	ok(sameIns(g.Tx.Inputs, r.Tx.Inputs), "a transaction record reads back with other inputs")
	ok(sameOuts(g.Tx.Outputs, r.Tx.Outputs), "a transaction record reads back with other outputs")
	zverif.Reach("end")
}

func sampleRows() (block, merkle, tx []string) {
	h := func(n byte) string { return tag(n).String() }
	block = []string{h(1), h(2), h(3), h(4), "5", "6", "7", h(8)}
	merkle = []string{h(1), h(2), "3"}
	tx = []string{"300", "false", "7", "1", "1", h(1), "2", "3", "AAEC", "AwQF", "9", h(2)}
	return
}

func parseAny(kind int, rows []string) (error, string) {
	s := strings.Join(rows, "\n")
	switch kind {
	case 0:
		r, err := inv.BlockRecordFromString(s)
		return err, r.String()
	case 1:
		r, err := inv.MerkleRecordFromString(s)
		return err, r.String()
	}
	r, err := inv.TxRecordFromString(s)
	return err, r.String()
}

// Text with a row missing, doubled or added is refused.
// bounds: one record of each kind, every row dropped or doubled, one row added at either end
// reach: end
// cfg: paths=2000
func C16_row_count() {
	b, m, t := sampleRows()
	kind := zverif.Choice("kind", 3)
	rows := [][]string{b, m, t}[kind]
	err, back := parseAny(kind, rows)
	noErr(err, "a well formed record is refused")
	ok(back == strings.Join(rows, "\n"), "a well formed record is misread")
	i := zverif.Choice("row", len(rows))
	var bad []string
	switch zverif.Choice("how", 4) {
	case 0:
		bad = append(append(bad, rows[:i]...), rows[i+1:]...)
	case 1:
		bad = append(append(append(bad, rows[:i]...), rows[i], rows[i]), rows[i+1:]...)
	case 2:
		bad = append(append(bad, rows...), "1")
	case 3:
		bad = append([]string{"1"}, rows...)
	}
	err, _ = parseAny(kind, bad)
	ok(err != nil, "a record with a wrong number of rows is accepted")
	zverif.Reach("end")
}

// A row of arbitrary text is either refused or means what it says: the record prints back to the same text.
// bounds: one record of each kind, every row replaced by every text of 0..1 bytes (2 thorough) without a line break
// reach: refused accepted
// cfg: paths=20000 budget=200
func C16_row_text() {
	b, m, t := sampleRows()
	kind := zverif.Choice("kind", 3)
	rows := [][]string{b, m, t}[kind]
	i := zverif.Choice("row", len(rows))
	s := zverif.Str("text", zverif.Int("len", 0, zverif.Tier(1, 2)))
	for k := 0; k < len(s); k++ {
		zverif.Assume(s[k] != '\n')
	}
	rows[i] = s
	err, back := parseAny(kind, rows)
	if err != nil {
		zverif.Reach("refused")
		return
	}
	zverif.Reach("accepted")
	// numbers may be written with leading zeros; everything else must come back as given
	got := strings.Split(back, "\n")
	ok(len(got) == len(rows), "a malformed record is accepted with another number of rows")
	for k := range rows {
		if k != i {
			ok(got[k] == rows[k], "changing one row of a record changed another field")
		}
	}
	if kind == 2 && i == 1 { // a flag may be spelled in any usual way
		v, err := strconv.ParseBool(s)
		ok(err == nil && got[i] == strconv.FormatBool(v), "malformed text in a record is accepted")
	} else if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		g, err := strconv.ParseInt(got[i], 10, 64)
		ok(err == nil && g == n || got[i] == s, "a number in a record is misread")
	} else if kind == 2 && (i == 8 || i == 9) {
		// base64 may carry padding bits
	} else {
		ok(got[i] == s, "malformed text in a record is accepted")
	}
}

// Counts that do not match the rows are refused and never abort, whatever the numbers.
// bounds: every count of inputs and outputs in -(2^64-1)..2^64-1, 5 to 12 rows in all
// reach: refused
// cfg: paths=20000
func C16_counts() {
	_, _, t := sampleRows()
	in, out := zverif.U64("inputs"), zverif.U64("outputs")
	zverif.Assume(zverif.Or(in != 1, out != 1))
	t[3], t[4] = strconv.FormatUint(in, 10), strconv.FormatUint(out, 10)
	if zverif.Bool("neg in") {
		t[3] = "-" + t[3]
	}
	if zverif.Bool("neg out") {
		t[4] = "-" + t[4]
	}
	n := zverif.Int("rows", 5, 12)
	r, err := inv.TxRecordFromString(strings.Join(t[:n], "\n"))
	if err == nil {
		ok(uint64(len(r.Tx.Inputs)) == in, "a transaction record is read with another number of inputs than it states")
		ok(uint64(len(r.Tx.Outputs)) == out, "a transaction record is read with another number of outputs than it states")
	} else {
		zverif.Reach("refused")
	}
}
