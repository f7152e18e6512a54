package main

import (
	"crypto/sha256"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed expression DAG. One Ctx per worker, not shared between goroutines.

type SK uint8

const (
	KBool SK = iota
	KBV
	KInt
	KF64
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
	OUlt
	OUle
	OSlt
	OSle
	OIAdd
	OISub
	OIMul
	OIDiv
	OIMod
	OILt
	OILe
	OBV2I
	OI2BV
	OSHA
	OSIG
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFNeg
	OU2F
	OS2F
	OF2U
	OF2S
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OIAdd: "+", OISub: "-", OIMul: "*", OIDiv: "div", OIMod: "mod", OILt: "<", OILe: "<=",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFNeg: "fp.neg",
}

type Term struct {
	id   int
	op   Op
	sk   SK
	w    int // BV width
	a    []*Term
	u    uint64   // const for Bool / BV<=64 / F64 bits; extract lo; SIG key
	b    *big.Int // const for BV>64 / Int
	name string
	vars []*Term // set of free variables incl. SHA/SIG apps (lazily computed)
	vOK  bool
	// cached unsigned range for BV<=64
	rOK    bool
	lo, hi uint64
	h, h2  uint64 // structural hash, the same in every Ctx
}

func (t *Term) isConst() bool { return t.op == OConst }

type Ctx struct {
	tab     map[string]*Term
	n       int
	tt, ff  *Term
	small   [65][]*Term
	digests map[string][]byte // known digest -> preimage
	keyBuf  []byte
	terms   []*Term
	shaMax  int
	eqCache map[[2]int]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, digests: map[string][]byte{}, eqCache: map[[2]int]*Term{}}
	c.ff = c.mk(OConst, KBool, 0, nil, 0, nil, "")
	c.tt = c.mk(OConst, KBool, 0, nil, 1, nil, "")
	return c
}

func put64(b []byte, v uint64) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}

func (c *Ctx) mk(op Op, sk SK, w int, a []*Term, u uint64, b *big.Int, name string) *Term {
	k := c.keyBuf[:0]
	k = append(k, byte(op), byte(sk), byte(w), byte(w>>8), byte(w>>16))
	for _, x := range a {
		k = append(k, byte(x.id), byte(x.id>>8), byte(x.id>>16), byte(x.id>>24))
	}
	if op == OConst || op == OVar || op == OExtract || op == OSIG || op == OI2BV || u != 0 && (op == OIAdd || op == OISub) {
		k = put64(k, u)
		if b != nil {
			k = append(k, byte(b.Sign()))
			k = append(k, b.Bytes()...)
		}
		k = append(k, name...)
	}
	c.keyBuf = k
	if t, ok := c.tab[string(k)]; ok {
		return t
	}
	t := &Term{id: c.n, op: op, sk: sk, w: w, u: u, b: b, name: name}
	if len(a) > 0 {
		t.a = append([]*Term(nil), a...)
	}
	c.n++
	h, h2 := uint64(0x9E3779B97F4A7C15), uint64(0xC2B2AE3D27D4EB4F)
	mix := func(x uint64) {
		h = (h ^ x) * 0xff51afd7ed558ccd
		h ^= h >> 32
		h2 = (h2 + x) * 0x9FB21C651E98DF25
		h2 ^= h2 >> 29
	}
	mix(uint64(op)<<40 | uint64(sk)<<32 | uint64(w))
	for _, x := range a {
		mix(x.h)
		mix(x.h2)
	}
	if op == OConst || op == OVar || op == OExtract || op == OSIG || op == OI2BV || u != 0 && (op == OIAdd || op == OISub) {
		mix(u)
		if b != nil {
			mix(uint64(b.Sign()))
			for _, x := range b.Bits() {
				mix(uint64(x))
			}
		}
		for i := 0; i < len(name); i++ {
			mix(uint64(name[i]))
		}
	}
	t.h, t.h2 = h, h2
	c.tab[string(k)] = t
	c.terms = append(c.terms, t)
	return t
}

func (c *Ctx) Bool(v bool) *Term {
	if v {
		return c.tt
	}
	return c.ff
}

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) BV(w int, v uint64) *Term {
	if w > 64 {
		return c.BVBig(w, new(big.Int).SetUint64(v))
	}
	v &= maskW(w)
	if v < 1024 {
		if c.small[w] == nil {
			c.small[w] = make([]*Term, 1024)
		}
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(OConst, KBV, w, nil, v, nil, "")
		c.small[w][v] = t
		return t
	}
	return c.mk(OConst, KBV, w, nil, v, nil, "")
}

func (c *Ctx) BVBig(w int, v *big.Int) *Term {
	if w <= 64 {
		m := new(big.Int).And(v, new(big.Int).SetUint64(maskW(w)))
		return c.BV(w, m.Uint64())
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	m.Sub(m, big.NewInt(1))
	m.And(m, v)
	return c.mk(OConst, KBV, w, nil, 0, m, "")
}

func (c *Ctx) Int(v *big.Int) *Term {
	return c.mk(OConst, KInt, 0, nil, 0, new(big.Int).Set(v), "")
}
func (c *Ctx) IntU(v uint64) *Term { return c.Int(new(big.Int).SetUint64(v)) }

func (c *Ctx) F64(v float64) *Term {
	return c.mk(OConst, KF64, 0, nil, math.Float64bits(v), nil, "")
}

func (c *Ctx) Var(name string, sk SK, w int) *Term { return c.mk(OVar, sk, w, nil, 0, nil, name) }

// bigVal: numeric value of a const BV/Int
func (t *Term) bigVal() *big.Int {
	if t.b != nil {
		return t.b
	}
	return new(big.Int).SetUint64(t.u)
}

func (t *Term) isTrue() bool  { return t.op == OConst && t.sk == KBool && t.u == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sk == KBool && t.u == 0 }

func (t *Term) isZero() bool {
	if t.op != OConst {
		return false
	}
	if t.b != nil {
		return t.b.Sign() == 0
	}
	return t.u == 0
}

func (t *Term) bytesBE() []byte { // const BV
	n := (t.w + 7) / 8
	out := make([]byte, n)
	t.bigVal().FillBytes(out)
	return out
}

// ---------- booleans

func (c *Ctx) Not(x *Term) *Term {
	if x.isConst() {
		return c.Bool(x.u == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	switch x.op {
	case OUlt:
		return c.Ule(x.a[1], x.a[0])
	case OUle:
		return c.Ult(x.a[1], x.a[0])
	case OSlt:
		return c.Sle(x.a[1], x.a[0])
	case OSle:
		return c.Slt(x.a[1], x.a[0])
	case OILt:
		return c.ILe(x.a[1], x.a[0])
	case OILe:
		return c.ILt(x.a[1], x.a[0])
	}
	return c.mk(ONot, KBool, 0, []*Term{x}, 0, nil, "")
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	absorb := op == OOr // value that absorbs
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.isConst() {
			if (x.u == 1) == absorb {
				return true
			}
			return false
		}
		if x.op == op {
			for _, y := range x.a {
				if add(y) {
					return true
				}
			}
			return false
		}
		if seen[x.id] {
			return false
		}
		if n := c.Not(x); seen[n.id] {
			return true
		}
		seen[x.id] = true
		out = append(out, x)
		return false
	}
	for _, x := range xs {
		if add(x) {
			return c.Bool(absorb)
		}
	}
	if len(out) == 0 {
		return c.Bool(!absorb)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(op, KBool, 0, out, 0, nil, "")
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(p, x, y *Term) *Term {
	if p.isConst() {
		if p.u == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if p.op == ONot {
		return c.Ite(p.a[0], y, x)
	}
	if x.sk == KBool {
		if x.isTrue() {
			return c.Or(p, y)
		}
		if x.isFalse() {
			return c.And(c.Not(p), y)
		}
		if y.isTrue() {
			return c.Or(c.Not(p), x)
		}
		if y.isFalse() {
			return c.And(p, x)
		}
	}
	if x.op == OIte && x.a[0] == p {
		x = x.a[1]
	}
	if y.op == OIte && y.a[0] == p {
		y = y.a[2]
	}
	if x == y {
		return x
	}
	return c.mk(OIte, x.sk, x.w, []*Term{p, x, y}, 0, nil, "")
}

// ---------- equality

func (c *Ctx) Eq(x, y *Term) *Term {
	if x == y {
		return c.tt
	}
	if x.sk != y.sk || x.w != y.w {
		panic(fmt.Sprintf("Eq sort mismatch %v/%d %v/%d", x.sk, x.w, y.sk, y.w))
	}
	if x.h > y.h {
		x, y = y, x
	}
	k := [2]int{x.id, y.id}
	if r, ok := c.eqCache[k]; ok {
		return r
	}
	r := c.eq(x, y)
	c.eqCache[k] = r
	return r
}

func (c *Ctx) eq(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return c.ff // hash-consed, distinct
	}
	if y.isConst() {
		x, y = y, x
	}
	// now x may be const
	if x.sk == KBool {
		if x.isConst() {
			if x.u == 1 {
				return y
			}
			return c.Not(y)
		}
		return c.mk(OEq, KBool, 0, []*Term{x, y}, 0, nil, "")
	}
	if x.sk == KF64 {
		panic("Eq on F64")
	}
	if x.sk == KBV {
		if x.op == OSHA && y.op == OSHA {
			if x.a[0].w != y.a[0].w {
				return c.ff
			}
			return c.Eq(x.a[0], y.a[0])
		}
		if x.op == OSIG && y.op == OSIG {
			if x.u != y.u {
				return c.ff
			}
			return c.Eq(x.a[0], y.a[0])
		}
		if x.isConst() && y.op == OSHA {
			if pre, ok := c.digests[string(x.bytesBE())]; ok {
				if len(pre)*8 == y.a[0].w {
					return c.Eq(y.a[0], c.BVBig(len(pre)*8, new(big.Int).SetBytes(pre)))
				}
			}
			return c.ff
		}
		if x.isConst() && y.op == OSIG {
			return c.ff
		}
		if x.isConst() {
			switch y.op {
			case OIte:
				if y.a[1].isConst() || y.a[2].isConst() {
					return c.Ite(y.a[0], c.Eq(x, y.a[1]), c.Eq(x, y.a[2]))
				}
			case OZext:
				k := y.a[0]
				v := x.bigVal()
				if v.BitLen() > k.w {
					return c.ff
				}
				return c.Eq(k, c.BVBig(k.w, v))
			case OAdd:
				if y.a[1].isConst() && y.w <= 64 {
					return c.Eq(c.BV(y.w, x.u-y.a[1].u), y.a[0])
				}
			case OSub:
				if y.a[0].isConst() && y.w <= 64 {
					return c.Eq(c.BV(y.w, y.a[0].u-x.u), y.a[1])
				}
				if y.a[1].isConst() && y.w <= 64 {
					return c.Eq(c.BV(y.w, x.u+y.a[1].u), y.a[0])
				}
			case OBXor:
				if y.a[1].isConst() && y.w <= 64 {
					return c.Eq(c.BV(y.w, x.u^y.a[1].u), y.a[0])
				}
			case OI2BV:
				lo, hi := c.irange(y.a[0])
				lim := new(big.Int).Lsh(big.NewInt(1), uint(y.w))
				if y.u == 1 || lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(lim) < 0 {
					return c.Eq(c.Int(x.bigVal()), y.a[0])
				}
			}
			if x.w <= 64 {
				lo, hi := c.urange(y)
				if x.u < lo || x.u > hi {
					return c.ff
				}
			}
		} else {
			if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
				return c.Eq(x.a[0], y.a[0])
			}
			if x.op == OI2BV && y.op == OI2BV && (x.u == 1 || c.fitsW(x.a[0], x.w)) && (y.u == 1 || c.fitsW(y.a[0], y.w)) {
				return c.Eq(x.a[0], y.a[0])
			}
			if x.op == OIte && (x.a[1] == y || x.a[2] == y) {
				return c.Ite(x.a[0], c.Eq(x.a[1], y), c.Eq(x.a[2], y))
			}
			if y.op == OIte && (y.a[1] == x || y.a[2] == x) {
				return c.Ite(y.a[0], c.Eq(y.a[1], x), c.Eq(y.a[2], x))
			}
			// x + c == x
			if y.op == OAdd && y.a[0] == x && y.a[1].isConst() && !y.a[1].isZero() {
				return c.ff
			}
			if x.op == OAdd && x.a[0] == y && x.a[1].isConst() && !x.a[1].isZero() {
				return c.ff
			}
			if x.op == OAdd && y.op == OAdd && x.a[1].isConst() && y.a[1].isConst() && x.a[0] == y.a[0] {
				return c.ff
			}
			if x.w <= 64 {
				al, ah := c.urange(x)
				bl, bh := c.urange(y)
				if ah < bl || bh < al {
					return c.ff
				}
			}
		}
		// split concats
		if x.op == OConcat || y.op == OConcat {
			return c.eqSplit(x, y)
		}
	}
	if x.sk == KInt {
		if x.isConst() && y.op == OBV2I {
			v := x.b
			if v.Sign() < 0 || v.BitLen() > y.a[0].w {
				return c.ff
			}
			return c.Eq(c.BVBig(y.a[0].w, v), y.a[0])
		}
		if x.op == OBV2I && y.op == OBV2I && x.a[0].w == y.a[0].w {
			return c.Eq(x.a[0], y.a[0])
		}
		if p, n, ch := c.linSides(x, y); ch {
			return c.Eq(p, n)
		}
		al, ah := c.irange(x)
		bl, bh := c.irange(y)
		if ah != nil && bl != nil && ah.Cmp(bl) < 0 || bh != nil && al != nil && bh.Cmp(al) < 0 {
			return c.ff
		}
	}
	return c.mk(OEq, KBool, 0, []*Term{x, y}, 0, nil, "")
}

func concatParts(t *Term) []*Term {
	if t.op == OConcat {
		return t.a
	}
	return []*Term{t}
}

func (c *Ctx) eqSplit(x, y *Term) *Term {
	xp := append([]*Term(nil), concatParts(x)...)
	yp := append([]*Term(nil), concatParts(y)...)
	var conj []*Term
	i, j := 0, 0
	var xc, yc *Term
	type pair struct{ a, b *Term }
	var pairs []pair
	for {
		if xc == nil {
			if i >= len(xp) {
				break
			}
			xc = xp[i]
			i++
		}
		if yc == nil {
			yc = yp[j]
			j++
		}
		if xc.w == yc.w {
			pairs = append(pairs, pair{xc, yc})
			xc, yc = nil, nil
		} else if xc.w > yc.w {
			hi := c.Extract(xc, xc.w-1, xc.w-yc.w)
			pairs = append(pairs, pair{hi, yc})
			xc = c.Extract(xc, xc.w-yc.w-1, 0)
			yc = nil
		} else {
			hi := c.Extract(yc, yc.w-1, yc.w-xc.w)
			pairs = append(pairs, pair{xc, hi})
			yc = c.Extract(yc, yc.w-xc.w-1, 0)
			xc = nil
		}
	}
	// Merge runs where splitting only fragmented one side: keep simple.
	for _, p := range pairs {
		e := c.Eq(p.a, p.b)
		if e.isFalse() {
			return c.ff
		}
		conj = append(conj, e)
	}
	return c.And(conj...)
}

func (c *Ctx) fitsW(t *Term, w int) bool {
	lo, hi := c.irange(t)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return false
	}
	return hi.BitLen() <= w
}

// irange: conservative interval of an Int term (nil = unbounded)
func (c *Ctx) irange(t *Term) (lo, hi *big.Int) {
	if (t.op == OISub || t.op == OIAdd) && t.u == 1 {
		return big.NewInt(0), new(big.Int).SetUint64(^uint64(0))
	}
	switch t.op {
	case OConst:
		return t.b, t.b
	case OBV2I:
		x := t.a[0]
		if x.op == OConst {
			return x.bigVal(), x.bigVal()
		}
		if x.w <= 64 {
			l, h := c.urange(x)
			return new(big.Int).SetUint64(l), new(big.Int).SetUint64(h)
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(x.w))
		return big.NewInt(0), m.Sub(m, big.NewInt(1))
	case OIAdd:
		al, ah := c.irange(t.a[0])
		bl, bh := c.irange(t.a[1])
		if al != nil && bl != nil {
			lo = new(big.Int).Add(al, bl)
		}
		if ah != nil && bh != nil {
			hi = new(big.Int).Add(ah, bh)
		}
		return
	case OISub:
		al, ah := c.irange(t.a[0])
		bl, bh := c.irange(t.a[1])
		if al != nil && bh != nil {
			lo = new(big.Int).Sub(al, bh)
		}
		if ah != nil && bl != nil {
			hi = new(big.Int).Sub(ah, bl)
		}
		return
	case OIMul:
		al, ah := c.irange(t.a[0])
		bl, bh := c.irange(t.a[1])
		if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			lo = new(big.Int).Mul(al, bl)
			if ah != nil && bh != nil {
				hi = new(big.Int).Mul(ah, bh)
			}
		}
		return
	case OIDiv:
		al, ah := c.irange(t.a[0])
		bl, bh := c.irange(t.a[1])
		if bl != nil && bl.Sign() == 0 && (bh == nil || bh.Sign() > 0) {
			bl = big.NewInt(1) // a division is only carried out where the divisor is not zero
		}
		if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 1 {
			if bh != nil {
				lo = new(big.Int).Div(al, bh)
			} else {
				lo = big.NewInt(0)
			}
			if ah != nil {
				hi = new(big.Int).Div(ah, bl)
			}
		}
		return
	case OIMod:
		_, bh := c.irange(t.a[1])
		lo = big.NewInt(0)
		if bh != nil && bh.Sign() > 0 {
			hi = new(big.Int).Sub(bh, big.NewInt(1))
		}
		return
	case OIte:
		al, ah := c.irange(t.a[1])
		bl, bh := c.irange(t.a[2])
		if al != nil && bl != nil {
			lo = al
			if bl.Cmp(al) < 0 {
				lo = bl
			}
		}
		if ah != nil && bh != nil {
			hi = ah
			if bh.Cmp(ah) > 0 {
				hi = bh
			}
		}
		return
	}
	return nil, nil
}

// urange: conservative unsigned range for BV w<=64
func (c *Ctx) urange(t *Term) (uint64, uint64) {
	if t.rOK {
		return t.lo, t.hi
	}
	lo, hi := c.urange0(t, 0)
	t.rOK, t.lo, t.hi = true, lo, hi
	return lo, hi
}

func (c *Ctx) urange0(t *Term, d int) (uint64, uint64) {
	m := maskW(t.w)
	if t.w > 64 {
		return 0, ^uint64(0)
	}
	switch t.op {
	case OConst:
		return t.u, t.u
	case OZext:
		if t.a[0].w <= 64 {
			return c.urange(t.a[0])
		}
	case OIte:
		al, ah := c.urange(t.a[1])
		bl, bh := c.urange(t.a[2])
		return min(al, bl), max(ah, bh)
	case OBAnd:
		_, ah := c.urange(t.a[0])
		_, bh := c.urange(t.a[1])
		return 0, min(ah, bh)
	case OURem:
		if t.a[1].isConst() && t.a[1].u > 0 {
			_, ah := c.urange(t.a[0])
			return 0, min(ah, t.a[1].u-1)
		}
	case OUDiv:
		if t.a[1].isConst() && t.a[1].u > 0 {
			al, ah := c.urange(t.a[0])
			return al / t.a[1].u, ah / t.a[1].u
		}
	case OLshr:
		if t.a[1].isConst() && t.a[1].u < 64 {
			al, ah := c.urange(t.a[0])
			return al >> t.a[1].u, ah >> t.a[1].u
		}
	case OAdd:
		al, ah := c.urange(t.a[0])
		bl, bh := c.urange(t.a[1])
		s, cr := bits.Add64(ah, bh, 0)
		if cr == 0 && s <= m {
			return al + bl, s
		}
	case OMul:
		al, ah := c.urange(t.a[0])
		bl, bh := c.urange(t.a[1])
		h, l := bits.Mul64(ah, bh)
		if h == 0 && l <= m {
			return al * bl, l
		}
	case OConcat:
		// leading zero const parts
		if t.a[0].isZero() {
			r := t.w - t.a[0].w
			return 0, maskW(r)
		}
	}
	return 0, m
}

// ---------- BV ops

func s64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) Bin(op Op, x, y *Term) *Term {
	w := x.w
	if x.w != y.w {
		panic(fmt.Sprintf("Bin %d width mismatch %d %d", op, x.w, y.w))
	}
	if x.isConst() && y.isConst() && w <= 64 {
		a, b := x.u, y.u
		var r uint64
		ok := true
		switch op {
		case OAdd:
			r = a + b
		case OSub:
			r = a - b
		case OMul:
			r = a * b
		case OUDiv:
			if b == 0 {
				r = maskW(w)
			} else {
				r = a / b
			}
		case OURem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OSDiv:
			if b == 0 || (s64(b, w) == -1) {
				if b == 0 {
					ok = false
				} else {
					r = -a
				}
			} else {
				r = uint64(s64(a, w) / s64(b, w))
			}
		case OSRem:
			if b == 0 {
				ok = false
			} else if s64(b, w) == -1 {
				r = 0
			} else {
				r = uint64(s64(a, w) % s64(b, w))
			}
		case OBAnd:
			r = a & b
		case OBOr:
			r = a | b
		case OBXor:
			r = a ^ b
		case OShl:
			if b >= uint64(w) {
				r = 0
			} else {
				r = a << b
			}
		case OLshr:
			if b >= uint64(w) {
				r = 0
			} else {
				r = a >> b
			}
		case OAshr:
			if b >= uint64(w) {
				b = uint64(w - 1)
			}
			r = uint64(s64(a, w) >> b)
		}
		if ok {
			return c.BV(w, r)
		}
	}
	// commutative normalisation: const to the right
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if x.isConst() || (!y.isConst() && x.h > y.h) {
			x, y = y, x
		}
	}
	if y.isConst() {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLshr, OAshr:
			if y.isZero() {
				return x
			}
		case OMul:
			if y.isZero() {
				return y
			}
			if w <= 64 && y.u == 1 {
				return x
			}
		case OUDiv:
			if w <= 64 && y.u == 1 {
				return x
			}
		case OURem:
			if w <= 64 && y.u == 1 {
				return c.BV(w, 0)
			}
		case OBAnd:
			if y.isZero() {
				return y
			}
			if w <= 64 && y.u == maskW(w) {
				return x
			}
			// low mask -> zext(extract)
			if w <= 64 && y.u&(y.u+1) == 0 {
				k := bits.Len64(y.u)
				return c.Zext(c.Extract(x, k-1, 0), w)
			}
		}
		if op == OShl && w <= 64 && y.u < uint64(w) {
			k := int(y.u)
			return c.Concat(c.Extract(x, w-k-1, 0), c.BV(k, 0))
		}
		if op == OLshr && w <= 64 && y.u < uint64(w) {
			k := int(y.u)
			return c.Zext(c.Extract(x, w-1, k), w)
		}
		if (op == OShl || op == OLshr) && w <= 64 && y.u >= uint64(w) {
			return c.BV(w, 0)
		}
		if op == OAdd && x.op == OAdd && x.a[1].isConst() && w <= 64 {
			return c.Bin(OAdd, x.a[0], c.BV(w, x.a[1].u+y.u))
		}
		if op == OSub && w <= 64 {
			return c.Bin(OAdd, x, c.BV(w, -y.u))
		}
		if op == OUDiv || op == OURem {
			if w <= 64 && y.u != 0 && y.u&(y.u-1) == 0 {
				k := bits.TrailingZeros64(y.u)
				if op == OUDiv {
					return c.Zext(c.Extract(x, w-1, k), w)
				}
				return c.Zext(c.Extract(x, k-1, 0), w)
			}
		}
	}
	if x == y {
		switch op {
		case OSub, OBXor:
			return c.BVBig(w, big.NewInt(0))
		case OBAnd, OBOr:
			return x
		}
	}
	if op == OSub && x.op == OAdd {
		if x.a[0] == y {
			return x.a[1]
		}
		if x.a[1] == y {
			return x.a[0]
		}
	}
	if op == OAdd && y.op == OSub && y.a[1] == x {
		return y.a[0]
	}
	if op == OAdd && x.op == OSub && x.a[1] == y {
		return x.a[0]
	}
	if op == OBOr && w <= 64 {
		// disjoint or => concat (byte assembling)
		if r := c.orConcat(x, y); r != nil {
			return r
		}
	}
	if op == OBOr || op == OAdd {
		if x.isZero() {
			return y
		}
	}
	return c.mk(op, KBV, w, []*Term{x, y}, 0, nil, "")
}

// orConcat: x|y where for each bit region at most one is nonzero
func (c *Ctx) orConcat(x, y *Term) *Term {
	xs, ys := c.regions(x), c.regions(y)
	if xs == nil || ys == nil {
		return nil
	}
	// regions: list of parts MSB first. Align on cuts.
	cuts := map[int]bool{}
	p := x.w
	for _, t := range xs {
		p -= t.w
		cuts[p] = true
	}
	p = y.w
	for _, t := range ys {
		p -= t.w
		cuts[p] = true
	}
	var out []*Term
	hi := x.w
	for lo := x.w - 1; lo >= 0; lo-- {
		if !cuts[lo] {
			continue
		}
		a := c.Extract(x, hi-1, lo)
		b := c.Extract(y, hi-1, lo)
		switch {
		case a.isZero():
			out = append(out, b)
		case b.isZero():
			out = append(out, a)
		default:
			return nil
		}
		hi = lo
	}
	return c.Concat(out...)
}

func (c *Ctx) regions(t *Term) []*Term {
	switch t.op {
	case OConcat:
		return t.a
	case OZext:
		return []*Term{c.BVBig(t.w-t.a[0].w, big.NewInt(0)), t.a[0]}
	case OConst:
		return []*Term{t}
	}
	return []*Term{t}
}

func (c *Ctx) BNot(x *Term) *Term {
	if x.isConst() && x.w <= 64 {
		return c.BV(x.w, ^x.u)
	}
	if x.op == OBNot {
		return x.a[0]
	}
	return c.mk(OBNot, KBV, x.w, []*Term{x}, 0, nil, "")
}

func (c *Ctx) Concat(xs ...*Term) *Term {
	var out []*Term
	w := 0
	var add func(x *Term)
	add = func(x *Term) {
		if x.w == 0 {
			return
		}
		if x.op == OConcat {
			for _, y := range x.a {
				add(y)
			}
			return
		}
		if x.op == OZext {
			add(c.BVBig(x.w-x.a[0].w, big.NewInt(0)))
			add(x.a[0])
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.isConst() && x.isConst() && l.w+x.w <= 64 {
				out[n-1] = c.BV(l.w+x.w, l.u<<uint(x.w)|x.u)
				return
			}
			if l.op == OExtract && x.op == OExtract && l.a[0] == x.a[0] && int(l.u) == int(x.u)+x.w {
				out[n-1] = c.Extract(l.a[0], int(l.u)+l.w-1, int(x.u))
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		w += x.w
		add(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 0 {
		return c.BVzero(0)
	}
	// merge all-const runs
	allc := true
	for _, x := range out {
		if !x.isConst() {
			allc = false
			break
		}
	}
	if allc {
		v := new(big.Int)
		for _, x := range out {
			v.Lsh(v, uint(x.w))
			v.Or(v, x.bigVal())
		}
		return c.BVBig(w, v)
	}
	// merge const runs into single const
	var m []*Term
	for i := 0; i < len(out); {
		if !out[i].isConst() {
			m = append(m, out[i])
			i++
			continue
		}
		j := i
		v := new(big.Int)
		cw := 0
		for j < len(out) && out[j].isConst() {
			v.Lsh(v, uint(out[j].w))
			v.Or(v, out[j].bigVal())
			cw += out[j].w
			j++
		}
		m = append(m, c.BVBig(cw, v))
		i = j
	}
	if len(m) == 2 && m[0].isZero() {
		return c.mk(OZext, KBV, w, []*Term{m[1]}, 0, nil, "")
	}
	return c.mk(OConcat, KBV, w, m, 0, nil, "")
}

func (c *Ctx) BVzero(w int) *Term {
	if w == 0 {
		return c.mk(OConst, KBV, 0, nil, 0, nil, "")
	}
	return c.BVBig(w, big.NewInt(0))
}

func (c *Ctx) Extract(x *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w <= 0 {
		return c.BVzero(0)
	}
	if w == x.w {
		return x
	}
	switch x.op {
	case OConst:
		if x.w <= 64 {
			return c.BV(w, x.u>>uint(lo))
		}
		return c.BVBig(w, new(big.Int).Rsh(x.b, uint(lo)))
	case OExtract:
		return c.Extract(x.a[0], hi+int(x.u), lo+int(x.u))
	case OConcat:
		p := x.w
		var parts []*Term
		for _, y := range x.a {
			yhi, ylo := p-1, p-y.w
			p -= y.w
			if ylo > hi || yhi < lo {
				continue
			}
			h, l := min(hi, yhi), max(lo, ylo)
			parts = append(parts, c.Extract(y, h-ylo, l-ylo))
		}
		return c.Concat(parts...)
	case OZext:
		k := x.a[0].w
		if lo >= k {
			return c.BVzero(w)
		}
		if hi < k {
			return c.Extract(x.a[0], hi, lo)
		}
		return c.Zext(c.Extract(x.a[0], k-1, lo), w)
	case OIte:
		if x.a[1].isConst() || x.a[2].isConst() {
			return c.Ite(x.a[0], c.Extract(x.a[1], hi, lo), c.Extract(x.a[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		if x.w <= 64 {
			return c.Bin(x.op, c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 && x.w <= 64 {
			return c.Bin(x.op, c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	}
	return c.mk(OExtract, KBV, w, []*Term{x}, uint64(lo), nil, "")
}

func (c *Ctx) Zext(x *Term, w int) *Term {
	if w == x.w {
		return x
	}
	if x.w == 0 {
		return c.BVzero(w)
	}
	if x.isConst() {
		return c.BVBig(w, x.bigVal())
	}
	if x.op == OZext {
		return c.Zext(x.a[0], w)
	}
	if x.op == OConcat {
		return c.Concat(c.BVzero(w-x.w), x)
	}
	return c.mk(OZext, KBV, w, []*Term{x}, 0, nil, "")
}

func (c *Ctx) Sext(x *Term, w int) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() && w <= 64 {
		return c.BV(w, uint64(s64(x.u, x.w)))
	}
	if x.op == OZext {
		return c.Zext(x.a[0], w)
	}
	if x.w <= 64 {
		_, hi := c.urange(x)
		if hi < uint64(1)<<uint(x.w-1) {
			return c.Zext(x, w)
		}
	}
	return c.mk(OSext, KBV, w, []*Term{x}, 0, nil, "")
}

func (c *Ctx) Ult(x, y *Term) *Term {
	if x == y {
		return c.ff
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.bigVal().Cmp(y.bigVal()) < 0)
	}
	if y.isZero() {
		return c.ff
	}
	if x.w <= 64 {
		al, ah := c.urange(x)
		bl, bh := c.urange(y)
		if ah < bl {
			return c.tt
		}
		if al >= bh {
			return c.ff
		}
	}
	if r := c.i2bvCmp(x, y, true); r != nil {
		return r
	}
	x, y, _ = c.stripZext(x, y)
	return c.mk(OUlt, KBool, 0, []*Term{x, y}, 0, nil, "")
}

func (c *Ctx) stripZext(x, y *Term) (*Term, *Term, bool) {
	if x.op == OZext && y.op == OZext {
		w := max(x.a[0].w, y.a[0].w)
		return c.Zext(x.a[0], w), c.Zext(y.a[0], w), true
	}
	if x.op == OZext && y.isConst() && y.bigVal().BitLen() <= x.a[0].w {
		return x.a[0], c.BVBig(x.a[0].w, y.bigVal()), true
	}
	if y.op == OZext && x.isConst() && x.bigVal().BitLen() <= y.a[0].w {
		return c.BVBig(y.a[0].w, x.bigVal()), y.a[0], true
	}
	return x, y, false
}

// i2bvCmp: compare BVs as Ints when one side comes from integer arithmetic
func (c *Ctx) i2bvCmp(x, y *Term, strict bool) *Term {
	if x.op != OI2BV && y.op != OI2BV {
		return nil
	}
	f := func(t *Term) *Term {
		if t.op == OI2BV {
			if t.u == 1 || c.fitsW(t.a[0], t.w) {
				return t.a[0]
			}
			return nil
		}
		return c.BV2I(t)
	}
	a, b := f(x), f(y)
	if a == nil || b == nil {
		return nil
	}
	if strict {
		return c.ILt(a, b)
	}
	return c.ILe(a, b)
}

func (c *Ctx) Ule(x, y *Term) *Term {
	if x == y {
		return c.tt
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.bigVal().Cmp(y.bigVal()) <= 0)
	}
	if x.isZero() {
		return c.tt
	}
	if x.w <= 64 {
		al, ah := c.urange(x)
		bl, bh := c.urange(y)
		if ah <= bl {
			return c.tt
		}
		if al > bh {
			return c.ff
		}
	}
	if r := c.i2bvCmp(x, y, false); r != nil {
		return r
	}
	x, y, _ = c.stripZext(x, y)
	return c.mk(OUle, KBool, 0, []*Term{x, y}, 0, nil, "")
}

func (c *Ctx) signKnown(x *Term) bool { // known non-negative
	if x.w > 64 {
		return false
	}
	_, hi := c.urange(x)
	return hi < uint64(1)<<uint(x.w-1)
}

// constIteCmp: a comparison of a choice between constants with a constant is the choice's condition
func (c *Ctx) constIteCmp(f func(x, y *Term) *Term, x, y *Term) *Term {
	var leaves func(t *Term, d int) bool
	leaves = func(t *Term, d int) bool {
		return t.isConst() || d < 4 && t.op == OIte && leaves(t.a[1], d+1) && leaves(t.a[2], d+1)
	}
	var push func(t *Term, g func(t *Term) *Term) *Term
	push = func(t *Term, g func(t *Term) *Term) *Term {
		if t.isConst() {
			return g(t)
		}
		return c.Ite(t.a[0], push(t.a[1], g), push(t.a[2], g))
	}
	if y.isConst() && x.op == OIte && leaves(x, 0) {
		return push(x, func(t *Term) *Term { return f(t, y) })
	}
	if x.isConst() && y.op == OIte && leaves(y, 0) {
		return push(y, func(t *Term) *Term { return f(x, t) })
	}
	return nil
}

func (c *Ctx) Slt(x, y *Term) *Term {
	if x == y {
		return c.ff
	}
	if x.isConst() && y.isConst() {
		return c.Bool(s64(x.u, x.w) < s64(y.u, y.w))
	}
	if c.signKnown(x) && c.signKnown(y) {
		return c.Ult(x, y)
	}
	if r := c.constIteCmp(c.Slt, x, y); r != nil {
		return r
	}
	return c.mk(OSlt, KBool, 0, []*Term{x, y}, 0, nil, "")
}
func (c *Ctx) Sle(x, y *Term) *Term {
	if x == y {
		return c.tt
	}
	if x.isConst() && y.isConst() {
		return c.Bool(s64(x.u, x.w) <= s64(y.u, y.w))
	}
	if c.signKnown(x) && c.signKnown(y) {
		return c.Ule(x, y)
	}
	if r := c.constIteCmp(c.Sle, x, y); r != nil {
		return r
	}
	return c.mk(OSle, KBool, 0, []*Term{x, y}, 0, nil, "")
}

// ---------- Int

func (c *Ctx) BV2I(x *Term) *Term {
	if x.isConst() {
		return c.Int(x.bigVal())
	}
	if x.op == OI2BV && (x.u == 1 || c.fitsW(x.a[0], x.w)) {
		return x.a[0]
	}
	if x.op == OZext {
		return c.BV2I(x.a[0])
	}
	if x.op == OIte {
		return c.Ite(x.a[0], c.BV2I(x.a[1]), c.BV2I(x.a[2]))
	}
	return c.mk(OBV2I, KInt, 0, []*Term{x}, 0, nil, "")
}

func (c *Ctx) I2BV(x *Term, w int) *Term {
	if x.isConst() {
		v := new(big.Int).Mod(x.b, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		return c.BVBig(w, v)
	}
	if x.op == OBV2I {
		if x.a[0].w <= w {
			return c.Zext(x.a[0], w)
		}
		return c.Extract(x.a[0], w-1, 0)
	}
	return c.mk(OI2BV, KBV, w, []*Term{x}, 0, nil, "")
}

// I2BVx: the caller knows on this path that 0 <= x < 2^w
func (c *Ctx) I2BVx(x *Term, w int) *Term {
	r := c.I2BV(x, w)
	if r.op == OI2BV {
		r = c.mk(OI2BV, KBV, w, r.a, 1, nil, "")
	}
	return r
}

// nonNeg: the caller knows on this path that 0 <= x < 2^64
func (c *Ctx) nonNeg(x *Term) *Term {
	if x.op == OISub || x.op == OIAdd {
		return c.mk(x.op, KInt, 0, x.a, 1, nil, "")
	}
	return x
}

type linT struct {
	k  *big.Int
	at []*Term
	co []*big.Int
}

// lin: x as constant + sum of coefficient * atom
func (c *Ctx) lin(x *Term) *linT {
	l := &linT{k: new(big.Int)}
	c.linAdd(l, x, big.NewInt(1))
	return l
}

func (c *Ctx) linAdd(l *linT, x *Term, f *big.Int) {
	switch {
	case x.isConst():
		l.k.Add(l.k, new(big.Int).Mul(f, x.b))
	case x.op == OIAdd && x.u == 0:
		c.linAdd(l, x.a[0], f)
		c.linAdd(l, x.a[1], f)
	case x.op == OISub && x.u == 0:
		c.linAdd(l, x.a[0], f)
		c.linAdd(l, x.a[1], new(big.Int).Neg(f))
	case x.op == OIMul && x.a[1].isConst():
		c.linAdd(l, x.a[0], new(big.Int).Mul(f, x.a[1].b))
	default:
		for i, a := range l.at {
			if a == x {
				l.co[i] = new(big.Int).Add(l.co[i], f)
				return
			}
		}
		l.at = append(l.at, x)
		l.co = append(l.co, f)
	}
}

// linPair: positive and negative part of a linear form as two terms
func (c *Ctx) linPair(l *linT) (*Term, *Term) {
	idx := []int{}
	for i := range l.at {
		if l.co[i].Sign() != 0 {
			idx = append(idx, i)
		}
	}
	sort.Slice(idx, func(i, j int) bool { return l.at[idx[i]].h < l.at[idx[j]].h })
	var pos, neg *Term
	add := func(t **Term, x *Term) {
		if *t == nil {
			*t = x
		} else {
			*t = c.mk(OIAdd, KInt, 0, []*Term{*t, x}, 0, nil, "")
		}
	}
	for _, i := range idx {
		co := l.co[i]
		t := l.at[i]
		ab := new(big.Int).Abs(co)
		if ab.BitLen() != 1 {
			t = c.mk(OIMul, KInt, 0, []*Term{t, c.Int(ab)}, 0, nil, "")
		}
		if co.Sign() > 0 {
			add(&pos, t)
		} else {
			add(&neg, t)
		}
	}
	if l.k.Sign() > 0 || pos == nil && neg == nil {
		add(&pos, c.Int(l.k))
	} else if l.k.Sign() < 0 {
		if pos == nil || neg != nil {
			add(&neg, c.Int(new(big.Int).Neg(l.k)))
		} else {
			add(&pos, c.Int(l.k)) // x - 3 as x + -3
		}
	}
	return pos, neg
}

func (c *Ctx) linTerm(l *linT) *Term {
	p, n := c.linPair(l)
	if n == nil {
		return p
	}
	if p == nil {
		p = c.IntU(0)
	}
	return c.mk(OISub, KInt, 0, []*Term{p, n}, 0, nil, "")
}

// linSides cancels common parts of x and y; false if there is nothing to cancel
func (c *Ctx) linSides(x, y *Term) (*Term, *Term, bool) {
	if x.op != OIAdd && x.op != OISub && y.op != OIAdd && y.op != OISub {
		return x, y, false
	}
	l := c.lin(x)
	c.linAdd(l, y, big.NewInt(-1))
	p, n := c.linPair(l)
	z := func(t *Term) *Term {
		if t == nil {
			return c.IntU(0)
		}
		return t
	}
	if p != nil && n == nil && l.k.Sign() < 0 { // moved back: x < 3 rather than x-3 < 0
		k := l.k
		l.k = new(big.Int)
		p, _ = c.linPair(l)
		n = c.Int(new(big.Int).Neg(k))
	}
	p, n = z(p), z(n)
	if p == x && n == y {
		return x, y, false
	}
	return p, n, true
}

func (c *Ctx) IBin(op Op, x, y *Term) *Term {
	if (op == OIAdd || op == OISub) && !(x.isConst() && y.isConst()) {
		l := c.lin(x)
		if op == OIAdd {
			c.linAdd(l, y, big.NewInt(1))
		} else {
			c.linAdd(l, y, big.NewInt(-1))
		}
		if len(l.at) <= 40 {
			return c.linTerm(l)
		}
	}
	if x.isConst() && y.isConst() {
		r := new(big.Int)
		ok := true
		switch op {
		case OIAdd:
			r.Add(x.b, y.b)
		case OISub:
			r.Sub(x.b, y.b)
		case OIMul:
			r.Mul(x.b, y.b)
		case OIDiv:
			if y.b.Sign() == 0 {
				ok = false
			} else {
				r.Div(x.b, y.b)
			}
		case OIMod:
			if y.b.Sign() == 0 {
				ok = false
			} else {
				r.Mod(x.b, y.b)
			}
		}
		if ok {
			return c.Int(r)
		}
	}
	if op == OIAdd || op == OIMul {
		if x.isConst() || (!y.isConst() && x.h > y.h) {
			x, y = y, x
		}
	}
	if y.isConst() {
		if y.b.Sign() == 0 && (op == OIAdd || op == OISub) {
			return x
		}
		if y.b.Sign() == 0 && op == OIMul {
			return y
		}
		if y.b.IsInt64() && y.b.Int64() == 1 && (op == OIMul || op == OIDiv) {
			return x
		}
		if op == OISub {
			return c.IBin(OIAdd, x, c.Int(new(big.Int).Neg(y.b)))
		}
		if op == OIAdd && x.op == OIAdd && x.a[1].isConst() {
			return c.IBin(OIAdd, x.a[0], c.Int(new(big.Int).Add(y.b, x.a[1].b)))
		}
	}
	if op == OISub && x == y {
		return c.IntU(0)
	}
	return c.mk(op, KInt, 0, []*Term{x, y}, 0, nil, "")
}

// cmpDiv removes a division by a positive number, and a constant factor, from one side of x < y (le: x <= y)
func (c *Ctx) cmpDiv(x, y *Term, le bool) *Term {
	pos := func(t *Term) bool { lo, _ := c.irange(t); return lo != nil && lo.Sign() > 0 }
	one := c.IntU(1)
	switch {
	case x.op == OIDiv && pos(x.a[1]) && (y.isConst() || y.op != OIDiv):
		if le {
			y = c.IBin(OIAdd, y, one)
		}
		return c.ILt(x.a[0], c.IBin(OIMul, y, x.a[1]))
	case y.op == OIDiv && pos(y.a[1]) && (x.isConst() || x.op != OIDiv):
		if !le {
			x = c.IBin(OIAdd, x, one)
		}
		return c.ILe(c.IBin(OIMul, x, y.a[1]), y.a[0])
	case x.op == OIMul && x.a[1].isConst() && x.a[1].b.Sign() > 0 && y.isConst():
		k, r := new(big.Int).DivMod(y.b, x.a[1].b, new(big.Int))
		if !le && r.Sign() != 0 {
			k.Add(k, big.NewInt(1))
		}
		if le {
			return c.ILe(x.a[0], c.Int(k))
		}
		return c.ILt(x.a[0], c.Int(k))
	case y.op == OIMul && y.a[1].isConst() && y.a[1].b.Sign() > 0 && x.isConst():
		k, r := new(big.Int).DivMod(x.b, y.a[1].b, new(big.Int))
		if le && r.Sign() != 0 {
			k.Add(k, big.NewInt(1))
		}
		if le {
			return c.ILe(c.Int(k), y.a[0])
		}
		return c.ILt(c.Int(k), y.a[0])
	}
	return nil
}

func (c *Ctx) ILt(x, y *Term) *Term {
	if x == y {
		return c.ff
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.b.Cmp(y.b) < 0)
	}
	if r := c.cmpDiv(x, y, false); r != nil {
		return r
	}
	if p, n, ch := c.linSides(x, y); ch {
		return c.ILt(p, n)
	}
	al, ah := c.irange(x)
	bl, bh := c.irange(y)
	if ah != nil && bl != nil && ah.Cmp(bl) < 0 {
		return c.tt
	}
	if al != nil && bh != nil && al.Cmp(bh) >= 0 {
		return c.ff
	}
	if x.op == OBV2I && y.op == OBV2I {
		w := max(x.a[0].w, y.a[0].w)
		return c.Ult(c.Zext(x.a[0], w), c.Zext(y.a[0], w))
	}
	if x.op == OBV2I && y.isConst() {
		return c.Ult(x.a[0], c.BVBig(x.a[0].w, y.b))
	}
	if y.op == OBV2I && x.isConst() {
		return c.Ult(c.BVBig(y.a[0].w, x.b), y.a[0])
	}
	return c.mk(OILt, KBool, 0, []*Term{x, y}, 0, nil, "")
}
func (c *Ctx) ILe(x, y *Term) *Term {
	if x == y {
		return c.tt
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.b.Cmp(y.b) <= 0)
	}
	if r := c.cmpDiv(x, y, true); r != nil {
		return r
	}
	if p, n, ch := c.linSides(x, y); ch {
		return c.ILe(p, n)
	}
	al, ah := c.irange(x)
	bl, bh := c.irange(y)
	if ah != nil && bl != nil && ah.Cmp(bl) <= 0 {
		return c.tt
	}
	if al != nil && bh != nil && al.Cmp(bh) > 0 {
		return c.ff
	}
	if x.op == OBV2I && y.op == OBV2I {
		w := max(x.a[0].w, y.a[0].w)
		return c.Ule(c.Zext(x.a[0], w), c.Zext(y.a[0], w))
	}
	if x.op == OBV2I && y.isConst() {
		return c.Ule(x.a[0], c.BVBig(x.a[0].w, y.b))
	}
	if y.op == OBV2I && x.isConst() {
		return c.Ule(c.BVBig(y.a[0].w, x.b), y.a[0])
	}
	return c.mk(OILe, KBool, 0, []*Term{x, y}, 0, nil, "")
}

// ---------- hash / signature

func (c *Ctx) SHA(x *Term) *Term {
	if x.isConst() {
		var in []byte
		if x.w > 0 {
			in = x.bytesBE()
		}
		d := sha256.Sum256(in)
		c.digests[string(d[:])] = in
		return c.BVBig(256, new(big.Int).SetBytes(d[:]))
	}
	return c.mk(OSHA, KBV, 256, []*Term{x}, 0, nil, "")
}

const sigBytes = 71

func (c *Ctx) SIG(key int, h *Term) *Term {
	return c.mk(OSIG, KBV, sigBytes*8, []*Term{h}, uint64(key), nil, "")
}

// ---------- floats

func (t *Term) f() float64 { return math.Float64frombits(t.u) }

func (c *Ctx) FBin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		a, b := x.f(), y.f()
		switch op {
		case OFAdd:
			return c.F64(a + b)
		case OFSub:
			return c.F64(a - b)
		case OFMul:
			return c.F64(a * b)
		case OFDiv:
			return c.F64(a / b)
		case OFLt:
			return c.Bool(a < b)
		case OFLe:
			return c.Bool(a <= b)
		case OFEq:
			return c.Bool(a == b)
		}
	}
	switch op {
	case OFLt, OFLe, OFEq:
		if x == y && op == OFLt {
			return c.ff
		}
		return c.mk(op, KBool, 0, []*Term{x, y}, 0, nil, "")
	}
	return c.mk(op, KF64, 0, []*Term{x, y}, 0, nil, "")
}

func (c *Ctx) U2F(x *Term) *Term {
	if x.isConst() {
		return c.F64(float64(x.u))
	}
	return c.mk(OU2F, KF64, 0, []*Term{x}, 0, nil, "")
}
func (c *Ctx) S2F(x *Term) *Term {
	if x.isConst() {
		return c.F64(float64(s64(x.u, x.w)))
	}
	if c.signKnown(x) {
		return c.U2F(x)
	}
	return c.mk(OS2F, KF64, 0, []*Term{x}, 0, nil, "")
}
func (c *Ctx) F2U(x *Term, w int) *Term {
	if x.isConst() {
		return c.BV(w, uint64(x.f()))
	}
	return c.mk(OF2U, KBV, w, []*Term{x}, 0, nil, "")
}
func (c *Ctx) F2S(x *Term, w int) *Term {
	if x.isConst() {
		return c.BV(w, uint64(int64(x.f())))
	}
	return c.mk(OF2S, KBV, w, []*Term{x}, 0, nil, "")
}
func (c *Ctx) FNeg(x *Term) *Term {
	if x.isConst() {
		return c.F64(-x.f())
	}
	return c.mk(OFNeg, KF64, 0, []*Term{x}, 0, nil, "")
}

// ---------- variables of a term (OVar, OSHA, OSIG apps as pseudo variables; SHA args included too)

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		case a[i].id > b[j].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func (t *Term) Vars() []*Term {
	if t.vOK {
		return t.vars
	}
	var v []*Term
	for _, x := range t.a {
		v = mergeVars(v, x.Vars())
	}
	if t.op == OVar || t.op == OSHA || t.op == OSIG {
		v = mergeVars(v, []*Term{t})
	}
	t.vars, t.vOK = v, true
	return v
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	if d > 12 || sb.Len() > 2000 {
		sb.WriteString("..")
		return
	}
	switch t.op {
	case OConst:
		switch t.sk {
		case KBool:
			fmt.Fprintf(sb, "%v", t.u == 1)
		case KF64:
			fmt.Fprintf(sb, "%g", t.f())
		default:
			if t.w > 64 {
				fmt.Fprintf(sb, "0x%x", t.bigVal())
			} else {
				fmt.Fprintf(sb, "%v", t.bigVal())
			}
		}
	case OVar:
		sb.WriteString(t.name)
	case OExtract:
		t.a[0].str(sb, d+1)
		fmt.Fprintf(sb, "[%d:%d]", int(t.u)+t.w-1, t.u)
	default:
		n := opNames[t.op]
		if n == "" {
			n = map[Op]string{OZext: "zext", OSext: "sext", OBV2I: "toint", OI2BV: "tobv", OSHA: "sha", OSIG: "sig", OFAdd: "f+", OFSub: "f-", OFMul: "f*", OFDiv: "f/", OU2F: "u2f", OS2F: "s2f", OF2U: "f2u", OF2S: "f2s"}[t.op]
		}
		sb.WriteString("(" + n)
		for _, x := range t.a {
			sb.WriteString(" ")
			x.str(sb, d+1)
		}
		sb.WriteString(")")
	}
}
