package main

import (
	"crypto/sha256"
	"math"
	"math/big"
)

// evaluation of terms under a model (missing variables default to 0)

type Evaluator struct {
	ctx   *Ctx
	m     Model
	cache map[int]*Term
	real  bool // evaluate SHA with the real function even if the model gives a value
}

func NewEval(ctx *Ctx, m Model, real bool) *Evaluator {
	return &Evaluator{ctx, m, map[int]*Term{}, real}
}

func (e *Evaluator) Eval(t *Term) *Term {
	if t.op == OConst {
		return t
	}
	if r, ok := e.cache[t.id]; ok {
		return r
	}
	r := e.eval(t)
	e.cache[t.id] = r
	return r
}

func (e *Evaluator) eval(t *Term) *Term {
	c := e.ctx
	switch t.op {
	case OVar:
		v := e.m[t.name]
		if v == nil {
			v = big.NewInt(0)
		}
		switch t.sk {
		case KBool:
			return c.Bool(v.Sign() != 0)
		case KBV:
			return c.BVBig(t.w, v)
		case KInt:
			return c.Int(v)
		default:
			return c.F64(math.Float64frombits(v.Uint64()))
		}
	case OSHA:
		if !e.real {
			if v := e.m[varKey(t)]; v != nil {
				return c.BVBig(256, v)
			}
		}
		a := e.Eval(t.a[0])
		var in []byte
		if a.w > 0 {
			in = a.bytesBE()
		}
		d := sha256.Sum256(in)
		return c.BVBig(256, new(big.Int).SetBytes(d[:]))
	case OSIG:
		if !e.real {
			if v := e.m[varKey(t)]; v != nil {
				return c.BVBig(t.w, v)
			}
		}
		a := e.Eval(t.a[0])
		out := make([]byte, 0, sigBytes+32)
		seed := append(a.bytesBE(), byte(t.u))
		for len(out) < sigBytes {
			d := sha256.Sum256(append(seed, byte(len(out))))
			out = append(out, d[:]...)
		}
		return c.BVBig(t.w, new(big.Int).SetBytes(out[:sigBytes]))
	case OIte:
		if e.Eval(t.a[0]).isTrue() {
			return e.Eval(t.a[1])
		}
		return e.Eval(t.a[2])
	case OAnd:
		for _, x := range t.a {
			if e.Eval(x).isFalse() {
				return c.ff
			}
		}
		return c.tt
	case OOr:
		for _, x := range t.a {
			if e.Eval(x).isTrue() {
				return c.tt
			}
		}
		return c.ff
	}
	a := make([]*Term, len(t.a))
	for i, x := range t.a {
		a[i] = e.Eval(x)
	}
	switch t.op {
	case ONot:
		return c.Bool(!a[0].isTrue())
	case OEq:
		return c.Bool(a[0] == a[1])
	case OExtract:
		return c.Extract(a[0], int(t.u)+t.w-1, int(t.u))
	case OConcat:
		return c.Concat(a...)
	case OZext:
		return c.Zext(a[0], t.w)
	case OSext:
		return c.Sext(a[0], t.w)
	case OBNot:
		return c.BNot(a[0])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OUle:
		return c.Ule(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OSle:
		return c.Sle(a[0], a[1])
	case OILt:
		return c.ILt(a[0], a[1])
	case OILe:
		return c.ILe(a[0], a[1])
	case OIAdd, OISub, OIMul, OIDiv, OIMod:
		if (t.op == OIDiv || t.op == OIMod) && a[1].isZero() {
			return c.IntU(0)
		}
		return c.IBin(t.op, a[0], a[1])
	case OBV2I:
		return c.BV2I(a[0])
	case OI2BV:
		return c.I2BV(a[0], t.w)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		return c.FBin(t.op, a[0], a[1])
	case OFNeg:
		return c.FNeg(a[0])
	case OU2F:
		return c.U2F(a[0])
	case OS2F:
		return c.S2F(a[0])
	case OF2U:
		return c.F2U(a[0], t.w)
	case OF2S:
		return c.F2S(a[0], t.w)
	default:
		if t.op == OSDiv || t.op == OSRem {
			if a[1].isZero() {
				return c.BV(t.w, 0)
			}
		}
		return c.Bin(t.op, a[0], a[1])
	}
}
