package main

// subst replaces variables (by id) and rebuilds the term with the smart constructors.
func (c *Ctx) subst(t *Term, sub map[int]*Term, memo map[int]*Term) *Term {
	if t.op == OConst {
		return t
	}
	if t.op == OVar {
		if r, ok := sub[t.id]; ok {
			return r
		}
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	a := make([]*Term, len(t.a))
	same := true
	for i, x := range t.a {
		a[i] = c.subst(x, sub, memo)
		if a[i] != x {
			same = false
		}
	}
	r := t
	if !same {
		r = c.rebuild(t, a)
	}
	memo[t.id] = r
	return r
}

// rebuild: the operator of t applied to new operands
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OEq:
		return c.Eq(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OSHA:
		return c.SHA(a[0])
	case OSIG:
		return c.SIG(int(t.u), a[0])
	case OExtract:
		return c.Extract(a[0], int(t.u)+t.w-1, int(t.u))
	case OConcat:
		return c.Concat(a...)
	case OZext:
		return c.Zext(a[0], t.w)
	case OSext:
		return c.Sext(a[0], t.w)
	case OBNot:
		return c.BNot(a[0])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OUle:
		return c.Ule(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OSle:
		return c.Sle(a[0], a[1])
	case OILt:
		return c.ILt(a[0], a[1])
	case OILe:
		return c.ILe(a[0], a[1])
	case OIAdd, OISub, OIMul, OIDiv, OIMod:
		return c.IBin(t.op, a[0], a[1])
	case OBV2I:
		return c.BV2I(a[0])
	case OI2BV:
		return c.I2BV(a[0], t.w)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		return c.FBin(t.op, a[0], a[1])
	case OFNeg:
		return c.FNeg(a[0])
	case OU2F:
		return c.U2F(a[0])
	case OS2F:
		return c.S2F(a[0])
	case OF2U:
		return c.F2U(a[0], t.w)
	case OF2S:
		return c.F2S(a[0], t.w)
	}
	return c.Bin(t.op, a[0], a[1])
}
