package main

import "math/big"

// linInt restates constraints that only add, subtract, scale by constants and compare machine integers over
// the mathematical integers: sums of many amounts are hard bit by bit and easy as linear arithmetic.
// A machine integer is represented by a whole number congruent to it modulo 2^w with a known range; it is
// brought into [0,2^w) or the signed range only where a comparison or a case needs it.
// Returns nil when the constraints use anything else, or too few additions to matter.
func (c *Ctx) linInt(cons []*Term) []*Term {
	// a whole number: a constant and multiples of atoms, so that what is added and taken away again cancels
	type part struct {
		t         *Term
		k, lo, hi *big.Int
	}
	type rep struct {
		t      *Term
		lo, hi *big.Int
		k0     *big.Int
		parts  []part
	}
	adds, good := 0, true
	bmemo := map[int]*Term{}
	vmemo := map[int]*rep{}
	one := big.NewInt(1)
	pow := func(w int) *big.Int { return new(big.Int).Lsh(one, uint(w)) }
	// bounds of leaves that the constraints state about leaves alone
	leaf := func(t *Term) bool { return t.op == OVar || t.op == OSHA || t.op == OSIG }
	strip := func(t *Term) *Term {
		for t.op == OZext {
			t = t.a[0]
		}
		return t
	}
	lb, ub := map[int]*big.Int{}, map[int]*big.Int{}
	upper := func(t *Term) *big.Int {
		if t.isConst() {
			return t.bigVal()
		}
		if b, ok := ub[t.id]; ok {
			return b
		}
		return new(big.Int).Sub(pow(t.w), one)
	}
	lower := func(t *Term) *big.Int {
		if t.isConst() {
			return t.bigVal()
		}
		if b, ok := lb[t.id]; ok {
			return b
		}
		return new(big.Int)
	}
	for n := 0; n < 4; n++ {
		for _, t := range cons {
			neg := t.op == ONot
			if neg {
				t = t.a[0]
			}
			if t.op != OUlt && t.op != OUle && (t.op != OEq || t.a[0].sk != KBV || neg) {
				continue
			}
			x, y := strip(t.a[0]), strip(t.a[1])
			if !(leaf(x) || x.isConst()) || !(leaf(y) || y.isConst()) {
				continue
			}
			strict := t.op == OUlt
			if neg { // not x<y is y<=x
				x, y, strict = y, x, !strict
			}
			bound := func(x, y *Term, strict bool) { // x < y or x <= y
				h, l := new(big.Int).Set(upper(y)), new(big.Int).Set(lower(x))
				if strict {
					h.Sub(h, one)
					l.Add(l, one)
				}
				if leaf(x) && h.Cmp(upper(x)) < 0 {
					ub[x.id] = h
				}
				if leaf(y) && l.Cmp(lower(y)) > 0 {
					lb[y.id] = l
				}
			}
			bound(x, y, strict)
			if t.op == OEq {
				bound(y, x, false)
			}
		}
	}
	imk := func(op Op, x, y *Term) *Term { return c.mk(op, KInt, 0, []*Term{x, y}, 0, nil, "") }
	ilt := func(x, y *Term) *Term { return c.mk(OILt, KBool, 0, []*Term{x, y}, 0, nil, "") }
	// into [base, base+2^w)
	whole := func(k0 *big.Int, parts []part) *rep {
		r := &rep{k0: k0, parts: parts, lo: new(big.Int).Set(k0), hi: new(big.Int).Set(k0)}
		var neg []part
		for _, p := range parts {
			x, y := new(big.Int).Mul(p.k, p.lo), new(big.Int).Mul(p.k, p.hi)
			if p.k.Sign() < 0 {
				x, y = y, x
				neg = append(neg, p)
			} else if kk := p.t; true {
				if p.k.Cmp(one) != 0 {
					kk = imk(OIMul, kk, c.Int(p.k))
				}
				if r.t == nil {
					r.t = kk
				} else {
					r.t = imk(OIAdd, r.t, kk)
				}
			}
			r.lo.Add(r.lo, x)
			r.hi.Add(r.hi, y)
		}
		if r.t == nil {
			r.t = c.Int(k0)
		} else if k0.Sign() > 0 {
			r.t = imk(OIAdd, r.t, c.Int(k0))
		} else if k0.Sign() < 0 {
			r.t = imk(OISub, r.t, c.Int(new(big.Int).Neg(k0)))
		}
		for _, p := range neg {
			kk := p.t
			if n := new(big.Int).Neg(p.k); n.Cmp(one) != 0 {
				kk = imk(OIMul, kk, c.Int(n))
			}
			r.t = imk(OISub, r.t, kk)
		}
		return r
	}
	atom := func(t *Term, lo, hi *big.Int) *rep { return whole(new(big.Int), []part{{t, one, lo, hi}}) }
	// x + k*y
	comb := func(x, y *rep, k *big.Int) *rep {
		parts := append([]part(nil), x.parts...)
	next:
		for _, p := range y.parts {
			kp := new(big.Int).Mul(p.k, k)
			for i := range parts {
				if parts[i].t == p.t {
					if parts[i].k = new(big.Int).Add(parts[i].k, kp); parts[i].k.Sign() == 0 {
						parts = append(parts[:i:i], parts[i+1:]...)
					}
					continue next
				}
			}
			parts = append(parts, part{p.t, kp, p.lo, p.hi})
		}
		return whole(new(big.Int).Add(x.k0, new(big.Int).Mul(y.k0, k)), parts)
	}
	norm := func(r *rep, w int, base *big.Int) *Term {
		m := pow(w)
		// k with base + k*m <= v < base + (k+1)*m, for the extremes
		k := func(v *big.Int) *big.Int {
			d := new(big.Int).Sub(v, base)
			return d.Div(d, m) // Euclidean, m > 0: floor
		}
		klo, khi := k(r.lo), k(r.hi)
		span := new(big.Int).Sub(khi, klo)
		if !span.IsInt64() || span.Int64() > 6 {
			good = false
			return r.t
		}
		shift := func(kk *big.Int) *Term {
			s := new(big.Int).Mul(kk, m)
			switch s.Sign() {
			case 0:
				return r.t
			case 1:
				return imk(OISub, r.t, c.Int(s))
			}
			return imk(OIAdd, r.t, c.Int(s.Neg(s)))
		}
		out := shift(khi)
		for kk := new(big.Int).Sub(khi, one); kk.Cmp(klo) >= 0; kk = new(big.Int).Sub(kk, one) {
			edge := new(big.Int).Mul(new(big.Int).Add(kk, one), m)
			edge.Add(edge, base)
			out = c.mk(OIte, KInt, 0, []*Term{ilt(r.t, c.Int(edge)), shift(kk), out}, 0, nil, "")
		}
		return out
	}
	var bv func(t *Term) *rep
	var bl func(t *Term) *Term
	unsigned := func(t *Term) *Term {
		r := bv(t)
		if !good {
			return nil
		}
		return norm(r, t.w, new(big.Int))
	}
	signed := func(t *Term) *Term {
		r := bv(t)
		if !good {
			return nil
		}
		return norm(r, t.w, new(big.Int).Neg(pow(t.w-1)))
	}
	// inRange: range of the value brought into [0,2^w)
	inRange := func(r *rep, w int) (*big.Int, *big.Int) {
		if r.lo.Sign() >= 0 && r.hi.Cmp(pow(w)) < 0 {
			return r.lo, r.hi
		}
		return new(big.Int), new(big.Int).Sub(pow(w), one)
	}
	bv = func(t *Term) *rep {
		if r, ok := vmemo[t.id]; ok {
			return r
		}
		if !good {
			return nil
		}
		var r *rep
		switch t.op {
		case OConst:
			r = whole(t.bigVal(), nil)
		case OVar, OSHA, OSIG:
			r = atom(c.mk(OBV2I, KInt, 0, []*Term{t}, 0, nil, ""), lower(t), upper(t))
		case OZext:
			x := bv(t.a[0])
			if good {
				n := norm(x, t.a[0].w, new(big.Int))
				lo, hi := inRange(x, t.a[0].w)
				if n == x.t {
					r = x
				} else {
					r = atom(n, lo, hi)
				}
			}
		case OIte:
			p, x, y := bl(t.a[0]), bv(t.a[1]), bv(t.a[2])
			if good {
				lo, hi := x.lo, x.hi
				if y.lo.Cmp(lo) < 0 {
					lo = y.lo
				}
				if y.hi.Cmp(hi) > 0 {
					hi = y.hi
				}
				r = atom(c.mk(OIte, KInt, 0, []*Term{p, x.t, y.t}, 0, nil, ""), lo, hi)
			}
		case OAdd, OSub:
			if !t.a[1].isConst() {
				adds++
			}
			x, y := bv(t.a[0]), bv(t.a[1])
			if !good {
				break
			}
			if t.op == OAdd {
				// x + (2^w - k) is x - k
				if t.a[1].isConst() && t.a[1].bigVal().Cmp(pow(t.w-1)) >= 0 {
					d := new(big.Int).Sub(pow(t.w), t.a[1].bigVal())
					r = comb(x, whole(d, nil), new(big.Int).Neg(one))
					break
				}
				r = comb(x, y, one)
			} else {
				r = comb(x, y, new(big.Int).Neg(one))
			}
		case OMul:
			x, k := t.a[0], t.a[1]
			if x.isConst() {
				x, k = k, x
			}
			if !k.isConst() || k.isZero() || k.bigVal().BitLen() > 32 {
				break
			}
			adds += 3
			v := bv(x)
			if good {
				r = comb(whole(new(big.Int), nil), v, k.bigVal())
			}
		}
		if r == nil {
			good = false
			return nil
		}
		vmemo[t.id] = r
		return r
	}
	bl = func(t *Term) *Term {
		if r, ok := bmemo[t.id]; ok {
			return r
		}
		if !good {
			return t
		}
		var r *Term
		cmp := func(op Op, f func(*Term) *Term) {
			x, y := f(t.a[0]), f(t.a[1])
			if good {
				r = c.mk(op, KBool, 0, []*Term{x, y}, 0, nil, "")
			}
		}
		switch {
		case t.op == OConst || t.op == OVar:
			r = t
		case t.op == OUlt:
			cmp(OILt, unsigned)
		case t.op == OUle:
			cmp(OILe, unsigned)
		case t.op == OSlt:
			cmp(OILt, signed)
		case t.op == OSle:
			cmp(OILe, signed)
		case t.op == OEq && t.a[0].sk == KBV:
			cmp(OEq, unsigned)
		case t.op == OEq && t.a[0].sk == KBool, t.op == ONot, t.op == OAnd, t.op == OOr, t.op == OIte && t.sk == KBool:
			na := make([]*Term, len(t.a))
			for i, x := range t.a {
				na[i] = bl(x)
			}
			if good {
				r = c.mk(t.op, KBool, 0, na, t.u, nil, "")
			}
		}
		if r == nil {
			good = false
			return t
		}
		bmemo[t.id] = r
		return r
	}
	out := make([]*Term, len(cons))
	for i, t := range cons {
		out[i] = bl(t)
		if !good {
			return nil
		}
	}
	if adds < 3 {
		return nil
	}
	return out
}
