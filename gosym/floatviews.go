package main

import "math"

// floatViews restates comparisons of quotients of small whole numbers (fee rates) without floating point.
// With |d| < 2^32 and 0 < c < 2^17, distinct quotients d/c are further apart than rounding moves them, so
// d1/c1 < d2/c2 in float64 exactly when d1*c2 < d2*c1; against a constant, d/c is monotone in d and the
// constant's place is found by search. The bounds on the whole numbers come from the constraints themselves.
func (c *Ctx) floatViews(cons []*Term) []*Term {
	found := false
	seen := map[int]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t.id] || found {
			return
		}
		seen[t.id] = true
		if t.op == OFLt || t.op == OFLe || t.op == OFEq {
			found = true
			return
		}
		if t.sk != KBool {
			return
		}
		for _, x := range t.a {
			scan(x)
		}
	}
	for _, t := range cons {
		scan(t)
	}
	if !found {
		return cons
	}
	bound := map[int]uint64{}
	var hi func(t *Term) uint64
	hi = func(t *Term) uint64 {
		_, h := c.urange(t)
		if b, ok := bound[t.id]; ok && b < h {
			h = b
		}
		switch t.op {
		case OZext:
			h = min(h, hi(t.a[0]))
		case OAdd:
			a, b := hi(t.a[0]), hi(t.a[1])
			if a < 1<<62 && b < 1<<62 && a+b <= maskW(t.w) {
				h = min(h, a+b)
			}
		}
		return h
	}
	for n := 0; n < 4; n++ {
		for _, t := range cons {
			if (t.op == OUlt || t.op == OUle) && t.a[0].w <= 64 {
				h := hi(t.a[1])
				if t.op == OUlt && h > 0 {
					h--
				}
				if o, ok := bound[t.a[0].id]; !ok || h < o {
					bound[t.a[0].id] = h
				}
			}
		}
	}
	type whole struct {
		t   *Term // 64-bit, signed
		max int64 // of the absolute value
	}
	var exact func(t *Term) (whole, bool)
	exact = func(t *Term) (whole, bool) {
		switch t.op {
		case OConst:
			f := t.f()
			if f == math.Trunc(f) && math.Abs(f) < 1<<32 && !(f == 0 && math.Signbit(f)) {
				return whole{c.BV(64, uint64(int64(f))), int64(math.Abs(f))}, true
			}
		case OU2F:
			if t.a[0].w <= 64 {
				if h := hi(t.a[0]); h < 1<<32 {
					return whole{c.Zext(t.a[0], 64), int64(h)}, true
				}
			}
		case OFAdd, OFSub:
			x, ok := exact(t.a[0])
			y, ok2 := exact(t.a[1])
			if ok && ok2 && x.max+y.max < 1<<32 {
				op := OAdd
				if t.op == OFSub {
					op = OSub
				}
				return whole{c.Bin(op, x.t, y.t), x.max + y.max}, true
			}
		}
		return whole{}, false
	}
	quot := func(t *Term) (whole, int64, bool) {
		if t.op == OFDiv && t.a[1].isConst() {
			f := t.a[1].f()
			if f == math.Trunc(f) && f > 0 && f < 1<<17 {
				w, ok := exact(t.a[0])
				return w, int64(f), ok
			}
			return whole{}, 0, false
		}
		w, ok := exact(t)
		return w, 1, ok
	}
	lt := func(x, y *Term, le bool) *Term { // x < y, or x <= y
		if y.isConst() && !math.IsNaN(y.f()) {
			if w, d, ok := quot(x); ok { // least n with not (n/d < y)
				f := y.f()
				lo, h := int64(-1<<33), int64(1<<33)
				for lo < h {
					m := lo + (h-lo)/2
					q := float64(m) / float64(d)
					if q < f || le && q == f {
						lo = m + 1
					} else {
						h = m
					}
				}
				return c.Slt(w.t, c.BV(64, uint64(lo)))
			}
			return nil
		}
		if x.isConst() && !math.IsNaN(x.f()) {
			if w, d, ok := quot(y); ok { // least n with x < n/d
				f := x.f()
				lo, h := int64(-1<<33), int64(1<<33)
				for lo < h {
					m := lo + (h-lo)/2
					q := float64(m) / float64(d)
					if f < q || le && q == f {
						h = m
					} else {
						lo = m + 1
					}
				}
				return c.Sle(c.BV(64, uint64(lo)), w.t)
			}
			return nil
		}
		a, ca, ok := quot(x)
		b, cb, ok2 := quot(y)
		if !ok || !ok2 {
			return nil
		}
		p, q := c.Bin(OMul, a.t, c.BV(64, uint64(cb))), c.Bin(OMul, b.t, c.BV(64, uint64(ca)))
		if ca == cb {
			p, q = a.t, b.t
		}
		if le {
			return c.Sle(p, q)
		}
		return c.Slt(p, q)
	}
	memo := map[int]*Term{}
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if t.sk != KBool || len(t.a) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := t
		switch t.op {
		case OFLt, OFLe:
			if n := lt(t.a[0], t.a[1], t.op == OFLe); n != nil {
				r = n
			}
		case OFEq:
			if x, y := lt(t.a[0], t.a[1], true), lt(t.a[1], t.a[0], true); x != nil && y != nil {
				r = c.And(x, y)
			}
		case ONot:
			r = c.Not(rw(t.a[0]))
		case OAnd, OOr:
			na := make([]*Term, len(t.a))
			for i, x := range t.a {
				na[i] = rw(x)
			}
			r = c.nary(t.op, na)
		}
		memo[t.id] = r
		return r
	}
	out := make([]*Term, len(cons))
	for i, t := range cons {
		out[i] = rw(t)
	}
	return out
}
