package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/x509"
	"math"
	"math/big"
	"sync"
)

type keyEnt struct {
	priv *ecdsa.PrivateKey
	pub  *ecdsa.PublicKey
	der  []byte
}

// registerKey: index of a concrete key within this path
func (m *Machine) registerKey(priv *ecdsa.PrivateKey, pub *ecdsa.PublicKey) int {
	der, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		return -1
	}
	for i, k := range m.keys {
		if string(k.der) == string(der) {
			if k.priv == nil {
				m.keys[i].priv = priv
			}
			return i
		}
	}
	m.keys = append(m.keys, keyEnt{priv, pub, der})
	return len(m.keys) - 1
}

// key identity used in SIG terms must not depend on registration order: use bytes of the key
func (m *Machine) keyID(i int) int {
	d := m.keys[i].der
	n := len(d)
	return int(d[n-1])<<16 | int(d[n-2])<<8 | int(d[n-3])
}

func (m *Machine) big(v Value) *Term {
	p := m.deref(v)
	b, ok := (*p).(BigV)
	if !ok {
		m.unsupported("big.Int content")
	}
	return b.t
}

func (m *Machine) setBig(v Value, t *Term) Value {
	*m.deref(v) = BigV{t}
	return v
}

// bigSetText: big.Int.SetString of text with symbolic characters: an optional sign and one or more digits
func (m *Machine) bigSetText(dst, txt Value, base int64) Value {
	c := m.ctx
	bad := TupleV{(*Value)(nil), c.ff}
	if base != 16 && base != 10 {
		m.unsupported("big.Int.SetString of symbolic text in this base")
	}
	bs := m.strBytes(txt)
	neg := false
	if len(bs) > 0 {
		if m.decide(c.Eq(bs[0], c.BV(8, '-'))) {
			neg, bs = true, bs[1:]
		} else if m.decide(c.Eq(bs[0], c.BV(8, '+'))) {
			bs = bs[1:]
		}
	}
	if len(bs) == 0 {
		return bad
	}
	in := func(t *Term, lo, hi byte) *Term {
		return c.And(c.Ule(c.BV(8, uint64(lo)), t), c.Ule(t, c.BV(8, uint64(hi))))
	}
	var v *Term
	if base == 10 {
		v = c.IntU(0)
	}
	for _, t := range bs {
		good := in(t, '0', '9')
		d := c.Bin(OSub, t, c.BV(8, '0'))
		if base == 16 {
			up, lw := in(t, 'A', 'F'), in(t, 'a', 'f')
			d = c.Ite(good, d, c.Ite(up, c.Bin(OSub, t, c.BV(8, 'A'-10)), c.Bin(OSub, t, c.BV(8, 'a'-10))))
			good = c.Or(good, c.Or(up, lw))
		}
		if !m.decide(good) {
			return bad
		}
		switch {
		case base == 10:
			v = c.IBin(OIAdd, c.IBin(OIMul, v, c.IntU(10)), c.BV2I(d))
		case v == nil:
			v = c.Extract(d, 3, 0)
		default:
			v = c.Concat(v, c.Extract(d, 3, 0))
		}
	}
	if base == 16 {
		v = c.BV2I(v)
	}
	if neg {
		v = c.IBin(OISub, c.IntU(0), v)
	}
	m.setBig(dst, v)
	return TupleV{dst, c.tt}
}

func init() {
	bi := "(*math/big.Int)."
	regS("math/big.NewInt", func(m *Machine, a []Value) Value {
		t := a[0].(*Term)
		if !t.isConst() {
			return newPtr(BigV{m.s2i(t)})
		}
		return newPtr(BigV{m.ctx.Int(big.NewInt(s64(t.u, 64)))})
	})
	regS(bi+"SetBytes", func(m *Machine, a []Value) Value {
		s := m.sliceOf(a[1])
		if len(s) == 0 {
			return m.setBig(a[0], m.ctx.IntU(0))
		}
		return m.setBig(a[0], m.ctx.BV2I(m.packBytes(s)))
	})
	regS(bi+"SetUint64", func(m *Machine, a []Value) Value { return m.setBig(a[0], m.toInt(a[1].(*Term))) })
	regS(bi+"SetInt64", func(m *Machine, a []Value) Value { return m.setBig(a[0], m.s2i(a[1].(*Term))) })
	regS(bi+"Set", func(m *Machine, a []Value) Value { return m.setBig(a[0], m.big(a[1])) })
	arith := func(n string, op Op) {
		regS(bi+n, func(m *Machine, a []Value) Value {
			x, y := m.big(a[1]), m.big(a[2])
			if op == OIDiv || op == OIMod {
				if m.decide(m.ctx.Eq(y, m.ctx.IntU(0))) {
					m.runtimePanic("division by zero")
				}
				if n == "Quo" || n == "Rem" {
					lx, _ := m.ctx.irange(x)
					ly, _ := m.ctx.irange(y)
					if lx == nil || ly == nil || lx.Sign() < 0 || ly.Sign() < 0 {
						m.unsupported("big.Int." + n + " of possibly negative values")
					}
				}
			}
			return m.setBig(a[0], m.ctx.IBin(op, x, y))
		})
	}
	arith("Add", OIAdd)
	arith("Sub", OISub)
	arith("Mul", OIMul)
	arith("Div", OIDiv)
	arith("Quo", OIDiv)
	arith("Mod", OIMod)
	arith("Rem", OIMod)
	regS(bi+"Neg", func(m *Machine, a []Value) Value {
		return m.setBig(a[0], m.ctx.IBin(OISub, m.ctx.IntU(0), m.big(a[1])))
	})
	regS(bi+"Abs", func(m *Machine, a []Value) Value {
		x := m.big(a[1])
		return m.setBig(a[0], m.ctx.Ite(m.ctx.ILt(x, m.ctx.IntU(0)), m.ctx.IBin(OISub, m.ctx.IntU(0), x), x))
	})
	regS(bi+"Lsh", func(m *Machine, a []Value) Value {
		k := m.must64(a[2], "shift")
		return m.setBig(a[0], m.ctx.IBin(OIMul, m.big(a[1]), m.ctx.Int(new(big.Int).Lsh(big.NewInt(1), uint(k)))))
	})
	regS(bi+"Rsh", func(m *Machine, a []Value) Value {
		k := m.must64(a[2], "shift")
		return m.setBig(a[0], m.ctx.IBin(OIDiv, m.big(a[1]), m.ctx.Int(new(big.Int).Lsh(big.NewInt(1), uint(k)))))
	})
	regS(bi+"Exp", func(m *Machine, a []Value) Value {
		x, y := m.big(a[1]), m.big(a[2])
		if !x.isConst() || !y.isConst() {
			m.unsupported("symbolic big.Int.Exp")
		}
		var md *big.Int
		if p, ok := a[3].(*Value); ok && p != nil {
			md = m.big(p).bigVal()
		}
		return m.setBig(a[0], m.ctx.Int(new(big.Int).Exp(x.bigVal(), y.bigVal(), md)))
	})
	regS(bi+"Cmp", func(m *Machine, a []Value) Value {
		c := m.ctx
		x, y := m.big(a[0]), m.big(a[1])
		return c.Ite(c.ILt(x, y), c.BV(64, ^uint64(0)), c.Ite(c.Eq(x, y), c.BV(64, 0), c.BV(64, 1)))
	})
	regS(bi+"Sign", func(m *Machine, a []Value) Value {
		c := m.ctx
		x, y := m.big(a[0]), m.ctx.IntU(0)
		return c.Ite(c.ILt(x, y), c.BV(64, ^uint64(0)), c.Ite(c.Eq(x, y), c.BV(64, 0), c.BV(64, 1)))
	})
	regS(bi+"Uint64", func(m *Machine, a []Value) Value { return m.ctx.I2BV(m.big(a[0]), 64) })
	regS(bi+"Int64", func(m *Machine, a []Value) Value { return m.ctx.I2BV(m.big(a[0]), 64) })
	regS(bi+"IsUint64", func(m *Machine, a []Value) Value {
		c := m.ctx
		x := m.big(a[0])
		return c.And(c.ILe(c.IntU(0), x), c.ILe(x, c.IntU(math.MaxUint64)))
	})
	regS(bi+"IsInt64", func(m *Machine, a []Value) Value {
		c := m.ctx
		x := m.big(a[0])
		return c.And(c.ILe(c.Int(big.NewInt(math.MinInt64)), x), c.ILe(x, c.IntU(math.MaxInt64)))
	})
	regS(bi+"BitLen", func(m *Machine, a []Value) Value {
		x := m.big(a[0])
		if x.isConst() {
			return m.ctx.BV(64, uint64(x.bigVal().BitLen()))
		}
		c := m.ctx
		_, hi := c.irange(x)
		if hi == nil || hi.BitLen() > 600 {
			m.unsupported("BitLen of an unbounded value")
		}
		n := hi.BitLen()
		r := c.BV(64, uint64(n))
		for k := n - 1; k >= 0; k-- { // x < 2^k
			r = c.Ite(c.ILt(x, c.Int(new(big.Int).Lsh(big.NewInt(1), uint(k)))), c.BV(64, uint64(k)), r)
		}
		return r
	})
	regS(bi+"FillBytes", func(m *Machine, a []Value) Value {
		c := m.ctx
		x := m.big(a[0])
		s := m.sliceOf(a[1])
		lim := c.Int(new(big.Int).Lsh(big.NewInt(1), uint(8*len(s))))
		if !m.decide(c.ILt(x, lim)) {
			m.runtimePanic("math/big: buffer too small to fit value")
		}
		if lo, _ := c.irange(x); lo == nil || lo.Sign() < 0 {
			if m.decide(c.ILt(x, c.IntU(0))) {
				m.unsupported("FillBytes of a negative value")
			}
		}
		copy(s, m.unpackBytes(c.I2BVx(x, 8*len(s))))
		return a[1]
	})
	regS(bi+"Bytes", func(m *Machine, a []Value) Value {
		x := m.big(a[0])
		if !x.isConst() {
			m.unsupported("big.Int.Bytes of a symbolic value")
		}
		return m.bytesVal(x.bigVal().Bytes())
	})
	regS(bi+"SetString", func(m *Machine, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok {
			return m.bigSetText(a[0], a[1], m.must64(a[2], "base"))
		}
		v, ok := new(big.Int).SetString(s, int(m.must64(a[2], "base")))
		if !ok {
			return TupleV{(*Value)(nil), m.ctx.ff}
		}
		m.setBig(a[0], m.ctx.Int(v))
		return TupleV{a[0], m.ctx.tt}
	})
	regS(bi+"String", func(m *Machine, a []Value) Value {
		if x := m.big(a[0]); x.isConst() {
			return x.bigVal().String()
		}
		return m.opaque("bigint")
	})
	regS(bi+"Text", func(m *Machine, a []Value) Value {
		if x := m.big(a[0]); x.isConst() {
			return x.bigVal().Text(int(m.must64(a[1], "base")))
		}
		return m.opaque("bigint")
	})
	regS("(*math/big.Float).SetInt", func(m *Machine, a []Value) Value {
		m.big(a[1])
		return a[0]
	})
	regS("(*math/big.Float).Float64", func(m *Machine, a []Value) Value { // only used in messages
		m.nOpaque++
		return TupleV{m.ctx.F64(float64(m.nOpaque)), m.ctx.BV(8, 0)}
	})
	// math
	f1 := func(n string, f func(float64) float64) {
		reg("math."+n, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			t := a[0].(*Term)
			if t.isConst() {
				return m.ctx.F64(f(t.f())), true
			}
			m.unsupported("math." + n + " of a symbolic value")
			return nil, true
		})
	}
	f1("Log2", math.Log2)
	f1("Ceil", math.Ceil)
	f1("Floor", math.Floor)
	f1("Sqrt", math.Sqrt)
	f1("Log", math.Log)
	f1("Trunc", math.Trunc)
	regS("math.Pow", func(m *Machine, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if !x.isConst() || !y.isConst() {
			m.unsupported("math.Pow of a symbolic value")
		}
		return m.ctx.F64(math.Pow(x.f(), y.f()))
	})
	// hashing
	regS("crypto/sha256.Sum256", func(m *Machine, a []Value) Value {
		return ArrayV(m.unpackBytes(m.ctx.SHA(m.packOr0(m.byteTerms(a[0])))))
	})
	dg := "(*crypto/internal/fips140/sha256.Digest)."
	regS("crypto/sha256.New", func(m *Machine, a []Value) Value {
		t := m.typ("crypto/internal/fips140/sha256", "Digest")
		p := newPtr(m.zero(t))
		m.hashers[p] = nil
		return IfaceV{typesPtr(t), p}
	})
	regS(dg+"Write", func(m *Machine, a []Value) Value {
		p := m.deref(a[0])
		b := m.byteTerms(a[1])
		m.hashers[p] = append(m.hashers[p][:len(m.hashers[p]):len(m.hashers[p])], b...)
		return TupleV{m.ctx.BV(64, uint64(len(b))), IfaceV{}}
	})
	regS(dg+"Sum", func(m *Machine, a []Value) Value {
		d := SliceV(m.unpackBytes(m.ctx.SHA(m.packOr0(m.hashers[m.deref(a[0])]))))
		return m.appendSlice(byteT, m.sliceOf(a[1]), d)
	})
	regS(dg+"Reset", func(m *Machine, a []Value) Value { m.hashers[m.deref(a[0])] = nil; return nil })
	// randomness
	rnd := func(m *Machine, v Value) Value {
		s := m.sliceOf(v)
		if len(s) > 0 {
			t := m.ctx.Var(m.inputName("!rand"), KBV, 8*len(s))
			copy(s, m.unpackBytes(t))
		}
		return TupleV{m.ctx.BV(64, uint64(len(s))), IfaceV{}}
	}
	regS("crypto/rand.Read", func(m *Machine, a []Value) Value { return rnd(m, a[0]) })
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		for _, n := range []string{"Intn", "Int63n", "Int31n", "IntN", "Int64N", "N"} {
			nm := p + "." + n
			if _, dup := intrTab[nm]; dup {
				continue
			}
			regS(nm, func(m *Machine, a []Value) Value {
				k := m.must64(a[0], "rand")
				if k <= 0 {
					m.runtimePanic("invalid argument to Intn")
				}
				w := a[0].(*Term).w
				return m.ctx.BV(w, uint64(m.choose(int(min(k, 4)), "rand")))
			})
		}
	}
	// keys and signatures
	privT := func(m *Machine) (Value, *Value) {
		s := m.zero(m.typ("crypto/ecdsa", "PrivateKey")).(StructV)
		p := newPtr(s)
		return p, &s[0]
	}
	mkPriv := func(m *Machine, i int) Value {
		p, pp := privT(m)
		m.keyOf[p.(*Value)] = i + 1
		m.keyOf[pp] = i + 1
		return p
	}
	regS("crypto/x509.ParseECPrivateKey", func(m *Machine, a []Value) Value {
		b, ok := concBytes(a[0])
		if !ok {
			m.unsupported("symbolic private key")
		}
		k, err := x509.ParseECPrivateKey(b)
		if err != nil {
			return TupleV{(*Value)(nil), m.mkError(err.Error())}
		}
		return TupleV{mkPriv(m, m.registerKey(k, &k.PublicKey)), IfaceV{}}
	})
	regS("crypto/x509.MarshalECPrivateKey", func(m *Machine, a []Value) Value {
		i := m.keyOf[m.deref(a[0])]
		if i == 0 {
			m.unsupported("unknown private key")
		}
		d, err := x509.MarshalECPrivateKey(m.keys[i-1].priv)
		if err != nil {
			return TupleV{SliceV(nil), m.mkError(err.Error())}
		}
		return TupleV{m.bytesVal(d), IfaceV{}}
	})
	regS("crypto/x509.MarshalPKIXPublicKey", func(m *Machine, a []Value) Value {
		p, ok := a[0].(IfaceV).v.(*Value)
		if !ok || m.keyOf[p] == 0 {
			m.unsupported("unknown public key")
		}
		return TupleV{m.bytesVal(m.keys[m.keyOf[p]-1].der), IfaceV{}}
	})
	regS("crypto/x509.ParsePKIXPublicKey", func(m *Machine, a []Value) Value {
		mk := func(i int) Value {
			p := newPtr(m.zero(m.typ("crypto/ecdsa", "PublicKey")))
			m.keyOf[p] = i + 1
			return TupleV{IfaceV{typesPtr(m.typ("crypto/ecdsa", "PublicKey")), p}, IfaceV{}}
		}
		if b, ok := concBytes(m.sliceOf(a[0])); ok {
			k, err := x509.ParsePKIXPublicKey(b)
			if err != nil {
				return TupleV{IfaceV{}, m.mkError(err.Error())}
			}
			ek, ok := k.(*ecdsa.PublicKey)
			if !ok {
				return TupleV{IfaceV{m.p.errStr, newPtr(StructV{"other key type"})}, IfaceV{}}
			}
			return mk(m.registerKey(nil, ek))
		}
		s := m.byteTerms(a[0])
		t := m.packTerms(s)
		for i := 0; i < len(m.keys); i++ {
			d := m.keys[i].der
			if len(d) != len(s) {
				continue
			}
			if m.decide(m.ctx.Eq(t, m.ctx.BVBytes(d))) {
				return mk(i)
			}
		}
		m.notes["a symbolic public key outside the registered keys is treated as unparsable"] = true
		return TupleV{IfaceV{}, m.mkError("x509: malformed public key")}
	})
	regS("crypto/ecdsa.SignASN1", func(m *Machine, a []Value) Value {
		i := m.keyOf[m.deref(a[1])]
		if i == 0 {
			m.unsupported("sign with unknown key")
		}
		if hb, ok := concBytes(m.sliceOf(a[2])); ok {
			if sg := fixedSig(m.keys[i-1].priv, hb); sg != nil {
				return TupleV{m.bytesVal(sg), IfaceV{}}
			}
		}
		h := m.packOr0(m.byteTerms(a[2]))
		return TupleV{SliceV(m.unpackBytes(m.ctx.SIG(m.keyID(i-1), h))), IfaceV{}}
	})
	regS("crypto/ecdsa.VerifyASN1", func(m *Machine, a []Value) Value {
		i := m.keyOf[m.deref(a[0])]
		if i == 0 {
			m.unsupported("verify with unknown key")
		}
		hs, ss := m.byteTerms(a[1]), m.byteTerms(a[2])
		hb, ok1 := concBytes(m.sliceOf(a[1]))
		sb, ok2 := concBytes(m.sliceOf(a[2]))
		if ok1 && ok2 {
			return m.ctx.Bool(ecdsa.VerifyASN1(m.keys[i-1].pub, hb, sb))
		}
		if ok2 {
			// a signature made in this run verifies for the content it was made for, and no other
			if d, known := fixedSigOf(m.keys[i-1].pub, sb); known {
				return m.ctx.Eq(m.packOr0(hs), m.ctx.BVBytes(d))
			}
		}
		if len(ss) != sigBytes {
			return m.ctx.ff
		}
		return m.ctx.Eq(m.packTerms(ss), m.ctx.SIG(m.keyID(i-1), m.packOr0(hs)))
	})
}

var (
	fixedMu   sync.Mutex
	fixedSigs = map[string][]byte{} // key coordinates + digest -> signature
	fixedInv  = map[string][]byte{} // key coordinates + signature -> digest
)

func pubID(k *ecdsa.PublicKey) string {
	d, err := x509.MarshalPKIXPublicKey(k)
	if err != nil {
		return ""
	}
	return string(d)
}

// fixedSig signs a concrete digest deterministically (RFC 6979).
func fixedSig(k *ecdsa.PrivateKey, h []byte) []byte {
	if k == nil || len(h) != 32 {
		return nil
	}
	fixedMu.Lock()
	defer fixedMu.Unlock()
	id := pubID(&k.PublicKey)
	if s, ok := fixedSigs[id+string(h)]; ok {
		return s
	}
	s, err := k.Sign(nil, h, crypto.SHA256)
	if err != nil {
		return nil
	}
	fixedSigs[id+string(h)] = s
	fixedInv[id+string(s)] = append([]byte{}, h...)
	return s
}

func fixedSigOf(k *ecdsa.PublicKey, s []byte) ([]byte, bool) {
	fixedMu.Lock()
	defer fixedMu.Unlock()
	d, ok := fixedInv[pubID(k)+string(s)]
	return d, ok
}

func (m *Machine) packOr0(ts []*Term) *Term {
	if len(ts) == 0 {
		return m.ctx.BVzero(0)
	}
	return m.packTerms(ts)
}

// signed bit-vector to integer
func (m *Machine) s2i(t *Term) *Term {
	c := m.ctx
	if t.isConst() {
		return c.Int(big.NewInt(s64(t.u, t.w)))
	}
	if c.signKnown(t) {
		return c.BV2I(t)
	}
	return c.Ite(c.Slt(t, c.BV(t.w, 0)), c.IBin(OISub, c.BV2I(t), c.Int(new(big.Int).Lsh(big.NewInt(1), uint(t.w)))), c.BV2I(t))
}

// toInt: the integer value of an unsigned machine number, pushed through arithmetic that cannot wrap on this path
func (m *Machine) toInt(x *Term) *Term {
	c := m.ctx
	sure := func(t *Term) bool {
		if t.isConst() {
			return t.isTrue()
		}
		r, _ := m.feasible(c.Not(t))
		return r == "unsat"
	}
	switch x.op {
	case OAdd:
		if sure(c.Ule(x.a[0], c.Bin(OSub, c.BV(x.w, ^uint64(0)), x.a[1]))) && x.w == 64 {
			return c.IBin(OIAdd, m.toInt(x.a[0]), m.toInt(x.a[1]))
		}
	case OMul:
		for i := 0; i < 2; i++ {
			if k := x.a[i]; x.w == 64 && k.isConst() && k.u != 0 && sure(c.Ule(x.a[1-i], c.BV(64, ^uint64(0)/k.u))) {
				return c.IBin(OIMul, m.toInt(x.a[1-i]), c.IntU(k.u))
			}
		}
	}
	return c.BV2I(x)
}
