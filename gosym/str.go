package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

func (c *Ctx) BVBytes(b []byte) *Term {
	if len(b) == 1 {
		return c.BV(8, uint64(b[0]))
	}
	return c.BVBig(len(b)*8, new(big.Int).SetBytes(b))
}

func (m *Machine) toStrV(v Value) *StrV {
	switch x := v.(type) {
	case string:
		if x == "" {
			return &StrV{}
		}
		return &StrV{segs: []seg{{k: SLit, lit: x}}}
	case *StrV:
		return x
	}
	m.unsupported(fmt.Sprintf("toStrV %T", v))
	return nil
}

// normStr merges segments and returns string if fully concrete
func (m *Machine) normStr(segs []seg) Value {
	var out []seg
	for _, s := range segs {
		switch s.k {
		case SSym:
			allc := true
			for _, t := range s.b {
				if !t.isConst() {
					allc = false
					break
				}
			}
			if allc {
				bs := make([]byte, len(s.b))
				for i, t := range s.b {
					bs[i] = byte(t.u)
				}
				s = seg{k: SLit, lit: string(bs)}
			}
		case SHex:
			if s.b[0].isConst() {
				s = seg{k: SLit, lit: hex.EncodeToString(s.b[0].bytesBE())}
			}
		case SDec:
			if s.b[0].isConst() {
				s = seg{k: SLit, lit: strconv.FormatUint(s.b[0].u, 10)}
			}
		case SB64:
			allc := true
			for _, t := range s.b {
				if !t.isConst() {
					allc = false
					break
				}
			}
			if allc {
				bs := make([]byte, len(s.b))
				for i, t := range s.b {
					bs[i] = byte(t.u)
				}
				s = seg{k: SLit, lit: base64.StdEncoding.EncodeToString(bs)}
			}
		}
		if s.k == SLit && s.lit == "" {
			continue
		}
		if n := len(out); n > 0 && out[n-1].k == SLit && s.k == SLit {
			out[n-1].lit += s.lit
			continue
		}
		if n := len(out); n > 0 && out[n-1].k == SSym && s.k == SSym {
			out[n-1].b = append(append([]*Term(nil), out[n-1].b...), s.b...)
			continue
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 && out[0].k == SLit {
		return out[0].lit
	}
	return &StrV{segs: out}
}

func (m *Machine) strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	s := append([]seg(nil), m.toStrV(a).segs...)
	s = append(s, m.toStrV(b).segs...)
	return m.normStr(s)
}

func segLen(s seg) int { // -1 unknown
	switch s.k {
	case SLit:
		return len(s.lit)
	case SSym:
		return len(s.b)
	case SHex:
		return s.b[0].w / 4
	case SB64:
		return base64.StdEncoding.EncodedLen(len(s.b))
	}
	return -1
}

func (m *Machine) strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *StrV:
		n := 0
		for _, s := range x.segs {
			l := segLen(s)
			if l < 0 {
				return len(m.strBytes(v))
			}
			n += l
		}
		return n
	}
	m.unsupported(fmt.Sprintf("strLen %T", v))
	return 0
}

func (m *Machine) hexChar(n *Term) *Term { // n: 4-bit
	c := m.ctx
	z := c.Zext(n, 8)
	h := c.Ite(c.Ult(n, c.BV(4, 10)), c.Bin(OAdd, z, c.BV(8, '0')), c.Bin(OAdd, z, c.BV(8, 'a'-10)))
	if !h.isConst() {
		m.hexOf[h.id] = n
	}
	return h
}

func (m *Machine) b64Char(n *Term) *Term { // 6-bit
	c := m.ctx
	z := c.Zext(n, 8)
	lt := func(k uint64) *Term { return c.Ult(n, c.BV(6, k)) }
	add := func(k int) *Term { return c.Bin(OAdd, z, c.BV(8, uint64(uint8(k)))) }
	return c.Ite(lt(26), add('A'), c.Ite(lt(52), add('a'-26), c.Ite(lt(62), add('0'-52), c.Ite(c.Eq(n, c.BV(6, 62)), c.BV(8, '+'), c.BV(8, '/')))))
}

// segBytes expands one segment (may fork on digit counts)
func (m *Machine) segBytes(s *seg) []*Term {
	c := m.ctx
	switch s.k {
	case SLit:
		out := make([]*Term, len(s.lit))
		for i := 0; i < len(s.lit); i++ {
			out[i] = c.BV(8, uint64(s.lit[i]))
		}
		return out
	case SSym:
		return s.b
	case SHex:
		t := s.b[0]
		n := t.w / 4
		out := make([]*Term, n)
		for i := 0; i < n; i++ {
			out[i] = m.hexChar(c.Extract(t, t.w-4*i-1, t.w-4*i-4))
		}
		return out
	case SB64:
		var out []*Term
		bs := s.b
		for len(bs) >= 3 {
			w := c.Concat(bs[0], bs[1], bs[2])
			for k := 0; k < 4; k++ {
				out = append(out, m.b64Char(c.Extract(w, 23-6*k, 18-6*k)))
			}
			bs = bs[3:]
		}
		if len(bs) == 2 {
			w := c.Concat(bs[0], bs[1], c.BV(2, 0))
			for k := 0; k < 3; k++ {
				out = append(out, m.b64Char(c.Extract(w, 17-6*k, 12-6*k)))
			}
			out = append(out, c.BV(8, '='))
		} else if len(bs) == 1 {
			w := c.Concat(bs[0], c.BV(4, 0))
			for k := 0; k < 2; k++ {
				out = append(out, m.b64Char(c.Extract(w, 11-6*k, 6-6*k)))
			}
			out = append(out, c.BV(8, '='), c.BV(8, '='))
		}
		return out
	case SDec:
		return m.decDigits(s.b[0])
	}
	m.unsupported("content of an opaque string inspected: " + s.id)
	return nil
}

// decDigits: number of digits is a forked decision; the digits are fresh variables tied to x.
func (m *Machine) decDigits(x *Term) []*Term {
	if r, ok := m.decCache[x.id]; ok {
		return r
	}
	c := m.ctx
	nd := 20
	p := uint64(10)
	for k := 1; k < 20; k++ {
		if m.decide(c.Ult(x, c.BV(64, p))) {
			nd = k
			break
		}
		p *= 10
	}
	out := make([]*Term, nd)
	sum := c.BV(64, 0)
	for i := 0; i < nd; i++ {
		d := c.Var(fmt.Sprintf("dig!%x!%d!%d", x.h, nd, i), KBV, 4)
		m.assumeDef(c.Ult(d, c.BV(4, 10)))
		if i == 0 && nd > 1 {
			m.assumeDef(c.Not(c.Eq(d, c.BV(4, 0))))
		}
		if nd == 20 && i == 0 {
			m.assumeDef(c.Eq(d, c.BV(4, 1)))
		}
		sum = c.Bin(OAdd, c.Bin(OMul, sum, c.BV(64, 10)), c.Zext(d, 64))
		out[i] = c.Bin(OAdd, c.Zext(d, 8), c.BV(8, '0'))
	}
	m.assumeDef(c.Eq(x, sum))
	m.decCache[x.id] = out
	return out
}

func (m *Machine) strBytes(v Value) []*Term {
	switch x := v.(type) {
	case string:
		out := make([]*Term, len(x))
		for i := 0; i < len(x); i++ {
			out[i] = m.ctx.BV(8, uint64(x[i]))
		}
		return out
	case *StrV:
		var out []*Term
		for i := range x.segs {
			bs := m.segBytes(&x.segs[i])
			if k := x.segs[i].k; (k == SHex || k == SB64 || k == SDec) && len(bs) > 1 && !bs[0].isConst() {
				m.spelled[bs[0]] = append(m.spelled[bs[0]], spelling{x.segs[i], bs})
			}
			out = append(out, bs...)
		}
		return out
	}
	m.unsupported(fmt.Sprintf("strBytes %T", v))
	return nil
}

func (m *Machine) strFromTerms(bs []*Term) Value {
	return m.normStr([]seg{{k: SSym, b: bs}})
}

func sameSegs(a, b []seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].k != b[i].k || a[i].lit != b[i].lit || a[i].id != b[i].id || len(a[i].b) != len(b[i].b) {
			return false
		}
		for j := range a[i].b {
			if a[i].b[j] != b[i].b[j] {
				return false
			}
		}
	}
	return true
}

func (m *Machine) strEq(x, y Value) *Term {
	c := m.ctx
	a, b := m.toStrV(x), m.toStrV(y)
	if sameSegs(a.segs, b.segs) {
		return c.tt
	}
	// quick: fixed lengths differ
	la, lb := fixedLen(a), fixedLen(b)
	if la >= 0 && lb >= 0 && la != lb {
		return c.ff
	}
	// token-wise comparison when the shapes agree
	if len(a.segs) == len(b.segs) {
		ok := true
		var cs []*Term
		for i := range a.segs {
			p, q := a.segs[i], b.segs[i]
			if p.k == SLit && q.k == SLit && p.lit == q.lit {
				continue
			}
			if p.k == SHex && q.k == SHex && p.b[0].w == q.b[0].w {
				cs = append(cs, c.Eq(p.b[0], q.b[0]))
				continue
			}
			if p.k == SDec && q.k == SDec && sepAfter(a.segs, i) && sepAfter(b.segs, i) {
				cs = append(cs, c.Eq(p.b[0], q.b[0]))
				continue
			}
			if p.k == SB64 && q.k == SB64 && len(p.b) == len(q.b) {
				for j := range p.b {
					cs = append(cs, c.Eq(p.b[j], q.b[j]))
				}
				continue
			}
			if p.k == SOpq && q.k == SOpq && p.id == q.id {
				continue
			}
			ok = false
			break
		}
		if ok {
			return c.And(cs...)
		}
	}
	if r := m.peelEq(a.segs, b.segs); r != nil {
		return r
	}
	// Hex token against literal/sym at equal lengths: position-wise with literal
	if len(a.segs) == 1 && len(b.segs) == 1 {
		p, q := a.segs[0], b.segs[0]
		if p.k == SLit {
			p, q = q, p
		}
		if p.k == SHex && q.k == SLit {
			d, err := hex.DecodeString(q.lit)
			if err != nil || strings.ToLower(q.lit) != q.lit {
				return c.ff
			}
			return c.Eq(p.b[0], c.BVBytes(d))
		}
	}
	// common literal prefix mismatch
	if len(a.segs) > 0 && len(b.segs) > 0 && a.segs[0].k == SLit && b.segs[0].k == SLit {
		p, q := a.segs[0].lit, b.segs[0].lit
		n := min(len(p), len(q))
		if p[:n] != q[:n] {
			return c.ff
		}
		// strip the common prefix and retry (aligns path prefixes)
		if n > 0 {
			ra := append([]seg{{k: SLit, lit: p[n:]}}, a.segs[1:]...)
			rb := append([]seg{{k: SLit, lit: q[n:]}}, b.segs[1:]...)
			return m.valEq(m.normStr(ra), m.normStr(rb))
		}
	}
	for _, s := range a.segs {
		if s.k == SOpq {
			m.unsupported("comparison of an opaque string " + s.id)
		}
	}
	for _, s := range b.segs {
		if s.k == SOpq {
			m.unsupported("comparison of an opaque string " + s.id)
		}
	}
	ba, bb := m.strBytes(x), m.strBytes(y)
	if len(ba) != len(bb) {
		return c.ff
	}
	if len(ba) == 0 {
		return c.tt
	}
	return c.Eq(m.packTerms(ba), m.packTerms(bb))
}

// peelEq compares the first tokens where that is possible without looking at digits; nil if not
func (m *Machine) peelEq(a, b []seg) *Term {
	c := m.ctx
	if len(a) == 0 {
		a, b = b, a
	}
	if len(b) == 0 {
		for _, g := range a {
			if g.k == SLit && g.lit != "" || g.k == SHex || g.k == SDec || g.k == SOpq && strings.HasPrefix(g.id, "num#") {
				return c.ff
			}
		}
		return nil
	}
	p, q := a[0], b[0]
	rest := func() *Term { return m.valEq(m.normStr(a[1:]), m.normStr(b[1:])) }
	if p.k == SHex && q.k == SHex && p.b[0].w == q.b[0].w {
		return c.And(c.Eq(p.b[0], q.b[0]), rest())
	}
	if p.k == SDec && q.k == SDec && sepAfter(a, 0) && sepAfter(b, 0) {
		return c.And(c.Eq(p.b[0], q.b[0]), rest())
	}
	if p.k == SLit && q.k == SLit { // a common start, or a difference at once
		n := 0
		for n < len(p.lit) && n < len(q.lit) && p.lit[n] == q.lit[n] {
			n++
		}
		if n < len(p.lit) && n < len(q.lit) {
			return c.ff
		}
		if n > 0 {
			cut := func(s []seg) Value {
				if n == len(s[0].lit) {
					return m.normStr(s[1:])
				}
				return m.normStr(append([]seg{lit(s[0].lit[n:])}, s[1:]...))
			}
			return m.valEq(cut(a), cut(b))
		}
	}
	if p.k == SLit {
		p, q, a, b = q, p, b, a
	}
	if q.k == SLit && (p.k == SHex || p.k == SDec || p.k == SB64) && p.k != SB64 && q.lit != "" {
		if segAvoids(p, q.lit[0]) {
			return c.ff
		}
		if n := segLen(p); p.k == SHex && len(q.lit) >= n { // whole digits of a literal
			d, err := hex.DecodeString(q.lit[:n])
			if err != nil || strings.ToLower(q.lit[:n]) != q.lit[:n] {
				return c.ff
			}
			rb := append([]seg{{k: SLit, lit: q.lit[n:]}}, b[1:]...)
			return c.And(c.Eq(p.b[0], c.BVBytes(d)), m.valEq(m.normStr(a[1:]), m.normStr(rb)))
		}
		if p.k == SDec && sepAfter(a, 0) {
			n := 0
			for n < len(q.lit) && q.lit[n] >= '0' && q.lit[n] <= '9' {
				n++
			}
			if n < len(q.lit) || len(b) == 1 { // a whole number
				v, err := strconv.ParseUint(q.lit[:n], 10, 64)
				if err != nil || strconv.FormatUint(v, 10) != q.lit[:n] || p.b[0].w < 64 && v>>p.b[0].w != 0 {
					return c.ff
				}
				rb := append([]seg{{k: SLit, lit: q.lit[n:]}}, b[1:]...)
				return c.And(c.Eq(p.b[0], c.BV(p.b[0].w, v)), m.valEq(m.normStr(a[1:]), m.normStr(rb)))
			}
		}
	}
	return nil
}

func sepAfter(s []seg, i int) bool {
	if i+1 >= len(s) {
		return true
	}
	n := s[i+1]
	return n.k == SLit && n.lit != "" && (n.lit[0] < '0' || n.lit[0] > '9')
}

func fixedLen(s *StrV) int {
	n := 0
	for _, g := range s.segs {
		l := segLen(g)
		if l < 0 {
			return -1
		}
		n += l
	}
	return n
}

// strLess: lexicographic order as a term
func (m *Machine) strLess(x, y Value) *Term {
	c := m.ctx
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return c.Bool(a < b)
		}
	}
	a, b := m.strBytes(x), m.strBytes(y)
	n := min(len(a), len(b))
	r := c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = c.Ite(c.Ult(a[i], b[i]), c.tt, c.Ite(c.Ult(b[i], a[i]), c.ff, r))
	}
	return r
}

// bytesOf: []byte value -> terms
func (m *Machine) sliceOf(v Value) SliceV {
	switch x := v.(type) {
	case SliceV:
		return x
	case *RopeBytes:
		if x.exp == nil {
			ts := m.strBytes(x.s)
			x.exp = make(SliceV, len(ts))
			for i, t := range ts {
				x.exp[i] = t
			}
		}
		return x.exp
	case ArrayV:
		return SliceV(x)
	}
	m.unsupported(fmt.Sprintf("sliceOf %T", v))
	return nil
}

func (m *Machine) byteTerms(v Value) []*Term {
	s := m.sliceOf(v)
	out := make([]*Term, len(s))
	for i, x := range s {
		out[i] = x.(*Term)
	}
	return out
}

func (m *Machine) bytesToStr(v Value) Value {
	if r, ok := v.(*RopeBytes); ok && r.exp == nil {
		return m.normStr(r.s.segs)
	}
	return m.normStr(m.unspell(m.byteTerms(v)))
}

// a segment of a text and the characters it was written out as
type spelling struct {
	s  seg
	bs []*Term
}

// unspell: characters that a segment was written out as, together again, are that segment
func (m *Machine) unspell(bs []*Term) []seg {
	var out []seg
	from := 0
next:
	for i := 0; i < len(bs); {
		best := -1
		l := m.spelled[bs[i]]
	cands:
		for k := range l {
			w := l[k].bs
			if len(w) > len(bs)-i || best >= 0 && len(w) <= len(l[best].bs) {
				continue
			}
			for j := range w {
				if w[j] != bs[i+j] {
					continue cands
				}
			}
			best = k
		}
		if best < 0 {
			i++
			continue next
		}
		if from < i {
			out = append(out, seg{k: SSym, b: bs[from:i]})
		}
		out = append(out, l[best].s)
		i += len(l[best].bs)
		from = i
	}
	if from < len(bs) || len(bs) == 0 {
		out = append(out, seg{k: SSym, b: bs[from:]})
	}
	return out
}

func (m *Machine) strToBytes(v Value) Value {
	switch x := v.(type) {
	case string:
		out := make(SliceV, len(x))
		for i := 0; i < len(x); i++ {
			out[i] = m.ctx.BV(8, uint64(x[i]))
		}
		return out
	case *StrV:
		return &RopeBytes{s: x}
	}
	m.unsupported("strToBytes")
	return nil
}

// concStr returns the concrete string if fully concrete
func concStr(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

func concBytes(v Value) ([]byte, bool) {
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	out := make([]byte, len(s))
	for i, x := range s {
		t := x.(*Term)
		if !t.isConst() {
			return nil, false
		}
		out[i] = byte(t.u)
	}
	return out, true
}

func (m *Machine) bytesVal(b []byte) SliceV {
	out := make(SliceV, len(b))
	for i, x := range b {
		out[i] = m.ctx.BV(8, uint64(x))
	}
	return out
}

func (m *Machine) opaque(id string) Value {
	m.nOpaque++
	return &StrV{segs: []seg{{k: SOpq, id: fmt.Sprintf("%s#%d", id, m.nOpaque)}}}
}
