package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

func lit(s string) seg { return seg{k: SLit, lit: s} }

func (m *Machine) hexSeg(t *Term) seg { return seg{k: SHex, b: []*Term{t}} }
func (m *Machine) decSeg(t *Term) seg {
	if t.w < 64 {
		t = m.ctx.Zext(t, 64)
	}
	return seg{k: SDec, b: []*Term{t}}
}

// tryVal evaluates f; an engine limitation inside yields ok=false (used for message texts only)
func (m *Machine) tryVal(f func() Value) (v Value, ok bool) {
	depth := 0
	if m.cur != nil {
		depth = len(m.cur.stack)
	}
	defer func() {
		if r := recover(); r != nil {
			if pe, is := r.(pathEnd); is && pe.kind == endUnsupported {
				m.cur.stack = m.cur.stack[:depth]
				v, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return f(), true
}

func (m *Machine) strSegs(v Value) []seg { return m.toStrV(v).segs }

func (m *Machine) fmtVal(verb byte, a Value, depth int) []seg {
	iv, ok := a.(IfaceV)
	if !ok {
		m.unsupported("format of non-interface")
	}
	if iv.t == nil {
		if verb == 's' {
			return []seg{lit("%!s(<nil>)")}
		}
		return []seg{lit("<nil>")}
	}
	opq := func() []seg { return m.strSegs(m.opaque("fmt")) }
	if verb == 'T' {
		return []seg{lit(iv.t.String())}
	}
	if strings.IndexByte("vsxXq", verb) >= 0 {
		for _, mn := range []string{"Error", "String"} {
			f := m.methodByName(iv.t, mn)
			if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if p, isP := iv.v.(*Value); isP && p == nil {
				return []seg{lit("<nil>")}
			}
			v, ok := m.tryVal(func() Value { return m.callSync(f, []Value{copyVal(iv.v)}, nil) })
			if !ok {
				return opq()
			}
			if verb == 'x' || verb == 'X' {
				return opq()
			}
			return m.strSegs(v)
		}
	}
	switch x := iv.v.(type) {
	case string:
		if verb == 'q' {
			return []seg{lit(strconv.Quote(x))}
		}
		if verb == 'x' {
			return []seg{lit(hex.EncodeToString([]byte(x)))}
		}
		return []seg{lit(x)}
	case *StrV:
		if verb == 's' || verb == 'v' {
			return x.segs
		}
		return opq()
	case *Term:
		if x.sk == KBool {
			if x.isConst() {
				return []seg{lit(fmt.Sprint(x.isTrue()))}
			}
			if verb == 't' || verb == 'v' {
				return []seg{lit(fmt.Sprint(m.decide(x)))}
			}
			return opq()
		}
		if x.sk == KF64 {
			return m.strSegs(m.opaque("num"))
		}
		if x.isConst() {
			if isSigned(iv.t) {
				return []seg{lit(fmt.Sprintf("%"+string(verb), s64(x.u, x.w)))}
			}
			return []seg{lit(fmt.Sprintf("%"+string(verb), x.u))}
		}
		if verb == 'd' || verb == 'v' {
			if !isSigned(iv.t) || m.ctx.signKnown(x) {
				return []seg{m.decSeg(x)}
			}
		}
		return opq()
	case ArrayV, SliceV:
		if verb == 'x' && isByteSeq(iv.t) {
			s := m.sliceOf(x)
			if len(s) == 0 {
				return nil
			}
			return []seg{m.hexSeg(m.packBytes(s))}
		}
		if (verb == 's') && isByteSeq(iv.t) {
			return m.strSegs(m.bytesToStr(x))
		}
		return opq()
	case *RopeBytes:
		if verb == 's' {
			return m.strSegs(m.bytesToStr(x))
		}
	}
	return opq()
}

func isByteSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByteArr(u.Elem())
	case *types.Array:
		return isByteArr(u.Elem())
	}
	return false
}

func (m *Machine) sprintf(format Value, args SliceV) Value {
	f, ok := format.(string)
	if !ok {
		return m.opaque("fmt")
	}
	var out []seg
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, lit(f[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			out = append(out, lit("%!(NOVERB)"))
			break
		}
		flags := f[i+1 : j]
		v := f[j]
		i = j
		if v == '%' {
			out = append(out, lit("%"))
			continue
		}
		if ai >= len(args) {
			out = append(out, lit("%!"+string(v)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if v == 'w' {
			v = 'v'
		}
		if flags != "" {
			if t, ok := a.(IfaceV).v.(*Term); ok && t.isConst() && t.sk == KBV {
				if isSigned(a.(IfaceV).t) {
					out = append(out, lit(fmt.Sprintf("%"+flags+string(v), s64(t.u, t.w))))
				} else {
					out = append(out, lit(fmt.Sprintf("%"+flags+string(v), t.u)))
				}
				continue
			}
			if flags != "+" {
				kind := "fmt"
				if t, ok := a.(IfaceV).v.(*Term); ok && t.sk == KF64 {
					kind = "num"
				}
				out = append(out, m.strSegs(m.opaque(kind))...)
				continue
			}
		}
		out = append(out, m.fmtVal(v, a, 0)...)
	}
	return m.normStr(out)
}

func (m *Machine) sprint(args SliceV, ln bool) Value {
	var out []seg
	prevStr := true
	for i, a := range args {
		iv := a.(IfaceV)
		isStr := false
		switch iv.v.(type) {
		case string, *StrV:
			isStr = true
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			out = append(out, lit(" "))
		}
		out = append(out, m.fmtVal('v', a, 0)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, lit("\n"))
	}
	return m.normStr(out)
}

// writeTo calls w.Write(p)
func (m *Machine) writeTo(w Value, s Value) Value {
	iv := w.(IfaceV)
	if iv.t == nil {
		m.runtimePanic("invalid memory address or nil pointer dereference")
	}
	f := m.methodByName(iv.t, "Write")
	return m.callSync(f, []Value{iv.v, m.sliceOrRope(s)}, nil)
}

func (m *Machine) sliceOrRope(s Value) Value {
	return m.strToBytes(s)
}

// split a string value on a literal separator; ok=false when the content has to be inspected bytewise
func (m *Machine) splitRope(v Value, sep string, n int) ([]Value, bool) {
	if s, ok := v.(string); ok {
		ps := strings.SplitN(s, sep, n)
		out := make([]Value, len(ps))
		for i, p := range ps {
			out[i] = p
		}
		return out, true
	}
	sv := v.(*StrV)
	if len(sep) != 1 {
		return nil, false
	}
	for _, g := range sv.segs {
		if !segAvoids(g, sep[0]) {
			return nil, false
		}
	}
	return m.splitSegs(sv, sep[0], n), true
}

// splitSegs splits at the separators in literal segments
func (m *Machine) splitSegs(sv *StrV, b byte, n int) []Value {
	var out []Value
	var cur []seg
	for _, g := range sv.segs {
		if g.k != SLit {
			cur = append(cur, g)
			continue
		}
		rest := g.lit
		for {
			i := strings.IndexByte(rest, b)
			if i < 0 || n > 0 && len(out) >= n-1 {
				break
			}
			cur = append(cur, lit(rest[:i]))
			out = append(out, m.normStr(cur))
			cur = nil
			rest = rest[i+1:]
		}
		cur = append(cur, lit(rest))
	}
	return append(out, m.normStr(cur))
}

// segAvoids: the segment certainly does not contain byte b (literals may contain it: handled by the caller)
func segAvoids(g seg, b byte) bool {
	isAl := func(x byte) bool {
		return x >= '0' && x <= '9' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z'
	}
	switch g.k {
	case SLit:
		return true
	case SHex:
		return !(b >= '0' && b <= '9' || b >= 'a' && b <= 'f')
	case SDec:
		return !(b >= '0' && b <= '9')
	case SB64:
		return !isAl(b) && b != '+' && b != '/' && b != '='
	case SOpq: // a formatted number
		return strings.HasPrefix(g.id, "num#") && !isAl(b) && strings.IndexByte("+-. ", b) < 0
	}
	return false
}

func strListVal(vs []Value) SliceV {
	out := make(SliceV, len(vs))
	copy(out, vs)
	return out
}

func (m *Machine) trimRope(v Value, cut string, left, right bool) (Value, bool) {
	if s, ok := v.(string); ok {
		if left {
			s = strings.TrimLeft(s, cut)
		}
		if right {
			s = strings.TrimRight(s, cut)
		}
		return s, true
	}
	segs := append([]seg(nil), v.(*StrV).segs...)
	avoids := func(g seg) bool {
		for i := 0; i < len(cut); i++ {
			if !segAvoids(g, cut[i]) {
				return false
			}
		}
		return true
	}
	for left && len(segs) > 0 {
		if segs[0].k != SLit {
			if !avoids(segs[0]) {
				return nil, false
			}
			break
		}
		t := strings.TrimLeft(segs[0].lit, cut)
		if t != "" {
			segs[0].lit = t
			break
		}
		segs = segs[1:]
	}
	for right && len(segs) > 0 {
		k := len(segs) - 1
		if segs[k].k != SLit {
			if !avoids(segs[k]) {
				return nil, false
			}
			break
		}
		t := strings.TrimRight(segs[k].lit, cut)
		if t != "" {
			segs[k].lit = t
			break
		}
		segs = segs[:k]
	}
	return m.normStr(segs), true
}

func init() {
	// ----- fmt / errors
	regS("fmt.Sprintf", func(m *Machine, a []Value) Value { return m.sprintf(a[0], m.sliceOf(a[1])) })
	regS("fmt.Sprint", func(m *Machine, a []Value) Value { return m.sprint(m.sliceOf(a[0]), false) })
	regS("fmt.Sprintln", func(m *Machine, a []Value) Value { return m.sprint(m.sliceOf(a[0]), true) })
	regS("fmt.Fprintf", func(m *Machine, a []Value) Value { return m.writeTo(a[0], m.sprintf(a[1], m.sliceOf(a[2]))) })
	regS("fmt.Fprint", func(m *Machine, a []Value) Value { return m.writeTo(a[0], m.sprint(m.sliceOf(a[1]), false)) })
	regS("fmt.Fprintln", func(m *Machine, a []Value) Value { return m.writeTo(a[0], m.sprint(m.sliceOf(a[1]), true)) })
	regS("fmt.Errorf", func(m *Machine, a []Value) Value {
		args := m.sliceOf(a[1])
		msg := m.sprintf(a[0], args)
		f, _ := a[0].(string)
		if strings.Contains(f, "%w") && m.p.wrapErr != nil {
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				if f[i+1] == 'w' {
					if iv, ok := args[k].(IfaceV); ok && iv.t != nil {
						return IfaceV{m.p.wrapErr, newPtr(StructV{msg, iv})}
					}
				}
				if f[i+1] != '%' {
					k++
				}
				i++
			}
		}
		return m.mkError(msg)
	})
	unwrap := func(m *Machine, e IfaceV) (IfaceV, bool) {
		f := m.methodByName(e.t, "Unwrap")
		if f == nil {
			return IfaceV{}, false
		}
		r, ok := m.callSync(f, []Value{copyVal(e.v)}, nil).(IfaceV)
		return r, ok && r.t != nil
	}
	regS("errors.Is", func(m *Machine, a []Value) Value {
		e, t := a[0].(IfaceV), a[1].(IfaceV)
		if e.t == nil || t.t == nil {
			return m.ctx.Bool(e.t == nil && t.t == nil)
		}
		for {
			if types.Comparable(t.t) && types.Identical(e.t, t.t) && m.decide(m.valEq(e, t)) {
				return m.ctx.tt
			}
			if f := m.methodByName(e.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
				if m.decide(m.callSync(f, []Value{copyVal(e.v), t}, nil).(*Term)) {
					return m.ctx.tt
				}
			}
			var ok bool
			if e, ok = unwrap(m, e); !ok {
				return m.ctx.ff
			}
		}
	})
	regS("errors.As", func(m *Machine, a []Value) Value {
		e, t := a[0].(IfaceV), a[1].(IfaceV)
		if e.t == nil {
			return m.ctx.ff
		}
		pt, ok := t.t.(*types.Pointer)
		if !ok {
			m.runtimePanic("errors: target must be a non-nil pointer")
		}
		el := pt.Elem()
		for {
			if types.AssignableTo(e.t, el) {
				if _, isI := el.Underlying().(*types.Interface); isI {
					storeVal(m.deref(t.v), e)
				} else {
					storeVal(m.deref(t.v), e.v)
				}
				return m.ctx.tt
			}
			var ok bool
			if e, ok = unwrap(m, e); !ok {
				return m.ctx.ff
			}
		}
	})
	// ----- strings
	id := func(m *Machine, a []Value) Value { return a[0] }
	regS("strings.Clone", id)
	regS("internal/stringslite.Clone", id)
	regS("internal/bytealg.MakeNoZero", func(m *Machine, a []Value) Value {
		n := int(m.must64(a[0], "MakeNoZero"))
		return m.newSlice(types.Typ[types.Uint8], n, n)
	})
	reg("strings.Split", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		sep, ok := concStr(a[1])
		if !ok || sep == "" {
			return interpretIt, true
		}
		if vs, ok := m.splitRope(a[0], sep, -1); ok {
			return strListVal(vs), true
		}
		return interpretIt, true
	})
	reg("strings.SplitN", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		sep, ok := concStr(a[1])
		n := m.must64(a[2], "n")
		if !ok || sep == "" || n == 0 {
			return interpretIt, true
		}
		if vs, ok := m.splitRope(a[0], sep, int(n)); ok {
			return strListVal(vs), true
		}
		return interpretIt, true
	})
	for _, n := range []string{"strings.Cut", "internal/stringslite.Cut"} {
		reg(n, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			sv, isRope := a[0].(*StrV)
			sep, ok := concStr(a[1])
			if !isRope || !ok || sep == "" {
				return interpretIt, true
			}
			for _, x := range sv.segs {
				if !segAvoids(x, sep[0]) {
					return interpretIt, true
				}
			}
			for i, x := range sv.segs {
				if x.k != SLit {
					continue
				}
				if at := strings.Index(x.lit, sep); at >= 0 {
					l := append(append([]seg(nil), sv.segs[:i]...), lit(x.lit[:at]))
					r := append([]seg{lit(x.lit[at+len(sep):])}, sv.segs[i+1:]...)
					return TupleV{m.normStr(l), m.normStr(r), m.ctx.Bool(true)}, true
				}
				for k := 1; k < len(sep); k++ { // could run on into the next segment
					if strings.HasSuffix(x.lit, sep[:k]) {
						return interpretIt, true
					}
				}
			}
			return TupleV{sv, "", m.ctx.Bool(false)}, true
		})
	}
	regS("strings.Join", func(m *Machine, a []Value) Value {
		var r []seg
		for i, x := range m.sliceOf(a[0]) {
			if i > 0 {
				r = append(r, m.strSegs(a[1])...)
			}
			r = append(r, m.strSegs(x)...)
		}
		return m.normStr(r)
	})
	trim := func(name string, l, r bool, fixed string) {
		reg("strings."+name, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			cut := fixed
			if fixed == "" {
				var ok bool
				if cut, ok = concStr(a[1]); !ok {
					return interpretIt, true
				}
			}
			if v, ok := m.trimRope(a[0], cut, l, r); ok {
				return v, true
			}
			return interpretIt, true
		})
	}
	trim("Trim", true, true, "")
	trim("TrimLeft", true, false, "")
	trim("TrimRight", false, true, "")
	trim("TrimSpace", true, true, " \t\n\v\f\r")
	conc1 := func(name string, f func(string) string) {
		reg("strings."+name, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			if s, ok := concStr(a[0]); ok {
				return f(s), true
			}
			if name == "ToLower" {
				ok := true
				for _, x := range a[0].(*StrV).segs {
					if x.k == SSym || x.k == SB64 || x.k == SOpq || x.k == SLit && strings.ToLower(x.lit) != x.lit {
						ok = false
					}
				}
				if ok {
					return a[0], true
				}
			}
			return interpretIt, true
		})
	}
	conc1("ToLower", strings.ToLower)
	conc1("ToUpper", strings.ToUpper)
	conc2 := func(name string, f func(m *Machine, x, y string) Value) {
		reg("strings."+name, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			x, ok1 := concStr(a[0])
			y, ok2 := concStr(a[1])
			if ok1 && ok2 {
				return f(m, x, y), true
			}
			return interpretIt, true
		})
	}
	conc2("Index", func(m *Machine, x, y string) Value { return m.ctx.BV(64, uint64(strings.Index(x, y))) })
	conc2("LastIndex", func(m *Machine, x, y string) Value { return m.ctx.BV(64, uint64(strings.LastIndex(x, y))) })
	conc2("Contains", func(m *Machine, x, y string) Value { return m.ctx.Bool(strings.Contains(x, y)) })
	conc2("Count", func(m *Machine, x, y string) Value { return m.ctx.BV(64, uint64(strings.Count(x, y))) })
	reg("strings.HasPrefix", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		return interpretIt, true
	})
	reg("strings.Repeat", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		if s, ok := concStr(a[0]); ok {
			return strings.Repeat(s, int(m.must64(a[1], "repeat"))), true
		}
		return interpretIt, true
	})
	reg("strings.ReplaceAll", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		x, o1 := concStr(a[0])
		y, o2 := concStr(a[1])
		z, o3 := concStr(a[2])
		if o1 && o2 && o3 {
			return strings.ReplaceAll(x, y, z), true
		}
		return interpretIt, true
	})
	// strings.Builder: content kept as a rope
	sb := "(*strings.Builder)."
	get := func(m *Machine, v Value) Value {
		if s, ok := m.builders[m.deref(v)]; ok {
			return s
		}
		return ""
	}
	lenErr := func(m *Machine, n int) Value { return TupleV{m.ctx.BV(64, uint64(n)), IfaceV{}} }
	regS(sb+"WriteString", func(m *Machine, a []Value) Value {
		m.builders[m.deref(a[0])] = m.strConcat(get(m, a[0]), a[1])
		n, ok := m.tryVal(func() Value { return m.ctx.BV(64, uint64(m.strFixed(a[1]))) })
		if !ok {
			n = m.ctx.BV(64, 0)
		}
		return TupleV{n, IfaceV{}}
	})
	regS(sb+"Write", func(m *Machine, a []Value) Value {
		s := m.bytesToStr(a[1])
		m.builders[m.deref(a[0])] = m.strConcat(get(m, a[0]), s)
		return lenErr(m, m.lenOf(a[1]))
	})
	regS(sb+"WriteByte", func(m *Machine, a []Value) Value {
		m.builders[m.deref(a[0])] = m.strConcat(get(m, a[0]), m.strFromTerms([]*Term{a[1].(*Term)}))
		return IfaceV{}
	})
	regS(sb+"WriteRune", func(m *Machine, a []Value) Value {
		r := m.concretize(a[1].(*Term), "rune")
		s := string(rune(int32(r)))
		m.builders[m.deref(a[0])] = m.strConcat(get(m, a[0]), s)
		return lenErr(m, len(s))
	})
	regS(sb+"String", func(m *Machine, a []Value) Value { return get(m, a[0]) })
	regS(sb+"Len", func(m *Machine, a []Value) Value { return m.ctx.BV(64, uint64(m.strLen(get(m, a[0])))) })
	regS(sb+"Reset", func(m *Machine, a []Value) Value { delete(m.builders, m.deref(a[0])); return nil })
	regS(sb+"Grow", func(m *Machine, a []Value) Value { return nil })
	// ----- bytealg
	cmpT := func(m *Machine, x, y []*Term) *Term {
		c := m.ctx
		n := min(len(x), len(y))
		var r *Term
		switch {
		case len(x) < len(y):
			r = c.BV(64, ^uint64(0))
		case len(x) > len(y):
			r = c.BV(64, 1)
		default:
			r = c.BV(64, 0)
		}
		if n == 0 {
			return r
		}
		p, q := m.packTerms(x[:n]), m.packTerms(y[:n])
		return c.Ite(c.Ult(p, q), c.BV(64, ^uint64(0)), c.Ite(c.Ult(q, p), c.BV(64, 1), r))
	}
	for _, n := range []string{"internal/bytealg.Compare", "bytes.Compare"} {
		regS(n, func(m *Machine, a []Value) Value { return cmpT(m, m.byteTerms(a[0]), m.byteTerms(a[1])) })
	}
	for _, n := range []string{"internal/bytealg.CompareString", "strings.Compare", "runtime.cmpstring"} {
		regS(n, func(m *Machine, a []Value) Value { return cmpT(m, m.strBytes(a[0]), m.strBytes(a[1])) })
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		regS(n, func(m *Machine, a []Value) Value {
			return m.strEq(m.bytesToStr(a[0]), m.bytesToStr(a[1]))
		})
	}
	idxByte := func(m *Machine, ts []*Term, b *Term) Value {
		for i, t := range ts {
			if m.decide(m.ctx.Eq(t, b)) {
				return m.ctx.BV(64, uint64(i))
			}
		}
		return m.ctx.BV(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "bytes.IndexByte"} {
		regS(n, func(m *Machine, a []Value) Value { return idxByte(m, m.byteTerms(a[0]), a[1].(*Term)) })
	}
	strIdx := func(m *Machine, a []Value) Value {
		b := a[1].(*Term)
		// token-aware: skip tokens that cannot contain the byte
		if sv, ok := a[0].(*StrV); ok && b.isConst() {
			pos := 0
			for _, g := range sv.segs {
				if g.k == SLit {
					if i := strings.IndexByte(g.lit, byte(b.u)); i >= 0 {
						return m.ctx.BV(64, uint64(pos+i))
					}
				} else if !segAvoids(g, byte(b.u)) {
					return idxByte(m, m.strBytes(a[0]), b)
				}
				n := segLen(g)
				if n < 0 {
					return idxByte(m, m.strBytes(a[0]), b)
				}
				pos += n
			}
			return m.ctx.BV(64, ^uint64(0))
		}
		return idxByte(m, m.strBytes(a[0]), b)
	}
	for _, n := range []string{"internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		regS(n, strIdx)
	}
	regS("internal/bytealg.CountString", func(m *Machine, a []Value) Value {
		n := uint64(0)
		for _, t := range m.strBytes(a[0]) {
			if m.decide(m.ctx.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return m.ctx.BV(64, n)
	})
	regS("internal/bytealg.Count", func(m *Machine, a []Value) Value {
		n := uint64(0)
		for _, t := range m.byteTerms(a[0]) {
			if m.decide(m.ctx.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return m.ctx.BV(64, n)
	})
	idxSub := func(m *Machine, x, y []*Term) Value {
		for i := 0; i+len(y) <= len(x); i++ {
			if len(y) == 0 || m.decide(m.ctx.Eq(m.packTerms(x[i:i+len(y)]), m.packTerms(y))) {
				return m.ctx.BV(64, uint64(i))
			}
		}
		return m.ctx.BV(64, ^uint64(0))
	}
	regS("internal/bytealg.IndexString", func(m *Machine, a []Value) Value { return idxSub(m, m.strBytes(a[0]), m.strBytes(a[1])) })
	regS("internal/stringslite.Index", func(m *Machine, a []Value) Value {
		return idxSub(m, m.strBytes(a[0]), m.strBytes(a[1]))
	})
	regS("internal/bytealg.Index", func(m *Machine, a []Value) Value { return idxSub(m, m.byteTerms(a[0]), m.byteTerms(a[1])) })
	// ----- strconv
	fmtInt := func(m *Machine, t *Term, signed bool, base int64) (Value, bool) {
		if t.isConst() {
			if signed {
				return strconv.FormatInt(s64(t.u, t.w), int(base)), true
			}
			return strconv.FormatUint(t.u, int(base)), true
		}
		if base != 10 {
			return nil, false
		}
		if signed && !m.ctx.signKnown(t) {
			if m.decide(m.ctx.Slt(t, m.ctx.BV(t.w, 0))) {
				return m.normStr([]seg{lit("-"), m.decSeg(m.ctx.Bin(OSub, m.ctx.BV(64, 0), t))}), true
			}
		}
		return m.normStr([]seg{m.decSeg(t)}), true
	}
	reg("strconv.FormatUint", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		if v, ok := fmtInt(m, a[0].(*Term), false, m.must64(a[1], "base")); ok {
			return v, true
		}
		return interpretIt, true
	})
	reg("strconv.FormatInt", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		if v, ok := fmtInt(m, a[0].(*Term), true, m.must64(a[1], "base")); ok {
			return v, true
		}
		return interpretIt, true
	})
	regS("strconv.Itoa", func(m *Machine, a []Value) Value {
		v, _ := fmtInt(m, a[0].(*Term), true, 10)
		return v
	})
	single := func(v Value, k SegKind) *seg {
		if s, ok := v.(*StrV); ok && len(s.segs) == 1 && s.segs[0].k == k {
			return &s.segs[0]
		}
		return nil
	}
	regP := func(name string, signed bool, argc int) {
		reg("strconv."+name, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			base, bits := int64(10), int64(64)
			if argc == 3 {
				base, bits = m.must64(a[1], "base"), m.must64(a[2], "bits")
			}
			if s := single(a[0], SDec); s != nil && (base == 10) && (bits == 64 || bits == 0) {
				t := s.b[0]
				if !signed {
					return TupleV{t, IfaceV{}}, true
				}
				if m.decide(m.ctx.Ult(t, m.ctx.BV(64, 1<<63))) {
					return TupleV{t, IfaceV{}}, true
				}
				return TupleV{m.ctx.BV(64, 1<<63-1), m.mkError("strconv: value out of range")}, true
			}
			if sv, ok := a[0].(*StrV); ok && len(sv.segs) == 2 && sv.segs[1].k == SDec && sv.segs[0].k == SLit && base == 10 && (bits == 64 || bits == 0) &&
				(sv.segs[0].lit == "-" || sv.segs[0].lit == "+") {
				t := sv.segs[1].b[0]
				neg := sv.segs[0].lit == "-"
				switch {
				case !signed:
					return TupleV{m.ctx.BV(64, 0), m.mkError("strconv: invalid syntax")}, true
				case neg && m.decide(m.ctx.Ule(t, m.ctx.BV(64, 1<<63))):
					return TupleV{m.ctx.Bin(OSub, m.ctx.BV(64, 0), t), IfaceV{}}, true
				case neg:
					return TupleV{m.ctx.BV(64, 1<<63), m.mkError("strconv: value out of range")}, true
				case m.decide(m.ctx.Ult(t, m.ctx.BV(64, 1<<63))):
					return TupleV{t, IfaceV{}}, true
				}
				return TupleV{m.ctx.BV(64, 1<<63-1), m.mkError("strconv: value out of range")}, true
			}
			if s, ok := concStr(a[0]); ok {
				if signed {
					v, err := strconv.ParseInt(s, int(base), int(bits))
					if err == nil {
						return TupleV{m.ctx.BV(64, uint64(v)), IfaceV{}}, true
					}
					return TupleV{m.ctx.BV(64, uint64(v)), m.mkError(err.Error())}, true
				}
				v, err := strconv.ParseUint(s, int(base), int(bits))
				if err == nil {
					return TupleV{m.ctx.BV(64, v), IfaceV{}}, true
				}
				return TupleV{m.ctx.BV(64, v), m.mkError(err.Error())}, true
			}
			return interpretIt, true
		})
	}
	regP("ParseUint", false, 3)
	regP("ParseInt", true, 3)
	regP("Atoi", true, 1)
	// ----- hex / base64
	reg("encoding/hex.EncodeToString", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		s := m.sliceOf(a[0])
		if len(s) == 0 {
			return "", true
		}
		return m.normStr([]seg{m.hexSeg(m.packBytes(s))}), true
	})
	regS("encoding/hex.Encode", func(m *Machine, a []Value) Value {
		d, s := m.sliceOf(a[0]), m.byteTerms(a[1])
		if len(d) < 2*len(s) {
			m.runtimePanic("index out of range")
		}
		for i, t := range s {
			for k := 0; k < 2; k++ {
				n := m.ctx.Extract(t, 7-4*k, 4-4*k)
				d[2*i+k] = m.hexChar(n)
			}
		}
		return m.ctx.BV(64, uint64(2*len(s)))
	})
	reg("encoding/hex.Decode", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		d, s := m.sliceOf(a[0]), m.byteTerms(a[1])
		if len(s)%2 != 0 || len(d) < len(s)/2 {
			return interpretIt, true
		}
		nib := make([]*Term, len(s))
		for i, t := range s {
			if t.isConst() {
				b, err := hex.DecodeString("0" + string([]byte{byte(t.u)}))
				if err != nil {
					return interpretIt, true
				}
				nib[i] = m.ctx.BV(4, uint64(b[0]))
			} else if n, ok := m.hexOf[t.id]; ok { // a digit we wrote
				nib[i] = n
			} else {
				return interpretIt, true
			}
		}
		for i := 0; i < len(s)/2; i++ {
			d[i] = m.ctx.Concat(nib[2*i], nib[2*i+1])
		}
		return TupleV{m.ctx.BV(64, uint64(len(s)/2)), IfaceV{}}, true
	})
	reg("encoding/hex.DecodeString", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		if s := single(a[0], SHex); s != nil {
			return TupleV{SliceV(m.unpackBytes(s.b[0])), IfaceV{}}, true
		}
		if s, ok := concStr(a[0]); ok {
			b, err := hex.DecodeString(s)
			if err == nil {
				return TupleV{m.bytesVal(b), IfaceV{}}, true
			}
			return TupleV{m.bytesVal(b), m.mkError(err.Error())}, true
		}
		// concatenation of hex tokens and even-length hex literals
		if sv, ok := a[0].(*StrV); ok {
			var out SliceV
			good := true
			for _, s := range sv.segs {
				switch s.k {
				case SHex:
					out = append(out, m.unpackBytes(s.b[0])...)
				case SLit:
					b, err := hex.DecodeString(s.lit)
					if err != nil {
						good = false
					} else {
						out = append(out, m.bytesVal(b)...)
					}
				default:
					good = false
				}
			}
			if good {
				return TupleV{out, IfaceV{}}, true
			}
		}
		return interpretIt, true
	})
	isStd := func(m *Machine, v Value) bool {
		p, ok := v.(*Value)
		return ok && m.valEq(p, m.globalVal("encoding/base64", "StdEncoding")).isTrue()
	}
	reg("(*encoding/base64.Encoding).EncodeToString", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		if !isStd(m, a[0]) {
			return interpretIt, true
		}
		s := m.byteTerms(a[1])
		if len(s) == 0 {
			return "", true
		}
		return m.normStr([]seg{{k: SB64, b: s}}), true
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		if !isStd(m, a[0]) {
			return interpretIt, true
		}
		if s := single(a[1], SB64); s != nil {
			out := make(SliceV, len(s.b))
			for i, t := range s.b {
				out[i] = t
			}
			return TupleV{out, IfaceV{}}, true
		}
		if s, ok := concStr(a[1]); ok {
			b, err := base64.StdEncoding.DecodeString(s)
			if err == nil {
				return TupleV{m.bytesVal(b), IfaceV{}}, true
			}
			return TupleV{m.bytesVal(b), m.mkError(err.Error())}, true
		}
		return interpretIt, true
	})
	// ----- json
	regS("encoding/json.Marshal", func(m *Machine, a []Value) Value {
		var err Value = IfaceV{}
		segs, e := m.jsonEnc(a[0].(IfaceV))
		if e != nil {
			return TupleV{SliceV(nil), *e}
		}
		return TupleV{m.strToBytes(m.normStr(segs)), err}
	})
	// the same without the indentation, which no reader sees
	regS("encoding/json.MarshalIndent", func(m *Machine, a []Value) Value {
		segs, e := m.jsonEnc(a[0].(IfaceV))
		if e != nil {
			return TupleV{SliceV(nil), *e}
		}
		return TupleV{m.strToBytes(m.normStr(segs)), IfaceV{}}
	})
	regS("encoding/json.Unmarshal", func(m *Machine, a []Value) Value {
		d := &jdec{m: m}
		if r, ok := a[0].(*RopeBytes); ok && r.exp == nil {
			d.segs = append([]seg(nil), r.s.segs...)
		} else {
			d.segs = append([]seg(nil), m.toStrV(m.bytesToStr(a[0])).segs...)
		}
		t := a[1].(IfaceV)
		pt, ok := t.t.(*types.Pointer)
		if !ok {
			return m.mkError("json: Unmarshal(non-pointer)")
		}
		tree, err := d.parseTop()
		if err != "" {
			return m.mkError(err)
		}
		if e := m.jsonStore(tree, pt.Elem(), m.deref(t.v)); e != nil {
			return *e
		}
		return IfaceV{}
	})
	// ----- sort
	regS("sort.Slice", func(m *Machine, a []Value) Value {
		m.insertionSort(m.sliceOf(a[0].(IfaceV).v), a[1])
		return nil
	})
	regS("sort.SliceStable", func(m *Machine, a []Value) Value {
		m.insertionSort(m.sliceOf(a[0].(IfaceV).v), a[1])
		return nil
	})
}

// strFixed: length when known without inspecting digits
func (m *Machine) strFixed(v Value) int {
	n := fixedLen(m.toStrV(v))
	if n < 0 {
		m.unsupported("length of decimal text")
	}
	return n
}

func (m *Machine) insertionSort(s SliceV, less Value) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := m.callFuncV(less, []Value{m.ctx.BV(64, uint64(j)), m.ctx.BV(64, uint64(j-1))})
			if !m.decide(r.(*Term)) {
				break
			}
			t := copyVal(s[j])
			storeVal(&s[j], copyVal(s[j-1]))
			storeVal(&s[j-1], t)
		}
	}
}

// ---------- JSON over ropes

func (m *Machine) jsonStr(v Value) ([]seg, bool) {
	segs := []seg{lit(`"`)}
	for _, s := range m.strSegs(v) {
		switch s.k {
		case SLit:
			q := strconv.Quote(s.lit)
			segs = append(segs, lit(q[1:len(q)-1]))
		case SHex, SDec, SB64:
			segs = append(segs, s)
		default:
			return nil, false
		}
	}
	return append(segs, lit(`"`)), true
}

func (m *Machine) jsonEnc(iv IfaceV) ([]seg, *Value) {
	if iv.t == nil {
		return []seg{lit("null")}, nil
	}
	if p, ok := iv.v.(*Value); ok && p == nil {
		return []seg{lit("null")}, nil
	}
	if f := m.methodByName(iv.t, "MarshalJSON"); f != nil && f.Signature.Results().Len() == 2 {
		r := m.callSync(f, []Value{copyVal(iv.v)}, nil).(TupleV)
		if e := r[1].(IfaceV); e.t != nil {
			var v Value = e
			return nil, &v
		}
		return m.strSegs(m.bytesToStr(r[0])), nil
	}
	switch u := iv.t.Underlying().(type) {
	case *types.Pointer:
		return m.jsonEnc(IfaceV{u.Elem(), *m.deref(iv.v)})
	case *types.Interface:
		return m.jsonEnc(iv.v.(IfaceV))
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s, ok := m.jsonStr(iv.v)
			if !ok {
				m.unsupported("json of a string with symbolic characters")
			}
			return s, nil
		case u.Info()&types.IsBoolean != 0:
			if m.decide(iv.v.(*Term)) {
				return []seg{lit("true")}, nil
			}
			return []seg{lit("false")}, nil
		case u.Info()&types.IsInteger != 0:
			t := iv.v.(*Term)
			if t.isConst() && isSigned(iv.t) {
				return []seg{lit(fmt.Sprint(s64(t.u, t.w)))}, nil
			}
			if t.isConst() {
				return []seg{lit(fmt.Sprint(t.u))}, nil
			}
			if isSigned(iv.t) && !m.ctx.signKnown(t) {
				m.unsupported("json of a symbolic signed integer")
			}
			return []seg{m.decSeg(t)}, nil
		}
	case *types.Struct:
		out := []seg{lit("{")}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() || f.Embedded() {
				if f.Embedded() {
					m.unsupported("json of embedded field")
				}
				continue
			}
			name, omit, skip := jsonTag(f.Name(), u.Tag(i))
			if skip {
				continue
			}
			fv := iv.v.(StructV)[i]
			if omit {
				if p, isP := fv.(*Value); isP && p == nil {
					continue
				}
				if _, isP := fv.(*Value); !isP {
					m.unsupported("json omitempty")
				}
			}
			if n > 0 {
				out = append(out, lit(","))
			}
			n++
			out = append(out, lit(strconv.Quote(name)+":"))
			s, e := m.jsonEnc(fieldIface(f.Type(), fv))
			if e != nil {
				return nil, e
			}
			out = append(out, s...)
		}
		return append(out, lit("}")), nil
	case *types.Slice, *types.Array:
		var el types.Type
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
			if s0, ok := iv.v.(SliceV); ok && s0 == nil {
				return []seg{lit("null")}, nil
			}
			if isByteArr(el) {
				b := m.byteTerms(iv.v)
				if len(b) == 0 {
					return []seg{lit(`""`)}, nil
				}
				return []seg{lit(`"`), {k: SB64, b: b}, lit(`"`)}, nil
			}
		} else {
			el = u.(*types.Array).Elem()
		}
		out := []seg{lit("[")}
		for i, x := range m.sliceOf(iv.v) {
			if i > 0 {
				out = append(out, lit(","))
			}
			s, e := m.jsonEnc(fieldIface(el, x))
			if e != nil {
				return nil, e
			}
			out = append(out, s...)
		}
		return append(out, lit("]")), nil
	case *types.Map:
		mo := iv.v.(*MapObj)
		if mo == nil {
			return []seg{lit("null")}, nil
		}
		type kv struct {
			k []seg
			s string
			v Value
		}
		var es []kv
		allc := true
		for _, e := range mo.ents {
			if e.dead {
				continue
			}
			ks, ok := m.jsonStr(e.k)
			if !ok {
				m.unsupported("json map key")
			}
			cs, isC := concStr(e.k)
			allc = allc && isC
			es = append(es, kv{ks, cs, e.v})
		}
		if len(es) > 1 && !allc {
			// key order in the text is irrelevant to every consumer here (objects are parsed into maps)
		} else {
			sort.Slice(es, func(i, j int) bool { return es[i].s < es[j].s })
		}
		out := []seg{lit("{")}
		for i, e := range es {
			if i > 0 {
				out = append(out, lit(","))
			}
			out = append(out, e.k...)
			out = append(out, lit(":"))
			s, er := m.jsonEnc(fieldIface(u.Elem(), e.v))
			if er != nil {
				return nil, er
			}
			out = append(out, s...)
		}
		return append(out, lit("}")), nil
	}
	m.unsupported("json of " + iv.t.String())
	return nil, nil
}

func fieldIface(t types.Type, v Value) IfaceV {
	if iv, ok := v.(IfaceV); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return iv
		}
	}
	return IfaceV{t, v}
}

func jsonTag(name, tag string) (string, bool, bool) {
	t := ""
	for _, p := range strings.Fields(tag) {
		if s, ok := strings.CutPrefix(p, `json:"`); ok {
			t = strings.TrimSuffix(s, `"`)
		}
	}
	if t == "-" {
		return "", false, true
	}
	ps := strings.Split(t, ",")
	omit := false
	for _, x := range ps[1:] {
		if x == "omitempty" {
			omit = true
		}
	}
	if ps[0] != "" {
		name = ps[0]
	}
	return name, omit, false
}

type jnode struct {
	kind byte // 's' string, 'n' number, 'b' bool, '0' null, '[' , '{'
	str  Value
	num  *Term
	neg  bool
	b    bool
	arr  []*jnode
	keys []Value
	raw  []seg
}

type jdec struct {
	m    *Machine
	segs []seg
}

func (d *jdec) peek() (byte, bool) {
	for len(d.segs) > 0 && d.segs[0].k == SLit && d.segs[0].lit == "" {
		d.segs = d.segs[1:]
	}
	if len(d.segs) == 0 {
		return 0, false
	}
	if d.segs[0].k == SLit {
		return d.segs[0].lit[0], true
	}
	return 0, true
}

func (d *jdec) next() { d.segs[0].lit = d.segs[0].lit[1:] }

func (d *jdec) ws() {
	for {
		b, ok := d.peek()
		if !ok || d.segs[0].k != SLit || (b != ' ' && b != '\n' && b != '\t' && b != '\r') {
			return
		}
		d.next()
	}
}

func (d *jdec) parseTop() (*jnode, string) {
	n, err := d.parse()
	if err != "" {
		return nil, err
	}
	d.ws()
	if _, ok := d.peek(); ok {
		return nil, "invalid character after top-level value"
	}
	return n, ""
}

const jerr = "invalid character in JSON input"

func (d *jdec) parse() (*jnode, string) {
	d.ws()
	if _, ok := d.peek(); !ok {
		return nil, "unexpected end of JSON input"
	}
	start := append([]seg(nil), d.segs...)
	n, err := d.parse1()
	if err == "" {
		n.raw = consumed(start, d.segs)
	}
	return n, err
}

// consumed: prefix of a that was removed to obtain b
func consumed(a, b []seg) []seg {
	if len(b) == 0 {
		return a
	}
	k := len(a) - len(b)
	out := append([]seg(nil), a[:k]...)
	if a[k].k == SLit && b[0].k == SLit {
		out = append(out, lit(a[k].lit[:len(a[k].lit)-len(b[0].lit)]))
	}
	return out
}

func (d *jdec) parse1() (*jnode, string) {
	b, _ := d.peek()
	if d.segs[0].k != SLit {
		s := d.segs[0]
		if s.k == SDec {
			d.segs = d.segs[1:]
			if nb, ok := d.peek(); ok && (d.segs[0].k != SLit || nb >= '0' && nb <= '9' || nb == '.' || nb == 'e') {
				return nil, jerr
			}
			return &jnode{kind: 'n', num: s.b[0]}, ""
		}
		d.m.unsupported("json text with symbolic structure")
	}
	switch {
	case b == '"':
		d.next()
		var out []seg
		for {
			c, ok := d.peek()
			if !ok {
				return nil, "unexpected end of JSON input"
			}
			if d.segs[0].k != SLit {
				out = append(out, d.segs[0])
				if d.segs[0].k == SSym || d.segs[0].k == SOpq {
					d.m.unsupported("json string with symbolic characters")
				}
				d.segs = d.segs[1:]
				continue
			}
			if c == '"' {
				d.next()
				break
			}
			if c == '\\' {
				d.next()
				e, ok := d.peek()
				if !ok || d.segs[0].k != SLit {
					return nil, "unexpected end of JSON input"
				}
				mp := map[byte]string{'n': "\n", 't': "\t", 'r': "\r", '"': `"`, '\\': `\`, '/': "/", 'b': "\b", 'f': "\f"}
				r, ok := mp[e]
				if !ok {
					d.m.unsupported("json escape")
				}
				out = append(out, lit(r))
				d.next()
				continue
			}
			if c < 0x20 {
				return nil, jerr
			}
			out = append(out, lit(string([]byte{c})))
			d.next()
		}
		return &jnode{kind: 's', str: d.m.normStr(out)}, ""
	case b == '{':
		d.next()
		n := &jnode{kind: '{'}
		d.ws()
		if c, ok := d.peek(); ok && c == '}' {
			d.next()
			return n, ""
		}
		for {
			d.ws()
			if c, ok := d.peek(); !ok || c != '"' {
				return nil, jerr
			}
			k, err := d.parse()
			if err != "" {
				return nil, err
			}
			d.ws()
			if c, ok := d.peek(); !ok || c != ':' {
				return nil, jerr
			}
			d.next()
			v, err := d.parse()
			if err != "" {
				return nil, err
			}
			n.keys = append(n.keys, k.str)
			n.arr = append(n.arr, v)
			d.ws()
			c, ok := d.peek()
			if !ok {
				return nil, "unexpected end of JSON input"
			}
			if c != ',' && c != '}' {
				return nil, jerr
			}
			d.next()
			if c == '}' {
				return n, ""
			}
		}
	case b == '[':
		d.next()
		n := &jnode{kind: '['}
		d.ws()
		if c, ok := d.peek(); ok && c == ']' {
			d.next()
			return n, ""
		}
		for {
			v, err := d.parse()
			if err != "" {
				return nil, err
			}
			n.arr = append(n.arr, v)
			d.ws()
			c, ok := d.peek()
			if !ok {
				return nil, "unexpected end of JSON input"
			}
			if c != ',' && c != ']' {
				return nil, jerr
			}
			d.next()
			if c == ']' {
				return n, ""
			}
		}
	case b == '-' || b >= '0' && b <= '9':
		txt := ""
		for {
			c, ok := d.peek()
			if !ok || d.segs[0].k != SLit || !(c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' || c >= '0' && c <= '9') {
				break
			}
			txt += string([]byte{c})
			d.next()
		}
		u, err := strconv.ParseUint(txt, 10, 64)
		if err != nil {
			return &jnode{kind: 'n', neg: true}, ""
		}
		return &jnode{kind: 'n', num: d.m.ctx.BV(64, u)}, ""
	}
	for _, w := range []string{"true", "false", "null"} {
		if strings.HasPrefix(d.segs[0].lit, w) {
			d.segs[0].lit = d.segs[0].lit[len(w):]
			switch w {
			case "null":
				return &jnode{kind: '0'}, ""
			default:
				return &jnode{kind: 'b', b: w == "true"}, ""
			}
		}
	}
	return nil, jerr
}

// jsonStore stores a parsed value into *p of type t; returns an error value on mismatch
func (m *Machine) jsonStore(n *jnode, t types.Type, p *Value) *Value {
	fail := func(s string) *Value {
		var v Value = m.mkError("json: " + s)
		return &v
	}
	if n.kind != '0' {
		if f := m.methodByName(types.NewPointer(t), "UnmarshalJSON"); f != nil && f.Signature.Params().Len() == 1 {
			if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
				r := m.callSync(f, []Value{p, m.strToBytes(m.normStr(n.raw))}, nil)
				if e, ok := r.(IfaceV); ok && e.t != nil {
					var v Value = e
					return &v
				}
				return nil
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.kind == '0' {
			*p = (*Value)(nil)
			return nil
		}
		np := newPtr(m.zero(u.Elem()))
		if e := m.jsonStore(n, u.Elem(), np); e != nil {
			return e
		}
		*p = np
		return nil
	case *types.Basic:
		if n.kind == '0' {
			return nil
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				return fail("cannot unmarshal into string")
			}
			*p = n.str
			return nil
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				return fail("cannot unmarshal into bool")
			}
			*p = m.ctx.Bool(n.b)
			return nil
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'n' || n.neg {
				return fail("cannot unmarshal into integer")
			}
			w := intWidth(u)
			lim := maskW(w)
			if isSigned(t) {
				lim >>= 1
			}
			if !m.decide(m.ctx.Ule(n.num, m.ctx.BV(64, lim))) {
				return fail("number out of range")
			}
			if w == 64 {
				*p = n.num
			} else {
				*p = m.ctx.Extract(n.num, w-1, 0)
			}
			return nil
		}
	case *types.Struct:
		if n.kind == '0' {
			return nil
		}
		if n.kind != '{' {
			return fail("cannot unmarshal into struct")
		}
		sv := (*p).(StructV)
		for i, k := range n.keys {
			ks, ok := concStr(k)
			if !ok {
				m.unsupported("json object key symbolic for struct")
			}
			for j := 0; j < u.NumFields(); j++ {
				f := u.Field(j)
				if !f.Exported() {
					continue
				}
				name, _, skip := jsonTag(f.Name(), u.Tag(j))
				if skip || !strings.EqualFold(name, ks) {
					continue
				}
				if e := m.jsonStore(n.arr[i], f.Type(), &sv[j]); e != nil {
					return e
				}
				break
			}
		}
		return nil
	case *types.Slice:
		if n.kind == '0' {
			*p = SliceV(nil)
			return nil
		}
		if isByteArr(u.Elem()) {
			if n.kind != 's' {
				return fail("cannot unmarshal into []byte")
			}
			if s, ok := concStr(n.str); ok {
				b, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					return fail(err.Error())
				}
				*p = m.bytesVal(b)
				return nil
			}
			sv := n.str.(*StrV)
			if len(sv.segs) == 1 && sv.segs[0].k == SB64 {
				out := make(SliceV, len(sv.segs[0].b))
				for i, b := range sv.segs[0].b {
					out[i] = b
				}
				*p = out
				return nil
			}
			m.unsupported("base64 of symbolic text in json")
		}
		if n.kind != '[' {
			return fail("cannot unmarshal into slice")
		}
		out := make(SliceV, len(n.arr))
		for i, x := range n.arr {
			out[i] = m.zero(u.Elem())
			if e := m.jsonStore(x, u.Elem(), &out[i]); e != nil {
				return e
			}
		}
		*p = out
		return nil
	case *types.Map:
		if n.kind == '0' {
			return nil
		}
		if n.kind != '{' {
			return fail("cannot unmarshal into map")
		}
		mo, _ := (*p).(*MapObj)
		if mo == nil {
			mo = newMap()
			*p = mo
		}
		for i, k := range n.keys {
			ev := newPtr(m.zero(u.Elem()))
			if e := m.jsonStore(n.arr[i], u.Elem(), ev); e != nil {
				return e
			}
			m.mapSet(mo, k, *ev)
		}
		return nil
	}
	m.unsupported("json into " + t.String())
	return nil
}
