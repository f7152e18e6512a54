package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term           bool, integers, floats
//	string          concrete string
//	*StrV           string with symbolic parts
//	StructV, ArrayV aggregates (value semantics: copied on load/store)
//	*Value          pointer
//	SliceV          slice (Go slice of Values: aliasing for free)
//	*RopeBytes      []byte made from a StrV, expanded lazily
//	*MapObj, *ChanObj, *FuncV, IfaceV, TupleV
//	BigV            math/big.Int content
//	*Native         engine-native object
type Value interface{}

type StructV []Value
type ArrayV []Value
type SliceV []Value
type TupleV []Value

type IfaceV struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn  *ssa.Function
	env []Value
	// builtin bound method of intrinsic
	nat func(m *Machine, args []Value) Value
}

type BigV struct{ t *Term }
type BigFV struct{}

type Native struct {
	kind string
	obj  interface{}
}

type SegKind uint8

const (
	SLit SegKind = iota
	SSym
	SHex
	SDec
	SB64
	SOpq
)

type seg struct {
	k   SegKind
	lit string
	b   []*Term // SSym / SB64 bytes; SHex: single term
	id  string
}

type StrV struct{ segs []seg }

type RopeBytes struct {
	s   *StrV
	exp SliceV
}

type MapEntry struct {
	k, v Value
	dead bool
}

type MapObj struct {
	ents []*MapEntry
	idx  map[string]*MapEntry // concrete keys
	nsym int                  // live entries with symbolic keys
	live int
	gen  int
}

type MapIter struct {
	m    *MapObj
	ord  []*MapEntry
	pos  int
	str  []rune
	strI []int
	isS  bool
	sbs  []*Term
}

type ChanObj struct {
	id     int
	cap    int
	buf    []Value
	recvq  []*Waiter
	sendq  []*Waiter
	closed bool
	zero   Value
	ticker bool
}

func newPtr(v Value) *Value {
	p := new(Value)
	*p = v
	return p
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

func (m *Machine) zero(t types.Type) Value {
	c := m.ctx
	if n, ok := t.(*types.Named); ok {
		switch typeName(n) {
		case "math/big.Int":
			return BigV{c.IntU(0)}
		case "math/big.Float":
			return BigFV{}
		case "sync.Mutex", "sync.RWMutex", "sync.Map", "sync.WaitGroup", "sync.Cond":
			return &Native{kind: typeName(n)}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.String || u.Kind() == types.UntypedString:
			return ""
		case u.Info()&types.IsBoolean != 0:
			return c.ff
		case u.Info()&types.IsInteger != 0:
			return c.BV(intWidth(u), 0)
		case u.Info()&types.IsFloat != 0:
			return c.F64(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return IfaceV{}
		case u.Info()&types.IsComplex != 0:
			return &Native{kind: "complex"}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return SliceV(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<22 {
			m.unsupported("huge array")
		}
		a := make(ArrayV, n)
		if n > 0 {
			z := m.zero(u.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Tuple:
		s := make(TupleV, u.Len())
		for i := range s {
			s[i] = m.zero(u.At(i).Type())
		}
		return s
	}
	m.unsupported("zero of " + t.String())
	return nil
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

// copyVal copies aggregates (value semantics)
func copyVal(v Value) Value {
	switch x := v.(type) {
	case StructV:
		out := make(StructV, len(x))
		for i, e := range x {
			out[i] = copyVal(e)
		}
		return out
	case ArrayV:
		out := make(ArrayV, len(x))
		if len(x) > 0 {
			if _, ok := x[0].(*Term); ok {
				copy(out, x)
				return out
			}
		}
		for i, e := range x {
			out[i] = copyVal(e)
		}
		return out
	case *Native:
		// sync primitives by value: copying a zero one is all Go code may do
		if strings.HasPrefix(x.kind, "sync.") {
			return &Native{kind: x.kind, obj: x.obj}
		}
	}
	return v
}

// storeVal writes v to *p keeping addresses of fields/elements stable
func storeVal(p *Value, v Value) {
	switch x := v.(type) {
	case StructV:
		if d, ok := (*p).(StructV); ok && len(d) == len(x) {
			for i := range x {
				storeVal(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	case ArrayV:
		if d, ok := (*p).(ArrayV); ok && len(d) == len(x) {
			for i := range x {
				storeVal(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// packBytes: concatenation of byte values
func (m *Machine) packBytes(vs []Value) *Term {
	ts := make([]*Term, len(vs))
	for i, v := range vs {
		ts[i] = v.(*Term)
	}
	return m.packTerms(ts)
}

func (m *Machine) packTerms(ts []*Term) *Term {
	// fast path: all const
	all := true
	for _, t := range ts {
		if t.op != OConst {
			all = false
			break
		}
	}
	if all {
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(t.u)
		}
		return m.ctx.BVBytes(b)
	}
	return m.ctx.Concat(ts...)
}

func (m *Machine) unpackBytes(t *Term) []Value {
	n := t.w / 8
	out := make([]Value, n)
	if t.isConst() {
		for i, b := range t.bytesBE() {
			out[i] = m.ctx.BV(8, uint64(b))
		}
		return out
	}
	for i := 0; i < n; i++ {
		out[i] = m.ctx.Extract(t, t.w-8*i-1, t.w-8*i-8)
	}
	return out
}

func isByteArr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// valEq returns a Bool term for x == y (Go semantics for comparable types)
func (m *Machine) valEq(x, y Value) *Term {
	c := m.ctx
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.sk == KF64 {
			return c.FBin(OFEq, a, b)
		}
		return c.Eq(a, b)
	case string:
		if b, ok := y.(string); ok {
			return c.Bool(a == b)
		}
		return m.strEq(x, y)
	case *StrV:
		return m.strEq(x, y)
	case StructV:
		b := y.(StructV)
		cs := make([]*Term, 0, len(a))
		for i := range a {
			e := m.valEq(a[i], b[i])
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return c.And(cs...)
	case ArrayV:
		b := y.(ArrayV)
		if len(a) > 0 {
			if t, ok := a[0].(*Term); ok && t.sk == KBV && t.w == 8 {
				return c.Eq(m.packBytes(a), m.packBytes(b))
			}
		}
		cs := make([]*Term, 0, len(a))
		for i := range a {
			e := m.valEq(a[i], b[i])
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return c.And(cs...)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return c.ff
		}
		return c.Bool(a == b)
	case *MapObj:
		return c.Bool(a == y.(*MapObj))
	case *ChanObj:
		return c.Bool(a == y.(*ChanObj))
	case *FuncV:
		return c.Bool(a == y.(*FuncV))
	case SliceV:
		switch b := y.(type) {
		case SliceV:
			return c.Bool(a == nil && b == nil)
		case *RopeBytes:
			return c.ff
		}
	case *RopeBytes:
		return c.ff
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			return m.valEq(x, IfaceV{})
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.ff
		}
		if !types.Comparable(a.t) {
			m.runtimePanic("comparing uncomparable type " + a.t.String())
		}
		return m.valEq(a.v, b.v)
	case *Native:
		return c.Bool(x == y)
	case BigV:
		return c.Eq(a.t, y.(BigV).t)
	}
	m.unsupported(fmt.Sprintf("equality of %T and %T", x, y))
	return nil
}

// concKey: canonical encoding of a fully concrete map key; ok=false if symbolic
func concKey(v Value, out []byte) ([]byte, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op != OConst {
			return nil, false
		}
		out = append(out, 't', byte(x.id), byte(x.id>>8), byte(x.id>>16), byte(x.id>>24))
		return out, true
	case string:
		out = append(out, 's', byte(len(x)), byte(len(x)>>8), byte(len(x)>>16))
		return append(out, x...), true
	case StructV:
		out = append(out, '{')
		for _, e := range x {
			var ok bool
			if out, ok = concKey(e, out); !ok {
				return nil, false
			}
		}
		return out, true
	case ArrayV:
		out = append(out, '[')
		for _, e := range x {
			var ok bool
			if out, ok = concKey(e, out); !ok {
				return nil, false
			}
		}
		return out, true
	case IfaceV:
		if x.t == nil {
			return append(out, 'n'), true
		}
		out = append(out, 'i')
		out = append(out, x.t.String()...)
		return concKey(x.v, out)
	case *Value:
		return append(out, fmt.Sprintf("p%p", x)...), true
	case *ChanObj:
		return append(out, fmt.Sprintf("c%p", x)...), true
	case *Native:
		return append(out, fmt.Sprintf("n%p", x)...), true
	}
	return nil, false
}

func newMap() *MapObj { return &MapObj{idx: map[string]*MapEntry{}} }

func (m *Machine) mapFind(mo *MapObj, k Value) *MapEntry {
	if mo == nil {
		return nil
	}
	key, conc := concKey(k, nil)
	if conc {
		if e := mo.idx[string(key)]; e != nil && !e.dead {
			return e
		}
		if mo.nsym == 0 {
			return nil
		}
	}
	// compare against entries; definite hits first
	type cand struct {
		e *MapEntry
		t *Term
	}
	var cs []cand
	for _, e := range mo.ents {
		if e.dead {
			continue
		}
		t := m.valEq(e.k, k)
		if t.isTrue() {
			return e
		}
		if t.isFalse() {
			continue
		}
		cs = append(cs, cand{e, t})
	}
	for _, x := range cs {
		if m.decide(x.t) {
			return x.e
		}
	}
	return nil
}

func (m *Machine) mapSet(mo *MapObj, k, v Value) {
	if e := m.mapFind(mo, k); e != nil {
		e.v = v
		return
	}
	e := &MapEntry{k: copyVal(k), v: v}
	mo.ents = append(mo.ents, e)
	mo.live++
	if key, ok := concKey(k, nil); ok {
		mo.idx[string(key)] = e
	} else {
		mo.nsym++
	}
}

func (m *Machine) mapDelete(mo *MapObj, k Value) {
	if mo == nil {
		return
	}
	e := m.mapFind(mo, k)
	if e == nil {
		return
	}
	e.dead = true
	mo.live--
	if key, ok := concKey(e.k, nil); ok {
		delete(mo.idx, string(key))
	} else {
		mo.nsym--
	}
	// compact
	if len(mo.ents) > 32 && mo.live*2 < len(mo.ents) {
		var n []*MapEntry
		for _, x := range mo.ents {
			if !x.dead {
				n = append(n, x)
			}
		}
		mo.ents = n
	}
}

// iteration order: insertion order, reversed or rotated depending on harness mode
func (m *Machine) mapOrder(mo *MapObj) []*MapEntry {
	var out []*MapEntry
	if mo == nil {
		return nil
	}
	for _, e := range mo.ents {
		if !e.dead {
			out = append(out, e)
		}
	}
	n := len(out)
	if n < 2 || m.cfg.mapOrder == 0 || m.mapOrderUsed >= m.cfg.mapOrderMax {
		return out
	}
	m.mapOrderUsed++
	switch m.cfg.mapOrder {
	case 1: // forward / backward
		if m.choose(2, "maporder") == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
	case 2: // all permutations (selection)
		for i := 0; i < n-1; i++ {
			k := m.choose(n-i, "maporder")
			out[i], out[i+k] = out[i+k], out[i]
		}
	}
	return out
}
