package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Function summaries: a loop-carrying pure function over flat data (such as a byte-wise comparison of
// two hashes) is executed symbolically once over fresh arguments, all its paths are folded into one
// term, and the solver decides whether that term equals a simpler candidate; the result is substituted
// at every call instead of forking at each loop iteration.
type Summary struct {
	ok     bool
	params []*Term
	body   *Term
	note   string
}

func (w *Worker) staticPure(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 || fn.Recover != nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc, *ssa.BinOp, *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Field, *ssa.FieldAddr, *ssa.Index,
				*ssa.IndexAddr, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.DebugRef, *ssa.Slice:
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return false
				}
				if _, g := x.X.(*ssa.Global); g {
					return false
				}
			case *ssa.Store:
				// only into own allocations
				if !ownAlloc(x.Addr) {
					return false
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				cal := x.Call.StaticCallee()
				if cal == nil || !isRepoPkg(fnPkgPath(cal)) || !w.staticPure(cal, seen) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func ownAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// flatten collects the scalar terms of a value
func flatten(v Value, out *[]*Term) bool {
	switch x := v.(type) {
	case *Term:
		if x.sk == KF64 {
			return false
		}
		*out = append(*out, x)
		return true
	case StructV:
		for _, e := range x {
			if !flatten(e, out) {
				return false
			}
		}
		return true
	case ArrayV:
		for _, e := range x {
			if !flatten(e, out) {
				return false
			}
		}
		return true
	}
	return false
}

func rebuild(v Value, ts *[]*Term) Value {
	switch x := v.(type) {
	case *Term:
		t := (*ts)[0]
		*ts = (*ts)[1:]
		return t
	case StructV:
		o := make(StructV, len(x))
		for i := range x {
			o[i] = rebuild(x[i], ts)
		}
		return o
	case ArrayV:
		o := make(ArrayV, len(x))
		for i := range x {
			o[i] = rebuild(x[i], ts)
		}
		return o
	}
	return v
}

func (m *Machine) trySummary(fn *ssa.Function, args, env []Value) (Value, bool) {
	s, known := m.summ[fn]
	if known && !s.ok {
		return nil, false
	}
	if !known {
		if !isRepoPkg(fnPkgPath(fn)) || fn.Signature.Results().Len() != 1 || !hasLoop(fn) {
			m.summ[fn] = &Summary{}
			return nil, false
		}
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || !m.staticPure(fn, map[*ssa.Function]bool{}) {
			m.summ[fn] = &Summary{}
			return nil, false
		}
	}
	var flat []*Term
	for _, a := range args {
		if !flatten(a, &flat) {
			return nil, false
		}
	}
	if len(flat) < 16 {
		return nil, false
	}
	allc := true
	for _, t := range flat {
		if !t.isConst() {
			allc = false
		}
	}
	if allc {
		return nil, false
	}
	if !known {
		s = m.buildSummary(fn, args, flat)
		m.summ[fn] = s
		if !s.ok {
			return nil, false
		}
	}
	if len(s.params) == 0 {
		return nil, false
	}
	return m.applySummary(s, args), true
}

// argument blobs: one wide variable per top-level argument when it consists of bytes only
func (m *Machine) argBlob(a Value) (*Term, bool) {
	var ts []*Term
	if !flatten(a, &ts) || len(ts) == 0 {
		return nil, false
	}
	for _, t := range ts {
		if t.sk != KBV || t.w != 8 {
			if len(ts) == 1 && t.sk == KBV {
				return t, true
			}
			return nil, false
		}
	}
	return m.packTerms(ts), true
}

func (m *Machine) applySummary(s *Summary, args []Value) *Term {
	sub := map[int]*Term{}
	for i, a := range args {
		b, ok := m.argBlob(a)
		if !ok || b.w != s.params[i].w {
			m.unsupported("summary argument shape")
		}
		sub[s.params[i].id] = b
	}
	return m.ctx.subst(s.body, sub, map[int]*Term{})
}

func (m *Machine) buildSummary(fn *ssa.Function, args []Value, flat []*Term) *Summary {
	s := &Summary{}
	c := m.ctx
	var sargs []Value
	for i, a := range args {
		b, ok := m.argBlob(a)
		if !ok {
			return s
		}
		p := c.Var(fmt.Sprintf("summ!%s!%d", fn.String(), i), KBV, b.w)
		s.params = append(s.params, p)
		var leaves []*Term
		if t, isT := a.(*Term); isT {
			_ = t
			leaves = []*Term{p}
		} else {
			for _, v := range m.unpackBytes(p) {
				leaves = append(leaves, v.(*Term))
			}
		}
		sargs = append(sargs, rebuild(a, &leaves))
	}
	type pathR struct {
		cond, val *Term
	}
	var paths []pathR
	decs := []bool{}
	for n := 0; n < 400; n++ {
		sm := &Machine{Worker: m.Worker, cfg: m.cfg, pcSet: map[int]bool{}, globals: map[*ssa.Global]*Value{},
			initDone: map[*ssa.Package]bool{}, counts: map[string]int{}, decCache: map[int][]*Term{}, spelled: map[*Term][]spelling{}, reached: map[string]bool{}, hexOf: map[int]*Term{},
			notes: map[string]bool{}, symNames: map[*Value]string{}, natives: map[string]Value{}, model: Model{}}
		sm.inSummary = true
		sm.summDecs = append([]bool(nil), decs...)
		var res Value
		good := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					ok = false
				}
			}()
			g := &Goroutine{}
			sm.cur = g
			sm.mainG = g
			sm.pushFrame(g, fn, copyArgs(sargs), nil, -1).boundary = true
			f := g.stack[0]
			for len(g.stack) > 0 {
				sm.step(g)
				if sm.steps > 200000 {
					return false
				}
			}
			res = f.result
			return true
		}()
		if !good {
			return &Summary{}
		}
		t, ok := res.(*Term)
		if !ok || t.sk == KF64 {
			return &Summary{}
		}
		paths = append(paths, pathR{c.And(sm.pc...), t})
		// next: flip the last true
		decs = sm.summDecs[:sm.summPos]
		i := len(decs) - 1
		for i >= 0 && !decs[i] {
			i--
		}
		if i < 0 {
			break
		}
		decs = append(append([]bool(nil), decs[:i]...), false)
		if n == 399 {
			return &Summary{}
		}
	}
	body := paths[len(paths)-1].val
	for i := len(paths) - 2; i >= 0; i-- {
		body = c.Ite(paths[i].cond, paths[i].val, body)
	}
	s.body = body
	s.ok = true
	s.note = fmt.Sprintf("%s: %d paths folded", fn.String(), len(paths))
	// candidates
	if len(s.params) == 2 && s.params[0].w == s.params[1].w && body.sk == KBool {
		a, b := s.params[0], s.params[1]
		for _, cand := range []struct {
			n string
			t *Term
		}{{"bvult", c.Ult(a, b)}, {"bvugt", c.Ult(b, a)}, {"bvule", c.Ule(a, b)}, {"bvuge", c.Ule(b, a)}, {"=", c.Eq(a, b)}, {"distinct", c.Not(c.Eq(a, b))}} {
			// cheap refutation by sampling, proof by the solver
			if r := quickDiffer(c, body, cand.t, a, b); r {
				continue
			}
			diff := c.Not(c.Eq(body, cand.t))
			r, _ := m.solver.Check([]*Term{diff})
			if r == "unsat" {
				s.body = cand.t
				s.note += ", proved equal to " + cand.n
				break
			}
		}
	}
	return s
}

func quickDiffer(c *Ctx, x, y, a, b *Term) bool {
	one := big.NewInt(1)
	top := new(big.Int).Lsh(one, uint(a.w-1))
	vals := []*big.Int{big.NewInt(0), one, big.NewInt(2), top, new(big.Int).Add(top, one)}
	for _, p := range vals {
		for _, q := range vals {
			ev := NewEval(c, Model{a.name: p, b.name: q}, false)
			if ev.Eval(x) != ev.Eval(y) {
				return true
			}
		}
	}
	return false
}

func copyArgs(in []Value) []Value {
	out := make([]Value, len(in))
	for i, v := range in {
		out[i] = copyVal(v)
	}
	return out
}
