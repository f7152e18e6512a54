package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type okind uint8

const (
	okSlot okind = iota
	okConst
	okGlobal
	okNone
)

type opnd struct {
	k okind
	i int
	v Value
	g *ssa.Global
}

type cins struct {
	in  ssa.Instruction
	ops []opnd
	dst int
	pos token.Pos
}

type cblock struct {
	ins   []cins
	succs []int
	preds []int
	nphi  int
}

type fnInfo struct {
	fn     *ssa.Function
	nslots int
	blocks []cblock
	watch  bool // memory accesses are schedule points
	repo   bool
	name   string
	slots  map[ssa.Value]int
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	pk := fnPkgPath(fn)
	fi.watch = w.p.watch[pk]
	fi.repo = isRepoPkg(pk)
	w.fns[fn] = fi
	slots := map[ssa.Value]int{}
	fi.slots = slots
	n := 0
	for _, p := range fn.Params {
		slots[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		slots[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slots[v] = n
				n++
			}
		}
	}
	fi.nslots = n
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cins{in: in, dst: -1, pos: in.Pos()}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				ci.ops = append(ci.ops, w.operand(slots, *r))
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.nphi++
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	return fi
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func (w *Worker) operand(slots map[ssa.Value]int, v ssa.Value) opnd {
	switch x := v.(type) {
	case nil:
		return opnd{k: okNone}
	case *ssa.Const:
		return opnd{k: okConst, v: w.constant(x)}
	case *ssa.Global:
		return opnd{k: okGlobal, g: x}
	case *ssa.Function:
		return opnd{k: okConst, v: &FuncV{fn: x}}
	case *ssa.Builtin:
		return opnd{k: okConst, v: x}
	}
	i, ok := slots[v]
	if !ok {
		panic("operand without slot: " + v.String())
	}
	return opnd{k: okSlot, i: i}
}

// zeroM is used for constants of composite zero value
func (w *Worker) constant(k *ssa.Const) Value {
	if v, ok := w.constCache[k]; ok {
		return v
	}
	v := w.constant0(k)
	w.constCache[k] = v
	return v
}

func (w *Worker) constant0(k *ssa.Const) Value {
	t := k.Type()
	m := &Machine{Worker: w}
	if k.Value == nil {
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			return nil
		}
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		m.unsupported("const of type " + t.String())
	}
	c := w.ctx
	switch {
	case b.Info()&types.IsBoolean != 0:
		return c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(k.Value)
		return string(rune(i))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return c.BV(intWidth(b), uint64(i))
		}
		if u, ok := constant.Uint64Val(v); ok {
			return c.BV(intWidth(b), u)
		}
		bi, _ := new(big.Int).SetString(v.ExactString(), 10)
		return c.BVBig(intWidth(b), bi)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		return c.F64(f)
	}
	return &Native{kind: "const " + t.String()}
}
