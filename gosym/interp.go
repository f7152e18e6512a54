package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoMod = "github.com/levilutz/basiccoin"

func isRepoPkg(p string) bool {
	return strings.HasPrefix(p, repoMod) && !strings.Contains(p, "/internal/zverif") && !strings.Contains(p, "/internal/zharness")
}

func (m *Machine) newGoroutine(name string) *Goroutine {
	g := &Goroutine{id: len(m.gs), name: name}
	m.gs = append(m.gs, g)
	m.runq = append(m.runq, g)
	return g
}

func (m *Machine) pushFrame(g *Goroutine, fn *ssa.Function, args []Value, env []Value, dst int) *Frame {
	if len(g.stack) > 2000 {
		m.unsupported("stack overflow (depth 2000)")
	}
	fi := m.info(fn)
	if len(fi.blocks) == 0 {
		m.unsupported("no body: " + fn.String())
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.nslots), retDst: dst, g: g, prev: -1}
	copy(f.regs, args)
	copy(f.regs[len(fn.Params):], env)
	g.stack = append(g.stack, f)
	return f
}

func (f *Frame) get(m *Machine, o *opnd) Value {
	switch o.k {
	case okSlot:
		return f.regs[o.i]
	case okConst:
		switch o.v.(type) {
		case StructV, ArrayV:
			return copyVal(o.v)
		}
		return o.v
	case okGlobal:
		return m.global(o.g)
	}
	return nil
}

// schedule runs goroutines until main finishes.
func (m *Machine) schedule(main *Goroutine) {
	m.cur = main
	m.removeRunq(main)
	for {
		g := m.cur
		if g.status == gRun {
			m.runG(g, 0)
		}
		if main.status == gDone {
			m.mainDone = true
			return
		}
		m.cur = m.pickNext(main)
	}
}

func (m *Machine) removeRunq(g *Goroutine) {
	for i, x := range m.runq {
		if x == g {
			m.runq = append(m.runq[:i], m.runq[i+1:]...)
			return
		}
	}
}

func (m *Machine) pickNext(main *Goroutine) *Goroutine {
	for {
		// polling goroutines become runnable when their condition holds
		for _, g := range m.gs {
			if g.status == gPoll && !g.low && g.pollFn() {
				m.ready(g)
			}
		}
		if len(m.runq) == 0 {
			for _, g := range m.gs {
				if g.status == gPoll && g.low && g.pollFn() {
					g.low = false
					m.ready(g)
				}
			}
		}
		if len(m.runq) > 0 {
			k := 0
			if m.schedOn && len(m.runq) > 1 {
				k = m.choose(len(m.runq), "sched")
				m.schedLog = append(m.schedLog, fmt.Sprintf("run g%d(%s)", m.runq[k].id, m.runq[k].name))
			}
			g := m.runq[k]
			m.runq = append(m.runq[:k:k], m.runq[k+1:]...)
			return g
		}
		// advance the virtual clock
		var best *Goroutine
		for _, g := range m.gs {
			if (g.status == gSleep || (g.status == gBlocked || g.status == gPoll) && g.wake > 0) && (best == nil || g.wake < best.wake || g.wake == best.wake && g.wakeSq < best.wakeSq) {
				best = g
			}
		}
		var bt *vtimer
		for _, t := range m.timers {
			if bt == nil || t.when < bt.when || t.when == bt.when && t.seq < bt.seq {
				bt = t
			}
		}
		if bt != nil && (best == nil || bt.when <= best.wake) {
			if bt.when > m.now {
				m.now = bt.when
			}
			if m.cfg.hangSec > 0 && m.now > m.cfg.hangSec*1e9 {
				m.hang(fmt.Sprintf("no progress of the main goroutine within %d virtual seconds", m.cfg.hangSec))
			}
			m.fireTimer(bt)
			continue
		}
		if best == nil {
			m.hang("deadlock: every goroutine is blocked")
		}
		if best.wake > m.now {
			m.now = best.wake
		}
		if m.cfg.hangSec > 0 && m.now > m.cfg.hangSec*1e9 {
			m.hang(fmt.Sprintf("no progress of the main goroutine within %d virtual seconds", m.cfg.hangSec))
		}
		if best.status != gSleep {
			best.timedOut = true
		}
		m.ready(best)
	}
}

func (m *Machine) hang(msg string) {
	m.cur = m.mainG
	m.violation("hang: "+msg+" (main "+m.mainG.why+")", m.currentModel(), nil)
	panic(pathEnd{endViolation, msg})
}

func (m *Machine) currentModel() Model {
	if m.modelOK {
		return m.model
	}
	r, mm := m.solver.Check(m.pc)
	if r == "unsat" {
		panic(pathEnd{endInfeasible, "late"})
	}
	if r == "sat" {
		return mm
	}
	return m.model
}

func (m *Machine) ready(g *Goroutine) {
	if g.status == gRun {
		return
	}
	g.status = gRun
	g.wake = 0
	g.pollFn = nil
	m.runq = append(m.runq, g)
}

func (m *Machine) block(g *Goroutine, why string) {
	g.status = gBlocked
	g.why = why
}

func (m *Machine) sleepUntil(g *Goroutine, t int64) {
	g.status = gSleep
	m.seq++
	g.wake, g.wakeSq = t, m.seq
	if g.wake == 0 {
		g.wake = 1
	}
	g.why = "sleep"
}

// yieldPoint: a visible operation of the current goroutine. Returns true if it was preempted
// (the instruction must be retried later).
func (m *Machine) schedPoint() {
	if !m.schedOn || m.preemptLeft <= 0 || len(m.runq) == 0 || m.inSummary {
		return
	}
	k := m.choose(len(m.runq)+1, "preempt")
	if k == 0 {
		return
	}
	m.preemptLeft--
	g := m.cur
	nx := m.runq[k-1]
	m.schedLog = append(m.schedLog, fmt.Sprintf("preempt g%d(%s) at %s -> g%d(%s)", g.id, g.name, m.whereStr(), nx.id, nx.name))
	m.runq = append(m.runq[:k-1:k-1], m.runq[k:]...)
	m.runq = append(m.runq, g)
	panic(switchTo{nx})
}

type switchTo struct{ g *Goroutine }

// runG runs g until its stack depth falls to `base` or it blocks / is preempted
func (m *Machine) runG(g *Goroutine, base int) {
	for g.status == gRun && len(g.stack) > base {
		if sw := m.runSlice(g, base); sw != nil {
			// preempted: switch
			if base != 0 {
				m.unsupported("preemption inside a nested call")
			}
			m.cur = sw
			g = sw
			continue
		}
	}
	if len(g.stack) == 0 && g.status == gRun {
		g.status = gDone
	}
}

func (m *Machine) runSlice(g *Goroutine, base int) (sw *Goroutine) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case switchTo:
				sw = x.g
				return
			case switchAway:
				return // the goroutine was killed
			case goPanic:
				// Go-level panic raised by the engine within an instruction
				m.startPanic(g, x.rec)
				return
			}
			panic(r)
		}
	}()
	for g.status == gRun && len(g.stack) > base {
		m.step(g)
	}
	return nil
}

type goPanic struct{ rec *PanicRec }

func (m *Machine) runtimePanic(msg string) {
	if m.inSummary {
		panic(summAbort{"panic " + msg})
	}
	var v Value = IfaceV{}
	if m.p.errStr != nil {
		v = m.mkError("runtime error: " + msg)
	}
	panic(goPanic{&PanicRec{val: v, msg: "runtime error: " + msg, runtime: true, where: m.whereStr()}})
}

func (m *Machine) mkError(msg Value) IfaceV {
	return IfaceV{t: m.p.errStr, v: newPtr(StructV{msg})}
}

func (m *Machine) startPanic(g *Goroutine, rec *PanicRec) {
	f := g.stack[len(g.stack)-1]
	f.panicking = rec
	f.inDefers = true
}

// step executes one instruction (or one unwinding step) of g
func (m *Machine) step(g *Goroutine) {
	f := g.stack[len(g.stack)-1]
	if f.inDefers {
		m.stepDefers(g, f)
		return
	}
	if g.pendingPanic != "" {
		p := g.pendingPanic
		g.pendingPanic = ""
		m.runtimePanic(p)
	}
	m.steps++
	g.quota++
	if m.steps > m.cfg.maxSteps {
		panic(pathEnd{endBudget, fmt.Sprintf("instruction budget %d exhausted at %s", m.cfg.maxSteps, m.whereStr())})
	}
	cb := &f.fi.blocks[f.blk]
	ci := &cb.ins[f.pc]
	f.pc++
	if f.fi.repo {
		m.funcs[f.fi.name]++
	}
	m.exec(g, f, ci)
}

func (m *Machine) stepDefers(g *Goroutine, f *Frame) {
	if n := len(f.defers); n > 0 {
		if f.panicking != nil && f.panicking.recovered {
			f.panicking = nil
			f.recovering = true
		}
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		m.invokeDeferred(g, f, d)
		return
	}
	f.inDefers = false
	if f.panicking != nil && f.panicking.recovered {
		f.panicking = nil
		f.recovering = true
	}
	if f.panicking != nil {
		rec := f.panicking
		g.stack = g.stack[:len(g.stack)-1]
		if f.boundary {
			panic(nestedPanic{rec})
		}
		if len(g.stack) == 0 {
			m.uncaught(g, rec)
			return
		}
		m.startPanic(g, rec)
		return
	}
	if f.recovering {
		f.recovering = false
		if rb := f.fi.fn.Recover; rb != nil {
			f.prev = f.blk
			f.blk = rb.Index
			f.pc = 0
			return
		}
		res := f.fi.fn.Signature.Results()
		var v Value
		switch res.Len() {
		case 0:
		case 1:
			v = m.zero(res.At(0).Type())
		default:
			v = m.zero(res)
		}
		m.doReturn(g, f, v)
		return
	}
	// normal RunDefers: continue after the instruction
}

type nestedPanic struct{ rec *PanicRec }

func (m *Machine) invokeDeferred(g *Goroutine, f *Frame, d deferred) {
	depth := len(g.stack)
	m.call(g, d.fn, d.args, -1, d.call)
	if len(g.stack) > depth {
		g.stack[len(g.stack)-1].deferFor = f
	}
}

func (m *Machine) uncaught(g *Goroutine, rec *PanicRec) {
	msg := "process aborted by panic: " + rec.msg
	m.violationAt(msg, rec.where)
	panic(pathEnd{endViolation, msg})
}

func (m *Machine) violationAt(msg, where string) {
	mod := m.currentModel()
	m.violation(msg, mod, nil)
	m.viols[len(m.viols)-1].Where = where
}

func (m *Machine) doReturn(g *Goroutine, f *Frame, v Value) {
	g.stack = g.stack[:len(g.stack)-1]
	if f.boundary {
		f.result = v
		return
	}
	if len(g.stack) > 0 && f.retDst >= 0 {
		g.stack[len(g.stack)-1].regs[f.retDst] = v
	}
}

// callSync runs fn to completion on the current goroutine (no scheduling inside)
func (m *Machine) callSync(fn *ssa.Function, args, env []Value) Value {
	g := m.cur
	if g == nil {
		panic("callSync without goroutine")
	}
	base := len(g.stack)
	if in, ok := m.lookupIntrinsic(fn); ok {
		r, done := in(m, g, args, -1)
		if !done {
			m.unsupported("blocking intrinsic in nested call: " + fn.String())
		}
		if r != interpretIt {
			return r
		}
	}
	if s := m.substitute(fn); s != nil {
		fn = s
	}
	f := m.pushFrame(g, fn, args, env, -1)
	f.boundary = true
	saveSched := m.schedOn
	m.schedOn = false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if np, ok := r.(nestedPanic); ok {
					m.schedOn = saveSched
					panic(goPanic{np.rec})
				}
				panic(r)
			}
		}()
		for len(g.stack) > base {
			if g.status != gRun {
				m.unsupported("goroutine blocked inside nested call to " + fn.String() + " (" + g.why + ")")
			}
			m.runSlice(g, base)
		}
	}()
	m.schedOn = saveSched
	return f.result
}

func (m *Machine) callFuncV(fv Value, args []Value) Value {
	f, ok := fv.(*FuncV)
	if !ok || f == nil {
		m.runtimePanic("call of nil function")
	}
	if f.nat != nil {
		return f.nat(m, args)
	}
	return m.callSync(f.fn, args, f.env)
}

// findMethod resolves a method on a dynamic type
func (m *Machine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	sel := m.p.prog.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		m.unsupported("method " + meth.Name() + " not found on " + t.String())
	}
	return m.p.prog.MethodValue(sel)
}

func (m *Machine) methodByName(t types.Type, name string) *ssa.Function {
	ms := m.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// call invokes a callee value. dst: slot in the current top frame.
func (m *Machine) call(g *Goroutine, fv Value, args []Value, dst int, cc *ssa.CallCommon) {
	switch f := fv.(type) {
	case *ssa.Builtin:
		r := m.builtin(g, f, args, cc)
		if dst >= 0 {
			g.stack[len(g.stack)-1].regs[dst] = r
		}
		return
	case *FuncV:
		if f == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference (nil func call)")
		}
		if f.nat != nil {
			r := f.nat(m, args)
			if dst >= 0 {
				g.stack[len(g.stack)-1].regs[dst] = r
			}
			return
		}
		m.callFn(g, f.fn, args, f.env, dst)
		return
	}
	m.unsupported(fmt.Sprintf("call of %T", fv))
}

// frozen: the goroutine has used up the calls the harness grants it and gets no more processor time
func (m *Machine) frozen(g *Goroutine, fn *ssa.Function) bool {
	if !strings.HasSuffix(fn.String(), m.cfg.freezeFn) {
		return false
	}
	in := false
	for _, f := range g.stack {
		if strings.Contains(f.fi.name, m.cfg.freezeIn) {
			in = true
		}
	}
	if !in {
		return false
	}
	g.freezeCount++
	if g.freezeCount <= m.cfg.freezeN {
		return false
	}
	m.block(g, "frozen")
	return true
}

func (m *Machine) callFn(g *Goroutine, fn *ssa.Function, args, env []Value, dst int) {
	if fn.Synthetic == "package initializer" {
		return // every package is initialised when one of its variables is first used
	}
	if in, ok := m.lookupIntrinsic(fn); ok {
		top := g.stack[len(g.stack)-1]
		r, done := in(m, g, args, dst)
		if !(done && r == interpretIt) {
			if done && dst >= 0 {
				top.regs[dst] = r
			}
			return
		}
	}
	if m.cfg.freezeFn != "" && g != m.mainG && m.frozen(g, fn) {
		return
	}
	if s := m.substitute(fn); s != nil {
		fn = s
		env = nil
	}
	if r, ok := m.trySummary(fn, args, env); ok {
		if dst >= 0 {
			g.stack[len(g.stack)-1].regs[dst] = r
		}
		return
	}
	m.pushFrame(g, fn, args, env, dst)
}

func (m *Machine) prepareCall(f *Frame, ci *cins, cc *ssa.CallCommon) (Value, []Value) {
	// operand order of CallCommon: Value, Args...
	ops := ci.ops
	var fv Value
	args := make([]Value, 0, len(ops))
	if cc.IsInvoke() {
		recv := f.get(m, &ops[0])
		iv, ok := recv.(IfaceV)
		if !ok || iv.t == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference (method " + cc.Method.Name() + " on nil interface)")
		}
		if nat, ok := iv.v.(*Native); ok && nat.kind == "iface-method" {
			m.unsupported("native iface")
		}
		fn := m.findMethod(iv.t, cc.Method)
		fv = &FuncV{fn: fn}
		args = append(args, copyVal(iv.v))
		for i := 1; i < len(ops); i++ {
			args = append(args, f.get(m, &ops[i]))
		}
		return fv, args
	}
	fv = f.get(m, &ops[0])
	for i := 1; i < len(ops); i++ {
		args = append(args, copyVal(f.get(m, &ops[i])))
	}
	return fv, args
}

func (m *Machine) deref(p Value) *Value {
	pv, ok := p.(*Value)
	if !ok {
		m.unsupported(fmt.Sprintf("deref of %T", p))
	}
	if pv == nil {
		m.runtimePanic("invalid memory address or nil pointer dereference")
	}
	return pv
}

func (m *Machine) exec(g *Goroutine, f *Frame, ci *cins) {
	switch in := ci.in.(type) {
	case *ssa.Phi:
		// evaluate all phis of the block simultaneously
		m.execPhis(f)
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		f.regs[ci.dst] = newPtr(m.zero(t))
	case *ssa.BinOp:
		f.regs[ci.dst] = m.binop(in, f.get(m, &ci.ops[0]), f.get(m, &ci.ops[1]))
	case *ssa.UnOp:
		m.execUnOp(g, f, ci, in)
	case *ssa.Call:
		fv, args := m.prepareCall(f, ci, &in.Call)
		m.call(g, fv, args, ci.dst, &in.Call)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		f.regs[ci.dst] = f.get(m, &ci.ops[0])
	case *ssa.Convert:
		f.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), f.get(m, &ci.ops[0]))
	case *ssa.MultiConvert:
		f.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), f.get(m, &ci.ops[0]))
	case *ssa.Defer:
		fv, args := m.prepareCall(f, ci, &in.Call)
		fr := f
		if in.DeferStack != nil {
			m.unsupported("defer in range-over-func")
		}
		fr.defers = append(fr.defers, deferred{fv, args, &in.Call})
	case *ssa.Extract:
		f.regs[ci.dst] = f.get(m, &ci.ops[0]).(TupleV)[in.Index]
	case *ssa.Field:
		f.regs[ci.dst] = copyVal(f.get(m, &ci.ops[0]).(StructV)[in.Field])
	case *ssa.FieldAddr:
		p := m.deref(f.get(m, &ci.ops[0]))
		s, ok := (*p).(StructV)
		if !ok {
			m.unsupported(fmt.Sprintf("field address in %T", *p))
		}
		f.regs[ci.dst] = &s[in.Field]
	case *ssa.Go:
		fv, args := m.prepareCall(f, ci, &in.Call)
		m.spawn(g, fv, args, &in.Call)
	case *ssa.If:
		m.execIf(g, f, ci, in)
	case *ssa.Index:
		m.execIndex(f, ci, in)
	case *ssa.IndexAddr:
		m.execIndexAddr(f, ci, in)
	case *ssa.Jump:
		f.prev = f.blk
		f.blk = f.fi.blocks[f.blk].succs[0]
		f.pc = 0
	case *ssa.Lookup:
		m.execLookup(f, ci, in)
	case *ssa.MakeChan:
		n := m.concretize(f.get(m, &ci.ops[0]).(*Term), "chan size")
		m.seq++
		f.regs[ci.dst] = &ChanObj{id: m.seq, cap: int(n), zero: m.zero(in.Type().Underlying().(*types.Chan).Elem())}
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = f.get(m, &ci.ops[i+1])
		}
		fn := f.get(m, &ci.ops[0]).(*FuncV)
		f.regs[ci.dst] = &FuncV{fn: fn.fn, env: env}
	case *ssa.MakeInterface:
		f.regs[ci.dst] = IfaceV{in.X.Type(), copyVal(f.get(m, &ci.ops[0]))}
	case *ssa.MakeMap:
		if len(ci.ops) > 0 && ci.ops[0].k != okNone {
			if t, ok := f.get(m, &ci.ops[0]).(*Term); ok {
				mt := in.Type().Underlying().(*types.Map)
				m.allocCheck(t, int64(m.p.sizes.Sizeof(mt.Key())+m.p.sizes.Sizeof(mt.Elem())), "make(map)", false)
			}
		}
		f.regs[ci.dst] = newMap()
	case *ssa.MakeSlice:
		m.execMakeSlice(f, ci, in)
	case *ssa.MapUpdate:
		if f.fi.watch {
			m.retryable(f, func() { m.schedPoint() })
		}
		mo := f.get(m, &ci.ops[0]).(*MapObj)
		if mo == nil {
			m.runtimePanic("assignment to entry in nil map")
		}
		k := f.get(m, &ci.ops[1])
		m.mapKeyOK(k)
		m.mapSet(mo, k, copyVal(f.get(m, &ci.ops[2])))
	case *ssa.Next:
		m.execNext(f, ci, in)
	case *ssa.Panic:
		v := f.get(m, &ci.ops[0])
		if m.inSummary {
			panic(summAbort{"panic"})
		}
		panic(goPanic{&PanicRec{val: v, msg: m.panicText(v), where: m.whereStr()}})
	case *ssa.Range:
		x := f.get(m, &ci.ops[0])
		switch y := x.(type) {
		case *MapObj:
			f.regs[ci.dst] = &MapIter{m: y, ord: m.mapOrder(y)}
		default:
			it := &MapIter{isS: true}
			if s, ok := y.(string); ok {
				for i, r := range s {
					it.str = append(it.str, r)
					it.strI = append(it.strI, i)
				}
			} else {
				it.sbs = m.strBytes(y)
			}
			f.regs[ci.dst] = it
		}
	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = f.get(m, &ci.ops[0])
		default:
			tv := make(TupleV, len(ci.ops))
			for i := range tv {
				tv[i] = f.get(m, &ci.ops[i])
			}
			v = tv
		}
		m.doReturn(g, f, v)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			f.inDefers = true
		}
	case *ssa.Select:
		m.execSelect(g, f, ci, in)
	case *ssa.Send:
		m.execSend(g, f, ci)
	case *ssa.Slice:
		m.execSlice(f, ci, in)
	case *ssa.SliceToArrayPointer:
		s := m.sliceOf(f.get(m, &ci.ops[0]))
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.runtimePanic("cannot convert slice to array pointer: length too short")
		}
		// aliasing: share the backing array
		f.regs[ci.dst] = newPtr(ArrayV(s[:n:n]))
	case *ssa.Store:
		if f.fi.watch {
			m.retryable(f, func() { m.schedPoint() })
		}
		p := m.deref(f.get(m, &ci.ops[0]))
		storeVal(p, f.get(m, &ci.ops[1]))
	case *ssa.TypeAssert:
		m.execTypeAssert(f, ci, in)
	default:
		m.unsupported(fmt.Sprintf("instruction %T", ci.in))
	}
}

// retryable: a schedule point before the effect of the current instruction; when preempted the
// instruction is executed again on resumption (with the point suppressed).
func (m *Machine) retryable(f *Frame, point func()) {
	if !m.schedOn || m.preemptLeft <= 0 || len(m.runq) == 0 || m.inSummary {
		return
	}
	if f.g.preMark {
		f.g.preMark = false
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(switchTo); ok {
				f.pc--
				f.g.preMark = true
			}
			panic(r)
		}
	}()
	point()
}

func (m *Machine) execPhis(f *Frame) {
	cb := &f.fi.blocks[f.blk]
	edge := -1
	for i, p := range cb.preds {
		if p == f.prev {
			edge = i
			break
		}
	}
	if edge < 0 {
		panic("phi: no edge")
	}
	if cb.nphi == 1 {
		ci := &cb.ins[0]
		f.regs[ci.dst] = f.get(m, &ci.ops[edge])
		f.pc = 1
		return
	}
	var buf [16]Value
	tmp := buf[:0]
	for i := 0; i < cb.nphi; i++ {
		tmp = append(tmp, f.get(m, &cb.ins[i].ops[edge]))
	}
	for i := 0; i < cb.nphi; i++ {
		f.regs[cb.ins[i].dst] = tmp[i]
	}
	f.pc = cb.nphi
}

func (m *Machine) spawn(g *Goroutine, fv Value, args []Value, cc *ssa.CallCommon) {
	name := "go"
	if f, ok := fv.(*FuncV); ok && f != nil && f.fn != nil {
		name = f.fn.Name()
	}
	ng := m.newGoroutine(name)
	switch f := fv.(type) {
	case *FuncV:
		if f == nil {
			m.runtimePanic("go of nil func value")
		}
		if _, isIn := m.lookupIntrinsic(f.fn); isIn || f.nat != nil {
			m.unsupported("go of intrinsic " + f.fn.String())
		}
		fn := f.fn
		env := f.env
		if s := m.substitute(fn); s != nil {
			fn, env = s, nil
		}
		m.pushFrame(ng, fn, args, env, -1)
	default:
		m.unsupported("go of builtin")
	}
}

func (m *Machine) panicText(v Value) string {
	switch x := v.(type) {
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return m.panicText(x.v)
	case string:
		return x
	case *Value:
		if x != nil {
			if s, ok := (*x).(StructV); ok && len(s) > 0 {
				return m.panicText(s[0])
			}
		}
	case *StrV:
		var sb strings.Builder
		for _, s := range x.segs {
			switch s.k {
			case SLit:
				sb.WriteString(s.lit)
			case SOpq:
				sb.WriteString(s.id)
			default:
				sb.WriteString("?")
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("%T", v)
}

func (m *Machine) mapKeyOK(k Value) {
	if iv, ok := k.(IfaceV); ok && iv.t != nil && !types.Comparable(iv.t) {
		m.runtimePanic("hash of unhashable type " + iv.t.String())
	}
}

// ---------- operators

func (m *Machine) execUnOp(g *Goroutine, f *Frame, ci *cins, in *ssa.UnOp) {
	c := m.ctx
	switch in.Op {
	case token.MUL:
		if f.fi.watch {
			if _, isAlloc := in.X.(*ssa.Alloc); !isAlloc {
				m.retryable(f, func() { m.schedPoint() })
			}
		}
		p := m.deref(f.get(m, &ci.ops[0]))
		f.regs[ci.dst] = copyVal(*p)
	case token.ARROW:
		m.execRecv(g, f, ci, in)
	case token.NOT:
		f.regs[ci.dst] = c.Not(f.get(m, &ci.ops[0]).(*Term))
	case token.SUB:
		t := f.get(m, &ci.ops[0]).(*Term)
		if t.sk == KF64 {
			f.regs[ci.dst] = c.FNeg(t)
		} else {
			f.regs[ci.dst] = c.Bin(OSub, c.BV(t.w, 0), t)
		}
	case token.XOR:
		f.regs[ci.dst] = c.BNot(f.get(m, &ci.ops[0]).(*Term))
	default:
		m.unsupported("unop " + in.Op.String())
	}
}

func (m *Machine) binop(in *ssa.BinOp, x, y Value) Value {
	c := m.ctx
	switch in.Op {
	case token.EQL:
		return m.valEq(x, y)
	case token.NEQ:
		return c.Not(m.valEq(x, y))
	}
	xt, ok := x.(*Term)
	if !ok {
		switch x.(type) {
		case string, *StrV:
			switch in.Op {
			case token.ADD:
				return m.strConcat(x, y)
			case token.LSS:
				return m.strLess(x, y)
			case token.GTR:
				return m.strLess(y, x)
			case token.LEQ:
				return c.Not(m.strLess(y, x))
			case token.GEQ:
				return c.Not(m.strLess(x, y))
			}
		}
		m.unsupported(fmt.Sprintf("binop %s on %T", in.Op, x))
	}
	yt := y.(*Term)
	if xt.sk == KF64 {
		switch in.Op {
		case token.ADD:
			return c.FBin(OFAdd, xt, yt)
		case token.SUB:
			return c.FBin(OFSub, xt, yt)
		case token.MUL:
			return c.FBin(OFMul, xt, yt)
		case token.QUO:
			return c.FBin(OFDiv, xt, yt)
		case token.LSS:
			return c.FBin(OFLt, xt, yt)
		case token.LEQ:
			return c.FBin(OFLe, xt, yt)
		case token.GTR:
			return c.FBin(OFLt, yt, xt)
		case token.GEQ:
			return c.FBin(OFLe, yt, xt)
		}
		m.unsupported("float op " + in.Op.String())
	}
	if xt.sk == KBool {
		switch in.Op {
		case token.AND, token.LAND:
			return c.And(xt, yt)
		case token.OR, token.LOR:
			return c.Or(xt, yt)
		}
	}
	sg := isSigned(in.X.Type())
	switch in.Op {
	case token.ADD:
		return c.Bin(OAdd, xt, yt)
	case token.SUB:
		return c.Bin(OSub, xt, yt)
	case token.MUL:
		return c.Bin(OMul, xt, yt)
	case token.QUO, token.REM:
		if m.decide(c.Eq(yt, c.BV(yt.w, 0))) {
			m.runtimePanic("integer divide by zero")
		}
		op := OUDiv
		if in.Op == token.REM {
			op = OURem
		}
		if sg && !(c.signKnown(xt) && c.signKnown(yt)) {
			op = OSDiv
			if in.Op == token.REM {
				op = OSRem
			}
		}
		return c.Bin(op, xt, yt)
	case token.AND:
		return c.Bin(OBAnd, xt, yt)
	case token.OR:
		return c.Bin(OBOr, xt, yt)
	case token.XOR:
		return c.Bin(OBXor, xt, yt)
	case token.AND_NOT:
		return c.Bin(OBAnd, xt, c.BNot(yt))
	case token.SHL, token.SHR:
		if isSigned(in.Y.Type()) {
			if m.decide(c.Slt(yt, c.BV(yt.w, 0))) {
				m.runtimePanic("negative shift amount")
			}
		}
		var cnt *Term
		if yt.w == xt.w {
			cnt = yt
		} else if yt.w < xt.w {
			cnt = c.Zext(yt, xt.w)
		} else {
			cnt = c.Ite(c.Ult(yt, c.BV(yt.w, uint64(xt.w))), c.Extract(yt, xt.w-1, 0), c.BV(xt.w, uint64(xt.w)))
		}
		op := OShl
		if in.Op == token.SHR {
			op = OLshr
			if sg && !c.signKnown(xt) {
				op = OAshr
			}
		}
		return c.Bin(op, xt, cnt)
	case token.LSS:
		if sg {
			return c.Slt(xt, yt)
		}
		return c.Ult(xt, yt)
	case token.LEQ:
		if sg {
			return c.Sle(xt, yt)
		}
		return c.Ule(xt, yt)
	case token.GTR:
		if sg {
			return c.Slt(yt, xt)
		}
		return c.Ult(yt, xt)
	case token.GEQ:
		if sg {
			return c.Sle(yt, xt)
		}
		return c.Ule(yt, xt)
	}
	m.unsupported("binop " + in.Op.String())
	return nil
}

func (m *Machine) convert(from, to types.Type, v Value) Value {
	c := m.ctx
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			switch fs := fu.(type) {
			case *types.Basic:
				if fs.Info()&types.IsString != 0 {
					return v
				}
				t := v.(*Term)
				r := m.concretize(t, "rune to string")
				return string(rune(s64(r, t.w)))
			case *types.Slice:
				if isByteArr(fs.Elem()) {
					return m.bytesToStr(v)
				}
				var rs []rune
				for _, e := range v.(SliceV) {
					rs = append(rs, rune(m.concretize(e.(*Term), "rune")))
				}
				return string(rs)
			}
		}
		t, ok := v.(*Term)
		if !ok {
			return v
		}
		if tb.Info()&types.IsInteger != 0 {
			w := intWidth(tb)
			if t.sk == KF64 {
				if tb.Info()&types.IsUnsigned != 0 {
					return m.f2u(t, w)
				}
				return c.F2S(t, w)
			}
			if w == t.w {
				return t
			}
			if w < t.w {
				return c.Extract(t, w-1, 0)
			}
			if isSigned(from) {
				return c.Sext(t, w)
			}
			return c.Zext(t, w)
		}
		if tb.Info()&types.IsFloat != 0 {
			if t.sk == KF64 {
				if tb.Kind() == types.Float32 {
					m.unsupported("float32")
				}
				return t
			}
			if isSigned(from) {
				return c.S2F(t)
			}
			return c.U2F(t)
		}
		m.unsupported("convert to " + to.String())
	}
	if ts, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if isByteArr(ts.Elem()) {
				return m.strToBytes(v)
			}
			s, ok := v.(string)
			if !ok {
				m.unsupported("[]rune of symbolic string")
			}
			var out SliceV = SliceV{}
			for _, r := range s {
				out = append(out, c.BV(32, uint64(uint32(r))))
			}
			return out
		}
	}
	if tu.String() == "unsafe.Pointer" || fu.String() == "unsafe.Pointer" {
		return v
	}
	return v
}

func (m *Machine) f2u(t *Term, w int) *Term { return m.ctx.F2U(t, w) }

func (m *Machine) lenOf(v Value) int {
	switch x := v.(type) {
	case SliceV:
		return len(x)
	case *RopeBytes:
		if x.exp == nil {
			return m.strLen(x.s)
		}
		return len(x.exp)
	case string, *StrV:
		return m.strLen(x)
	case *MapObj:
		if x == nil {
			return 0
		}
		return x.live
	case ArrayV:
		return len(x)
	case *ChanObj:
		if x == nil {
			return 0
		}
		return len(x.buf)
	case *Value:
		return len((*x).(ArrayV))
	}
	m.unsupported(fmt.Sprintf("len of %T", v))
	return 0
}

// index resolves a possibly symbolic index against a concrete length
func (m *Machine) index(t *Term, n int, signed bool) int {
	c := m.ctx
	if t.isConst() {
		i := t.u
		if signed {
			i = uint64(s64(t.u, t.w))
		}
		if i >= uint64(n) {
			m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n))
		}
		return int(i)
	}
	in := m.idxInRange(t, n)
	if !m.decide(in) {
		m.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
	}
	_ = c
	return int(m.concretize(t, "index"))
}

func (m *Machine) idxInRange(t *Term, n int) *Term {
	c := m.ctx
	if t.w < 64 && uint64(n) > maskW(t.w) {
		return c.tt
	}
	return c.Ult(t, c.BV(t.w, uint64(n)))
}

func (m *Machine) execIndex(f *Frame, ci *cins, in *ssa.Index) {
	x := f.get(m, &ci.ops[0])
	i := f.get(m, &ci.ops[1]).(*Term)
	switch y := x.(type) {
	case ArrayV:
		f.regs[ci.dst] = copyVal(m.readIdx([]Value(y), i, isSigned(in.Index.Type())))
	case string:
		if i.isConst() {
			f.regs[ci.dst] = m.ctx.BV(8, uint64(y[m.index(i, len(y), true)]))
			return
		}
		f.regs[ci.dst] = m.readIdx([]Value(m.bytesVal([]byte(y))), i, isSigned(in.Index.Type()))
	case *StrV:
		bs := m.strBytes(y)
		vs := make([]Value, len(bs))
		for k, b := range bs {
			vs[k] = b
		}
		f.regs[ci.dst] = m.readIdx(vs, i, isSigned(in.Index.Type()))
	default:
		m.unsupported(fmt.Sprintf("index of %T", x))
	}
}

// readIdx reads vs[i] with a symbolic index as an ite chain when the elements are scalars
func (m *Machine) readIdx(vs []Value, i *Term, signed bool) Value {
	if i.isConst() {
		return vs[m.index(i, len(vs), signed)]
	}
	scalar := true
	for _, v := range vs {
		if _, ok := v.(*Term); !ok {
			scalar = false
			break
		}
	}
	if !scalar || len(vs) > 300 {
		return vs[m.index(i, len(vs), signed)]
	}
	if !m.decide(m.idxInRange(i, len(vs))) {
		m.runtimePanic(fmt.Sprintf("index out of range with length %d", len(vs)))
	}
	c := m.ctx
	lo, hi := c.urange(i)
	r := vs[len(vs)-1].(*Term)
	if hi < uint64(len(vs)) {
		r = vs[hi].(*Term)
	}
	for k := len(vs) - 1; k >= 0; k-- {
		if uint64(k) < lo || uint64(k) > hi {
			continue
		}
		r = c.Ite(c.Eq(i, c.BV(i.w, uint64(k))), vs[k].(*Term), r)
	}
	return r
}

func (m *Machine) execIndexAddr(f *Frame, ci *cins, in *ssa.IndexAddr) {
	x := f.get(m, &ci.ops[0])
	i := f.get(m, &ci.ops[1]).(*Term)
	var vs []Value
	switch y := x.(type) {
	case SliceV:
		vs = y
	case *RopeBytes:
		vs = m.sliceOf(y)
	case *Value:
		p := m.deref(y)
		a, ok := (*p).(ArrayV)
		if !ok {
			m.unsupported(fmt.Sprintf("index address in %T", *p))
		}
		vs = a
	default:
		m.unsupported(fmt.Sprintf("index address of %T", x))
	}
	if !i.isConst() {
		// read-only use of scalars: produce a temporary cell
		if m.onlyLoaded(in) {
			f.regs[ci.dst] = newPtr(m.readIdx(vs, i, isSigned(in.Index.Type())))
			return
		}
	}
	k := m.index(i, len(vs), isSigned(in.Index.Type()))
	f.regs[ci.dst] = &vs[k]
}

func (m *Machine) onlyLoaded(in *ssa.IndexAddr) bool {
	refs := in.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

func (m *Machine) execLookup(f *Frame, ci *cins, in *ssa.Lookup) {
	x := f.get(m, &ci.ops[0])
	k := f.get(m, &ci.ops[1])
	switch y := x.(type) {
	case *MapObj:
		if f.fi.watch {
			m.retryable(f, func() { m.schedPoint() })
		}
		m.mapKeyOK(k)
		e := m.mapFind(y, k)
		et := in.X.Type().Underlying().(*types.Map).Elem()
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = m.zero(et)
		}
		if in.CommaOk {
			f.regs[ci.dst] = TupleV{v, m.ctx.Bool(e != nil)}
		} else {
			f.regs[ci.dst] = v
		}
	case string, *StrV:
		i := k.(*Term)
		bs := m.strBytes(y)
		vs := make([]Value, len(bs))
		for j, b := range bs {
			vs[j] = b
		}
		f.regs[ci.dst] = m.readIdx(vs, i, isSigned(in.Index.Type()))
	default:
		m.unsupported(fmt.Sprintf("lookup in %T", x))
	}
}

func (m *Machine) execNext(f *Frame, ci *cins, in *ssa.Next) {
	it := f.get(m, &ci.ops[0]).(*MapIter)
	c := m.ctx
	if it.isS {
		if it.sbs != nil {
			// symbolic bytes: only ASCII handled
			if it.pos >= len(it.sbs) {
				f.regs[ci.dst] = TupleV{c.ff, c.BV(64, 0), c.BV(32, 0)}
				return
			}
			b := it.sbs[it.pos]
			if !m.decide(c.Ult(b, c.BV(8, 0x80))) {
				m.unsupported("range over non-ASCII symbolic string")
			}
			f.regs[ci.dst] = TupleV{c.tt, c.BV(64, uint64(it.pos)), c.Zext(b, 32)}
			it.pos++
			return
		}
		if it.pos >= len(it.str) {
			f.regs[ci.dst] = TupleV{c.ff, c.BV(64, 0), c.BV(32, 0)}
			return
		}
		f.regs[ci.dst] = TupleV{c.tt, c.BV(64, uint64(it.strI[it.pos])), c.BV(32, uint64(uint32(it.str[it.pos])))}
		it.pos++
		return
	}
	for it.pos < len(it.ord) {
		e := it.ord[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		f.regs[ci.dst] = TupleV{c.tt, copyVal(e.k), copyVal(e.v)}
		return
	}
	tt := in.Type().(*types.Tuple)
	out := TupleV{c.ff, nil, nil}
	for i := 1; i < 3; i++ {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			continue
		}
		out[i] = m.zero(tt.At(i).Type())
	}
	f.regs[ci.dst] = out
}

// allocCheck: a size coming from symbolic data must stay within the allocation limit
func (m *Machine) allocCheck(n *Term, elem int64, what string, signed bool) {
	if n.isConst() {
		return
	}
	if m.allocMax <= 0 {
		return
	}
	if elem <= 0 {
		elem = 1
	}
	lim := m.allocMax / elem
	if uint64(lim) >= maskW(n.w) {
		return
	}
	m.assertProp(m.ctx.Ule(n, m.ctx.BV(n.w, uint64(lim))), "allocation size taken from untrusted data is unbounded: "+what)
}

func (m *Machine) execMakeSlice(f *Frame, ci *cins, in *ssa.MakeSlice) {
	c := m.ctx
	lt := f.get(m, &ci.ops[0]).(*Term)
	ct := f.get(m, &ci.ops[1]).(*Term)
	et := in.Type().Underlying().(*types.Slice).Elem()
	es := m.p.sizes.Sizeof(et)
	m.allocCheck(lt, es, "make([]"+et.String()+")", isSigned(in.Len.Type()))
	get := func(t *Term, ty types.Type) int {
		if isSigned(ty) {
			if m.decide(c.Slt(t, c.BV(t.w, 0))) {
				m.runtimePanic("makeslice: len out of range")
			}
		}
		if t.isConst() {
			if t.u > 1<<40 {
				m.runtimePanic("makeslice: len out of range")
			}
			return int(t.u)
		}
		return int(m.concretize(t, "slice length"))
	}
	n := get(lt, in.Len.Type())
	k := n
	if ct != lt {
		k = get(ct, in.Cap.Type())
	}
	if k < n {
		m.runtimePanic("makeslice: cap out of range")
	}
	if int64(k) > 1<<26 {
		m.unsupported(fmt.Sprintf("slice of %d elements", k))
	}
	f.regs[ci.dst] = m.newSlice(et, n, k)
}

func (m *Machine) newSlice(et types.Type, n, k int) SliceV {
	s := make(SliceV, k)
	if k > 0 {
		z := m.zero(et)
		switch z.(type) {
		case StructV, ArrayV, *Native:
			for i := range s {
				s[i] = copyVal(z)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

func (m *Machine) execSlice(f *Frame, ci *cins, in *ssa.Slice) {
	x := f.get(m, &ci.ops[0])
	var lo, hi, mx *Term
	if ci.ops[1].k != okNone {
		lo = f.get(m, &ci.ops[1]).(*Term)
	}
	if ci.ops[2].k != okNone {
		hi = f.get(m, &ci.ops[2]).(*Term)
	}
	if ci.ops[3].k != okNone {
		mx = f.get(m, &ci.ops[3]).(*Term)
	}
	switch y := x.(type) {
	case string, *StrV:
		n := m.strLen(y)
		h := n
		if hi != nil {
			h = m.sliceIdx(hi, n, "slice bounds out of range")
		}
		l := 0
		if lo != nil {
			l = m.sliceIdx(lo, h, "slice bounds out of range")
		}
		if s, ok := y.(string); ok {
			f.regs[ci.dst] = s[l:h]
			return
		}
		f.regs[ci.dst] = m.substr(y, l, h)
		return
	}
	var s SliceV
	isArr := false
	switch y := x.(type) {
	case SliceV:
		s = y
	case *RopeBytes:
		s = m.sliceOf(y)
	case *Value:
		p := m.deref(y)
		s = SliceV((*p).(ArrayV))
		isArr = true
	default:
		m.unsupported(fmt.Sprintf("slice of %T", x))
	}
	_ = isArr
	cp := cap(s)
	k := cp
	if mx != nil {
		k = m.sliceIdx(mx, cp, "slice bounds out of range")
	}
	h := len(s)
	if hi != nil {
		h = m.sliceIdx(hi, k, "slice bounds out of range")
	}
	l := 0
	if lo != nil {
		l = m.sliceIdx(lo, h, "slice bounds out of range")
	}
	if s == nil {
		f.regs[ci.dst] = SliceV(nil)
		return
	}
	f.regs[ci.dst] = s[l:h:k]
}

func (m *Machine) substr(v Value, l, h int) Value {
	s := m.toStrV(v)
	// token-preserving when boundaries fall on segments
	var out []seg
	pos := 0
	for _, g := range s.segs {
		n := segLen(g)
		if n < 0 {
			return m.strFromTerms(m.strBytes(v)[l:h])
		}
		a, b := max(l, pos), min(h, pos+n)
		if a < b {
			if a == pos && b == pos+n {
				out = append(out, g)
			} else {
				switch g.k {
				case SLit:
					out = append(out, seg{k: SLit, lit: g.lit[a-pos : b-pos]})
				case SSym:
					out = append(out, seg{k: SSym, b: g.b[a-pos : b-pos]})
				default:
					bs := m.segBytes(&g)
					out = append(out, seg{k: SSym, b: bs[a-pos : b-pos]})
				}
			}
		}
		pos += n
	}
	return m.normStr(out)
}

func (m *Machine) sliceIdx(t *Term, lim int, msg string) int {
	if t.isConst() {
		v := uint64(s64(t.u, t.w))
		if v > uint64(lim) {
			m.runtimePanic(fmt.Sprintf("%s [%d] with limit %d", msg, int64(v), lim))
		}
		return int(v)
	}
	if !m.decide(m.ctx.Ule(t, m.ctx.BV(t.w, uint64(lim)))) {
		m.runtimePanic(msg)
	}
	return int(m.concretize(t, "slice bound"))
}

func (m *Machine) execTypeAssert(f *Frame, ci *cins, in *ssa.TypeAssert) {
	iv, ok := f.get(m, &ci.ops[0]).(IfaceV)
	if !ok {
		m.unsupported("type assert on non-interface")
	}
	var good bool
	var v Value
	if iv.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			good = types.Implements(iv.t, it)
			v = iv
		} else {
			good = types.Identical(iv.t, in.AssertedType)
			v = iv.v
		}
	}
	if !good {
		if in.CommaOk {
			f.regs[ci.dst] = TupleV{m.zero(in.AssertedType), m.ctx.ff}
			return
		}
		m.runtimePanic("interface conversion: not " + in.AssertedType.String())
	}
	if in.CommaOk {
		f.regs[ci.dst] = TupleV{copyVal(v), m.ctx.tt}
	} else {
		f.regs[ci.dst] = copyVal(v)
	}
}

// ---------- builtins

func (m *Machine) builtin(g *Goroutine, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	c := m.ctx
	switch b.Name() {
	case "len":
		return c.BV(64, uint64(m.lenOf(args[0])))
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return c.BV(64, uint64(cap(x)))
		case *RopeBytes:
			return c.BV(64, uint64(m.lenOf(x)))
		case ArrayV:
			return c.BV(64, uint64(len(x)))
		case *ChanObj:
			return c.BV(64, uint64(x.cap))
		case *Value:
			return c.BV(64, uint64(len((*x).(ArrayV))))
		}
	case "append":
		st, ok := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			m.unsupported("append type")
		}
		var add SliceV
		switch x := args[1].(type) {
		case string, *StrV:
			add = m.sliceOf(m.strToBytes(x))
		default:
			add = m.sliceOf(x)
		}
		return m.appendSlice(st.Elem(), m.sliceOf(args[0]), add)
	case "copy":
		dst := m.sliceOf(args[0])
		var src SliceV
		switch x := args[1].(type) {
		case string, *StrV:
			src = m.sliceOf(m.strToBytes(x))
		default:
			src = m.sliceOf(x)
		}
		n := min(len(dst), len(src))
		if n > 0 {
			switch src[0].(type) {
			case StructV, ArrayV:
				tmp := make([]Value, n)
				for i := 0; i < n; i++ {
					tmp[i] = copyVal(src[i])
				}
				for i := 0; i < n; i++ {
					storeVal(&dst[i], tmp[i])
				}
			default:
				copy(dst[:n], src[:n])
			}
		}
		return c.BV(64, uint64(n))
	case "delete":
		mo, _ := args[0].(*MapObj)
		m.mapDelete(mo, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.idx, x.nsym, x.live = nil, map[string]*MapEntry{}, 0, 0
			}
		case SliceV:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = m.zero(et)
			}
		}
		return nil
	case "close":
		m.chanClose(args[0].(*ChanObj))
		return nil
	case "panic":
		panic(goPanic{&PanicRec{val: args[0], msg: m.panicText(args[0]), where: m.whereStr()}})
	case "recover":
		return m.doRecover(g)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			xt, ok := r.(*Term)
			yt, ok2 := y.(*Term)
			if !ok || !ok2 || xt.sk != KBV {
				m.unsupported("min/max of non-integers")
			}
			var lt *Term
			if isSigned(b.Type().(*types.Signature).Params().At(0).Type()) {
				lt = c.Slt(yt, xt)
			} else {
				lt = c.Ult(yt, xt)
			}
			if b.Name() == "min" {
				r = c.Ite(lt, yt, xt)
			} else {
				r = c.Ite(lt, xt, yt)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	}
	m.unsupported("builtin " + b.Name())
	return nil
}

func (m *Machine) doRecover(g *Goroutine) Value {
	// the caller of recover must be a deferred function frame
	if len(g.stack) == 0 {
		return IfaceV{}
	}
	f := g.stack[len(g.stack)-1]
	if f.deferFor != nil && f.deferFor.panicking != nil && !f.deferFor.panicking.recovered {
		f.deferFor.panicking.recovered = true
		g.lastPanic = f.deferFor.panicking
		v := f.deferFor.panicking.val
		if iv, ok := v.(IfaceV); ok {
			return iv
		}
		return IfaceV{t: types.Typ[types.String], v: v}
	}
	return IfaceV{}
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, es int64) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return newLen
	}
	mem := int64(nc) * es
	if mem <= 32768 {
		for _, s := range sizeClasses {
			if s >= mem {
				mem = s
				break
			}
		}
	} else {
		mem = (mem + 8191) / 8192 * 8192
	}
	_ = bits.Len
	return int(mem / es)
}

func (m *Machine) appendSlice(et types.Type, s, add SliceV) SliceV {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	cpv := func(dst []Value) {
		tmp := make([]Value, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		copy(dst, tmp)
	}
	if n <= cap(s) {
		out := s[:n]
		cpv(out[len(s):])
		return out
	}
	k := growCap(cap(s), n, m.p.sizes.Sizeof(et))
	if k < n {
		k = n
	}
	out := make(SliceV, n, k)
	for i, v := range s {
		out[i] = copyVal(v)
	}
	cpv(out[len(s):])
	if k > n {
		full := out[:k]
		z := m.zero(et)
		for i := n; i < k; i++ {
			full[i] = copyVal(z)
		}
	}
	return out
}
