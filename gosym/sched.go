package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------- timers

type vtimer struct {
	when, period int64
	seq          int
	ch           *ChanObj
	fn           func()
	stopped      bool
}

func (m *Machine) addTimer(d, period int64, ch *ChanObj, fn func()) *vtimer {
	m.seq++
	t := &vtimer{when: m.now + max(d, 1), period: period, seq: m.seq, ch: ch, fn: fn}
	m.timers = append(m.timers, t)
	return t
}

func (m *Machine) fireTimer(t *vtimer) {
	if t.period > 0 {
		t.when += t.period
	} else {
		t.stopped = true
		for i, x := range m.timers {
			if x == t {
				m.timers = append(m.timers[:i:i], m.timers[i+1:]...)
				break
			}
		}
	}
	if t.fn != nil {
		t.fn()
		return
	}
	m.trySend(t.ch, m.timeNow())
}

// ---------- channels

func liveWaiter(q *[]*Waiter) *Waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func hasLive(q []*Waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

// trySend delivers without blocking; panics (Go) when closed
func (m *Machine) trySend(ch *ChanObj, v Value) bool {
	if ch == nil {
		return false
	}
	if ch.closed {
		m.runtimePanic("send on closed channel")
	}
	if w := liveWaiter(&ch.recvq); w != nil {
		w.complete(m, v, true)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return true
	}
	return false
}

func (m *Machine) tryRecv(ch *ChanObj) (v Value, ok, done bool) {
	if ch == nil {
		return nil, false, false
	}
	if len(ch.buf) > 0 {
		v = ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		if w := liveWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			w.complete(m, nil, true)
		}
		return v, true, true
	}
	if w := liveWaiter(&ch.sendq); w != nil {
		v = w.val
		w.complete(m, nil, true)
		return v, true, true
	}
	if ch.closed {
		return copyVal(ch.zero), false, true
	}
	return nil, false, false
}

func (w *Waiter) complete(m *Machine, v Value, ok bool) {
	w.done = true
	if w.sel != nil {
		w.sel.fired = true
	}
	if w.fin != nil {
		w.fin(v, ok)
	}
	m.ready(w.g)
}

func (m *Machine) chanClose(ch *ChanObj) {
	if ch == nil {
		m.runtimePanic("close of nil channel")
	}
	if ch.closed {
		m.runtimePanic("close of closed channel")
	}
	ch.closed = true
	for {
		w := liveWaiter(&ch.recvq)
		if w == nil {
			break
		}
		w.complete(m, copyVal(ch.zero), false)
	}
	for {
		w := liveWaiter(&ch.sendq)
		if w == nil {
			break
		}
		// sender panics when it resumes
		w.done = true
		if w.sel != nil {
			w.sel.fired = true
		}
		w.g.pendingPanic = "send on closed channel"
		m.ready(w.g)
	}
}

func (m *Machine) visible(f *Frame) { m.retryable(f, func() { m.schedPoint() }) }

func (m *Machine) execSend(g *Goroutine, f *Frame, ci *cins) {
	m.visible(f)
	ch, _ := f.get(m, &ci.ops[0]).(*ChanObj)
	v := copyVal(f.get(m, &ci.ops[1]))
	if m.trySend(ch, v) {
		return
	}
	m.block(g, "channel send")
	if ch != nil {
		ch.sendq = append(ch.sendq, &Waiter{g: g, val: v})
	}
}

func (m *Machine) execRecv(g *Goroutine, f *Frame, ci *cins, in *ssa.UnOp) {
	m.visible(f)
	ch, _ := f.get(m, &ci.ops[0]).(*ChanObj)
	set := func(v Value, ok bool) {
		if in.CommaOk {
			f.regs[ci.dst] = TupleV{v, m.ctx.Bool(ok)}
		} else {
			f.regs[ci.dst] = v
		}
	}
	if v, ok, done := m.tryRecv(ch); done {
		set(v, ok)
		return
	}
	m.block(g, "channel receive")
	if ch != nil {
		ch.recvq = append(ch.recvq, &Waiter{g: g, fin: set})
	}
}

func (m *Machine) execSelect(g *Goroutine, f *Frame, ci *cins, in *ssa.Select) {
	m.visible(f)
	type st struct {
		ch   *ChanObj
		send Value
	}
	n := len(in.States)
	sts := make([]st, n)
	for i, s := range in.States {
		ch, _ := f.get(m, &ci.ops[2*i]).(*ChanObj)
		sts[i].ch = ch
		if s.Dir == types.SendOnly {
			sts[i].send = copyVal(f.get(m, &ci.ops[2*i+1]))
		}
	}
	// result tuple: index, recvOk, recv values...
	mk := func(idx int, ok bool, v Value) {
		tup := TupleV{m.ctx.BV(64, uint64(int64(idx))), m.ctx.Bool(ok)}
		for i, s := range in.States {
			if s.Dir == types.RecvOnly {
				if i == idx {
					tup = append(tup, v)
				} else {
					tup = append(tup, m.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		f.regs[ci.dst] = tup
	}
	var ready []int
	for i, s := range in.States {
		ch := sts[i].ch
		if ch == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			if ch.closed || hasLive(ch.recvq) || len(ch.buf) < ch.cap {
				ready = append(ready, i)
			}
		} else if len(ch.buf) > 0 || hasLive(ch.sendq) || ch.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && m.selForkLeft > 0 {
			m.selForkLeft--
			k = m.choose(len(ready), "select")
		}
		i := ready[k]
		if in.States[i].Dir == types.SendOnly {
			m.trySend(sts[i].ch, sts[i].send)
			mk(i, false, nil)
		} else {
			v, ok, _ := m.tryRecv(sts[i].ch)
			mk(i, ok, v)
		}
		return
	}
	if !in.Blocking {
		mk(-1, false, nil)
		return
	}
	m.block(g, "select")
	ss := &selState{}
	for i, s := range in.States {
		i := i
		ch := sts[i].ch
		if ch == nil {
			continue
		}
		w := &Waiter{g: g, sel: ss, idx: i}
		if s.Dir == types.SendOnly {
			w.val = sts[i].send
			w.fin = func(Value, bool) { mk(i, false, nil) }
			ch.sendq = append(ch.sendq, w)
		} else {
			w.fin = func(v Value, ok bool) { mk(i, ok, v) }
			ch.recvq = append(ch.recvq, w)
		}
	}
}

// ---------- branches

func (m *Machine) jumpTo(f *Frame, succ int) {
	f.prev = f.blk
	f.blk = succ
	f.pc = 0
}

func (m *Machine) execIf(g *Goroutine, f *Frame, ci *cins, in *ssa.If) {
	cond := f.get(m, &ci.ops[0]).(*Term)
	cb := &f.fi.blocks[f.blk]
	if cond.isConst() {
		if cond.u == 1 {
			m.jumpTo(f, cb.succs[0])
		} else {
			m.jumpTo(f, cb.succs[1])
		}
		return
	}
	if !m.inSummary && !(f.fi.watch && m.schedOn) {
		if m.pcSet[cond.id] {
			m.jumpTo(f, cb.succs[0])
			return
		}
		if m.pcSet[m.ctx.Not(cond).id] {
			m.jumpTo(f, cb.succs[1])
			return
		}
		if m.ifConvert(f, cond) {
			return
		}
	}
	if m.decide(cond) {
		m.jumpTo(f, cb.succs[0])
	} else {
		m.jumpTo(f, cb.succs[1])
	}
}

// pureBlock: straight-line scalar code that may be executed speculatively
func (m *Machine) pureBlock(f *Frame, bi int) bool {
	cb := &f.fi.blocks[bi]
	if len(cb.preds) != 1 || len(cb.ins) > 10 || cb.nphi > 0 {
		return false
	}
	for i := range cb.ins {
		switch in := cb.ins[i].in.(type) {
		case *ssa.BinOp:
			switch in.Op.String() {
			case "/", "%", "<<", ">>":
				return false
			}
			if b, ok := in.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString != 0 {
				return false
			}
		case *ssa.UnOp:
			if in.Op.String() == "<-" {
				return false
			}
			if in.Op.String() == "*" {
				if f.fi.watch && m.schedOn {
					return false
				}
			}
		case *ssa.Convert:
			fb, ok1 := in.X.Type().Underlying().(*types.Basic)
			tb, ok2 := in.Type().Underlying().(*types.Basic)
			if !ok1 || !ok2 || fb.Info()&types.IsNumeric == 0 || tb.Info()&types.IsNumeric == 0 {
				return false
			}
		case *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.ChangeType:
		case *ssa.IndexAddr:
			c, ok := in.Index.(*ssa.Const)
			if !ok || c.Value == nil {
				return false
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		case *ssa.Jump, *ssa.If:
		default:
			return false
		}
	}
	return true
}

type specFail struct{}

// speculate executes the non-terminator instructions of a pure block; false if anything unusual happens
func (m *Machine) speculate(f *Frame, bi int) (ok bool) {
	cb := &f.fi.blocks[bi]
	sb, sp, sprev := f.blk, f.pc, f.prev
	pcLen := len(m.pc)
	nd := len(m.decs)
	defer func() {
		f.blk, f.pc, f.prev = sb, sp, sprev
		if r := recover(); r != nil {
			switch r.(type) {
			case goPanic, specFail:
				ok = false
				return
			}
			panic(r)
		}
	}()
	m.noFork++
	defer func() { m.noFork-- }()
	for i := range cb.ins {
		switch cb.ins[i].in.(type) {
		case *ssa.Jump, *ssa.If:
			continue
		}
		m.steps++
		m.exec(f.g, f, &cb.ins[i])
	}
	if len(m.pc) != pcLen || len(m.decs) != nd {
		panic("speculation changed the path condition")
	}
	return true
}

func (m *Machine) hasPhi(f *Frame, bi int) bool { return f.fi.blocks[bi].nphi > 0 }

func term(in ssa.Instruction) byte {
	switch in.(type) {
	case *ssa.Jump:
		return 'j'
	case *ssa.If:
		return 'i'
	}
	return 0
}

// ifConvert merges short-circuit chains and pure diamonds instead of forking
func (m *Machine) ifConvert(f *Frame, cond *Term) bool {
	c := m.ctx
	cb := &f.fi.blocks[f.blk]
	T, F := cb.succs[0], cb.succs[1]
	lastOf := func(b int) *cins { x := &f.fi.blocks[b]; return &x.ins[len(x.ins)-1] }
	// diamonds
	target := func(b int) int {
		if term(lastOf(b).in) == 'j' {
			return f.fi.blocks[b].succs[0]
		}
		return -1
	}
	tp, fp := m.pureBlock(f, T), m.pureBlock(f, F)
	join := -1
	switch {
	case tp && target(T) == F:
		join = F
	case fp && target(F) == T:
		join = T
	case tp && fp && target(T) >= 0 && target(T) == target(F):
		join = target(T)
	}
	if join >= 0 && m.hasPhi(f, join) {
		jb := &f.fi.blocks[join]
		eT, eF := T, F
		if join == T {
			eT = f.blk
		}
		if join == F {
			eF = f.blk
		}
		ok := true
		if join != T {
			ok = m.speculate(f, T)
		}
		if ok && join != F {
			ok = m.speculate(f, F)
		}
		if ok {
			it, iff := -1, -1
			for i, p := range jb.preds {
				if p == eT {
					it = i
				}
				if p == eF {
					iff = i
				}
			}
			vals := make([]Value, jb.nphi)
			for i := 0; ok && i < jb.nphi; i++ {
				a := f.get(m, &jb.ins[i].ops[it])
				b := f.get(m, &jb.ins[i].ops[iff])
				x, ok1 := a.(*Term)
				y, ok2 := b.(*Term)
				if !ok1 || !ok2 || x.sk == KF64 && x != y {
					ok = false
					break
				}
				vals[i] = c.Ite(cond, x, y)
			}
			if ok {
				for i := range vals {
					f.regs[jb.ins[i].dst] = vals[i]
				}
				f.prev = f.blk
				f.blk = join
				f.pc = jb.nphi
				return true
			}
		}
	}
	// short-circuit chain: the pure successor ends in an If that shares our other successor
	chain := func(P, other int, pol bool) bool {
		li := lastOf(P)
		if term(li.in) != 'i' || m.hasPhi(f, other) {
			return false
		}
		ps := f.fi.blocks[P].succs
		var X int
		var shared bool // value of P's condition that leads to `other`
		switch {
		case ps[0] == other && ps[1] != other:
			X, shared = ps[1], true
		case ps[1] == other && ps[0] != other:
			X, shared = ps[0], false
		default:
			return false
		}
		if !m.speculate(f, P) {
			return false
		}
		c2, ok := f.get(m, &li.ops[0]).(*Term)
		if !ok {
			return false
		}
		// reach X iff (cond==pol) && (c2 != shared)
		a := cond
		if !pol {
			a = c.Not(cond)
		}
		b := c2
		if shared {
			b = c.Not(c2)
		}
		all := c.And(a, b)
		// move to P and let further chains merge recursively
		f.blk = P
		f.prev = -1
		f.pc = len(f.fi.blocks[P].ins)
		if all.isConst() {
			if all.u == 1 {
				m.jumpTo(f, X)
			} else {
				m.jumpTo(f, other)
			}
			return true
		}
		m.chainStep(f, all, X, other)
		return true
	}
	if tp && chain(T, F, true) {
		return true
	}
	if fp && chain(F, T, false) {
		return true
	}
	return false
}

// chainStep: condition `all` leads to X (edge from the current block), otherwise to other
func (m *Machine) chainStep(f *Frame, all *Term, X, other int) {
	c := m.ctx
	for n := 0; n < 8; n++ {
		if !m.pureBlock(f, X) || m.hasPhi(f, other) {
			break
		}
		xb := &f.fi.blocks[X]
		li := &xb.ins[len(xb.ins)-1]
		if term(li.in) != 'i' {
			break
		}
		var Y int
		var neg bool
		switch {
		case xb.succs[0] == other && xb.succs[1] != other:
			Y, neg = xb.succs[1], true
		case xb.succs[1] == other && xb.succs[0] != other:
			Y, neg = xb.succs[0], false
		default:
			Y = -1
		}
		if Y < 0 || !m.speculate(f, X) {
			break
		}
		c2, ok := f.get(m, &li.ops[0]).(*Term)
		if !ok {
			break
		}
		if neg {
			c2 = c.Not(c2)
		}
		all = c.And(all, c2)
		f.blk = X
		f.pc = len(xb.ins)
		X = Y
	}
	if m.decide(all) {
		m.jumpTo(f, X)
	} else {
		m.jumpTo(f, other)
	}
}
