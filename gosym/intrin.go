package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// intrinsic: engine model of a library (or harness API) function. The second result is false when the
// goroutine blocked (the call is retried on resumption) or a frame was pushed instead.
type intrinsic func(m *Machine, g *Goroutine, args []Value, dst int) (Value, bool)

var interpretIt Value = &Native{kind: "interpret"}

var intrTab = map[string]intrinsic{}

func reg(name string, f intrinsic) {
	if _, dup := intrTab[name]; dup {
		panic("duplicate intrinsic " + name)
	}
	intrTab[name] = f
}

func regS(name string, f func(m *Machine, a []Value) Value) {
	reg(name, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) { return f(m, a), true })
}

func (m *Machine) lookupIntrinsic(fn *ssa.Function) (intrinsic, bool) {
	if in, ok := m.intrCache[fn]; ok {
		return in, in != nil
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	in := intrTab[f.String()]
	m.intrCache[fn] = in
	return in, in != nil
}

// pollBlock blocks the goroutine until cond holds; the current call is retried.
func (m *Machine) pollBlock(g *Goroutine, why string, wake int64, cond func() bool) (Value, bool) {
	top := g.stack[len(g.stack)-1]
	if top.inDefers {
		m.unsupported("blocking call in a deferred function: " + why)
	}
	if top.pc == 0 {
		m.unsupported("blocking call in a nested evaluation: " + why)
	}
	top.pc--
	g.status = gPoll
	g.why = why
	g.pollFn = cond
	g.wake = 0
	if wake > 0 {
		m.seq++
		g.wake, g.wakeSq = wake, m.seq
	}
	return nil, false
}

// point: a schedule point before a visible library operation
func (m *Machine) point(g *Goroutine) {
	top := g.stack[len(g.stack)-1]
	if top.inDefers || top.pc == 0 {
		return
	}
	m.visible(top)
}

func (m *Machine) u64c(v Value) (uint64, bool) {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		return 0, false
	}
	return t.u, true
}

func (m *Machine) must64(v Value, what string) int64 {
	t := v.(*Term)
	if !t.isConst() {
		return s64(m.concretize(t, what), t.w)
	}
	return s64(t.u, t.w)
}

func (m *Machine) native(v Value, kind string) *Native {
	p := m.deref(v)
	n, ok := (*p).(*Native)
	if !ok {
		m.unsupported(fmt.Sprintf("%s object is %T", kind, *p))
	}
	return n
}

func (m *Machine) typ(pkg, name string) types.Type {
	sp := m.p.pkgByPath[pkg]
	if sp == nil {
		m.unsupported("package " + pkg + " not loaded")
	}
	t := sp.Type(name)
	if t == nil {
		m.unsupported("type " + pkg + "." + name)
	}
	return t.Type()
}

// mkStruct builds a struct value setting fields by name
func (m *Machine) mkStruct(t types.Type, set map[string]Value) StructV {
	s := m.zero(t).(StructV)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := set[st.Field(i).Name()]; ok {
			s[i] = v
		}
	}
	return s
}

func fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (m *Machine) globalVal(pkg, name string) Value {
	sp := m.p.pkgByPath[pkg]
	if sp == nil {
		m.unsupported("package " + pkg + " not loaded")
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		m.unsupported("global " + pkg + "." + name)
	}
	return *m.global(g)
}

// specialGlobal: globals of packages whose initialisers are not executed
func (m *Machine) specialGlobal(g *ssa.Global) (Value, bool) {
	pkg := g.Pkg.Pkg.Path()
	switch pkg {
	case "os":
		switch g.Name() {
		case "ErrNotExist", "ErrExist", "ErrPermission", "ErrClosed", "ErrInvalid":
			return m.globalVal("io/fs", g.Name()), true
		case "ErrDeadlineExceeded":
			return m.globalVal("internal/poll", "ErrDeadlineExceeded"), true
		case "Stdin", "Stdout", "Stderr":
			return newPtr(StructV{&Native{kind: "os.File", obj: &fsFile{e: &fsEnt{data: ""}, path: g.Name()}}}), true
		}
	case "internal/poll":
		if g.Name() == "ErrDeadlineExceeded" {
			t := types.NewPointer(m.typ("internal/poll", "DeadlineExceededError"))
			return IfaceV{t, newPtr(StructV{})}, true
		}
	case "net":
		switch g.Name() {
		case "ErrClosed", "errClosed":
			if v, ok := m.natives["net.ErrClosed"]; ok {
				return v, true
			}
			v := m.mkError("use of closed network connection")
			m.natives["net.ErrClosed"] = v
			return v, true
		}
	case "crypto/rand":
		if g.Name() == "Reader" {
			return IfaceV{m.p.errStr, newPtr(StructV{"rand.Reader"})}, true
		}
	}
	return nil, false
}

// ---------- harness API

func init() {
	z := repoMod + "/internal/zverif."
	regS(z+"CrashPoint", func(m *Machine, a []Value) Value { return m.ctx.BV(64, ^uint64(0)) })
	regS(z+"Symbolic", func(m *Machine, a []Value) Value { return m.ctx.tt })
	num := func(name string, w int) {
		regS(z+name, func(m *Machine, a []Value) Value { return m.freshInput(a[0].(string), KBV, w) })
	}
	num("U64", 64)
	num("U32", 32)
	num("U16", 16)
	num("U8", 8)
	regS(z+"Bool", func(m *Machine, a []Value) Value {
		t := m.freshInput(a[0].(string), KBV, 1)
		return m.ctx.Eq(t, m.ctx.BV(1, 1))
	})
	regS(z+"Int", func(m *Machine, a []Value) Value {
		lo, hi := m.must64(a[1], "lo"), m.must64(a[2], "hi")
		return m.ctx.BV(64, uint64(lo+int64(m.choiceInput(a[0].(string), int(hi-lo+1)))))
	})
	regS(z+"Choice", func(m *Machine, a []Value) Value {
		return m.ctx.BV(64, uint64(m.choiceInput(a[0].(string), int(m.must64(a[1], "n")))))
	})
	regS(z+"Bytes", func(m *Machine, a []Value) Value {
		n := int(m.must64(a[1], "n"))
		if n == 0 {
			return SliceV{}
		}
		return SliceV(m.unpackBytes(m.freshInput(a[0].(string), KBV, 8*n)))
	})
	regS(z+"Hash32", func(m *Machine, a []Value) Value {
		return ArrayV(m.unpackBytes(m.freshInput(a[0].(string), KBV, 256)))
	})
	regS(z+"Str", func(m *Machine, a []Value) Value {
		n := int(m.must64(a[1], "n"))
		if n == 0 {
			return ""
		}
		vs := m.unpackBytes(m.freshInput(a[0].(string), KBV, 8*n))
		ts := make([]*Term, n)
		for i := range vs {
			ts[i] = vs[i].(*Term)
		}
		return m.strFromTerms(ts)
	})
	regS(z+"Assume", func(m *Machine, a []Value) Value { m.assume(a[0].(*Term)); return nil })
	regS(z+"Assert", func(m *Machine, a []Value) Value {
		m.assertProp(a[0].(*Term), m.panicText(a[1]))
		return nil
	})
	regS(z+"Frozen", func(m *Machine, a []Value) Value {
		n := int64(0)
		for _, g := range m.gs {
			if g.freezeCount > m.cfg.freezeN {
				n++
			}
		}
		return m.ctx.BV(64, uint64(n))
	})
	regS(z+"Reach", func(m *Machine, a []Value) Value { m.reached[a[0].(string)] = true; return nil })
	regS(z+"And", func(m *Machine, a []Value) Value {
		r := m.ctx.tt
		for _, x := range m.sliceOf(a[0]) {
			r = m.ctx.And(r, x.(*Term))
		}
		return r
	})
	regS(z+"Or", func(m *Machine, a []Value) Value {
		r := m.ctx.ff
		for _, x := range m.sliceOf(a[0]) {
			r = m.ctx.Or(r, x.(*Term))
		}
		return r
	})
	regS(z+"Not", func(m *Machine, a []Value) Value { return m.ctx.Not(a[0].(*Term)) })
	regS(z+"Implies", func(m *Machine, a []Value) Value { return m.ctx.Implies(a[0].(*Term), a[1].(*Term)) })
	regS(z+"Iff", func(m *Machine, a []Value) Value { return m.ctx.Eq(a[0].(*Term), a[1].(*Term)) })
	regS(z+"IteU64", func(m *Machine, a []Value) Value { return m.ctx.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	// wide arithmetic for oracles: 128-bit sums of uint64 values compared without overflow
	regS(z+"SumCmp", func(m *Machine, a []Value) Value { // sum(xs) - sum(ys): -1/0/1
		c := m.ctx
		sum := func(v Value) (*Term, *Term) {
			hi, lo := c.BV(8, 0), c.BV(64, 0)
			for _, x := range m.sliceOf(v) {
				lo = c.Bin(OAdd, lo, x.(*Term))
				hi = c.Bin(OAdd, hi, c.Ite(c.Ult(lo, x.(*Term)), c.BV(8, 1), c.BV(8, 0)))
			}
			return hi, lo
		}
		xh, xl := sum(a[0])
		yh, yl := sum(a[1])
		eqh := c.Eq(xh, yh)
		lt := c.Or(c.Ult(xh, yh), c.And(eqh, c.Ult(xl, yl)))
		eq := c.And(eqh, c.Eq(xl, yl))
		return c.Ite(lt, c.BV(64, ^uint64(0)), c.Ite(eq, c.BV(64, 0), c.BV(64, 1)))
	})
	regS(z+"SetNow", func(m *Machine, a []Value) Value {
		m.timeVar = a[0].(*Term)
		m.timeBase = m.now
		return nil
	})
	regS(z+"Log", func(m *Machine, a []Value) Value {
		m.trace = append(m.trace, m.panicText(a[0]))
		return nil
	})
	regS(z+"FreeAddr", func(m *Machine, a []Value) Value {
		m.freeAddrs++
		return fmt.Sprintf("127.0.0.1:%d", 30000+m.freeAddrs)
	})
	regS(z+"Explore", func(m *Machine, a []Value) Value { // scheduler exploration on/off
		m.schedOn = a[0].(*Term).isTrue()
		return nil
	})
	regS(z+"MineNonce", func(m *Machine, a []Value) Value {
		// a block without unknowns is mined for real
		for i := uint64(0); i < 400; i++ {
			c := m.ctx.BV(64, i)
			r := m.callFuncV(a[1], []Value{c}).(*Term)
			if !r.isConst() {
				break
			}
			if r.isTrue() {
				return c
			}
		}
		n := m.freshInput(a[0].(string), KBV, 64)
		r := m.callFuncV(a[1], []Value{n})
		m.assume(r.(*Term))
		return n
	})
	regS(z+"TCPPair", func(m *Machine, a []Value) Value {
		x, y := m.tcpPair("127.0.0.1", 21720, "127.0.0.1", 40000+m.nets)
		m.nets++
		return TupleV{m.tcpConn(x), m.tcpConn(y)}
	})
	regS(z+"NetPending", func(m *Machine, a []Value) Value { // unread bytes queued at this end
		return m.ctx.BV(64, uint64(len(m.tcpOf(a[0]).in)))
	})
	reg(z+"CrashDuring", crashDuring(false))
	reg(z+"CrashAlone", crashDuring(true))
	regS(z+"startConsole", func(m *Machine, a []Value) Value {
		m.console, m.stdin, m.stdout = true, a[0], ""
		return nil
	})
	regS(z+"endConsole", func(m *Machine, a []Value) Value {
		m.console = false
		return m.stdout
	})
	reg(z+"HTTP", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		pat, ok := concStr(a[0])
		if !ok {
			m.unsupported("symbolic http path")
		}
		h, ok := m.handlers[pat]
		if !ok {
			return m.ctx.Bool(false), true
		}
		if dst >= 0 {
			g.stack[len(g.stack)-1].regs[dst] = m.ctx.Bool(true)
		}
		m.call(g, h, []Value{a[1], a[2]}, -1, nil)
		return nil, false
	})
	reg(z+"Settle", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		m.sleepUntil(g, m.now+250e6)
		return nil, true
	})
	field := func(pkg, typ, field string) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			return (*m.deref(a[0])).(StructV)[fieldIdx(m.typ(pkg, typ), field)]
		}
	}
	regS(z+"DecoderReader", field("encoding/json", "Decoder", "r"))
	regS(z+"EncoderWriter", field("encoding/json", "Encoder", "w"))
	regS(z+"ReaderBytes", field("bytes", "Reader", "s"))
	regS(z+"BufferBytes", field("bytes", "Buffer", "buf"))
	regS(z+"ReaderString", field("strings", "Reader", "s"))
	regS(z+"Thorough", func(m *Machine, a []Value) Value { return m.ctx.Bool(m.p.thorough) })
	regS(z+"Tier", func(m *Machine, a []Value) Value {
		if m.p.thorough {
			return a[1]
		}
		return a[0]
	})
	regS(z+"HashEq", func(m *Machine, a []Value) Value { return m.valEq(a[0], a[1]) })
	regS(z+"HashLess", func(m *Machine, a []Value) Value {
		return m.ctx.Ult(m.packTerms(m.byteTerms(SliceV(a[0].(ArrayV)))), m.packTerms(m.byteTerms(SliceV(a[1].(ArrayV)))))
	})
	reg(z+"Quiesce", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		// let all other goroutines run until they block (no time passes)
		g.status = gPoll
		g.why = "quiesce"
		g.low = true
		g.pollFn = func() bool { return true }
		return nil, true
	})
}

// ---------- sync

type mutexState struct {
	w bool
	r int
	n int // WaitGroup counter
}

func (m *Machine) mtx(v Value) *mutexState {
	n := m.native(v, "mutex")
	st, _ := n.obj.(*mutexState)
	if st == nil {
		st = &mutexState{}
		n.obj = st
	}
	return st
}

func (m *Machine) smap(v Value) *MapObj {
	n := m.native(v, "sync.Map")
	mo, _ := n.obj.(*MapObj)
	if mo == nil {
		mo = newMap()
		n.obj = mo
	}
	return mo
}

func init() {
	for _, k := range []string{"Mutex", "RWMutex"} {
		p := "(*sync." + k + ")."
		reg(p+"Lock", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			st := m.mtx(a[0])
			m.point(g)
			if st.w || st.r > 0 {
				return m.pollBlock(g, "mutex Lock", 0, func() bool { return !st.w && st.r == 0 })
			}
			st.w = true
			return nil, true
		})
		reg(p+"TryLock", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			st := m.mtx(a[0])
			m.point(g)
			if st.w || st.r > 0 {
				return m.ctx.ff, true
			}
			st.w = true
			return m.ctx.tt, true
		})
		reg(p+"Unlock", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			st := m.mtx(a[0])
			m.point(g)
			if !st.w {
				m.runtimePanic("sync: unlock of unlocked mutex")
			}
			st.w = false
			return nil, true
		})
	}
	reg("(*sync.RWMutex).RLock", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		st := m.mtx(a[0])
		m.point(g)
		if st.w {
			return m.pollBlock(g, "mutex RLock", 0, func() bool { return !st.w })
		}
		st.r++
		return nil, true
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		st := m.mtx(a[0])
		m.point(g)
		if st.r == 0 {
			m.runtimePanic("sync: RUnlock of unlocked RWMutex")
		}
		st.r--
		return nil, true
	})
	wgAdd := func(m *Machine, v Value, n int64) {
		st := m.mtx(v)
		st.n += int(n)
		if st.n < 0 {
			m.runtimePanic("sync: negative WaitGroup counter")
		}
	}
	regS("(*sync.WaitGroup).Add", func(m *Machine, a []Value) Value { wgAdd(m, a[0], m.must64(a[1], "wg")); return nil })
	regS("(*sync.WaitGroup).Done", func(m *Machine, a []Value) Value { wgAdd(m, a[0], -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		st := m.mtx(a[0])
		if st.n > 0 {
			return m.pollBlock(g, "WaitGroup Wait", 0, func() bool { return st.n == 0 })
		}
		return nil, true
	})
	// sync.Map
	sm := "(*sync.Map)."
	nilI := IfaceV{}
	smOp := func(name string, f func(m *Machine, mo *MapObj, a []Value) Value) {
		reg(sm+name, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			mo := m.smap(a[0])
			m.point(g)
			if len(a) > 1 {
				m.mapKeyOK(a[1])
			}
			return f(m, mo, a), true
		})
	}
	smOp("Load", func(m *Machine, mo *MapObj, a []Value) Value {
		if e := m.mapFind(mo, a[1]); e != nil {
			return TupleV{copyVal(e.v), m.ctx.tt}
		}
		return TupleV{nilI, m.ctx.ff}
	})
	smOp("Store", func(m *Machine, mo *MapObj, a []Value) Value { m.mapSet(mo, a[1], copyVal(a[2])); return nil })
	smOp("LoadOrStore", func(m *Machine, mo *MapObj, a []Value) Value {
		if e := m.mapFind(mo, a[1]); e != nil {
			return TupleV{copyVal(e.v), m.ctx.tt}
		}
		m.mapSet(mo, a[1], copyVal(a[2]))
		return TupleV{a[2], m.ctx.ff}
	})
	smOp("LoadAndDelete", func(m *Machine, mo *MapObj, a []Value) Value {
		if e := m.mapFind(mo, a[1]); e != nil {
			v := e.v
			m.mapDelete(mo, e.k)
			return TupleV{v, m.ctx.tt}
		}
		return TupleV{nilI, m.ctx.ff}
	})
	smOp("Delete", func(m *Machine, mo *MapObj, a []Value) Value { m.mapDelete(mo, a[1]); return nil })
	smOp("Swap", func(m *Machine, mo *MapObj, a []Value) Value {
		if e := m.mapFind(mo, a[1]); e != nil {
			v := e.v
			e.v = copyVal(a[2])
			return TupleV{v, m.ctx.tt}
		}
		m.mapSet(mo, a[1], copyVal(a[2]))
		return TupleV{nilI, m.ctx.ff}
	})
	smOp("CompareAndSwap", func(m *Machine, mo *MapObj, a []Value) Value {
		if e := m.mapFind(mo, a[1]); e != nil && m.decide(m.valEq(e.v, a[2])) {
			e.v = copyVal(a[3])
			return m.ctx.tt
		}
		return m.ctx.ff
	})
	smOp("CompareAndDelete", func(m *Machine, mo *MapObj, a []Value) Value {
		if e := m.mapFind(mo, a[1]); e != nil && m.decide(m.valEq(e.v, a[2])) {
			m.mapDelete(mo, e.k)
			return m.ctx.tt
		}
		return m.ctx.ff
	})
	smOp("Clear", func(m *Machine, mo *MapObj, a []Value) Value {
		for _, e := range mo.ents {
			e.dead = true
		}
		*mo = *newMap()
		return nil
	})
	reg(sm+"Range", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		mo := m.smap(a[0])
		m.point(g)
		for _, e := range m.mapOrder(mo) {
			if e.dead {
				continue
			}
			r := m.callFuncV(a[1], []Value{copyVal(e.k), copyVal(e.v)})
			if !m.decide(r.(*Term)) {
				break
			}
		}
		return nil, true
	})
	// sync.Pool: no pooling
	regS("(*sync.Pool).Put", func(m *Machine, a []Value) Value { return nil })
	// atomics
	at := "sync/atomic."
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(at+"Load"+k, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			m.point(g)
			return *m.deref(a[0]), true
		})
		reg(at+"Store"+k, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			m.point(g)
			*m.deref(a[0]) = a[1]
			return nil, true
		})
		reg(at+"Swap"+k, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			m.point(g)
			p := m.deref(a[0])
			o := *p
			*p = a[1]
			return o, true
		})
		reg(at+"CompareAndSwap"+k, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			m.point(g)
			p := m.deref(a[0])
			if m.decide(m.valEq(*p, a[1])) {
				*p = a[2]
				return m.ctx.tt, true
			}
			return m.ctx.ff, true
		})
		if k != "Pointer" {
			reg(at+"Add"+k, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
				m.point(g)
				p := m.deref(a[0])
				*p = m.ctx.Bin(OAdd, (*p).(*Term), a[1].(*Term))
				return *p, true
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		m.point(g)
		return (*m.deref(a[0])).(StructV)[0], true
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		m.point(g)
		(*m.deref(a[0])).(StructV)[0] = copyVal(a[1])
		return nil, true
	})
	reg("runtime.Gosched", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		g.status = gPoll
		g.why = "gosched"
		g.pollFn = func() bool { return true }
		return nil, true
	})
	for _, n := range []string{"runtime/debug.PrintStack", "runtime.GC", "runtime.KeepAlive", "log.Println", "log.Printf", "log.Print"} {
		reg(n, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) { return nil, true })
	}
	for n, f := range map[string]string{"fmt.Println": "fmt.Sprintln", "fmt.Printf": "fmt.Sprintf", "fmt.Print": "fmt.Sprint"} {
		f := f
		reg(n, func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			if m.console {
				v, _ := intrTab[f](m, g, a, -1)
				m.stdout = m.strConcat(m.stdout, v)
			}
			return TupleV{m.ctx.BV(64, 0), IfaceV{}}, true
		})
	}
	regS("runtime.NumCPU", func(m *Machine, a []Value) Value { return m.ctx.BV(64, 4) })
	regS("runtime.NumGoroutine", func(m *Machine, a []Value) Value { return m.ctx.BV(64, uint64(len(m.gs))) })
	regS("internal/race.Enable", func(m *Machine, a []Value) Value { return nil })
	regS("runtime.SetFinalizer", func(m *Machine, a []Value) Value { return nil })
}

// ---------- time

const unixToInternal = 62135596800
const defaultUnix = 1_700_000_000

func (m *Machine) unixNow() *Term {
	c := m.ctx
	if m.timeVar == nil {
		return c.BV(64, uint64(defaultUnix+m.now/1e9))
	}
	return c.Bin(OAdd, m.timeVar, c.BV(64, uint64((m.now-m.timeBase)/1e9)))
}

func (m *Machine) timeNow() Value {
	c := m.ctx
	ns := m.now
	if m.timeVar != nil {
		ns -= m.timeBase
	}
	return StructV{c.BV(64, uint64(ns%1e9)), c.Bin(OAdd, m.unixNow(), c.BV(64, unixToInternal)), (*Value)(nil)}
}

// virtual time of a time.Time value
func (m *Machine) toVirtual(v Value) (int64, bool) {
	s := v.(StructV)
	w, e := s[0].(*Term), s[1].(*Term)
	if w.isConst() && e.isConst() && w.u == 0 && e.u == 0 {
		return 0, false
	}
	cur := m.timeNow().(StructV)
	d := m.ctx.Bin(OSub, e, cur[1].(*Term))
	dn := m.ctx.Bin(OSub, w, cur[0].(*Term))
	if !d.isConst() || !dn.isConst() {
		m.unsupported("symbolic deadline")
	}
	return m.now + int64(d.u)*1e9 + int64(dn.u), true
}

func init() {
	regS("time.Now", func(m *Machine, a []Value) Value { return m.timeNow() })
	reg("time.Sleep", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		d := m.must64(a[0], "sleep")
		m.sleepUntil(g, m.now+max(d, 0))
		return nil, true
	})
	mkTimer := func(m *Machine, tn string, d, period int64) Value {
		t := m.typ("time", tn)
		m.seq++
		ch := &ChanObj{id: m.seq, cap: 1, zero: m.zero(m.typ("time", "Time"))}
		p := newPtr(m.mkStruct(t, map[string]Value{"C": ch}))
		m.timerOf[p] = m.addTimer(d, period, ch, nil)
		return p
	}
	regS("time.NewTicker", func(m *Machine, a []Value) Value {
		d := m.must64(a[0], "ticker")
		if d <= 0 {
			m.runtimePanic("non-positive interval for NewTicker")
		}
		return mkTimer(m, "Ticker", d, d)
	})
	regS("time.NewTimer", func(m *Machine, a []Value) Value { return mkTimer(m, "Timer", m.must64(a[0], "timer"), 0) })
	regS("time.After", func(m *Machine, a []Value) Value {
		p := mkTimer(m, "Timer", m.must64(a[0], "timer"), 0).(*Value)
		return (*p).(StructV)[0]
	})
	regS("time.Tick", func(m *Machine, a []Value) Value {
		d := m.must64(a[0], "ticker")
		p := mkTimer(m, "Ticker", d, d).(*Value)
		return (*p).(StructV)[0]
	})
	regS("time.AfterFunc", func(m *Machine, a []Value) Value {
		t := m.typ("time", "Timer")
		p := newPtr(m.zero(t))
		f := a[1]
		m.timerOf[p] = m.addTimer(m.must64(a[0], "timer"), 0, nil, func() { m.spawn(m.mainG, f, nil, nil) })
		return p
	})
	stop := func(m *Machine, v Value) bool {
		p := m.deref(v)
		t := m.timerOf[p]
		if t == nil || t.stopped {
			return false
		}
		t.stopped = true
		for i, x := range m.timers {
			if x == t {
				m.timers = append(m.timers[:i:i], m.timers[i+1:]...)
				break
			}
		}
		return true
	}
	regS("(*time.Timer).Stop", func(m *Machine, a []Value) Value {
		r := stop(m, a[0])
		if ch, ok := (*m.deref(a[0])).(StructV)[0].(*ChanObj); ok && ch != nil {
			ch.buf = nil // Go >= 1.23: no stale values after Stop
		}
		return m.ctx.Bool(r)
	})
	regS("(*time.Ticker).Stop", func(m *Machine, a []Value) Value { stop(m, a[0]); return nil })
	regS("(*time.Timer).Reset", func(m *Machine, a []Value) Value {
		r := stop(m, a[0])
		p := m.deref(a[0])
		ch, _ := (*p).(StructV)[0].(*ChanObj)
		var fn func()
		if o := m.timerOf[p]; o != nil {
			fn = o.fn
		}
		if ch != nil {
			ch.buf = nil
		}
		m.timerOf[p] = m.addTimer(m.must64(a[1], "timer"), 0, ch, fn)
		return m.ctx.Bool(r)
	})
	regS("(*time.Ticker).Reset", func(m *Machine, a []Value) Value {
		stop(m, a[0])
		p := m.deref(a[0])
		ch, _ := (*p).(StructV)[0].(*ChanObj)
		d := m.must64(a[1], "ticker")
		m.timerOf[p] = m.addTimer(d, d, ch, nil)
		return nil
	})
	regS("time.Since", func(m *Machine, a []Value) Value {
		f := m.methodByName(m.typ("time", "Time"), "Sub")
		return m.callSync(f, []Value{m.timeNow(), a[0]}, nil)
	})
	regS("time.Until", func(m *Machine, a []Value) Value {
		f := m.methodByName(m.typ("time", "Time"), "Sub")
		return m.callSync(f, []Value{a[0], m.timeNow()}, nil)
	})
	regS("(time.Time).String", func(m *Machine, a []Value) Value { return m.opaque("time") })
	regS("(time.Time).Format", func(m *Machine, a []Value) Value { return m.opaque("time") })
	regS("(time.Duration).String", func(m *Machine, a []Value) Value { return m.opaque("duration") })
}
