package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// One decision along a path.
type Decision struct {
	Kind byte // 'b' branch, 'c' choose, 'v' value
	Val  string
	N    int
}

type PathTask struct {
	Prefix []Decision
	Model  Model // satisfies the prefix's path condition (may be nil)
}

type endKind int

const (
	endOK endKind = iota
	endInfeasible
	endViolation
	endUnsupported
	endBudget
	endUnknown
)

type pathEnd struct {
	kind endKind
	msg  string
}

type HCfg struct {
	mapOrder, mapOrderMax int
	preempt               int
	maxSteps              int64
	maxPaths              int
	hangSec               int64
	shortReads            int
	selFork               int
	allocLimit            int64
	panicOK               bool
	freezeFn, freezeIn    string
	freezeN               int
}

// Shared static program
type Program struct {
	prog      *ssa.Program
	fset      *token.FileSet
	sizes     types.Sizes
	subst     map[string]*ssa.Function // stdlib function -> Go model
	watch     map[string]bool          // packages whose memory accesses are schedule points
	errStr    types.Type               // *errors.errorString
	wrapErr   types.Type
	pathErr   types.Type
	pkgByPath map[string]*ssa.Package
	harnPkg   *packages.Package
	thorough  bool
	deadline  time.Time   // no solver query begins after it
	halt      atomic.Bool // a violation is confirmed: explore no further
}

// Worker-local state reused between paths
type Worker struct {
	p          *Program
	ctx        *Ctx
	solver     *Solver
	fns        map[*ssa.Function]*fnInfo
	funcs      map[string]int64 // repo functions executed -> instruction count
	summ       map[*ssa.Function]*Summary
	constCache map[*ssa.Const]Value
	intrCache  map[*ssa.Function]intrinsic
	substCache map[*ssa.Function]*ssa.Function
}

type Goroutine struct {
	freezeCount  int // calls granted so far, see frozen
	id           int
	stack        []*Frame
	status       gStatus
	wake         int64 // virtual time
	wakeSq       int
	wait         *Waiter
	why          string
	name         string
	timedOut     bool
	pollFn       func() bool // status gPoll: ready when returns true
	lastPanic    *PanicRec
	preMark      bool // resumed from a preemption at this very instruction
	pendingPanic string
	quota        int64
	low          bool // polls only when nothing else can run
}

type gStatus uint8

const (
	gRun gStatus = iota
	gBlocked
	gSleep
	gPoll
	gDone
)

type Waiter struct {
	g    *Goroutine
	val  Value
	ok   bool
	done bool
	sel  *selState
	idx  int
	fin  func(v Value, ok bool)
}

type selState struct {
	fired bool
	idx   int
	val   Value
	ok    bool
}

type PanicRec struct {
	val       Value
	recovered bool
	msg       string
	runtime   bool
	where     string
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fi         *fnInfo
	regs       []Value
	blk, prev  int
	pc         int
	defers     []deferred
	inDefers   bool
	panicking  *PanicRec
	recovering bool // jump to recover block
	retDst     int  // slot in caller
	boundary   bool // nested run boundary
	deferFor   *Frame
	result     Value
	g          *Goroutine
}

type Machine struct {
	*Worker
	cfg      *HCfg
	task     PathTask
	pos      int
	decs     []Decision
	pc       []*Term
	pcSet    map[int]bool
	model    Model
	ev       *Evaluator
	modelOK  bool
	newTasks []PathTask

	gs           []*Goroutine
	runq         []*Goroutine
	cur          *Goroutine
	now          int64
	seq          int
	steps        int64
	globals      map[*ssa.Global]*Value
	initDone     map[*ssa.Package]bool
	counts       map[string]int
	inputs       []inputRec
	choices      []inputRec
	nOpaque      int
	decCache     map[int][]*Term
	spelled      map[*Term][]spelling
	mapOrderUsed int
	preemptLeft  int
	schedOn      bool
	selForkLeft  int
	freeAddrs    int
	watchOn      bool
	timeVar      *Term
	fs           *symFS
	nets         int
	ecKeys       map[string]*Native
	reached      map[string]bool
	viols        []Violation
	asserts      int
	assertsTriv  int
	notes        map[string]bool
	served       []string
	console      bool
	stdin        Value
	stdout       Value
	inSummary    bool
	summDecs     []bool
	summPos      int
	symNames     map[*Value]string
	natives      map[string]Value
	trace        []string
	shortLeft    int
	allocMax     int64
	mainDone     bool
	schedLog     []string
	mainG        *Goroutine
	timers       []*vtimer
	noFork       int
	nodes        map[string]interface{}
	timeBase     int64
	timerOf      map[*Value]*vtimer
	handlers     map[string]Value
	listeners    map[string]*tcpListener
	builders     map[*Value]Value
	hashers      map[*Value][]*Term
	hexOf        map[int]*Term
	crash        *crashState
	keyOf        map[*Value]int
	keys         []keyEnt
}

type inputRec struct {
	Name string
	T    *Term
	Val  string
}

type Violation struct {
	Msg    string
	Where  string
	Model  Model
	Inputs map[string]string
	Trace  []string
	Decs   []Decision
}

func (m *Machine) unsupported(msg string) {
	if m.inSummary {
		panic(summAbort{msg})
	}
	panic(pathEnd{endUnsupported, msg + " at " + m.whereStr()})
}

type summAbort struct{ msg string }

func (m *Machine) whereStr() string {
	if m.cur == nil || len(m.cur.stack) == 0 {
		return "?"
	}
	var parts []string
	for i := len(m.cur.stack) - 1; i >= 0 && len(parts) < 6; i-- {
		f := m.cur.stack[i]
		pos := ""
		if f.blk < len(f.fi.blocks) {
			b := f.fi.blocks[f.blk]
			pc := f.pc
			if pc > 0 {
				pc--
			}
			for k := pc; k >= 0; k-- {
				if k < len(b.ins) {
					if p := b.ins[k].pos; p.IsValid() {
						ps := m.p.fset.Position(p)
						pos = fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
						break
					}
				}
			}
		}
		parts = append(parts, f.fi.fn.Name()+"("+pos+")")
	}
	return strings.Join(parts, " < ")
}

func shortFile(f string) string {
	f = strings.TrimPrefix(f, repoDir+"/")
	if i := strings.Index(f, "/src/"); i >= 0 && strings.Contains(f[:i], "go1") {
		return f[i+5:]
	}
	return f
}

// ---------- path condition and decisions

func (m *Machine) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, x := range t.a {
			m.addPC(x)
		}
		return
	}
	if m.pcSet[t.id] {
		return
	}
	m.pcSet[t.id] = true
	m.pc = append(m.pc, t)
}

// relevant constraints (shared variables, transitively)
func (m *Machine) slice(t *Term) []*Term {
	vars := map[int]bool{}
	for _, v := range t.Vars() {
		vars[v.id] = true
	}
	used := make([]bool, len(m.pc))
	out := []*Term{t}
	for changed := true; changed; {
		changed = false
		for i, c := range m.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.Vars() {
				if vars[v.id] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.Vars() {
					if !vars[v.id] {
						vars[v.id] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

func (m *Machine) evalBool(t *Term) (bool, bool) {
	if !m.modelOK {
		return false, false
	}
	r := m.ev.Eval(t)
	if !r.isConst() {
		return false, false
	}
	return r.isTrue(), true
}

func (m *Machine) setModel(mod Model, merge bool) {
	n := Model{}
	if merge && m.model != nil {
		for k, v := range m.model {
			n[k] = v
		}
	}
	for k, v := range mod {
		n[k] = v
	}
	m.model = n
	m.ev = NewEval(m.ctx, n, false)
	m.modelOK = true
	for _, c := range m.pc {
		if r, ok := m.evalBool(c); !ok || !r {
			m.modelOK = false
			break
		}
	}
}

// feasible: is PC ∧ t satisfiable? returns result and model overlay
func (m *Machine) feasible(t *Term) (string, Model) {
	if t.isTrue() {
		return "sat", Model{}
	}
	if t.isFalse() {
		return "unsat", nil
	}
	if m.p.halt.Load() {
		panic(pathEnd{endBudget, "not explored further: a violation is confirmed"})
	}
	if !m.p.deadline.IsZero() && time.Now().After(m.p.deadline) {
		panic(pathEnd{endBudget, "out of time at " + m.whereStr()})
	}
	return m.solver.Check(m.slice(t))
}

func (m *Machine) mergedModel(over Model) Model {
	n := Model{}
	for k, v := range m.model {
		n[k] = v
	}
	for k, v := range over {
		n[k] = v
	}
	return n
}

// decide forks on a symbolic condition
func (m *Machine) decide(t *Term) bool {
	if t.isConst() {
		return t.u == 1
	}
	if m.noFork > 0 {
		panic(specFail{})
	}
	if m.inSummary {
		if m.summPos < len(m.summDecs) {
			r := m.summDecs[m.summPos]
			m.summPos++
			if !r {
				t = m.ctx.Not(t)
			}
			m.pc = append(m.pc, t)
			return r
		}
		// quick syntactic check against current conditions
		for _, c := range m.pc {
			if c == t {
				return true
			}
			if c == m.ctx.Not(t) {
				return false
			}
		}
		m.summDecs = append(m.summDecs, true)
		m.summPos++
		m.pc = append(m.pc, t)
		return true
	}
	if m.pcSet[t.id] {
		return true
	}
	nt := m.ctx.Not(t)
	if m.pcSet[nt.id] {
		return false
	}
	if m.pos < len(m.task.Prefix) {
		d := m.task.Prefix[m.pos]
		if d.Kind != 'b' {
			panic(fmt.Sprintf("replay divergence: expected %c got branch at %s", d.Kind, m.whereStr()))
		}
		m.pos++
		m.decs = append(m.decs, d)
		c := nt
		if d.Val == "1" {
			c = t
		}
		if d.N == 1 {
			m.pcSet[c.id] = true // the other side is infeasible: implied
		} else {
			m.addPC(c)
		}
		return d.Val == "1"
	}
	side, known := m.evalBool(t)
	var r1, r0 string
	var m1, m0 Model
	if known && side {
		r1 = "sat"
		r0, m0 = m.feasible(nt)
	} else if known {
		r0 = "sat"
		r1, m1 = m.feasible(t)
	} else {
		r1, m1 = m.feasible(t)
		r0, m0 = m.feasible(nt)
	}
	if r1 == "unknown" || r0 == "unknown" {
		m.notes["solver unknown on a branch at "+m.whereStr()] = true
	}
	ok1, ok0 := r1 != "unsat", r0 != "unsat"
	if r1 == "unknown" && r0 == "unsat" {
		ok1 = true
	}
	take := func(v bool, model Model, forced bool) bool {
		d := Decision{Kind: 'b', Val: "0"}
		c := nt
		if v {
			d.Val = "1"
			c = t
		}
		if forced {
			d.N = 1
		}
		m.decs = append(m.decs, d)
		m.pos++
		if m.pos > len(m.task.Prefix) {
			m.task.Prefix = m.decs // keep in sync
		}
		if forced {
			m.pcSet[c.id] = true
		} else {
			m.addPC(c)
		}
		if model != nil {
			m.setModel(model, true)
		} else if m.modelOK {
			if r, ok := m.evalBool(c); !ok || !r {
				m.modelOK = false
			}
		}
		return v
	}
	switch {
	case ok1 && ok0:
		if debugForks != nil {
			debugForks(m.whereStr())
		}
		// fork: take the side the model satisfies (or true), push the other
		tk := true
		if known {
			tk = side
		}
		var other Model
		ov := "0"
		if tk {
			if m0 != nil {
				other = m.mergedModel(m0)
			}
		} else {
			ov = "1"
			if m1 != nil {
				other = m.mergedModel(m1)
			}
		}
		pre := make([]Decision, len(m.decs)+1)
		copy(pre, m.decs)
		pre[len(m.decs)] = Decision{Kind: 'b', Val: ov}
		m.newTasks = append(m.newTasks, PathTask{pre, other})
		mod := m1
		if !tk {
			mod = m0
		}
		if known {
			mod = nil
		}
		return take(tk, mod, false)
	case ok1:
		var mod Model
		if !known {
			mod = m1
		}
		return take(true, mod, true)
	case ok0:
		var mod Model
		if !known {
			mod = m0
		}
		return take(false, mod, true)
	}
	panic(pathEnd{endInfeasible, "contradiction"})
}

// choose: nondeterministic choice among n concrete alternatives
func (m *Machine) choose(n int, why string) int {
	if n <= 1 {
		return 0
	}
	if m.inSummary {
		panic(summAbort{"choose"})
	}
	if m.pos < len(m.task.Prefix) {
		d := m.task.Prefix[m.pos]
		if d.Kind != 'c' {
			panic(fmt.Sprintf("replay divergence: expected %c got choose(%s) at %s", d.Kind, why, m.whereStr()))
		}
		m.pos++
		m.decs = append(m.decs, d)
		v := 0
		fmt.Sscan(d.Val, &v)
		return v
	}
	for i := n - 1; i >= 1; i-- {
		pre := make([]Decision, len(m.decs)+1)
		copy(pre, m.decs)
		pre[len(m.decs)] = Decision{Kind: 'c', Val: fmt.Sprint(i), N: n}
		var mod Model
		if m.modelOK {
			mod = m.model
		}
		m.newTasks = append(m.newTasks, PathTask{pre, mod})
	}
	m.decs = append(m.decs, Decision{Kind: 'c', Val: "0", N: n})
	m.pos++
	m.task.Prefix = m.decs
	return 0
}

// concretize a BV term: enumerates all feasible values (each a path), bounded
func (m *Machine) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.u
	}
	lo, hi := m.ctx.urange(t)
	// bisect through decide() so every split is a recorded branch
	for n := 0; ; n++ {
		if n > 80 {
			m.unsupported("concretize: too many values for " + why)
		}
		if lo == hi {
			return lo
		}
		// use the model for a candidate value
		var v uint64
		if m.modelOK {
			r := m.ev.Eval(t)
			if r.isConst() {
				v = r.u
			} else {
				v = lo
			}
		} else {
			v = lo
		}
		// In replay the model may differ; make the candidate part of the prefix
		v = m.recordValue(v)
		if m.decide(m.ctx.Eq(t, m.ctx.BV(t.w, v))) {
			return v
		}
	}
}

func (m *Machine) recordValue(v uint64) uint64 {
	if m.pos < len(m.task.Prefix) {
		d := m.task.Prefix[m.pos]
		if d.Kind != 'v' {
			panic("replay divergence at value")
		}
		m.pos++
		m.decs = append(m.decs, d)
		b, _ := new(big.Int).SetString(d.Val, 10)
		return b.Uint64()
	}
	m.decs = append(m.decs, Decision{Kind: 'v', Val: fmt.Sprint(v)})
	m.pos++
	m.task.Prefix = m.decs
	return v
}

func (m *Machine) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(pathEnd{endInfeasible, "assume"})
	}
	if m.inSummary {
		panic(summAbort{"assume"})
	}
	if m.pcSet[t.id] {
		return
	}
	if v, known := m.evalBool(t); known && v {
		m.addPC(t)
		return
	}
	if m.pos < len(m.task.Prefix) {
		// feasible: established when the prefix was created
		m.addPC(t)
		m.modelOK = false
		return
	}
	r, mod := m.feasible(t)
	switch r {
	case "unsat":
		panic(pathEnd{endInfeasible, "assume"})
	case "unknown":
		m.notes["solver unknown on an assumption at "+m.whereStr()] = true
		m.addPC(t)
		m.modelOK = false
		return
	}
	m.addPC(t)
	m.setModel(mod, true)
}

// assumeDef: constraint that defines fresh variables (always satisfiable given PC)
func (m *Machine) assumeDef(t *Term) { m.assume(t) }

func (m *Machine) assertProp(t *Term, msg string) {
	m.asserts++
	if t.isTrue() {
		m.assertsTriv++
		return
	}
	if m.inSummary {
		panic(summAbort{"assert"})
	}
	nt := m.ctx.Not(t)
	var mod Model
	fail := false
	if m.pos < len(m.task.Prefix) {
		// already checked when this prefix was first executed
		if t.isFalse() {
			panic(pathEnd{endInfeasible, "assert in prefix"})
		}
		m.addPC(t)
		if v, known := m.evalBool(t); !known || !v {
			m.modelOK = false
		}
		return
	}
	if nt.isTrue() {
		fail = true
		mod = m.model
		if !m.modelOK {
			r, mm := m.solver.Check(m.pc)
			if r == "unsat" {
				panic(pathEnd{endInfeasible, "assert"})
			}
			if r == "sat" {
				mod = mm
			}
		}
	} else if v, known := m.evalBool(nt); known && v {
		fail = true
		mod = m.model
	} else {
		r, mm := m.feasible(nt)
		switch r {
		case "sat":
			fail = true
			mod = m.mergedModel(mm)
		case "unknown":
			m.notes["solver unknown on assertion '"+msg+"' at "+m.whereStr()] = true
		}
	}
	if fail {
		m.violation(msg, mod, nt)
		if nt.isTrue() {
			panic(pathEnd{endViolation, msg})
		}
		// continue on the side where the assertion holds, if any
		r, mm := m.feasible(t)
		if r == "unsat" {
			panic(pathEnd{endViolation, msg})
		}
		m.addPC(t)
		if mm != nil {
			m.setModel(mm, true)
		} else {
			m.modelOK = false
		}
		return
	}
	m.addPC(t)
}

func (m *Machine) violation(msg string, mod Model, extra *Term) {
	v := Violation{Msg: msg, Where: m.whereStr(), Model: mod, Inputs: map[string]string{}}
	pc := append([]*Term(nil), m.pc...)
	if extra != nil {
		pc = append(pc, extra)
	}
	mod = m.repairModel(mod, pc)
	ev := NewEval(m.ctx, mod, true)
	for _, in := range m.inputs {
		t := ev.Eval(in.T)
		v.Inputs[in.Name] = t.bigVal().String()
	}
	for _, in := range m.choices {
		v.Inputs[in.Name] = in.Val
	}
	v.Trace = append([]string(nil), m.trace...)
	v.Trace = append(v.Trace, m.schedLog...)
	v.Decs = append([]Decision(nil), m.decs...)
	m.viols = append(m.viols, v)
}

// repairModel adjusts variables that are asserted equal to hashes/signatures so that they carry the
// real hash of the (already chosen) content.
func (m *Machine) repairModel(mod Model, pc []*Term) Model {
	if mod == nil {
		mod = Model{}
	}
	n := Model{}
	for k, v := range mod {
		n[k] = v
	}
	for iter := 0; iter < 4; iter++ {
		changed := false
		for _, c := range pc {
			if c.op != OEq {
				continue
			}
			for k := 0; k < 2; k++ {
				h, x := c.a[k], c.a[1-k]
				if h.op != OSHA && h.op != OSIG && h.op != OExtract {
					continue
				}
				root := h
				if h.op == OExtract {
					root = h.a[0]
					if root.op != OSHA && root.op != OSIG {
						continue
					}
				}
				ev := NewEval(m.ctx, n, true)
				hv := ev.Eval(h)
				if x.op == OVar {
					if o := n[x.name]; o == nil || o.Cmp(hv.bigVal()) != 0 {
						n[x.name] = hv.bigVal()
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return n
}

// ---------- nondeterministic inputs

func (m *Machine) inputName(name string) string {
	k := m.counts[name]
	m.counts[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

func (m *Machine) freshInput(name string, sk SK, w int) *Term {
	n := m.inputName(name)
	t := m.ctx.Var(n, sk, w)
	m.inputs = append(m.inputs, inputRec{Name: n, T: t})
	return t
}

func (m *Machine) choiceInput(name string, n int) int {
	nm := m.inputName(name)
	v := m.choose(n, name)
	m.choices = append(m.choices, inputRec{Name: nm, Val: fmt.Sprint(v)})
	return v
}

// ---------- globals and package initialisation

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	pkg := g.Pkg
	if v, ok := m.specialGlobal(g); ok {
		p := newPtr(v)
		m.globals[g] = p
		return p
	}
	if !m.initDone[pkg] {
		m.initDone[pkg] = true
		m.initPackage(pkg)
		if p, ok := m.globals[g]; ok {
			return p
		}
	}
	p := newPtr(m.zero(g.Type().(*types.Pointer).Elem()))
	m.globals[g] = p
	return p
}

func (m *Machine) initPackage(pkg *ssa.Package) {
	// allocate zero globals
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, have := m.globals[g]; !have {
				if v, ok := m.specialGlobal(g); ok {
					m.globals[g] = newPtr(v)
					continue
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(pathEnd); ok {
								return
							}
							panic(r)
						}
					}()
					m.globals[g] = newPtr(m.zero(g.Type().(*types.Pointer).Elem()))
				}()
			}
		}
	}
	init := pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	saveSched := m.schedOn
	m.schedOn = false
	m.callSync(init, nil, nil)
	m.schedOn = saveSched
}

var skipInit = map[string]bool{
	"os": true, "net": true, "runtime": true, "syscall": true, "internal/poll": true, "time": true, "crypto/x509": true,
	"crypto/ecdsa": true, "crypto/elliptic": true, "crypto/rand": true, "reflect": true, "fmt": true, "encoding/json": true,
	"net/http": true, "internal/godebug": true, "log": true, "math/big": true, "unicode": true, "crypto/sha256": true, "internal/cpu": true,
	"context": false, "runtime/debug": true, "internal/syscall/unix": true, "internal/testlog": true, "math/rand": true, "net/url": true,
}

// ---------- running

func newMachine(w *Worker, cfg *HCfg, task PathTask) *Machine {
	m := &Machine{Worker: w, cfg: cfg, task: task, pcSet: map[int]bool{}, globals: map[*ssa.Global]*Value{},
		initDone: map[*ssa.Package]bool{}, counts: map[string]int{}, decCache: map[int][]*Term{}, spelled: map[*Term][]spelling{}, reached: map[string]bool{},
		notes: map[string]bool{}, symNames: map[*Value]string{}, natives: map[string]Value{}, ecKeys: map[string]*Native{},
		timerOf: map[*Value]*vtimer{}, handlers: map[string]Value{}, listeners: map[string]*tcpListener{}, builders: map[*Value]Value{},
		hashers: map[*Value][]*Term{}, hexOf: map[int]*Term{}, keyOf: map[*Value]int{}}
	m.fs = newSymFS()
	m.now = 0
	m.preemptLeft = cfg.preempt
	m.selForkLeft = cfg.selFork
	m.freeAddrs = 0
	m.shortLeft = cfg.shortReads
	m.allocMax = cfg.allocLimit
	if task.Model != nil {
		m.model = task.Model
		m.ev = NewEval(m.ctx, m.model, false)
		m.modelOK = true // checked against PC lazily: prefix PCs hold by construction
	} else {
		m.model = Model{}
		m.ev = NewEval(m.ctx, m.model, false)
		m.modelOK = len(task.Prefix) == 0
	}
	return m
}

type PathResult struct {
	End         pathEnd
	Viols       []Violation
	New         []PathTask
	Steps       int64
	NDecs       int
	Reached     []string
	Asserts     int
	AssertsTriv int
	Notes       []string
	Inputs      map[string]string // witness inputs of a completed path
	Exact       bool
}

func (w *Worker) runPath(cfg *HCfg, entry *ssa.Function, task PathTask) (res PathResult) {
	m := newMachine(w, cfg, task)
	res.End = pathEnd{endOK, ""}
	prefLen := len(task.Prefix)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					res.End = pe
					return
				}
				if os.Getenv("GOSYM_PANIC") != "" {
					panic(r)
				}
				res.End = pathEnd{endUnsupported, fmt.Sprintf("engine: %v at %s", r, m.whereStr())}
			}
		}()
		g := m.newGoroutine("main")
		m.mainG = g
		m.pushFrame(g, entry, nil, nil, -1)
		m.schedule(g)
		// quiescent end: main finished
	}()
	_ = prefLen
	res.Viols = m.viols
	res.New = m.newTasks
	res.Steps = m.steps
	res.NDecs = len(m.decs)
	for k := range m.reached {
		res.Reached = append(res.Reached, k)
	}
	sort.Strings(res.Reached)
	res.Asserts = m.asserts
	res.AssertsTriv = m.assertsTriv
	for k := range m.notes {
		res.Notes = append(res.Notes, k)
	}
	if res.End.kind == endOK && len(m.viols) == 0 {
		mod := m.model
		ok := m.modelOK
		if !ok {
			r, mm := m.solver.Check(m.pc)
			if r == "sat" {
				mod, ok = mm, true
			}
		}
		if ok {
			mod = m.repairModel(mod, m.pc)
			ev := NewEval(m.ctx, mod, true)
			res.Exact = true
			for _, c := range m.pc {
				if !ev.Eval(c).isTrue() {
					res.Exact = false
					break
				}
			}
			res.Inputs = map[string]string{}
			for _, in := range m.inputs {
				res.Inputs[in.Name] = ev.Eval(in.T).bigVal().String()
			}
			for _, in := range m.choices {
				res.Inputs[in.Name] = in.Val
			}
		}
	}
	return
}
