package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Model map[string]*big.Int // key: variable key (name for OVar; "#id" for SHA/SIG apps)

func varKey(t *Term) string {
	if t.op == OVar {
		return t.name
	}
	return fmt.Sprintf("#%x.%x", t.h, t.h2)
}

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Fallback int
	Time                                   time.Duration
	Cached                                 int
}

type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	stats   SolverStats
	cache   map[string]qres
	softMs  int
	hardS   int
}

type qres struct {
	r string
	m Model
}

const z3bin = "z3-new"

func NewSolver(ctx *Ctx, softMs, hardS int) *Solver {
	s := &Solver{ctx: ctx, cache: map[string]qres{}, softMs: softMs, hardS: hardS}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.defined = map[int]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.softMs)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortStr(t *Term) string {
	switch t.sk {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", t.w)
	case KInt:
		return "Int"
	}
	return "(_ FloatingPoint 11 53)"
}

func constStr(t *Term) string {
	switch t.sk {
	case KBool:
		if t.u == 1 {
			return "true"
		}
		return "false"
	case KBV:
		return fmt.Sprintf("(_ bv%s %d)", t.bigVal().String(), t.w)
	case KInt:
		if t.b.Sign() < 0 {
			return fmt.Sprintf("(- %s)", new(big.Int).Neg(t.b).String())
		}
		return t.b.String()
	}
	return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.u)
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return fmt.Sprintf("|%s:%d:%d|", t.name, t.sk, t.w) // one name may be used at two widths on different paths
	case OBV2I:
		return fmt.Sprintf("i%d", t.a[0].id)
	}
	return fmt.Sprintf("t%d", t.id)
}

// emitState collects what a query needs
type emitState struct {
	bvUsed  map[int]*Term // leaf (var/sha/sig) terms used in BV form
	intUsed map[int]*Term // terms x with BV2I(x) used
	visited map[int]bool
}

func emit(sb *strings.Builder, defined map[int]bool, st *emitState, t *Term) {
	if st.visited[t.id] {
		return
	}
	st.visited[t.id] = true
	switch t.op {
	case OConst:
		return
	case OVar, OSHA, OSIG:
		st.bvUsed[t.id] = t
		if !defined[t.id] {
			defined[t.id] = true
			fmt.Fprintf(sb, "(declare-const %s %s)\n", ref(t), sortStr(t))
		}
		return
	case OBV2I:
		st.intUsed[t.a[0].id] = t.a[0]
		k := -t.a[0].id - 1
		if !defined[k] {
			defined[k] = true
			fmt.Fprintf(sb, "(declare-const i%d Int)\n", t.a[0].id)
		}
		return
	}
	for _, x := range t.a {
		emit(sb, defined, st, x)
	}
	if defined[t.id] {
		return
	}
	defined[t.id] = true
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortStr(t))
	r := func(i int) string { return ref(t.a[i]) }
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", int(t.u)+t.w-1, t.u, r(0))
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a[0].w, r(0))
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a[0].w, r(0))
	case OI2BV:
		fmt.Fprintf(sb, "((_ int2bv %d) %s)", t.w, r(0))
	case OIte:
		fmt.Fprintf(sb, "(ite %s %s %s)", r(0), r(1), r(2))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		fmt.Fprintf(sb, "(%s RNE %s %s)", n, r(0), r(1))
	case OU2F:
		fmt.Fprintf(sb, "((_ to_fp_unsigned 11 53) RNE %s)", r(0))
	case OS2F:
		fmt.Fprintf(sb, "((_ to_fp 11 53) RNE %s)", r(0))
	case OF2U:
		fmt.Fprintf(sb, "((_ fp.to_ubv %d) RTZ %s)", t.w, r(0))
	case OF2S:
		fmt.Fprintf(sb, "((_ fp.to_sbv %d) RTZ %s)", t.w, r(0))
	default:
		n := opNames[t.op]
		if n == "" {
			panic(fmt.Sprintf("emit: no op name %d", t.op))
		}
		sb.WriteString("(" + n)
		for i := range t.a {
			sb.WriteString(" " + r(i))
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

// script returns declarations + assertion lines, and the list of values to read.
func (s *Solver) script(defined map[int]bool, cons []*Term, pairs [][2]*Term, lin bool) (decl string, asserts []string, reads []string, readKeys []string) {
	cons = s.ctx.floatViews(cons)
	var li []*Term
	if lin && len(pairs) == 0 {
		li = s.ctx.linInt(cons)
	}
	if li != nil {
		cons = li
	} else {
		cons = s.ctx.intViews(cons)
	}
	var sb strings.Builder
	st := &emitState{map[int]*Term{}, map[int]*Term{}, map[int]bool{}}
	for _, c := range cons {
		emit(&sb, defined, st, c)
	}
	// Int views
	done := map[int]bool{}
	for {
		progress := false
		for id, x := range st.intUsed {
			if done[id] {
				continue
			}
			done[id] = true
			progress = true
			asserts = append(asserts, fmt.Sprintf("(and (<= 0 i%d) (< i%d %s))", id, id, new(big.Int).Lsh(big.NewInt(1), uint(x.w)).String()))
			leaf := x.op == OVar || x.op == OSHA || x.op == OSIG
			if !leaf {
				emit(&sb, defined, st, x)
				asserts = append(asserts, fmt.Sprintf("(= i%d (bv2nat %s))", id, ref(x)))
			}
		}
		if !progress {
			break
		}
	}
	// hash axioms, as far as they are needed
	for _, pr := range pairs {
		a, b := pr[0], pr[1]
		emit(&sb, defined, st, a)
		emit(&sb, defined, st, b)
		if a.a[0].w != b.a[0].w || a.u != b.u {
			asserts = append(asserts, fmt.Sprintf("(not (= %s %s))", ref(a), ref(b)))
			continue
		}
		e := s.ctx.Eq(a.a[0], b.a[0])
		emit(&sb, defined, st, e)
		asserts = append(asserts, fmt.Sprintf("(= (= %s %s) %s)", ref(a), ref(b), ref(e)))
	}
	for id, x := range st.intUsed {
		leaf := x.op == OVar || x.op == OSHA || x.op == OSIG
		if leaf {
			if st.bvUsed[id] != nil {
				asserts = append(asserts, fmt.Sprintf("(= i%d (bv2nat %s))", id, ref(x)))
			} else {
				reads = append(reads, fmt.Sprintf("i%d", id))
				readKeys = append(readKeys, varKey(x))
				if x.op == OSHA {
					asserts = append(asserts, fmt.Sprintf("(< 0 i%d)", id))
				}
			}
		}
	}
	for _, a := range st.bvUsed {
		if a.op == OSHA {
			asserts = append(asserts, fmt.Sprintf("(not (= %s (_ bv0 256)))", ref(a)))
		}
	}
	for _, x := range st.bvUsed {
		reads = append(reads, ref(x))
		readKeys = append(readKeys, varKey(x))
	}
	for _, c := range cons {
		asserts = append(asserts, ref(c))
	}
	return sb.String(), asserts, reads, readKeys
}

// Check decides the conjunction. Returns "sat","unsat","unknown".
func (s *Solver) Check(cons []*Term) (string, Model) {
	if len(cons) == 0 {
		return "sat", Model{}
	}
	key := make([]byte, 0, len(cons)*4)
	ids := make([]int, 0, len(cons))
	for _, c := range cons {
		ids = append(ids, c.id)
	}
	// insertion sort
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j-1] > ids[j]; j-- {
			ids[j-1], ids[j] = ids[j], ids[j-1]
		}
	}
	for _, id := range ids {
		key = append(key, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	if r, ok := s.cache[string(key)]; ok {
		s.stats.Cached++
		return r.r, r.m
	}
	t0 := time.Now()
	r, m := s.check(cons)
	s.stats.Queries++
	s.stats.Time += time.Since(t0)
	if debugSMT && time.Since(t0) > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %v %s\n", time.Since(t0), r)
		for _, c := range cons {
			fmt.Fprintln(os.Stderr, "   ", c)
		}
	}
	switch r {
	case "sat":
		s.stats.Sat++
	case "unsat":
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	s.cache[string(key)] = qres{r, m}
	return r, m
}

// debugForks (GOSYM_FORKS): where paths divide
var debugForks = func() func(string) {
	if os.Getenv("GOSYM_FORKS") == "" {
		return nil
	}
	return func(w string) { fmt.Fprintln(os.Stderr, "FORK", w) }
}()

var debugSMT = os.Getenv("GOSYM_DEBUG_SMT") != ""

// check solves without the axioms of hashing and signing, and adds those that a model breaks
func (s *Solver) check(cons []*Term) (string, Model) {
	var pairs [][2]*Term
	have := map[[2]int]bool{}
	for {
		r, m := s.check1(cons, pairs)
		if r != "sat" {
			return r, m
		}
		n := 0
		for _, p := range s.broken(cons, m) {
			k := [2]int{p[0].id, p[1].id}
			if !have[k] {
				have[k] = true
				pairs = append(pairs, p)
				n++
			}
		}
		if n == 0 {
			return r, m
		}
	}
}

// broken: pairs of hash or signature terms whose values contradict injectivity in this model
func (s *Solver) broken(cons []*Term, m Model) [][2]*Term {
	var apps []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, x := range t.a {
			walk(x)
		}
		if t.op == OSHA || t.op == OSIG {
			apps = append(apps, t)
		}
	}
	for _, c := range cons {
		walk(c)
	}
	if len(apps) < 2 {
		return nil
	}
	ev := NewEval(s.ctx, m, false)
	var out [][2]*Term
	byVal, byPre := map[string]*Term{}, map[string]*Term{}
	for _, a := range apps {
		v := fmt.Sprintf("%d %s", a.op, ev.Eval(a).bigVal())
		p := fmt.Sprintf("%d %d %d %s", a.op, a.u, a.a[0].w, ev.Eval(a.a[0]).bigVal())
		b, c := byVal[v], byPre[p]
		if b != c {
			if b != nil {
				out = append(out, [2]*Term{b, a})
			}
			if c != nil {
				out = append(out, [2]*Term{c, a})
			}
		}
		if b == nil {
			byVal[v] = a
		}
		if c == nil {
			byPre[p] = a
		}
	}
	return out
}

func (s *Solver) check1(cons []*Term, pairs [][2]*Term) (string, Model) {
	if s.cmd == nil {
		s.start()
	}
	decl, asserts, reads, keys := s.script(s.defined, cons, pairs, true)
	var sb strings.Builder
	sb.WriteString(decl)
	sb.WriteString("(push 1)\n")
	for _, a := range asserts {
		sb.WriteString("(assert " + a + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if debugSMT {
		fmt.Fprintln(os.Stderr, sb.String())
	}
	io.WriteString(s.in, sb.String())
	line := s.readLine()
	if line == "sat" {
		m := s.getModel(reads, keys)
		io.WriteString(s.in, "(pop 1)\n")
		if m == nil {
			return s.fallback(cons, pairs)
		}
		return "sat", m
	}
	if line == "unsat" {
		io.WriteString(s.in, "(pop 1)\n")
		return "unsat", nil
	}
	if line == "unknown" || strings.HasPrefix(line, "timeout") {
		io.WriteString(s.in, "(pop 1)\n")
		return s.fallback(cons, pairs)
	}
	fmt.Fprintf(os.Stderr, "solver said: %s\n", line)
	s.Close()
	return s.fallback(cons, pairs)
}

func (s *Solver) readLine() string {
	ch := make(chan string, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				l = "eof"
			}
			if l = strings.TrimSpace(l); l != "" {
				ch <- l
				return
			}
		}
	}()
	select {
	case l := <-ch:
		return l
	case <-time.After(time.Duration(s.softMs)*time.Millisecond*4 + 5*time.Second):
		s.cmd.Process.Kill()
		return "hung"
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	d := 0
	inBar := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return ""
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if !inBar {
			if b == '(' {
				d++
				started = true
			} else if b == ')' {
				d--
			}
		}
		if started && d == 0 {
			return sb.String()
		}
	}
}

func (s *Solver) getModel(reads, keys []string) Model {
	m := Model{}
	if len(reads) == 0 {
		return m
	}
	io.WriteString(s.in, "(get-value ("+strings.Join(reads, " ")+"))\n")
	return parseModel(s.readSexp(), keys)
}

func parseModel(sx string, keys []string) Model {
	m := Model{}
	// ((name val) (name val) ...)
	toks := tokenize(sx)
	pos := 0
	if len(toks) == 0 || toks[0] != "(" {
		return nil
	}
	pos = 1
	for _, k := range keys {
		if pos >= len(toks) || toks[pos] != "(" {
			return nil
		}
		pos++ // (
		pos++ // name
		// value: token or nested
		v := new(big.Int)
		if toks[pos] == "(" {
			// (- n) or (_ bvN w)
			if toks[pos+1] == "-" {
				v.SetString(toks[pos+2], 10)
				v.Neg(v)
				pos += 4
			} else if toks[pos+1] == "_" {
				v.SetString(strings.TrimPrefix(toks[pos+2], "bv"), 10)
				pos += 5
			} else {
				return nil
			}
		} else {
			tk := toks[pos]
			switch {
			case tk == "true":
				v.SetInt64(1)
			case tk == "false":
			case strings.HasPrefix(tk, "#x"):
				v.SetString(tk[2:], 16)
			case strings.HasPrefix(tk, "#b"):
				v.SetString(tk[2:], 2)
			default:
				if _, ok := v.SetString(tk, 10); !ok {
					return nil
				}
			}
			pos++
		}
		if pos >= len(toks) || toks[pos] != ")" {
			return nil
		}
		pos++
		m[k] = v
	}
	return m
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// fallback: one-shot portfolio on a standalone script.
func (s *Solver) fallback(cons []*Term, pairs [][2]*Term) (string, Model) {
	s.stats.Fallback++
	text := func(lin bool) (string, []string, []string) {
		decl, asserts, reads, keys := s.script(map[int]bool{}, cons, pairs, lin)
		var sb strings.Builder
		sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
		sb.WriteString(decl)
		for _, a := range asserts {
			sb.WriteString("(assert " + a + ")\n")
		}
		sb.WriteString("(check-sat)\n")
		if len(reads) > 0 {
			sb.WriteString("(get-value (" + strings.Join(reads, " ") + "))\n")
		}
		return sb.String(), reads, keys
	}
	scr, reads, keys := text(true)
	scr2, reads2, keys2 := text(false)
	if debugSMT {
		os.WriteFile(fmt.Sprintf("/tmp/hard_%d.smt2", time.Now().UnixNano()), []byte(scr), 0644)
	}
	type ans struct {
		r string
		m Model
	}
	cmds := [][]string{
		{"z3", "-in", "-smt2"},
		{"z3-new", "-in", "-smt2", "sat.euf=true"},
		{"cvc5", "--lang=smt2", "--produce-models", "-"},
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.hardS)*time.Second)
	defer cancel()
	ch := make(chan ans, len(cmds))
	for _, cl := range cmds {
		go func(cl []string) {
			scr, reads, keys := scr, reads, keys
			if cl[0] == "z3-new" {
				scr, reads, keys = scr2, reads2, keys2
			}
			cmd := exec.CommandContext(ctx, cl[0], cl[1:]...)
			cmd.Stdin = strings.NewReader(scr)
			out, _ := cmd.Output()
			txt := string(out)
			nl := strings.IndexByte(txt, '\n')
			if nl < 0 {
				nl = len(txt)
			}
			switch strings.TrimSpace(txt[:nl]) {
			case "sat":
				m := Model{}
				if len(reads) > 0 {
					m = parseModel(txt[nl:], keys)
				}
				if m == nil {
					ch <- ans{"unknown", nil}
					return
				}
				ch <- ans{"sat", m}
			case "unsat":
				ch <- ans{"unsat", nil}
			default:
				ch <- ans{"unknown", nil}
			}
		}(cl)
	}
	for range cmds {
		a := <-ch
		if a.r != "unknown" {
			return a.r, a.m
		}
	}
	return "unknown", nil
}

// intViews moves comparisons of 256-bit (or other) unknowns to the integers when the unknown is
// otherwise used as an integer only: mixing both views is what solvers are bad at.
func (c *Ctx) intViews(cons []*Term) []*Term {
	leaf := func(t *Term) bool { return t.op == OVar || t.op == OSHA || t.op == OSIG }
	inS, inB := map[int]bool{}, map[int]bool{}
	var edges [][2]*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	use := func(t *Term) { // t is used as a bit-vector
		if leaf(t) {
			inB[t.id] = true
		} else {
			walk(t)
		}
	}
	cmp := func(t *Term) bool {
		if t.op != OUlt && t.op != OUle && !(t.op == OEq && t.a[0].sk == KBV) {
			return false
		}
		return (leaf(t.a[0]) || t.a[0].isConst()) && (leaf(t.a[1]) || t.a[1].isConst())
	}
	any := false
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if leaf(t) || t.isConst() {
			return
		}
		if t.op == OBV2I {
			if leaf(t.a[0]) {
				inS[t.a[0].id] = true
				any = true
				return
			}
			walk(t.a[0])
			return
		}
		if cmp(t) {
			edges = append(edges, [2]*Term{t.a[0], t.a[1]})
			return
		}
		for _, x := range t.a {
			use(x)
		}
	}
	for _, t := range cons {
		walk(t)
	}
	if !any {
		return cons
	}
	for ch := true; ch; {
		ch = false
		for _, e := range edges {
			for k := 0; k < 2; k++ {
				x, y := e[k], e[1-k]
				if !leaf(x) || !leaf(y) {
					continue
				}
				if inB[x.id] && !inB[y.id] {
					inB[y.id] = true
					ch = true
				}
				if inS[x.id] && !inS[y.id] {
					inS[y.id] = true
					ch = true
				}
			}
		}
	}
	good := func(t *Term) bool { return t.isConst() || inS[t.id] && !inB[t.id] }
	iv := func(t *Term) *Term {
		if t.isConst() {
			return c.Int(t.bigVal())
		}
		return c.mk(OBV2I, KInt, 0, []*Term{t}, 0, nil, "")
	}
	memo := map[int]*Term{}
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if t.sk != KBool || len(t.a) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := t
		if cmp(t) {
			if good(t.a[0]) && good(t.a[1]) {
				a, b := iv(t.a[0]), iv(t.a[1])
				switch t.op {
				case OUlt:
					r = c.mk(OILt, KBool, 0, []*Term{a, b}, 0, nil, "")
				case OUle:
					r = c.mk(OILe, KBool, 0, []*Term{a, b}, 0, nil, "")
				case OEq:
					r = c.mk(OEq, KBool, 0, []*Term{a, b}, 0, nil, "")
				}
			}
		} else {
			var na []*Term
			for i, x := range t.a {
				y := rw(x)
				if y != x && na == nil {
					na = append([]*Term{}, t.a...)
				}
				if na != nil {
					na[i] = y
				}
			}
			if na != nil {
				r = c.mk(t.op, t.sk, t.w, na, t.u, t.b, t.name)
			}
		}
		memo[t.id] = r
		return r
	}
	out := make([]*Term, len(cons))
	for i, t := range cons {
		out[i] = rw(t)
	}
	return out
}
