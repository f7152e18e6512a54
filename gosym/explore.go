package main

import (
	"fmt"
	"go/ast"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness: one entry function with its configuration (doc-comment directives)
type Harness struct {
	Name   string
	Fn     *ssa.Function
	Cfg    HCfg
	Doc    []string
	Bounds []string
	Assume []string
	Reach  []string
	Sched  bool // counterexamples depend on the schedule
	Quick  bool
	Budget int // seconds
	Native bool
	Xfs    bool

	// results
	mu         sync.Mutex
	queue      []PathTask
	active     int
	Started    int
	Done       map[endKind]int
	Msgs       map[string]int
	Notes      map[string]int
	Reached    map[string]int
	Viols      []Violation
	Steps      int64
	Decs       int
	Asserts    int
	Triv       int
	Inexact    []map[string]string // witnesses whose hashes or signatures are stand-ins: replayed, but may miss an assumption natively
	Witness    []map[string]string
	WitnessPre [][]Decision
	Unfinished int
	Wall       time.Duration
	start      time.Time
	stop       bool
	nKnown     map[string]int // violations of known findings, by assertion
	nNew       int            // other violations
	onViol     func(*Harness, Violation)
}

func defCfg() HCfg {
	return HCfg{maxSteps: 3_000_000, maxPaths: 20000, hangSec: 120, allocLimit: 1 << 22, mapOrder: 0, mapOrderMax: 3}
}

// harnesses with the given prefix
func (p *Program) harnesses(prefix string, thorough bool) ([]*Harness, error) {
	var out []*Harness
	sp := p.prog.Package(p.harnPkg.Types)
	for _, f := range p.harnPkg.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, prefix) || !isHarnessName(fd.Name.Name) {
				continue
			}
			h := &Harness{Name: fd.Name.Name, Fn: sp.Func(fd.Name.Name), Cfg: defCfg(), Quick: true, Native: true, Budget: 300,
				Done: map[endKind]int{}, Msgs: map[string]int{}, Notes: map[string]int{}, Reached: map[string]int{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					k, v, ok := strings.Cut(t, ":")
					if !ok {
						h.Doc = append(h.Doc, t)
						continue
					}
					v = strings.TrimSpace(v)
					switch k {
					case "cfg":
						if err := h.config(v); err != nil {
							return nil, fmt.Errorf("%s: %v", h.Name, err)
						}
					case "cfg-thorough":
						if thorough {
							if err := h.config(v); err != nil {
								return nil, fmt.Errorf("%s: %v", h.Name, err)
							}
						}
					case "bounds":
						h.Bounds = append(h.Bounds, v)
					case "assumes":
						h.Assume = append(h.Assume, v)
					case "reach":
						h.Reach = append(h.Reach, strings.Fields(v)...)
					default:
						h.Doc = append(h.Doc, t)
					}
				}
			}
			if !thorough && !h.Quick {
				continue
			}
			out = append(out, h)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, nil
}

func isHarnessName(s string) bool {
	return len(s) > 4 && s[0] == 'C' && s[1] >= '0' && s[1] <= '9' && s[2] >= '0' && s[2] <= '9' && s[3] == '_'
}

func (h *Harness) config(v string) error {
	for _, kv := range strings.Fields(v) {
		k, x, _ := strings.Cut(kv, "=")
		n, err := strconv.ParseInt(x, 10, 64)
		bad := func() error { return fmt.Errorf("bad cfg %q", kv) }
		switch k {
		case "tier":
			h.Quick = x != "thorough"
			continue
		case "native":
			h.Native = x != "no"
			continue
		case "freeze":
			ps := strings.Split(x, ",")
			if len(ps) != 3 {
				return bad()
			}
			h.Cfg.freezeFn, h.Cfg.freezeIn = ps[0], ps[1]
			h.Cfg.freezeN, err = strconv.Atoi(ps[2])
			if err != nil {
				return bad()
			}
			continue
		case "panicok":
			h.Cfg.panicOK = true
			continue
		case "sched":
			h.Sched = true
			continue
		case "zos":
			h.Xfs = true
			continue
		}
		if err != nil {
			return bad()
		}
		switch k {
		case "paths":
			h.Cfg.maxPaths = int(n)
		case "steps":
			h.Cfg.maxSteps = n
		case "preempt":
			h.Cfg.preempt = int(n)
			h.Sched = true
		case "sel":
			h.Cfg.selFork = int(n)
		case "maporder":
			h.Cfg.mapOrder = int(n)
		case "mapordermax":
			h.Cfg.mapOrderMax = int(n)
		case "hang":
			h.Cfg.hangSec = n
		case "short":
			h.Cfg.shortReads = int(n)
		case "alloc":
			h.Cfg.allocLimit = n
		case "budget":
			h.Budget = int(n)
		default:
			return bad()
		}
	}
	return nil
}

func newWorker(p *Program, softMs, hardS int) *Worker {
	c := NewCtx()
	return &Worker{p: p, ctx: c, solver: NewSolver(c, softMs, hardS), fns: map[*ssa.Function]*fnInfo{}, funcs: map[string]int64{},
		summ: map[*ssa.Function]*Summary{}, constCache: map[*ssa.Const]Value{}, intrCache: map[*ssa.Function]intrinsic{},
		substCache: map[*ssa.Function]*ssa.Function{}}
}

type Totals struct {
	mu    sync.Mutex
	stats SolverStats
	funcs map[string]int64
}

func (t *Totals) add(w *Worker) {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := w.solver.stats
	t.stats.Queries += s.Queries
	t.stats.Sat += s.Sat
	t.stats.Unsat += s.Unsat
	t.stats.Unknown += s.Unknown
	t.stats.Fallback += s.Fallback
	t.stats.Cached += s.Cached
	t.stats.Time += s.Time
	for k, v := range w.funcs {
		t.funcs[k] += v
	}
}

const ctxLimit = 2_500_000

// explore runs all harnesses on n workers until their queues are empty or the deadline passes
func explore(p *Program, hs []*Harness, n int, deadline time.Time, softMs, hardS int) *Totals {
	tot := &Totals{funcs: map[string]int64{}}
	p.deadline = deadline.Add(120 * time.Second)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	for _, h := range hs {
		h.queue = []PathTask{{}}
		h.start = time.Now()
	}
	rr := 0
	busy := 0
	next := func() (*Harness, PathTask, bool) {
		mu.Lock()
		defer mu.Unlock()
		for {
			for k := 0; k < len(hs); k++ {
				h := hs[(rr+k)%len(hs)]
				if h.stop || len(h.queue) == 0 {
					continue
				}
				if p.halt.Load() || h.Started >= h.Cfg.maxPaths || time.Now().After(deadline) || (h.Started > 0 && time.Since(h.start) > time.Duration(h.Budget)*time.Second) {
					h.stop = true
					h.Unfinished = len(h.queue)
					h.Wall = time.Since(h.start)
					continue
				}
				rr = (rr + k + 1) % len(hs)
				t := h.queue[len(h.queue)-1]
				h.queue = h.queue[:len(h.queue)-1]
				if h.Started == 0 {
					h.start = time.Now()
				}
				h.Started++
				h.active++
				busy++
				return h, t, true
			}
			if busy == 0 {
				cond.Broadcast()
				return nil, PathTask{}, false
			}
			cond.Wait()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(p, softMs, hardS)
			defer func() { tot.add(w); w.solver.Close() }()
			for {
				h, t, ok := next()
				if !ok {
					return
				}
				r := w.runPath(&h.Cfg, h.Fn, t)
				mu.Lock()
				h.active--
				busy--
				h.collect(&r, t)
				if h.onViol != nil {
					for i := range r.Viols {
						if !h.isKnown(r.Viols[i].Msg) {
							h.onViol(h, r.Viols[i])
						}
					}
				}
				if h.stop {
					h.Unfinished += len(r.New)
				} else {
					h.queue = append(h.queue, r.New...)
				}
				if h.active == 0 && len(h.queue) == 0 {
					h.Wall = time.Since(h.start)
				}
				cond.Broadcast()
				mu.Unlock()
				if w.ctx.n > ctxLimit {
					tot.add(w)
					w.solver.Close()
					w = newWorker(p, softMs, hardS)
				}
			}
		}()
	}
	wg.Wait()
	return tot
}

var verbose = false

func (h *Harness) collect(r *PathResult, t PathTask) {
	h.Done[r.End.kind]++
	if r.End.kind == endUnsupported || r.End.kind == endBudget || r.End.kind == endUnknown {
		h.Msgs[r.End.msg]++
	}
	for _, n := range r.Notes {
		h.Notes[n]++
	}
	if r.End.kind != endInfeasible {
		for _, n := range r.Reached {
			h.Reached[n]++
		}
	}
	for _, v := range r.Viols {
		if h.isKnown(v.Msg) {
			if h.nKnown[v.Msg]++; h.nKnown[v.Msg] > 3 {
				continue
			}
		} else {
			h.nNew++
		}
		h.Viols = append(h.Viols, v)
	}
	if len(r.Viols) > 0 && h.nNew >= 12 {
		h.stop = true
		h.Unfinished += len(h.queue)
	}
	h.Steps += r.Steps
	h.Decs += r.NDecs - len(t.Prefix)
	h.Asserts += r.Asserts
	h.Triv += r.AssertsTriv
	if r.Inputs != nil && r.Exact && len(h.Witness) < 4000 {
		h.Witness = append(h.Witness, r.Inputs)
	} else if r.Inputs != nil && len(h.Inexact) < 200 {
		h.Inexact = append(h.Inexact, r.Inputs)
	}
	if verbose {
		fmt.Printf("  %s path#%d end=%d %s steps=%d decs=%d new=%d reached=%v\n", h.Name, h.Started, r.End.kind, r.End.msg, r.Steps, r.NDecs, len(r.New), r.Reached)
	}
}

// isKnown: the assertion is in the list of known findings
func (h *Harness) isKnown(msg string) bool {
	_, has := h.nKnown[msg]
	return has
}

func (h *Harness) complete() bool {
	return h.Unfinished == 0 && h.Done[endUnsupported] == 0 && h.Done[endBudget] == 0 && h.Done[endUnknown] == 0
}
