package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check <property> [quick|thorough] | run <harness prefix> | replay <file> | list | externs")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(os.Args[2], tier))
	case "run":
		devRun(os.Args[2:])
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	case "list":
		p := mustLoad()
		hs, err := p.harnesses("", true)
		if err != nil {
			panic(err)
		}
		for _, h := range hs {
			fmt.Println(h.Name)
		}
	case "warm":
		mustLoad()
		_, clean, err := buildReplay()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		clean()
	case "externs":
		mustLoad().externs()
	default:
		os.Exit(2)
	}
}

func mustLoad() *Program {
	p, err := loadProgram()
	if err != nil {
		fmt.Println("cannot load the program:", err)
		os.Exit(2)
	}
	return p
}

func endName(k endKind) string {
	return [...]string{"completed", "infeasible", "violation", "unsupported", "budget", "unknown"}[k]
}

// devRun: development aid
func devRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	v := fs.Bool("v", false, "print each path")
	th := fs.Bool("thorough", false, "")
	nat := fs.Int("native", 0, "replay this many witnesses natively")
	nw := fs.Int("j", runtime.NumCPU(), "workers")
	bud := fs.Int("budget", 600, "seconds")
	prof := fs.String("prof", "", "cpu profile")
	fs.Parse(args)
	verbose = *v
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p := mustLoad()
	p.thorough = *th
	fmt.Printf("loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	hs, err := p.harnesses(fs.Arg(0), *th)
	if err != nil {
		panic(err)
	}
	tot := explore(p, hs, *nw, time.Now().Add(time.Duration(*bud)*time.Second), 20000, 40)
	for _, h := range hs {
		h.print(true)
	}
	fmt.Printf("queries %d (sat %d unsat %d unknown %d cached %d fallback %d) solver %v wall %v\n", tot.stats.Queries, tot.stats.Sat, tot.stats.Unsat, tot.stats.Unknown, tot.stats.Cached, tot.stats.Fallback, tot.stats.Time.Round(time.Millisecond), time.Since(t0).Round(time.Millisecond))
	needNative := *nat > 0
	for _, h := range hs {
		needNative = needNative || len(h.Viols) > 0
	}
	if *nat < 0 || !needNative {
		return
	}
	bin, clean, err := buildReplay()
	if err != nil {
		fmt.Println("native build:", err)
		return
	}
	defer clean()
	for _, h := range hs {
		if !h.Native {
			continue
		}
		if len(h.Witness) == 0 {
			h.Witness = h.Inexact
		}
		for _, w := range pick(h.Witness, *nat) {
			r := nativeRun(bin, h.Name, w, p.thorough, 60)
			fmt.Printf("  %s witness native: %s\n", h.Name, r.desc())
			if r.code != 0 {
				fmt.Printf("    inputs: %s\n    %s\n", js(w), r.tail())
			}
		}
		for i, v := range h.Viols {
			if i >= 4 {
				break
			}
			r := nativeRun(bin, h.Name, v.Inputs, p.thorough, 60)
			fmt.Printf("  %s violation native: %s\n    %s\n", h.Name, r.desc(), r.tail())
		}
	}
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

func pick(ws []map[string]string, n int) []map[string]string {
	if len(ws) <= n {
		return ws
	}
	var out []map[string]string
	for i := 0; i < n; i++ {
		out = append(out, ws[i*len(ws)/n])
	}
	return out
}

func (h *Harness) print(full bool) {
	fmt.Printf("%s: started=%d", h.Name, h.Started)
	for k := endOK; k <= endUnknown; k++ {
		if h.Done[k] > 0 {
			fmt.Printf(" %s=%d", endName(k), h.Done[k])
		}
	}
	fmt.Printf(" unfinished=%d asserts=%d(trivial %d) steps=%d decs=%d exact=%d wall=%v reached=%v\n", h.Unfinished, h.Asserts, h.Triv, h.Steps, h.Decs, len(h.Witness), h.Wall.Round(time.Millisecond), h.Reached)
	for m, n := range h.Msgs {
		fmt.Printf("   end x%d: %s\n", n, m)
	}
	for m, n := range h.Notes {
		fmt.Printf("   note x%d: %s\n", n, m)
	}
	seen := map[string]int{}
	for _, v := range h.Viols {
		seen[v.Msg+" @ "+v.Where]++
		if seen[v.Msg+" @ "+v.Where] == 1 && full {
			fmt.Printf("   VIOL %s\n     at %s\n     inputs %s\n", v.Msg, v.Where, js(v.Inputs))
			for i, t := range v.Trace {
				if i > 40 {
					break
				}
				fmt.Printf("     trace %s\n", t)
			}
		}
	}
}

// ---------- known findings

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Assert   string `json:"assert"` // exact assertion message
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadFindings() []Finding {
	f, err := os.Open(verifDir + "/known_findings.jsonl")
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []Finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		t := strings.TrimSpace(sc.Text())
		if t == "" {
			continue
		}
		var x Finding
		if err := json.Unmarshal([]byte(t), &x); err != nil {
			fmt.Println("known_findings.jsonl:", err)
			continue
		}
		out = append(out, x)
	}
	return out
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Message  string            `json:"message"`
	Where    string            `json:"where"`
	Inputs   map[string]string `json:"inputs"`
	Trace    []string          `json:"trace,omitempty"`
	Native   string            `json:"native_replay"`
	Decs     []Decision        `json:"decisions"`
	How      string            `json:"how"`
}

// check decides one property
func check(prop, tier string) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	total := 420 * time.Second
	if thorough {
		total = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			total = d
		}
	}
	p, err := loadProgram()
	if err != nil {
		fmt.Println("cannot load the program:", err)
		return 2
	}
	p.thorough = thorough
	hs, err := p.harnesses(prop+"_", thorough)
	if err != nil || len(hs) == 0 {
		fmt.Println("no harness for", prop, err)
		return 2
	}
	if thorough {
		for _, h := range hs {
			h.Budget *= 10
			h.Cfg.maxPaths *= 20
		}
	}
	type buildRes struct {
		bin   string
		clean func()
		err   error
	}
	bch := make(chan buildRes, 1)
	go func() {
		b, c, e := buildReplay()
		bch <- buildRes{b, c, e}
	}()
	soft, hard := 15000, 30
	if thorough {
		soft, hard = 60000, 180
	}
	findings := loadFindings()
	for _, h := range hs {
		h.nKnown = map[string]int{}
		for _, f := range findings {
			if f.Status == "known" && f.Property == prop && f.Harness == h.Name {
				h.nKnown[f.Assert] = 0
			}
		}
	}
	// counterexamples are replayed as they come; the first that is confirmed ends the exploration
	var br buildRes
	built := make(chan bool)
	go func() {
		br = <-bch
		if br.err != nil {
			fmt.Println("native build failed:", br.err)
		}
		close(built)
	}()
	replayUntil := t0.Add(total + 330*time.Second)
	tried := map[string][2]string{} // harness, assertion and inputs -> verdict
	tryKey := func(h *Harness, v *Violation) string { return h.Name + "|" + v.Msg + "|" + js(v.Inputs) }
	replay := func(h *Harness, v *Violation) (bool, string) {
		k := tryKey(h, v)
		if r, has := tried[k]; has {
			return r[0] == "yes", r[1]
		}
		ok, how := confirm(h, br.bin, br.err == nil, v, thorough, replayUntil)
		r := [2]string{"no", how}
		if ok {
			r[0] = "yes"
		}
		tried[k] = r
		return ok, how
	}
	found := make(chan func(), 64)
	for _, h := range hs {
		tries := map[string]int{}
		h.onViol = func(h *Harness, v Violation) { // called under the exploration's lock
			if tries[v.Msg]++; tries[v.Msg] > 3 {
				return
			}
			select {
			case found <- func() {
				if ok, _ := replay(h, &v); ok {
					p.halt.Store(true)
				}
			}:
			default:
			}
		}
	}
	replayed := make(chan bool)
	go func() {
		<-built
		for f := range found {
			if !p.halt.Load() {
				f()
			}
		}
		close(replayed)
	}()
	tot := explore(p, hs, runtime.NumCPU(), t0.Add(total), soft, hard)
	close(found)
	<-replayed
	if br.clean != nil {
		defer br.clean()
	}
	os.MkdirAll(evidDir+"/replays", 0755)
	old, _ := filepath.Glob(evidDir + "/replays/" + prop + "-*.json")
	for _, f := range old {
		os.Remove(f)
	}
	known := map[string]bool{}
	var incon []string
	nviol := 0
	nativeOK, nativeBad := 0, 0
	var samples []interface{}
	var mismatches []string
	type job struct {
		h       *Harness
		in      map[string]string
		res     nativeResult
		inexact bool
	}
	var jobs []*job
	nw := 4
	if thorough {
		nw = 12
	}
	for _, h := range hs {
		if h.Native && br.err == nil && !p.halt.Load() {
			for _, w := range pick(h.Witness, nw) {
				jobs = append(jobs, &job{h: h, in: w})
			}
			if len(h.Witness) == 0 {
				for _, w := range pick(h.Inexact, nw/2) {
					jobs = append(jobs, &job{h: h, in: w, inexact: true})
				}
			}
		}
	}
	sem := make(chan bool, 4)
	done := make(chan bool)
	for _, j := range jobs {
		go func(j *job) {
			sem <- true
			if time.Since(t0) < total+200*time.Second {
				j.res = nativeRun(br.bin, j.h.Name, j.in, thorough, 60)
			} else {
				j.res = nativeResult{code: -2}
			}
			<-sem
			done <- true
		}(j)
	}
	for range jobs {
		<-done
	}
	for _, j := range jobs {
		if j.res.code == 0 {
			nativeOK++
		} else if j.inexact && (j.res.code == 11 || j.res.code == 13) {
			continue
		} else {
			nativeBad++
			mismatches = append(mismatches, j.h.Name+" "+js(j.in)+": "+j.res.desc())
		}
		if len(samples) < 6 {
			samples = append(samples, map[string]interface{}{"harness": j.h.Name, "inputs": trunc(j.in), "native_replay": j.res.desc()})
		}
	}
	k := 0
	for _, h := range hs {
		seen := map[string]int{}
		confirmed := map[string]bool{}
		for _, v := range h.Viols {
			key := v.Msg
			if strings.HasPrefix(v.Msg, "panic") || strings.HasPrefix(v.Msg, "hang") {
				key = v.Msg + v.Where
			}
			if confirmed[key] || seen[key] >= 5 {
				continue
			}
			if _, has := tried[tryKey(h, &v)]; !has && p.halt.Load() && !h.isKnown(v.Msg) {
				continue // one confirmed counterexample is enough
			}
			seen[key]++
			var fd *Finding
			for i := range findings {
				f := &findings[i]
				if f.Status == "known" && f.Property == prop && f.Harness == h.Name && f.Assert == v.Msg {
					fd = f
				}
			}
			if fd != nil {
				if !known[fd.What] {
					known[fd.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, fd.What)
				}
				continue
			}
			ok, how := replay(h, &v)
			if !ok {
				incon = append(incon, fmt.Sprintf("%s: counterexample to %q did not reproduce on the real code (%s); inputs %s", h.Name, v.Msg, how, js(trunc(v.Inputs))))
				continue
			}
			confirmed[key] = true
			nviol++
			k++
			path := fmt.Sprintf("%s/replays/%s-%d.json", evidDir, prop, k)
			rf := replayFile{prop, h.Name, v.Msg, v.Where, v.Inputs, v.Trace, how, v.Decs, "/verif/bin/gosym replay " + path}
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  harness %s: %s\n  at %s\n  inputs %s\n  %s\n", h.Name, v.Msg, v.Where, js(trunc(v.Inputs)), how)
		}
	}
	// evidence
	var perH []interface{}
	states, trans, asserts, comp, infeas := 0, 0, 0, 0, 0
	missing := []string{}
	exhaustive := true
	var assumptions []string
	for _, h := range hs {
		e := map[string]interface{}{"harness": h.Name, "what": strings.Join(h.Doc, " "), "bounds": h.Bounds, "paths_completed": h.Done[endOK], "paths_infeasible": h.Done[endInfeasible],
			"paths_violating": h.Done[endViolation], "assertions_decided": h.Asserts, "assertions_trivially_true": h.Triv, "branch_decisions": h.Decs,
			"instructions": h.Steps, "reach_witnesses": h.Reached, "exhausted_within_bounds": h.complete(), "wall_s": h.Wall.Seconds()}
		if len(h.Msgs) > 0 {
			e["not_encodable_or_over_budget"] = h.Msgs
			for m, n := range h.Msgs {
				incon = append(incon, fmt.Sprintf("%s: %d path(s) ended early: %s", h.Name, n, m))
			}
		}
		if h.Unfinished > 0 {
			incon = append(incon, fmt.Sprintf("%s: %d pending path(s) not explored within the budget", h.Name, h.Unfinished))
		}
		if len(h.Notes) > 0 {
			e["notes"] = h.Notes
		}
		for _, r := range h.Reach {
			if h.Reached[r] == 0 {
				missing = append(missing, h.Name+":"+r)
			}
		}
		exhaustive = exhaustive && h.complete()
		states += h.Done[endOK] + h.Done[endViolation]
		comp += h.Done[endOK]
		infeas += h.Done[endInfeasible]
		trans += h.Decs
		asserts += h.Asserts
		perH = append(perH, e)
		for _, a := range h.Assume {
			assumptions = append(assumptions, h.Name+": "+a)
		}
		h.print(false)
	}
	type fc struct {
		n string
		c int64
	}
	var fcs []fc
	for n, c := range tot.funcs {
		if !strings.Contains(n, "/internal/zharness") && !strings.Contains(n, "/internal/zverif") && !strings.Contains(n, "/internal/zmodel") {
			fcs = append(fcs, fc{strings.ReplaceAll(n, repoMod+"/", ""), c})
		}
	}
	sort.Slice(fcs, func(i, j int) bool { return fcs[i].n < fcs[j].n })
	var fns []string
	for _, f := range fcs {
		fns = append(fns, fmt.Sprintf("%s:%d", f.n, f.c))
	}
	for i := range missing {
		incon = append(incon, "reach witness not met: "+missing[i])
	}
	if len(samples) == 0 {
		for _, h := range hs {
			for _, w := range pick(h.Witness, 2) {
				samples = append(samples, map[string]interface{}{"harness": h.Name, "inputs": trunc(w)})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path with a concrete witness")
	}
	assumptions = append(assumptions, stdAssumptions...)
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": nativeOK, "samples": samples,
		"exhaustive": exhaustive && len(incon) == 0, "harnesses": perH,
		"explanation":                 "states = symbolic paths of the real code decided to their end; transitions = solver-decided branch decisions; every assertion on every path is a solver query over all values of the symbolic inputs within the harness bounds",
		"functions_encoded":           fns,
		"solver":                      map[string]interface{}{"queries": tot.stats.Queries, "sat": tot.stats.Sat, "unsat": tot.stats.Unsat, "unknown": tot.stats.Unknown, "cached": tot.stats.Cached, "second_solver": tot.stats.Fallback, "time_s": tot.stats.Time.Seconds()},
		"assertions_decided":          asserts,
		"paths_infeasible":            infeas,
		"inconclusive":                incon,
		"native_replay_disagreements": mismatches,
		"known_findings":              len(known),
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions,
		"wall_s": time.Since(t0).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evidDir+"/"+prop+".json", b, 0644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	for _, s := range incon {
		fmt.Println("INCONCLUSIVE:", s)
	}
	for _, s := range mismatches {
		fmt.Println("NATIVE-MISMATCH:", s)
	}
	fmt.Printf("%s %s: %d paths, %d assertions, %d queries, solver %.1fs, wall %.1fs, violations %d\n", prop, tier, states, asserts, tot.stats.Queries, tot.stats.Time.Seconds(), time.Since(t0).Seconds(), nviol)
	if nviol > 0 {
		return 1
	}
	if comp == 0 {
		fmt.Println("no path was completed: the check has no answer")
		return 2
	}
	return 0
}

var stdAssumptions = []string{
	"SHA-256 is an injective uninterpreted function on the terms compared (no collisions; no fixed points); ECDSA signatures are unforgeable and determined by key and digest",
	"the Go memory model is sequentially consistent for the explored code; data races below the level of the watched operations are not modelled",
	"library models: fmt, strings, strconv, encoding, math/big, sync, time, os, net, net/http and crypto are modelled by the engine (gosym/intrin*.go)",
}

func trunc(in map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range in {
		if len(v) > 90 {
			v = v[:87] + "..."
		}
		out[k] = v
	}
	return out
}
