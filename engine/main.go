package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type TierCfg struct {
	Params map[string]int `json:"params"`
	Budget int            `json:"budget_s"`
}

type CheckCfg struct {
	Pkg         string   `json:"pkg"`
	Quick       TierCfg  `json:"quick"`
	Thorough    TierCfg  `json:"thorough"`
	Bounds      string   `json:"bounds"`
	Assumptions []string `json:"assumptions"`
}

func main() {
	id := flag.String("id", "", "property")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("only", "", "run only harnesses containing this text")
	root := flag.String("root", "/verif", "verification directory")
	replay := flag.String("replay", "", "replay a recorded vector file natively")
	workers := flag.Int("j", 0, "workers")
	budget := flag.Int("budget", 0, "override time budget (s)")
	noev := flag.Bool("noev", false, "do not write evidence")
	cpuprof := flag.String("cpuprofile", "", "")
	flag.Parse()
	debug.SetMaxStack(4 << 30)
	debug.SetGCPercent(200)
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = "quick"
	}
	code := run(*id, *tier, *only, *root, *replay, *workers, *budget, !*noev)
	if *cpuprof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

// knownEnv lists the recorded findings for the native replay.
var knownEnv = ","

type knownFile struct {
	Findings []struct {
		ID       string `json:"id"`
		Property string `json:"property"`
		What     string `json:"what"`
	} `json:"findings"`
}

func run(id, tier, only, root, replayFile string, workers, budget int, writeEv bool) int {
	t0 := time.Now()
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	hdir := filepath.Join(root, "harness")
	modfile := filepath.Join(tmp, "go.mod")
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	gm, err := os.ReadFile(filepath.Join(hdir, "go.mod"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.WriteFile(modfile, []byte(strings.ReplaceAll(string(gm), "=> /repo", "=> "+repo)), 0o644)
	gs, _ := os.ReadFile(filepath.Join(hdir, "go.sum"))
	os.WriteFile(filepath.Join(tmp, "go.sum"), gs, 0o644)

	// native replay binary, built in the background
	bin := filepath.Join(tmp, "replay")
	built := make(chan error, 1)
	go func() {
		cmd := exec.Command("go", "build", "-modfile="+modfile, "-o", bin, "./cmd/replay")
		cmd.Dir = hdir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v: %s", err, out)
		}
		built <- err
	}()
	var buildOnce sync.Once
	var buildErr error
	ready := func() error {
		buildOnce.Do(func() { buildErr = <-built })
		return buildErr
	}
	if replayFile != "" {
		if err := ready(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		b, err := os.ReadFile(replayFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var v Vector
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r := nativeReplay(bin, v)
		fmt.Printf("%s %s %v\n%s", r.Result, r.Label, r.Observed, r.Out)
		if r.Result == "ok" {
			return 0
		}
		return 1
	}

	var cfgs map[string]CheckCfg
	cb, err := os.ReadFile(filepath.Join(root, "checks.json"))
	if err == nil {
		err = json.Unmarshal(cb, &cfgs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	cfg, ok := cfgs[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	tc := cfg.Quick
	if tier == "thorough" {
		tc = cfg.Thorough
	}
	if tc.Budget == 0 {
		tc.Budget = 150
		if tier == "thorough" {
			tc.Budget = 700
		}
	}
	if budget > 0 {
		tc.Budget = budget
	}
	params := map[string]int{}
	if tier == "thorough" {
		for k, v := range cfg.Quick.Params {
			params[k] = v
		}
	}
	for k, v := range tc.Params {
		params[k] = v
	}
	if tier == "thorough" {
		params["thorough"] = 1
	}
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(root, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
			return 2
		}
	}
	known := map[string]bool{}
	for _, f := range kf.Findings {
		if f.Property == id {
			known[f.ID] = true
			knownEnv += f.ID + ","
		}
	}
	pat := "./" + cfg.Pkg
	L, err := Load(hdir, modfile, []string{pat})
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load:", err)
		return 2
	}
	tload := time.Since(t0)
	sp := L.pkgs["verif/harness/"+cfg.Pkg]
	if sp == nil {
		fmt.Fprintln(os.Stderr, "harness package missing")
		return 2
	}
	R := &Run{L: L, params: params, known: known, rng: rand.New(rand.NewSource(seed)),
		covers: map[string]int64{}, unsup: map[string]int64{}, knownHit: map[string]*Violation{}, fnsSeen: map[string]int{},
		funcs: map[string]bool{}, unkMsgs: map[string]int64{}, perHarn: map[string]int64{}, violSeen: map[string]int{}, assertLabels: map[string]int64{}, sampleN: 160}
	R.cond = sync.NewCond(&R.mu)
	var names []string
	for n, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, id+"_") && (only == "" || strings.Contains(n, only)) {
			_ = f
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", id)
		return 2
	}
	required := map[string]bool{}
	for _, n := range names {
		f := sp.Func(n)
		R.harns = append(R.harns, HarnessRef{cfg.Pkg + "." + n, f})
		collectCovers(f, required)
	}
	R.spent = make([]time.Duration, len(R.harns))
	R.running = make([]int, len(R.harns))
	for i := range R.harns {
		R.queues = append(R.queues, []*Job{{harn: i, model: map[string]uint64{}}})
	}
	R.deadline = time.Now().Add(time.Duration(tc.Budget) * time.Second)
	R.confirm = func(v *Violation) (bool, string) {
		if err := ready(); err != nil {
			return false, "replay binary: " + err.Error()
		}
		r := nativeReplay(bin, v.Vec)
		if r.Result == "ok" && v.Kind != "hang" {
			// map iteration order differs from run to run: try again
			many := make([]Vector, 40)
			for i := range many {
				many[i] = v.Vec
			}
			for _, x := range nativeReplayMany(bin, many) {
				if x.Result != "ok" {
					r = x
					break
				}
			}
		}
		switch v.Kind {
		case "assert":
			// the native run may trip an earlier assertion of the same harness: still a real violation
			return r.Result == "violation" || r.Result == "panic", r.Result + " " + r.Label
		case "hang":
			return r.Result == "timeout" || r.Label == "process died", r.Result
		case "panic":
			return r.Result == "panic", r.Result
		case "alloc":
			return r.Result == "alloc" || r.Result == "panic", r.Result
		}
		return false, "?"
	}
	nw := workers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	go func() {
		time.Sleep(time.Until(R.deadline) + 200*time.Millisecond)
		R.mu.Lock()
		R.cond.Broadcast()
		R.mu.Unlock()
	}()
	// progress for debugging
	if os.Getenv("GOSYM_DEBUG") != "" {
		go func() {
			for {
				time.Sleep(5 * time.Second)
				R.mu.Lock()
				fmt.Fprintf(os.Stderr, "[%4.0fs] paths=%d inf=%d queue=%d active=%d asserts=%d unsup=%d %v\n", time.Since(t0).Seconds(), R.paths, R.infeasible, R.queued(), R.active, R.assertQ, len(R.unsup), R.perHarn)
				R.mu.Unlock()
			}
		}()
	}
	var wg sync.WaitGroup
	wfail := make(chan string, nw)
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					R.mu.Lock()
					R.unsup[fmt.Sprint("worker failure: ", r)]++
					R.active--
					R.stop = true
					R.cond.Broadcast()
					R.mu.Unlock()
					wfail <- fmt.Sprint(r)
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "WORKER", r)
						os.Stderr.Write(debug.Stack())
					}
				}
			}()
			R.worker(i)
		}(i)
	}
	allDone := make(chan bool)
	go func() { wg.Wait(); close(allDone) }()

	select {
	case <-allDone:
	case <-time.After(time.Until(R.deadline) + 30*time.Second):
		// a worker does not come back: go on with what the others found

		R.mu.Lock()
		R.timedOut = true
	}
	texp := time.Since(t0)

	// native replay of sampled paths: engine and compiled program must agree
	validated, mismatch := 0, []string{}
	berr := ready()
	if berr == nil && len(R.viol) == 0 {
		var mu sync.Mutex
		sem := make(chan bool, nw)
		var wg2 sync.WaitGroup
		groups := batch(R.samples, nw)
		for _, g := range groups {
			wg2.Add(1)
			g := g
			go func() {
				defer wg2.Done()
				sem <- true
				rs := nativeReplayMany(bin, g)
				<-sem
				mu.Lock()
				defer mu.Unlock()
				for i, v := range g {
					r := rs[i]
					if r.Result != "ok" {
						mismatch = append(mismatch, fmt.Sprintf("%s: native result %s %s, inputs %v", v.Harness, r.Result, r.Label, v.Inputs))
						continue
					}
					if len(r.Observed) != len(v.Observed) || !eqStrs(r.Observed, v.Observed) {
						mismatch = append(mismatch, fmt.Sprintf("%s: observations differ: native %v encoded %v, inputs %v", v.Harness, trunc(r.Observed), trunc(v.Observed), v.Inputs))
						continue
					}
					validated++
				}
			}()
		}
		wg2.Wait()
	}
	var missing []string
	for c := range required {
		if R.covers[c] == 0 {
			missing = append(missing, c)
		}
	}
	sort.Strings(missing)
	complete := !R.timedOut && len(R.unsup) == 0 && len(R.unkMsgs) == 0 && R.stepEnds == 0 && len(R.unconfirmed) == 0
	code := 0
	var viols []map[string]any
	if len(R.viol) > 0 {
		v := R.viol[0]
		code = 1
		p := filepath.Join(root, "evidence", id+".violation.json")
		os.MkdirAll(filepath.Dir(p), 0o755)
		b, _ := json.MarshalIndent(map[string]any{"property": id, "harness": v.Vec.Harness, "inputs": v.Vec.Inputs, "params": v.Vec.Params, "expect": v.Vec.Expect, "label": v.Label, "where": v.Where}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("violated: %s [%s] at %s in %s\ninputs: %v\n", v.Label, v.Kind, v.Where, v.Vec.Harness, v.Vec.Inputs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		viols = append(viols, map[string]any{"description": v.Label + " in " + v.Vec.Harness, "replay": p})
	}
	for _, f := range kf.Findings {
		if f.Property != id {
			continue
		}
		if v := R.knownHit[f.ID]; v != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.ID, f.What)
		} else if code == 0 {
			fmt.Printf("note: listed finding %s was not met in this run\n", f.ID)
		}
	}
	fmt.Printf("%s %s: paths=%d (infeasible %d, unknown %d) decisions=%d steps=%d asserts=%d by solver=%d queries=%d solver=%.1fs validated=%d load=%.1fs explore=%.1fs wall=%.1fs complete=%v merged=%d\n",
		id, tier, R.paths, R.infeasible, R.unknownEnds+R.stepEnds, R.decisions, R.steps, R.asserts, R.assertQ, R.stats.Queries, R.stats.Time.Seconds(), validated, tload.Seconds(), (texp - tload).Seconds(), time.Since(t0).Seconds(), complete, R.merged)
	for _, n := range names {
		fmt.Printf("  %s: %d paths\n", n, R.perHarn[cfg.Pkg+"."+n])
	}
	pr := func(what string, m map[string]int64) {
		for _, k := range sortedKeys(m) {
			fmt.Printf("  %s: %s (%d)\n", what, k, m[k])
		}
	}
	pr("not encodable", R.unsup)
	pr("solver unknown", R.unkMsgs)
	for _, u := range R.unconfirmed {
		fmt.Println("  unconfirmed (not reproduced natively, not reported):", u)
	}
	for i, m := range mismatch {
		if i < 5 {
			fmt.Println("  replay mismatch:", m)
		}
	}
	if len(missing) > 0 {
		fmt.Println("  not reached:", strings.Join(missing, ", "))
	}
	if berr != nil {
		fmt.Println("  replay binary not built:", berr)
	}
	if R.timedOut {
		fmt.Println("  time budget used up before the bounded space was exhausted")
	}
	if os.Getenv("GOSYM_PROF") != "" {
		ks := sortedKeys(R.fnsSeen)
		sort.Slice(ks, func(i, j int) bool { return R.fnsSeen[ks[i]] > R.fnsSeen[ks[j]] })
		for i, k := range ks {
			if i < 40 {
				fmt.Println("  prof", R.fnsSeen[k], k)
			}
		}
	}
	if writeEv {
		asm := append([]string{"the encoding is produced from /repo's current source by go/ssa on every run; the SSA interpreter's semantics and the SMT solver are trusted, sampled paths are replayed against the compiled code"}, cfg.Assumptions...)
		samples := []string{}
		for i, s := range R.samples {
			if i >= 5 {
				break
			}
			samples = append(samples, fmt.Sprintf("%s inputs=%v", s.Harness, truncU(s.Inputs)))
		}
		if len(samples) == 0 && len(R.viol) > 0 {
			samples = append(samples, fmt.Sprintf("%s inputs=%v", R.viol[0].Vec.Harness, truncU(R.viol[0].Vec.Inputs)))
		}
		ev := map[string]any{
			"property": id, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(),
			"assumptions": asm,
			"coverage": map[string]any{
				"states": max64(R.paths+R.infeasible, 1), "transitions": max64(R.steps, 1), "traces_validated_against_impl": validated, "samples": samples,
				"functions_encoded": sortedKeys(R.funcs), "bounds": cfg.Bounds, "params": params,
				"paths": R.paths, "paths_cut_by_assumptions": R.infeasible, "paths_not_encodable": R.unknownEnds, "step_limit_hits": R.stepEnds,
				"branch_decisions": R.decisions, "merged_regions": R.merged,
				"assertions_evaluated": R.asserts, "assertions_discharged_by_query": R.assertQ, "assertions_trivially_true": R.assertTriv, "assertion_labels": R.assertLabels,
				"solver_queries": R.stats.Queries, "solver_sat": R.stats.SatN, "solver_unsat": R.stats.UnsatN, "solver_unknown": R.stats.UnknownN, "solver_time_s": R.stats.Time.Seconds(), "solver_max_query_s": R.stats.MaxQ.Seconds(),
				"cross_checked_with_cvc5": R.crossDone, "cross_check_disagreements": R.crossBad, "cross_check_unknown": R.crossUnk,
				"complete_within_bounds": complete, "time_budget_exhausted": R.timedOut, "not_encodable": R.unsup, "solver_unknowns": R.unkMsgs, "unconfirmed_counterexamples": R.unconfirmed,
				"replay_mismatches": mismatch, "cover_points_reached": len(required) - len(missing), "cover_points_missing": missing, "paths_per_harness": R.perHarn,
			},
		}
		if len(viols) > 0 {
			ev["violations"] = viols
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	return code
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func truncU(x []uint64) []uint64 {
	if len(x) > 40 {
		return x[:40]
	}
	return x
}

func trunc(s []string) []string {
	var r []string
	for _, x := range s {
		if len(x) > 200 {
			x = x[:200] + "..."
		}
		r = append(r, x)
	}
	return r
}

func eqStrs(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func batch(vs []Vector, n int) [][]Vector {
	var r [][]Vector
	for i := 0; i < n; i++ {
		var g []Vector
		for k := i; k < len(vs); k += n {
			g = append(g, vs[k])
		}
		if len(g) > 0 {
			r = append(r, g)
		}
	}
	return r
}

func collectCovers(f *ssa.Function, m map[string]bool) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			rec(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g, ok := c.Call.Value.(*ssa.Function)
				if !ok {
					continue
				}
				if g.String() == vpkg+".Cover" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						m[constant.StringVal(k.Value)] = true
					}
				} else if p := pkgOf(g); p != nil && strings.HasPrefix(p.Pkg.Path(), "verif/harness") {
					rec(g)
				}
			}
		}
	}
	rec(f)
}

type replayResult struct {
	Result   string   `json:"result"`
	Label    string   `json:"label"`
	Observed []string `json:"observed"`
	Out      string   `json:"-"`
}

func nativeReplay(bin string, v Vector) replayResult {
	return nativeReplayMany(bin, []Vector{v})[0]
}

// nativeReplayMany runs vectors in one process; if it dies, the remaining ones run separately.
func nativeReplayMany(bin string, vs []Vector) []replayResult {
	out := make([]replayResult, 0, len(vs))
	for len(out) < len(vs) {
		rest := vs[len(out):]
		rs, crash := replayOnce(bin, rest)
		out = append(out, rs...)
		if len(out) < len(vs) {
			out = append(out, crash)
		}
	}
	return out
}

func replayOnce(bin string, vs []Vector) ([]replayResult, replayResult) {
	b, _ := json.Marshal(vs)
	cmd := exec.Command("sh", "-c", "ulimit -v 12000000; exec timeout -s KILL 60 "+bin)
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "VERIF_KNOWN="+knownEnv)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Run()
	var rs []replayResult
	dec := json.NewDecoder(&so)
	for len(rs) < len(vs) {
		var r replayResult
		if err := dec.Decode(&r); err != nil {
			break
		}
		rs = append(rs, r)
	}
	msg := se.String()
	if len(msg) > 2000 {
		msg = msg[:2000]
	}
	crash := replayResult{Result: "panic", Label: "process died", Out: msg}
	if strings.Contains(msg, "Killed") || msg == "" {
		crash.Result = "timeout"
	}
	return rs, crash
}
