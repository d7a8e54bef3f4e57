package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fHarness = flag.String("harness", "", "only this harness")
	fTier    = flag.String("tier", "", "quick or thorough")
	fBudget  = flag.Duration("budget", 0, "total time budget")
	fVerif   = flag.String("verif", "/verif", "verif directory")
	fWorkers = flag.Int("j", runtime.NumCPU(), "workers")
	fVerbose = flag.Bool("v", false, "verbose")
	fSteps   = flag.Int64("steps", 30_000_000, "step limit per path")
	fNoEv    = flag.Bool("noev", false, "do not write evidence")
	fSMTms   = flag.Int("smtms", 10000, "solver timeout per query (ms)")
	fMax     = flag.Int64("maxpaths", 1<<40, "path limit")
)

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

func env() []string {
	e := os.Environ()
	var out []string
	for _, x := range e {
		if strings.HasPrefix(x, "GOFLAGS=") || strings.HasPrefix(x, "GOEXPERIMENT=") || strings.HasPrefix(x, "GOWORK=") || strings.HasPrefix(x, "CGO_ENABLED=") || strings.HasPrefix(x, "TZ=") {
			continue
		}
		out = append(out, x)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "TZ=UTC")
}

func load(dir string) (*ssa.Program, *ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(env(), "GOEXPERIMENT=nojsonv2")}
	ps, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return prog, pkgs[0], nil
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/poll": true, "internal/godebug": true, "reflect": true,
	"internal/reflectlite": true, "internal/cpu": true, "internal/syscall/unix": true, "internal/testlog": true, "log": true,
	"internal/runtime/maps": true, "runtime/debug": true, "io/fs": false, "internal/abi": true, "internal/sync": true, "sync": true,
	"net": true, "math/rand": true, "internal/chacha8rand": true, "unique": true, "crypto/rand": true,
}

func skip(path string) bool {
	if strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/syscall") {
		return true
	}
	return skipInit[path]
}

func newInterp(prog *ssa.Program, tier int) *Interp {
	p := NewPool()
	in := &Interp{prog: prog, p: p, fns: map[*ssa.Function]*cfn{}, globs: map[*ssa.Global]*Agg{}, maxSteps: 1 << 50, covered: map[*ssa.Function]bool{},
		stats: newStats(), reach: map[string]bool{}, tier: tier, sizes: types.SizesFor("gc", "amd64")}
	in.bnd, in.epoch = map[int32]iv{}, 1
	p.rng = in.rangeOf
	in.deadline = time.Now().Add(time.Hour)
	return in
}

// runInit executes the package initialisers in dependency order.
func (in *Interp) runInit(root *ssa.Package) {
	in.initing = true
	in.modelOK = true
	done := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		sp := in.prog.Package(p)
		if sp == nil || skip(p.Path()) {
			return
		}
		f := sp.Func("init")
		if f == nil {
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if *fVerbose {
						switch e := r.(type) {
						case pathAbort:
							fmt.Fprintln(os.Stderr, "init", p.Path(), e.reason, in.here())
						case *targetPanic:
							fmt.Fprintln(os.Stderr, "init", p.Path(), "panic", e.msg, e.loc)
						default:
							fmt.Fprintln(os.Stderr, "init", p.Path(), e)
							debug.PrintStack()
						}
					}
					in.curF = nil
					in.depth = 0
				}
			}()
			in.initTop = f
			in.run(nil, in.compile(f), nil, nil)
		}()
	}
	visit(root.Pkg)
	in.initing = false
	in.trail = in.trail[:0]
	in.ep = 1
	in.covered = map[*ssa.Function]bool{}
	in.maxSteps = *fSteps
	in.steps = 0
}

func die(a ...any) {
	// a check that cannot run reports nothing; it is an error of the machinery
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(18 << 30)
	tier := 0
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier == "thorough" {
		tier = 1
	} else {
		*fTier = "quick"
	}
	if *fBudget == 0 {
		*fBudget = 240 * time.Second
		if tier == 1 {
			*fBudget = 780 * time.Second
		}
	}
	debugSolver = os.Getenv("SYM_SOLVER") != ""
	t0 := time.Now()
	c := &Check{prop: *fProp, tier: tier, t0: t0}
	c.loadKnown()
	if err := c.buildReplay(); err != nil {
		die("building the native replay binary failed:", err)
	}
	prog, pkg, err := load(filepath.Join(*fVerif, "harness"))
	if err != nil {
		die(err)
	}
	var hs []*ssa.Function
	for name, m := range pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, *fProp+"_") || f.Signature.Params().Len() != 0 {
			continue
		}
		if *fHarness != "" && name != *fHarness {
			continue
		}
		hs = append(hs, f)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name() < hs[j].Name() })
	if len(hs) == 0 {
		die("no harness for", *fProp)
	}
	// workers
	var ws []*Worker
	var wg sync.WaitGroup
	ws = make([]*Worker, *fWorkers)
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			in := newInterp(prog, tier)
			in.runInit(pkg)
			s, err := NewSolver(in.p, *fSMTms)
			if err != nil {
				die("solver:", err)
			}
			in.sol = s
			w := &Worker{in: in}
			in.w = w
			ws[i] = w
		}(i)
	}
	wg.Wait()
	if *fVerbose {
		fmt.Fprintln(os.Stderr, "ready", time.Since(t0), "harnesses", len(hs))
	}
	c.run(ws, hs)
	for _, w := range ws {
		w.in.sol.Close()
	}
	os.Exit(c.finish())
}

// Check is one run for one property.
type Check struct {
	prop  string
	tier  int
	t0    time.Time
	known []Known
	repl  string
	dir   string

	mu        sync.Mutex
	violation *Candidate
	vioPath   string
	knownHit  map[string]string
	rejected  map[string]int
	per       []*HRes
	validated int
	mismatch  []string
	samples   []any
	nReplay   int
}

type HRes struct {
	Name     string           `json:"harness"`
	What     string           `json:"checks,omitempty"`
	Bounds   []string         `json:"bounds,omitempty"`
	Stats    *Stats           `json:"-"`
	Paths    int64            `json:"paths"`
	Complete bool             `json:"exhausted_within_bounds"`
	Left     int              `json:"unexplored_prefixes"`
	Aborted  map[string]int64 `json:"inconclusive_paths,omitempty"`
	Inexact  map[string]int64 `json:"reduced,omitempty"`
	Oblig    int64            `json:"obligations"`
	Disch    int64            `json:"discharged"`
	Reach    map[string]int64 `json:"reached,omitempty"`
	Labels   map[string]int64 `json:"assertions_evaluated,omitempty"`
	Queries  int              `json:"solver_queries"`
	SolverS  float64          `json:"solver_seconds"`
	WallS    float64          `json:"wall_s"`
	Branches int64            `json:"symbolic_branches"`
	Steps    int64            `json:"ssa_instructions"`
	Funcs    []string         `json:"-"`
}

// describe returns the documentation of a harness and the source lines of it
// and its helpers that create inputs or restrict them, which are its bounds.
func describe(h *ssa.Function) (what string, bounds []string) {
	if d, ok := h.Syntax().(*ast.FuncDecl); ok {
		what = strings.TrimSpace(d.Doc.Text())
	}
	seen := map[*ssa.Function]bool{}
	files := map[string][]string{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f.Pkg != h.Pkg && f.Parent() == nil {
			return
		}
		seen[f] = true
		if d, ok := f.Syntax().(*ast.FuncDecl); ok {
			a, b := h.Prog.Fset.Position(d.Pos()), h.Prog.Fset.Position(d.End())
			l := files[a.Filename]
			if l == nil {
				src, _ := os.ReadFile(a.Filename)
				l = strings.Split(string(src), "\n")
				files[a.Filename] = l
			}
			for i := a.Line; i < b.Line && i <= len(l); i++ {
				t := strings.TrimSpace(l[i-1])
				if strings.HasPrefix(t, "sym.Assert(") || strings.HasPrefix(t, "sym.Note(") || strings.HasPrefix(t, "sym.Reach(") {
					continue
				}
				if strings.Contains(t, "sym.") || strings.Contains(t, "xmlText(") {
					if f != h {
						t = f.Name() + ": " + t
					}
					bounds = append(bounds, t)
				}
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						visit(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	visit(h)
	return
}

func (c *Check) loadKnown() {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == c.prop && k.Label != "" {
			c.known = append(c.known, k)
		}
	}
	c.knownHit = map[string]string{}
}

func (c *Check) buildReplay() error {
	out := filepath.Join(*fVerif, "out")
	os.MkdirAll(out, 0o755)
	d, err := os.MkdirTemp(out, "run-"+c.prop+"-")
	if err != nil {
		return err
	}
	c.dir = d
	c.rejected = map[string]int{}
	c.repl = filepath.Join(d, "replay")
	cmd := exec.Command("go", "build", "-o", c.repl, "./cmd/replay")
	cmd.Env = env()
	if c.prop == "C22" {
		// replays run under the race detector
		cmd = exec.Command("go", "build", "-race", "-o", c.repl, "./cmd/replay")
		cmd.Env = append(env(), "CGO_ENABLED=1")
	}
	cmd.Dir = filepath.Join(*fVerif, "harness")
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

// replay runs the inputs natively; returns the outcome class and output.
func (c *Check) replay(harness string, inputs []string, name string) (string, string, string) {
	f := filepath.Join(c.dir, name)
	os.WriteFile(f, []byte("# harness "+harness+"\n"+strings.Join(inputs, "\n")+"\n"), 0o644)
	limit := "ulimit -v 8000000; "
	if c.prop == "C22" {
		limit = "" // the race detector reserves address space
	}
	cmd := exec.Command("bash", "-c", limit+"exec timeout -k 2 20 \"$0\" \"$@\"", c.repl, "-harness", harness, "-tier", *fTier, "-file", f)
	cmd.Env = append(env(), "GOMEMLIMIT=2GiB", "GOMAXPROCS=2")
	cmd.Dir = c.dir
	b, err := cmd.CombinedOutput()
	out := string(b)
	code := 0
	if err != nil {
		code = -1
		if e, ok := err.(*exec.ExitError); ok {
			code = e.ExitCode()
		}
	}
	switch {
	case code == 0:
		return "ok", out, f
	case code == 3:
		l := "?"
		for _, x := range strings.Split(out, "\n") {
			if strings.HasPrefix(x, "ASSERT-FAILED ") {
				l = strings.TrimPrefix(x, "ASSERT-FAILED ")
			}
		}
		return "assert:" + l, out, f
	case code == 4:
		return "panic", out, f
	case code == 66:
		return "race", out, f
	case code == 5:
		return "diverged", out, f
	case code == 124 || code == 137:
		return "hang", out, f
	default:
		return fmt.Sprintf("crash:%d", code), out, f
	}
}

// onCand replays a counterexample; true stops the exploration.
func (c *Check) onCand(k *Candidate) bool {
	c.mu.Lock()
	if c.violation != nil {
		c.mu.Unlock()
		return true
	}
	c.nReplay++
	n := c.nReplay
	c.mu.Unlock()
	res, out, f := c.replay(k.Harness, k.Inputs, fmt.Sprintf("cex-%d.txt", n))
	for i := 0; i < k.Again && res == "ok"; i++ {
		res, out, f = c.replay(k.Harness, k.Inputs, fmt.Sprintf("cex-%d.txt", n))
	}
	real := false
	label := k.Label
	switch {
	case strings.HasPrefix(res, "assert:"):
		real = true
		label = strings.TrimPrefix(res, "assert:")
	case res == "panic", strings.HasPrefix(res, "crash"):
		real = true
		label = "panic"
		if i := strings.Index(out, "PANIC-AT "); i >= 0 {
			l := out[i+9:]
			if j := strings.IndexByte(l, '\n'); j >= 0 {
				l = l[:j]
			}
			label = "panic"
			k.Detail += " at " + l
		}
	case res == "hang", res == "race":
		real = true
		label = res
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if *fVerbose {
		fmt.Fprintf(os.Stderr, "  candidate %s/%s (%s) -> %s\n    %s\n", k.Harness, k.Label, k.Detail, res, strings.ReplaceAll(out, "\n", "\n    "))
	}
	if !real {
		c.rejected[k.Harness+"/"+k.Label+": "+res]++
		os.Remove(f)
		return false
	}
	for _, kn := range c.known {
		if kn.Harness == k.Harness && kn.Label == label {
			c.knownHit[kn.Harness+"/"+kn.Label] = kn.What
			os.Remove(f)
			return false
		}
	}
	if c.violation != nil {
		return true
	}
	k.Label = label
	c.violation = k
	// keep the evidence of the violation outside the temporary directory
	rd := filepath.Join(*fVerif, "out", "violations")
	os.MkdirAll(rd, 0o755)
	c.vioPath = filepath.Join(rd, fmt.Sprintf("%s-%s-%d.txt", c.prop, k.Harness, os.Getpid()))
	body := fmt.Sprintf("# property %s harness %s failed: %s\n# %s\n# replay: cd %s/harness && go run ./cmd/replay -harness %s -tier %s -file %s\n# native output:\n#   %s\n%s\n",
		c.prop, k.Harness, label, strings.ReplaceAll(k.Detail, "\n", " "), *fVerif, k.Harness, *fTier, c.vioPath, strings.ReplaceAll(strings.TrimSpace(out), "\n", "\n#   "), strings.Join(k.Inputs, "\n"))
	os.WriteFile(c.vioPath, []byte(body), 0o644)
	return true
}

func (c *Check) run(ws []*Worker, hs []*ssa.Function) {
	end := c.t0.Add(*fBudget)
	for i, h := range hs {
		if c.violation != nil {
			break
		}
		left := time.Until(end)
		// unfinished harnesses may use what earlier ones did not need
		share := left / time.Duration(len(hs)-i) * 2
		if share > left {
			share = left
		}
		c.runHarness(ws, h, share)
	}
}

func (c *Check) runHarness(ws []*Worker, h *ssa.Function, budget time.Duration) {
	t0 := time.Now()
	ex := &Explorer{deadline: t0.Add(budget), harness: h, name: h.Name(), stats: newStats(), labelTries: map[string]int{}, maxPaths: *fMax, sampleEvery: 997, onCand: c.onCand}
	ex.cond = sync.NewCond(&ex.mu)
	ex.work = append(ex.work, nil)
	q0 := 0
	var st0 time.Duration
	for _, w := range ws {
		q0 += w.in.sol.Queries
		st0 += w.in.sol.Time
		w.in.stats = newStats()
		w.in.covered = map[*ssa.Function]bool{}
		w.in.noMerge = false
		w.ex = ex
	}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *Worker) { defer wg.Done(); w.loop() }(w)
	}
	wg.Wait()
	funcs := map[string]bool{}
	q1 := 0
	var st1 time.Duration
	for _, w := range ws {
		ex.stats.add(w.in.stats)
		q1 += w.in.sol.Queries
		st1 += w.in.sol.Time
		for f := range w.in.covered {
			funcs[f.String()] = true
		}
	}
	r := &HRes{Name: h.Name(), Stats: ex.stats, Paths: ex.stats.Paths, Left: len(ex.work), Aborted: ex.stats.Aborted, Inexact: ex.stats.Inexact,
		Oblig: ex.stats.Obligations, Disch: ex.stats.Discharged, Reach: ex.stats.Reach, Labels: ex.stats.Labels, Queries: q1 - q0, SolverS: (st1 - st0).Seconds(),
		WallS: time.Since(t0).Seconds(), Branches: ex.stats.Branches, Steps: ex.stats.Steps}
	r.What, r.Bounds = describe(h)
	r.Complete = len(ex.work) == 0 && len(ex.stats.Aborted) == 0 && !ex.stop && len(ex.stats.Inexact) == 0
	if len(r.Labels) > 60 {
		var n int64
		for _, v := range r.Labels {
			n += v
		}
		r.Labels = map[string]int64{fmt.Sprintf("(%d different labels)", len(r.Labels)): n}
	}
	for f := range funcs {
		if strings.Contains(f, "go-xmp") {
			r.Funcs = append(r.Funcs, f)
		}
	}
	sort.Strings(r.Funcs)
	c.per = append(c.per, r)
	// validate the translation: completed paths must behave the same natively
	n := 0
	for _, s := range ex.samples {
		if n >= 12 || c.violation != nil {
			break
		}
		n++
		res, out, f := c.replay(s.Harness, s.Inputs, "sample.txt")
		os.Remove(f)
		ok := res == "ok"
		if ok {
			for _, l := range s.Reach {
				if !strings.Contains(out, "REACH "+l) {
					ok = false
				}
			}
		}
		if ok {
			c.validated++
		} else if strings.HasPrefix(res, "assert:") || res == "panic" {
			// the engine missed something the real code does: treat like a counterexample
			c.onCand(&Candidate{Harness: s.Harness, Label: res, Detail: "found while validating a completed path", Inputs: s.Inputs})
			c.mismatch = append(c.mismatch, s.Harness+": "+res)
		} else {
			c.mismatch = append(c.mismatch, s.Harness+": "+res)
		}
	}
	if len(ex.samples) > 0 {
		c.samples = append(c.samples, map[string]any{"harness": h.Name(), "inputs": ex.samples[len(ex.samples)-1].Inputs})
	}
	if *fVerbose {
		fmt.Fprintf(os.Stderr, "%-32s paths %d (infeasible %d) left %d oblig %d/%d trivial %d branches %d steps %d queries %d solver %.1fs wall %.1fs\n", h.Name(), r.Paths, ex.stats.Infeasible, r.Left, r.Oblig, r.Disch, ex.stats.Trivial, r.Branches, r.Steps, r.Queries, r.SolverS, r.WallS)
		for k, v := range r.Aborted {
			fmt.Fprintf(os.Stderr, "    inconclusive %d: %s\n", v, k)
		}
		for k, v := range r.Inexact {
			fmt.Fprintf(os.Stderr, "    reduced %d: %s\n", v, k)
		}
		fmt.Fprintf(os.Stderr, "    reach %v labels %v\n", r.Reach, r.Labels)
		for _, m := range c.mismatch {
			fmt.Fprintln(os.Stderr, "    MISMATCH", m)
		}
	}
}

func (c *Check) finish() int {
	os.RemoveAll(c.dir)
	if !*fNoEv {
		c.evidence()
	}
	for _, k := range c.known {
		key := k.Harness + "/" + k.Label
		if w, ok := c.knownHit[key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, w)
		}
	}
	var paths, obl, dis int64
	full := 0
	for _, r := range c.per {
		paths += r.Paths
		obl += r.Oblig
		dis += r.Disch
		if r.Complete {
			full++
		}
	}
	fmt.Printf("%s: %d harnesses (%d exhausted), %d paths, %d/%d obligations discharged, %d traces validated, %.1fs\n", c.prop, len(c.per), full, paths, dis, obl, c.validated, time.Since(c.t0).Seconds())
	if c.violation != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, c.vioPath)
		fmt.Printf("  harness %s: %s: %s\n", c.violation.Harness, c.violation.Label, c.violation.Detail)
		return 1
	}
	return 0
}

func (c *Check) evidence() {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var paths, br, obl, dis, steps, triv int64
	q := 0
	ss := 0.0
	funcs := map[string]bool{}
	ab := map[string]int64{}
	allFull := true
	for _, r := range c.per {
		paths += r.Stats.Completed
		br += r.Branches
		obl += r.Oblig
		dis += r.Disch
		triv += r.Stats.Trivial
		steps += r.Steps
		q += r.Queries
		ss += r.SolverS
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for k, v := range r.Aborted {
			ab[k] += v
		}
		if !r.Complete {
			allFull = false
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(c.samples) == 0 {
		c.samples = []any{"none"}
	}
	cov := map[string]any{
		"states": paths, "transitions": br, "traces_validated_against_impl": c.validated, "samples": c.samples,
		"state_meaning":                      "completed symbolic paths (each stands for all inputs satisfying its path condition)",
		"transition_meaning":                 "symbolic branches decided",
		"obligations":                        obl,
		"discharged":                         dis,
		"obligations_constant":               triv,
		"solver_queries":                     q,
		"solver_seconds":                     ss,
		"ssa_instructions_executed":          steps,
		"exhaustive":                         allFull,
		"harnesses":                          c.per,
		"functions_encoded":                  fl,
		"counterexamples_rejected_by_replay": c.rejected,
		"validation_mismatches":              c.mismatch,
		"bounds":                             "per harness under harnesses[].bounds: the source lines of the harness that create or restrict inputs; sym.Bound(q, t) is q in the quick and t in the thorough tier, sym.Choose(n) any of n alternatives, sym.StringIn(n, set) any n characters of the set, sym.Int64() and the like any value of the type; see also DESIGN.md",
	}
	v := 0
	if c.violation != nil {
		v = 1
	}
	sched := "single goroutine"
	if c.prop == "C22" {
		sched = "two threads doing the same work, run one after the other; conflicting accesses are found by a lockset and ownership monitor and confirmed by the race detector"
	}
	ev := map[string]any{"property": c.prop, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{sched + "; map iteration in insertion order", "encoding/json in its classic implementation (GOEXPERIMENT=nojsonv2) for the symbolic run; the replay uses the default build",
			"reflect, sync, sync/atomic, time.Now, byte search and float formatting are modelled by the engine", "error message texts are opaque", "time zone UTC"},
		"wall_s": time.Since(c.t0).Seconds(), "violations": v}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", c.prop+".json"), b, 0o644)
}
