package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- path constraint handling

func (in *Interp) beginPath(prefix []Dec) {
	in.p.Reset()
	in.prefix = prefix
	in.decs = in.decs[:0]
	in.dom = in.dom[:0]
	in.impure = in.impure[:0]
	in.pend = in.pend[:0]
	in.ownPC = in.ownPC[:0]
	in.model = in.model[:0]
	in.modelOK = true
	in.inputs = in.inputs[:0]
	in.steps = 0
	in.depth = 0
	in.curF = nil
	in.spec = false
	in.mon = nil
	in.ep = 1
	in.merged = nil
	in.deferTarget = nil
	in.inexact = nil
	in.trail = in.trail[:0]
	in.solBegun = false
	in.groups = in.groups[:0]
	in.digitOf = nil
	in.rendered = nil
	in.bnd = map[int32]iv{}
	in.epoch++
}

// digitGroup is a decimal rendering of a term. Its digit variables are fixed
// by value = sum d_i*10^i; the solver is told so only when a constraint
// mentions one of them.
type digitGroup struct {
	t    *Term // the value, 64 bit, unsigned
	b    []*Term
	told bool
	one  bool // a single digit, computed instead of defined
}

func (in *Interp) groupOf(id int32) *digitGroup {
	if in.digitOf == nil {
		return nil
	}
	return in.digitOf[id]
}

// define tells the solver about the digit variables c mentions.
func (in *Interp) define(c *Term) {
	if c == nil || len(in.groups) == 0 {
		return
	}
	in.p.Vars(c, func(id int32) {
		g := in.groupOf(id)
		if g == nil || g.told {
			return
		}
		g.told = true
		p := in.p
		sum := p.Const(64, 0)
		for i, d := range g.b {
			lo := uint64('0')
			hi := uint64('9')
			if i == 0 {
				lo = '1'
				if len(g.b) == 20 {
					hi = '1' // no wrap-around of the 20-digit sum
				}
			}
			in.sol.Assert(p.And(p.Cmp(OUle, p.bytes[lo], d), p.Cmp(OUle, d, p.bytes[hi])))
			sum = p.Bin(OAdd, p.Bin(OMul, sum, p.Const(64, 10)), p.ZExt(p.Bin(OSub, d, p.bytes['0']), 64))
		}
		eq := p.Eq(sum, g.t)
		in.define(g.t)
		in.sol.Assert(eq)
	})
}

// setDigits makes the digit variables of m agree with the rendered values.
func (in *Interp) setDigits(m []uint64) {
	for _, g := range in.groups {
		in.setGroup(g, m)
	}
}

func (in *Interp) setGroup(g *digitGroup, m []uint64) {
	if g.one {
		return
	}
	v := in.p.Eval(g.t, m)
	for i := len(g.b) - 1; i >= 0; i-- {
		m[g.b[i].n] = '0' + v%10
		v /= 10
	}
}

func (in *Interp) newVar(name string, w uint8) *Term {
	t := in.p.NewVar(name, w)
	full := [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	in.dom = append(in.dom, &full)
	in.impure = append(in.impure, w != 8)
	in.model = append(in.model, 0)
	return t
}

func (in *Interp) domEmpty(t *Term) bool {
	s := in.p.TruthSet(t)
	d := in.dom[t.sv]
	for i := range s {
		if s[i]&d[i] != 0 {
			return false
		}
	}
	return true
}

func (in *Interp) isByteVar(t *Term) bool { return t.sv >= 0 && in.p.vars[t.sv].w == 8 }

// addPC records a constraint.
func (in *Interp) addPC(c *Term) {
	if c.isConst() {
		if c.n == 0 {
			in.abort("infeasible")
		}
		return
	}
	in.ownPC = append(in.ownPC, c)
	in.pend = append(in.pend, c)
	if in.isByteVar(c) {
		s := in.p.TruthSet(c)
		d := in.dom[c.sv]
		nd := [4]uint64{}
		for i := range s {
			nd[i] = s[i] & d[i]
		}
		in.dom[c.sv] = &nd
		in.epoch++
		if popcount(&nd) == 0 {
			in.abort("infeasible")
		}
		if in.modelOK && !in.inSet(&nd, in.model[c.sv]) {
			if in.impure[c.sv] {
				in.modelOK = false
			} else {
				in.model[c.sv] = firstOf(&nd)
			}
		}
		return
	}
	in.p.Vars(c, func(id int32) { in.impure[id] = true })
	in.learn(c, 0)
	if in.modelOK && in.p.Eval(c, in.model) == 0 {
		in.modelOK = false
	}
}

func (in *Interp) inSet(s *[4]uint64, v uint64) bool { return s[(v>>6)&3]&(1<<(v&63)) != 0 }

func firstOf(s *[4]uint64) uint64 {
	// prefer printable witnesses
	for _, v := range []uint64{'a', '1', 'b', ' ', '-'} {
		if s[v>>6]&(1<<(v&63)) != 0 {
			return v
		}
	}
	for v := uint64(0); v < 256; v++ {
		if s[v>>6]&(1<<(v&63)) != 0 {
			return v
		}
	}
	return 0
}

func (in *Interp) flush() {
	if !in.solBegun {
		in.sol.BeginPath()
		in.solBegun = true
	}
	for _, c := range in.pend {
		in.define(c)
		in.sol.Assert(c)
	}
	in.pend = in.pend[:0]
}

// check asks the solver whether PC && c is satisfiable.
func (in *Interp) check(c *Term) (SatResult, []uint64) {
	if time.Now().After(in.deadline) {
		in.abort("time limit")
	}
	in.flush()
	in.define(c)
	r, m := in.sol.Check(c)
	if r == Unknown {
		in.note("solver unknown")
	}
	return r, m
}

func (in *Interp) note(reason string) {
	if in.inexact == nil {
		in.inexact = map[string]int{}
	}
	in.inexact[reason]++
}

// ensureModel makes in.model satisfy the path condition.
func (in *Interp) ensureModel() bool {
	if in.modelOK {
		return true
	}
	r, m := in.check(nil)
	switch r {
	case Unsat:
		in.abort("infeasible")
	case Sat:
		in.setModel(m)
		return true
	}
	return false
}

func (in *Interp) setModel(m []uint64) {
	for i := range in.model {
		if i < len(m) {
			in.model[i] = m[i]
		}
	}
	in.setDigits(in.model)
	in.modelOK = true
}

// decide takes a branch on c, forking when both sides are possible.
func (in *Interp) decide(c *Term) bool {
	if v, ok := in.settled(c); ok {
		return v
	}
	return in.decideRec(c)
}

// decideRec is decide without looking at ranges; it always records a decision.
func (in *Interp) decideRec(c *Term) bool {
	if in.spec {
		panic(specFail{})
	}
	if in.initing {
		in.abort("symbolic branch during init")
	}
	if k := len(in.decs); k < len(in.prefix) {
		d := in.prefix[k]
		in.decs = append(in.decs, d)
		if d.taken {
			in.addPC(c)
		} else {
			in.addPC(in.p.Not(c))
		}
		return d.taken
	}
	in.lastAlt = nil
	nc := in.p.Not(c)
	canT, canF := true, true
	known := false
	if in.isByteVar(c) {
		s := in.p.TruthSet(c)
		d := in.dom[c.sv]
		var t, f bool
		for i := range s {
			if s[i]&d[i] != 0 {
				t = true
			}
			if ^s[i]&d[i] != 0 {
				f = true
			}
		}
		canT, canF = t, f
		if !(t && f) || !in.impure[c.sv] {
			known = true
		}
	}
	if !known {
		if in.ensureModel() {
			if in.p.Eval(c, in.model) != 0 {
				r, m := in.check(nc)
				if r == Unsat {
					canF = false
				} else if r == Sat {
					in.altModel = m
				}
			} else {
				r, m := in.check(c)
				if r == Unsat {
					canT = false
				} else if r == Sat {
					in.altModel = m
				}
			}
		} else {
			if r, _ := in.check(c); r == Unsat {
				canT = false
			}
			if r, _ := in.check(nc); r == Unsat {
				canF = false
			}
		}
	}
	in.stats.Branches++
	if !canT && !canF {
		in.abort("infeasible")
	}
	take := canT
	if canT && canF {
		// follow the current model to keep it valid
		if in.modelOK {
			take = in.p.Eval(c, in.model) != 0
		}
		alt := make([]Dec, len(in.decs)+1)
		copy(alt, in.decs)
		alt[len(in.decs)] = Dec{taken: !take}
		in.lastAlt = alt
		in.fork(alt)
	}
	in.decs = append(in.decs, Dec{taken: take})
	if take {
		in.addPC(c)
	} else {
		in.addPC(nc)
	}
	return take
}

// choose forks over n concrete alternatives.
func (in *Interp) choose(n int) int {
	if in.spec {
		panic(specFail{})
	}
	if n <= 0 {
		in.abort("infeasible")
	}
	if k := len(in.decs); k < len(in.prefix) {
		d := in.prefix[k]
		in.decs = append(in.decs, d)
		return int(d.val)
	}
	for i := n - 1; i > 0; i-- {
		alt := make([]Dec, len(in.decs)+1)
		copy(alt, in.decs)
		alt[len(in.decs)] = Dec{taken: true, val: uint64(i)}
		in.fork(alt)
	}
	in.decs = append(in.decs, Dec{taken: true, val: 0})
	return 0
}

const maxConcretize = 300

// concretize forks over the feasible values of t.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.n
	}
	if in.spec {
		panic(specFail{})
	}
	for i := 0; ; i++ {
		var v uint64
		replay := false
		if k := len(in.decs); k < len(in.prefix) {
			v = in.prefix[k].val
			replay = true
		} else {
			if !in.ensureModel() {
				in.abort("solver unknown in concretisation")
			}
			v = in.p.Eval(t, in.model)
			if i > maxConcretize {
				in.note("concretisation limit")
				in.abort("concretisation limit")
			}
		}
		eq := in.p.Eq(t, in.p.Const(t.w, v))
		if eq.isConst() {
			in.decs = append(in.decs, Dec{taken: eq.n != 0, val: v})
			if eq.n != 0 {
				return v
			}
			continue
		}
		taken := in.decideRec(eq)
		in.decs[len(in.decs)-1].val = v
		if !replay && in.lastAlt != nil {
			// the alternative pushed by decide must carry the value, too
			in.lastAlt[len(in.lastAlt)-1].val = v
		}
		if taken {
			return v
		}
	}
}

func (in *Interp) assumeT(c *Term) {
	if c.isConst() {
		if c.n == 0 {
			in.abort("infeasible")
		}
		return
	}
	in.addPC(c)
	if len(in.decs) < len(in.prefix) {
		return
	}
	if !in.modelOK {
		in.ensureModel()
	}
}

// ---- results

type Stats struct {
	Paths, Infeasible, Completed     int64
	Aborted                          map[string]int64
	Branches, Steps                  int64
	Obligations, Discharged, Trivial int64
	Reach                            map[string]int64
	Inexact                          map[string]int64
	Labels                           map[string]int64
	Leftover                         int64
}

func newStats() *Stats {
	return &Stats{Aborted: map[string]int64{}, Reach: map[string]int64{}, Inexact: map[string]int64{}, Labels: map[string]int64{}}
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Infeasible += o.Infeasible
	s.Completed += o.Completed
	s.Branches += o.Branches
	s.Steps += o.Steps
	s.Obligations += o.Obligations
	s.Discharged += o.Discharged
	s.Trivial += o.Trivial
	s.Leftover += o.Leftover
	for k, v := range o.Aborted {
		s.Aborted[k] += v
	}
	for k, v := range o.Reach {
		s.Reach[k] += v
	}
	for k, v := range o.Inexact {
		s.Inexact[k] += v
	}
	for k, v := range o.Labels {
		s.Labels[k] += v
	}
}

// Candidate is a solver counterexample still to be replayed.
type Candidate struct {
	Harness string
	Label   string
	Detail  string
	Inputs  []string
	Again   int // times to repeat the replay, for runs that depend on map order
}

type Sample struct {
	Harness string
	Inputs  []string
	Reach   []string
}

type Explorer struct {
	mu                         sync.Mutex
	cond                       *sync.Cond
	work                       [][]Dec
	busy                       int
	stop                       bool
	deadline                   time.Time
	harness                    *ssa.Function
	name                       string
	stats                      *Stats
	cands                      map[string]*Candidate
	order                      []string
	perLabel                   map[string]int
	samples                    []Sample
	nPaths                     int64
	maxPaths                   int64
	onCand                     func(*Candidate) bool // true: stop exploring
	covered                    map[string]bool
	queries, unknowns, solErrs int
	solTime                    time.Duration
	maxPend                    int
	sampleEvery                int64
	labelTries                 map[string]int
}

type Worker struct {
	in    *Interp
	ex    *Explorer
	local [][]Dec
}

func (ex *Explorer) push(p []Dec) {
	ex.mu.Lock()
	ex.work = append(ex.work, p)
	if len(ex.work) > ex.maxPend {
		ex.maxPend = len(ex.work)
	}
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() ([]Dec, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return nil, false
		}
		if len(ex.work) > 0 {
			p := ex.work[len(ex.work)-1]
			ex.work = ex.work[:len(ex.work)-1]
			ex.busy++
			return p, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return nil, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.busy--
	ex.nPaths++
	if time.Now().After(ex.deadline) || ex.nPaths >= ex.maxPaths {
		ex.stop = true
	}
	if ex.stop || ex.busy == 0 && len(ex.work) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (w *Worker) loop() {
	for {
		p, ok := w.ex.pop()
		if !ok {
			return
		}
		w.runPath(p)
		w.ex.done()
	}
}

var debugAbort = os.Getenv("SYM_DEBUG") != ""

func (w *Worker) runPath(prefix []Dec) {
	in, ex := w.in, w.ex
	in.beginPath(prefix)
	in.deadline = ex.deadline
	w.local = w.local[:0]
	in.onRace = func(label, detail string) { w.candidate(label, detail, nil) }
	in.fork = func(p []Dec) { w.local = append(w.local, p) }
	in.reach = map[string]bool{}
	in.mapRev, in.usedMapRev = false, false
	in.stats.Paths++
	completed := false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case pathAbort:
				reason := e.reason
				if reason == "infeasible" {
					in.stats.Infeasible++
					return
				}
				if reason == "harness stop" {
					in.stats.Completed++
					completed = true
					return
				}
				if strings.HasPrefix(reason, "step limit") {
					w.candidate("hang", "no result within the step limit"+in.here(), nil)
				}
				if reason == "call depth" {
					w.candidate("recursion", "calls nested too deep"+in.here(), nil)
				}
				key := reason
				if i := strings.IndexByte(key, '\n'); i > 0 && !debugAbort {
					key = key[:i]
				}
				if debugAbort {
					key += in.here()
				}
				in.stats.Aborted[key]++
			case *targetPanic:
				w.candidate("panic", e.msg+e.loc, nil)
				in.stats.Completed++
			case specFail:
				in.stats.Aborted["spec"]++
			case runtime.Error:
				buf := make([]byte, 3000)
				n := runtime.Stack(buf, false)
				key := "engine: " + e.Error()
				if debugAbort {
					key += in.here() + string(buf[:n])
				}
				in.stats.Aborted[key]++
			default:
				in.stats.Aborted[fmt.Sprintf("engine: %v", r)]++
			}
		}()
		in.run(nil, in.compile(ex.harness), nil, nil)
		in.stats.Completed++
		completed = true
	}()
	in.spec = false
	in.stats.Steps += in.steps
	for k := range in.inexact {
		in.stats.Inexact[k]++
	}
	if completed {
		for k := range in.reach {
			in.stats.Reach[k]++
		}
		n := in.stats.Completed
		if n <= 2 || n%ex.sampleEvery == 0 {
			w.sample()
		}
	}
	in.rollback()
	if len(w.local) > 0 {
		ex.mu.Lock()
		ex.work = append(ex.work, w.local...)
		if len(ex.work) > ex.maxPend {
			ex.maxPend = len(ex.work)
		}
		ex.mu.Unlock()
		ex.cond.Broadcast()
	}
}

func (w *Worker) sample() {
	in := w.in
	defer func() { recover() }()
	if !in.ensureModel() {
		return
	}
	s := Sample{Harness: w.ex.name, Inputs: in.renderInputs(in.model)}
	for k := range in.reach {
		s.Reach = append(s.Reach, k)
	}
	w.ex.mu.Lock()
	if len(w.ex.samples) < 60 {
		w.ex.samples = append(w.ex.samples, s)
	}
	w.ex.mu.Unlock()
}

func (in *Interp) renderInputs(m []uint64) []string {
	out := make([]string, len(in.inputs))
	for i, x := range in.inputs {
		if x.t != nil {
			out[i] = fmt.Sprintf("%s %d", x.kind, in.p.Eval(x.t, m))
		} else {
			out[i] = fmt.Sprintf("%s %d", x.kind, x.n)
		}
	}
	return out
}

// candidate records a counterexample; m is its model (nil: current one).
func (w *Worker) candidate(label, detail string, m []uint64) {
	in := w.in
	w.ex.mu.Lock()
	tries := w.ex.labelTries[label]
	w.ex.labelTries[label]++
	stop := w.ex.stop
	w.ex.mu.Unlock()
	if tries >= 40 || stop {
		return
	}
	if m == nil {
		bad := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					bad = true
				}
			}()
			if !in.ensureModel() {
				bad = true
			}
		}()
		if bad {
			in.stats.Inexact["candidate without model"]++
			return
		}
		m = in.model
	}
	c := &Candidate{Harness: w.ex.name, Label: label, Detail: detail, Inputs: in.renderInputs(m)}
	if in.usedMapRev {
		c.Again = 40
	}
	if w.ex.onCand(c) {
		w.ex.mu.Lock()
		w.ex.stop = true
		w.ex.mu.Unlock()
		w.ex.cond.Broadcast()
	}
}

// assertT is the verification condition: PC => c.
func (in *Interp) assertT(c *Term, label string) {
	if in.spec {
		panic(specFail{})
	}
	in.stats.Labels[label]++
	if k := len(in.decs); k < len(in.prefix) {
		// decided when this prefix was first executed, under the same path condition
		d := in.prefix[k]
		in.decs = append(in.decs, d)
		if d.taken {
			in.addPC(c)
		}
		return
	}
	in.stats.Obligations++
	if c.isConst() {
		if c.n != 0 {
			in.stats.Discharged++
			in.stats.Trivial++
			in.decs = append(in.decs, Dec{})
			return
		}
		in.w.candidate(label, "assertion fails on every input of this path"+in.here(), nil)
		in.abort("harness stop")
	}
	r, m := in.check(in.p.Not(c))
	switch r {
	case Unsat:
		in.stats.Discharged++
		in.decs = append(in.decs, Dec{})
		return
	case Sat:
		full := make([]uint64, len(in.model))
		copy(full, m)
		in.w.candidate(label, "assertion fails"+in.here(), full)
	}
	// go on with the inputs for which it holds
	in.decs = append(in.decs, Dec{taken: true})
	in.assumeT(c)
}
