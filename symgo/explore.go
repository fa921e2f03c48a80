package main

// Path exploration: depth-first over decision prefixes, re-executing the harness for each path.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []uint64
	model  map[string]uint64
}

type inputRec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	val  Value
	Val  uint64 `json:"val"`
}

type obsRec struct {
	label string
	v     Value
}

type PathState struct {
	prefix    []uint64
	decisions []uint64
	pos       int
	pc        []*Term
	pcset     map[*Term]bool
	dom       map[int32]byteSet
	multi     map[int32]bool
	model     map[int32]uint64
	startMod  map[string]uint64
	inputs    []inputRec
	names     map[string]int
	lazy      int
	obs       []obsRec
	steps     int
	mapOrder  bool
	mapMode   int
	covers    map[string]bool
	asserts   int
	branches  int
	notes     map[string]bool
}

func (p *PathState) reduced(s string) {
	if p.notes == nil {
		p.notes = map[string]bool{}
	}
	p.notes[s] = true
}

type Violation struct {
	Harness  string     `json:"harness"`
	Label    string     `json:"label"`
	Inputs   []inputRec `json:"inputs"`
	MapOrder bool       `json:"map_order"`
	Detail   string     `json:"detail,omitempty"`
	Property string     `json:"property"`
	Tier     string     `json:"tier"`
	Replayed string     `json:"replayed,omitempty"`
}

type Sample struct {
	Harness  string     `json:"harness"`
	Inputs   []inputRec `json:"inputs"`
	Obs      [][2]string
	MapOrder bool
	Fallback bool // natively executed because the encoding could not follow the path
}

type Explorer struct {
	prog     *Program
	entry    *ssa.Function
	name     string
	maxSteps int
	tier     string
	deadline time.Time
	maxPaths int64
	qTimeout int
	solverB  string

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []workItem
	active   int
	stop     bool
	timedOut bool

	paths      atomic.Int64
	infeasible atomic.Int64
	unsupp     atomic.Int64
	instrs     atomic.Int64
	branches   atomic.Int64
	asserts    atomic.Int64

	rmu        sync.Mutex
	violations []Violation
	vcount     map[string]int
	covers     map[string]int64
	unsuppMsgs map[string]int
	notes      map[string]bool
	samples    []Sample
	fallbacks  []Sample
	fns        map[string]bool
	maxPC      int
	maxInputs  int
	fatal      string
}

func NewExplorer(prog *Program, entry *ssa.Function, tier string) *Explorer {
	e := &Explorer{prog: prog, entry: entry, name: entry.Name(), tier: tier, maxSteps: 20000000,
		vcount: map[string]int{}, covers: map[string]int64{}, unsuppMsgs: map[string]int{}, notes: map[string]bool{}, fns: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) push(w workItem) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) pop() (workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return workItem{}, false
		}
		if len(e.queue) > 0 {
			if time.Now().After(e.deadline) || (e.maxPaths > 0 && e.paths.Load() >= e.maxPaths) {
				e.timedOut = true
				e.stop = true
				e.cond.Broadcast()
				return workItem{}, false
			}
			w := e.queue[len(e.queue)-1]
			e.queue = e.queue[:len(e.queue)-1]
			e.active++
			return w, true
		}
		if e.active == 0 {
			e.stop = true
			e.cond.Broadcast()
			return workItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.stop = true
	}
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *Explorer) Run(workers []*Interp) {
	e.push(workItem{})
	var wg sync.WaitGroup
	for _, in := range workers {
		wg.Add(1)
		go func(in *Interp) {
			defer wg.Done()
			in.ex = e
			for {
				w, ok := e.pop()
				if !ok {
					in.flushAudit(true)
					return
				}
				in.runPath(w)
				in.flushAudit(false)
				e.done()
			}
		}(in)
	}
	wg.Wait()
}

func (in *Interp) resetTerms() {
	in.flushAudit(true)
	aud := in.tt.aud
	in.tt = NewTermTable()
	in.tt.aud = aud
	in.dom = domains{}
	in.solver.Close()
	in.solver.start()
}

func (in *Interp) runPath(w workItem) {
	e := in.ex
	if in.tt.next > 1500000 {
		in.resetTerms()
	}
	in.epoch++
	p := &PathState{prefix: w.prefix, startMod: w.model, pcset: map[*Term]bool{}, model: map[int32]uint64{}, names: map[string]int{}, covers: map[string]bool{}}
	in.p = p
	in.specStart, in.specGuard, in.lockDepth = 0, nil, 0
	in.touches = nil
	in.nfrz = 0
	in.watch = 0
	in.digits = nil
	in.allFns = map[string]bool{}
	outcome := "ok"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				outcome = x.why
			case unsupportedErr:
				outcome = "unsupported: " + x.msg
			case targetPanic:
				outcome = "panic"
				msg := in.panicText(x)
				in.record("uncaught panic: "+msg, nil)
			case specAbort:
				outcome = "unsupported: stray speculation abort " + x.why
			default:
				if debugInit {
					fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n", r, debug.Stack())
				}
				outcome = fmt.Sprintf("unsupported: engine error %v", r)
			}
		}()
		in.callFn(nil, e.entry, nil, nil)
	}()
	in.initDepth = 0
	if outcome == "ok" || outcome == "panic" {
		// self-check: the model handed to native validation satisfies the whole path condition
		memo := map[*Term]uint64{}
		for _, t := range p.pc {
			if evalTerm(t, p.model, memo) != 1 {
				outcome = "unsupported: engine error: the model does not satisfy the path condition"
				break
			}
		}
	}
	e.instrs.Add(int64(p.steps))
	e.branches.Add(int64(p.branches))
	e.asserts.Add(int64(p.asserts))
	e.rmu.Lock()
	for f := range in.allFns {
		e.fns[f] = true
	}
	for c := range p.covers {
		e.covers[c]++
	}
	for n := range p.notes {
		e.notes[n] = true
	}
	if len(p.pc) > e.maxPC {
		e.maxPC = len(p.pc)
	}
	if len(p.inputs) > e.maxInputs {
		e.maxInputs = len(p.inputs)
	}
	e.rmu.Unlock()
	switch {
	case outcome == "ok" || outcome == "panic":
		n := e.paths.Add(1)
		// a thinning sample of paths is later executed natively and compared with the encoding's prediction
		if n <= 24 || (n < 1000 && n%37 == 0) || n%997 == 0 {
			s := Sample{Harness: e.name, Inputs: in.evalInputs(p.model), MapOrder: p.mapOrder, Obs: in.evalObs(p.model)}
			e.rmu.Lock()
			if len(e.samples) < 160 {
				e.samples = append(e.samples, s)
			}
			e.rmu.Unlock()
		}
	case outcome == "violation":
		e.paths.Add(1)
	case outcome == "assume" || outcome == "infeasible":
		e.infeasible.Add(1)
	default:
		e.unsupp.Add(1)
		s := Sample{Harness: e.name, Inputs: in.evalInputs(p.model), MapOrder: p.mapOrder, Fallback: true}
		e.rmu.Lock()
		e.unsuppMsgs[outcome]++
		if len(e.fallbacks) < 300 {
			e.fallbacks = append(e.fallbacks, s)
		}
		e.rmu.Unlock()
	}
	in.rollback()
}

func (in *Interp) panicText(x targetPanic) string {
	if x.rt != "" {
		return "runtime error: " + x.rt
	}
	if l, ok := x.v.v.(*LazyStr); ok && l.val == nil {
		return "?"
	}
	if s, ok := fstr(x.v.v).(string); ok {
		return s
	}
	if x.v.t != nil {
		return "value of type " + x.v.t.String()
	}
	return "nil"
}

func (in *Interp) evalValue(v Value, m map[int32]uint64) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case bool:
		if x {
			return 1
		}
		return 0
	case *Term:
		return evalTerm(x, m, map[*Term]uint64{})
	}
	return 0
}

func (in *Interp) evalInputs(m map[int32]uint64) []inputRec {
	all := in.inputs()
	out := make([]inputRec, len(all))
	for i, r := range all {
		out[i] = r
		out[i].Val = in.evalValue(r.val, m)
		out[i].val = nil
	}
	return out
}

func (in *Interp) evalStr(v Value, m map[int32]uint64) string {
	if l, ok := v.(*LazyStr); ok {
		if l.val == nil {
			b := make([]byte, l.lens[0])
			for i := range b {
				b[i] = byte('a' + i%26)
			}
			return string(b)
		}
		v = l.val
	}
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i := range s.b {
			b[i] = byte(in.evalValue(s.b[i], m))
		}
		return string(b)
	}
	return fmt.Sprintf("?%T", v)
}

func (in *Interp) evalObs(m map[int32]uint64) [][2]string {
	var out [][2]string
	for _, o := range in.p.obs {
		out = append(out, [2]string{o.label, strings.Trim(strconv.QuoteToASCII(in.evalStr(o.v, m)), `"`)})
	}
	return out
}

// record registers a candidate violation under model m (nil = current model).
func (in *Interp) record(label string, m map[int32]uint64) {
	if debugPC {
		in.dumpPC(label)
	}
	if m == nil {
		m = in.p.model
	}
	e := in.ex
	e.rmu.Lock()
	e.vcount[label]++
	n := e.vcount[label]
	e.rmu.Unlock()
	// The first ones, and a sample of the others: not every candidate need show natively (a write may leave the
	// same contents).
	if n > 12 && (in.p.mapOrder || n%5 != 0 || n > 2000) {
		return
	}
	v := Violation{Harness: e.name, Label: label, Inputs: in.evalInputs(m), MapOrder: in.p.mapOrder, Tier: e.tier}
	for _, o := range in.evalObs(m) {
		v.Detail += o[0] + "=" + o[1] + "\n"
	}
	if in.touches != nil {
		for _, t := range in.touches {
			v.Detail += "write to shared object in " + t + "\n"
		}
	}
	e.rmu.Lock()
	e.violations = append(e.violations, v)
	first := len(e.violations) == 1
	e.rmu.Unlock()
	if first {
		// something is wrong: look a little further for other counterexamples, then report
		e.mu.Lock()
		if d := time.Now().Add(30 * time.Second); d.Before(e.deadline) {
			e.deadline = d
		}
		e.mu.Unlock()
	}
}

// ---- decisions -------------------------------------------------------------

func (in *Interp) addPC(t *Term) {
	p := in.p
	if t == in.tt.True {
		return
	}
	if t.op == OpAnd {
		in.addPC(t.args[0])
		in.addPC(t.args[1])
		return
	}
	if t.op == OpNot && t.args[0].op == OpOr {
		in.addPC(in.tt.Not(t.args[0].args[0]))
		in.addPC(in.tt.Not(t.args[0].args[1]))
		return
	}
	if !p.pcset[t] {
		in.narrow(t)
		p.pcset[t] = true
		p.pc = append(p.pc, t)
	}
}

// implied: 1 / -1 if the path condition syntactically contains t / its negation, else 0.
func (in *Interp) implied(t *Term) int {
	p := in.p
	if p.pcset[t] {
		return 1
	}
	if p.pcset[in.tt.Not(t)] {
		return -1
	}
	if t.op == OpAnd {
		a, b := in.implied(t.args[0]), in.implied(t.args[1])
		if a == 1 && b == 1 {
			return 1
		}
		if a == -1 || b == -1 {
			return -1
		}
	}
	if t.op == OpOr {
		a, b := in.implied(t.args[0]), in.implied(t.args[1])
		if a == 1 || b == 1 {
			return 1
		}
		if a == -1 && b == -1 {
			return -1
		}
	}
	if t.op == OpNot {
		return -in.implied(t.args[0])
	}
	return 0
}

func (in *Interp) relevant(t *Term) []*Term {
	p := in.p
	vs := t.vars
	out := []*Term{t}
	taken := make([]bool, len(p.pc))
	for changed := true; changed; {
		changed = false
		for i, c := range p.pc {
			if taken[i] || !shares(c.vars, vs) {
				continue
			}
			taken[i] = true
			out = append(out, c)
			n := unionVars(vs, c.vars)
			if len(n) != len(vs) {
				changed = true
			}
			vs = n
		}
	}
	return out
}

func shares(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			return true
		case a[i] < b[j]:
			i++
		default:
			j++
		}
	}
	return false
}

func (in *Interp) evalModel(t *Term) bool {
	return evalTerm(t, in.p.model, map[*Term]uint64{}) == 1
}

// check decides PC and t; on Sat returns a full model.
func (in *Interp) check(t *Term) (Result, map[int32]uint64) {
	if t == in.tt.False {
		return Unsat, nil
	}
	if in.evalModel(t) {
		return Sat, in.p.model
	}
	if r, m, ok := in.tabulate(t); ok {
		return r, m
	}
	return in.solve(t)
}

// solve asks the solver for PC and t.
func (in *Interp) solve(t *Term) (Result, map[int32]uint64) {
	if t == in.tt.False {
		return Unsat, nil
	}
	r, m := in.solver.Check(in.tt, in.relevant(t))
	if r != Sat {
		if r == Unknown {
			in.p.reduced("solver answered unknown on a feasibility query")
		}
		return r, nil
	}
	full := make(map[int32]uint64, len(in.p.model)+len(m))
	for k, v := range in.p.model {
		full[k] = v
	}
	for k, v := range m {
		full[k] = v
	}
	return Sat, full
}

func (in *Interp) feasible(t *Term) bool {
	r, _ := in.check(t)
	return r == Sat
}

func (in *Interp) named(m map[int32]uint64) map[string]uint64 {
	out := make(map[string]uint64, len(m))
	for id, v := range m {
		if v != 0 {
			out[in.tt.vars[id].name] = v
		}
	}
	return out
}

func (in *Interp) replaying() bool { return in.p.pos < len(in.p.prefix) }

func (in *Interp) nextDecision() uint64 {
	d := in.p.prefix[in.p.pos]
	in.p.pos++
	in.p.decisions = append(in.p.decisions, d)
	return d
}

func (in *Interp) alternative(d uint64, m map[int32]uint64) {
	p := in.p
	pre := make([]uint64, len(p.decisions)+1)
	copy(pre, p.decisions)
	pre[len(p.decisions)] = d
	var nm map[string]uint64
	if m != nil {
		nm = in.named(m)
	}
	in.ex.push(workItem{prefix: pre, model: nm})
}

func (in *Interp) take(d uint64) {
	in.p.decisions = append(in.p.decisions, d)
	in.p.pos = len(in.p.decisions)
	if len(in.p.prefix) < in.p.pos {
		in.p.prefix = in.p.decisions
	}
}

func (in *Interp) branchV(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return in.branch(x)
	}
	panic(unsupported(fmt.Sprintf("branch on %T", v)))
}

func (in *Interp) branch(t *Term) bool {
	if t.op == OpConst {
		return t.val == 1
	}
	if i := in.implied(t); i != 0 {
		return i == 1
	}
	if in.initDepth > 0 {
		panic(unsupported("symbolic branch in init"))
	}
	if in.specStart != 0 {
		g := in.specGuard
		a := in.feasible(in.tt.And(g, t))
		b := in.feasible(in.tt.And(g, in.tt.Not(t)))
		if a == b {
			panic(specAbort{"branch"})
		}
		return a
	}
	return in.fork([]*Term{t, in.tt.Not(t)}) == 0
}

// fork picks one of mutually exclusive, exhaustive guards; the others become work items.
func (in *Interp) fork(gs []*Term) int {
	p := in.p
	p.branches++
	if in.specStart != 0 {
		panic(specAbort{"fork"})
	}
	if in.replaying() {
		d := in.nextDecision()
		in.addPC(gs[d])
		return int(d)
	}
	pick := -1
	for i, g := range gs {
		if in.evalModel(g) {
			pick = i
			break
		}
	}
	if pick < 0 {
		panic(unsupported("no guard true under the model"))
	}
	for i, g := range gs {
		if i == pick {
			continue
		}
		if g == in.tt.False {
			continue
		}
		if r, m := in.check(g); r == Sat {
			in.alternative(uint64(i), m)
		}
	}
	in.take(uint64(pick))
	in.addPC(gs[pick])
	return pick
}

// choose is an unconstrained n-way decision.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	p := in.p
	p.branches++
	if in.specStart != 0 {
		panic(specAbort{"choose"})
	}
	if in.replaying() {
		return int(in.nextDecision())
	}
	for i := n - 1; i >= 1; i-- {
		in.alternative(uint64(i), p.model)
	}
	in.take(0)
	return 0
}

const maxConcretize = 300

// concretize forks over all feasible values of t.
func (in *Interp) concretize(t *Term, w uint8) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if in.specStart != 0 {
		panic(specAbort{"concretize"})
	}
	p := in.p
	p.branches++
	if in.replaying() {
		d := in.nextDecision()
		in.addPC(in.tt.Eq(t, in.tt.BV(d, w)))
		return d
	}
	v := evalTerm(t, p.model, map[*Term]uint64{})
	excl := in.tt.Not(in.tt.Eq(t, in.tt.BV(v, w)))
	n := 0
	for {
		r, m := in.check(excl)
		if r != Sat {
			break
		}
		v2 := evalTerm(t, m, map[*Term]uint64{})
		in.alternative(v2, m)
		excl = in.tt.And(excl, in.tt.Not(in.tt.Eq(t, in.tt.BV(v2, w))))
		n++
		if n >= maxConcretize {
			p.reduced(fmt.Sprintf("a symbolic value was concretised to the first %d of its values", maxConcretize))
			break
		}
	}
	in.take(v)
	in.addPC(in.tt.Eq(t, in.tt.BV(v, w)))
	return v
}

func (in *Interp) assume(v Value) {
	if x, ok := v.(bool); in.specStart != 0 && !(ok && x) {
		panic(specAbort{"assume"})
	}
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathEnd{"assume"})
		}
	case *Term:
		if i := in.implied(x); i != 0 {
			if i < 0 {
				panic(pathEnd{"assume"})
			}
			return
		}
		if in.replaying() || in.evalModel(x) {
			in.addPC(x)
			return
		}
		r, m := in.check(x)
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			panic(unsupported("assumption undecided"))
		}
		in.p.model = m
		in.addPC(x)
	default:
		panic(unsupported("assume"))
	}
}

// assertStats: assertions that the encoding simplified to true on their path, and those decided by a solver query.
var assertStats struct{ Folded, Solver atomic.Int64 }

func (in *Interp) assert(v Value, label string) {
	p := in.p
	if x, ok := v.(bool); in.specStart != 0 && !(ok && x) {
		panic(specAbort{"assert"})
	}
	p.asserts++
	switch x := v.(type) {
	case bool:
		if x {
			assertStats.Folded.Add(1)
		}
		if !x {
			in.record(label, nil)
			panic(pathEnd{"violation"})
		}
	case *Term:
		if i := in.implied(x); i == 1 {
			return
		}
		if in.replaying() {
			in.addPC(x)
			return
		}
		if x == in.tt.True {
			assertStats.Folded.Add(1)
			return
		}
		assertStats.Solver.Add(1)
		r, m := in.solve(in.tt.Not(x))
		if r == Sat {
			in.record(label, m)
		}
		if r == Unknown {
			panic(unsupported("assertion undecided: " + label))
		}
		if !in.evalModel(x) {
			r2, m2 := in.check(x)
			if r2 != Sat {
				panic(pathEnd{"violation"})
			}
			p.model = m2
		}
		in.addPC(x)
	default:
		panic(unsupported("assert"))
	}
}

// newVar introduces a symbolic input.
func (in *Interp) newVar(name, kind string, w uint8) *Term {
	p := in.p
	if in.specStart != 0 {
		panic(specAbort{"new input"})
	}
	k := p.names[name]
	p.names[name] = k + 1
	full := fmt.Sprintf("%s#%d:%d", name, k, w)
	t := in.tt.Var(full, w)
	if v, ok := p.startMod[full]; ok {
		p.model[t.vars[0]] = v
	} else if _, ok := p.model[t.vars[0]]; !ok {
		p.model[t.vars[0]] = 0
	}
	if kind != "" {
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: kind, val: t})
	}
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = strings.Join
