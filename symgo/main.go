package main

// symgo decides the assertions of the harness functions of one property by symbolic execution of /repo's code.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type harnessReport struct {
	Name        string           `json:"harness"`
	Paths       int64            `json:"paths"`
	Pruned      int64            `json:"paths_outside_assumptions"`
	Unsupported int64            `json:"paths_left_to_native_execution"`
	Reasons     map[string]int   `json:"reasons,omitempty"`
	Instrs      int64            `json:"ssa_instructions"`
	Branches    int64            `json:"symbolic_decisions"`
	Asserts     int64            `json:"assertions_decided"`
	Vars        int              `json:"max_symbolic_inputs"`
	MaxPC       int              `json:"max_path_condition"`
	Covers      map[string]int64 `json:"reached"`
	Complete    bool             `json:"complete_within_bounds"`
	Notes       []string         `json:"notes,omitempty"`
	Validated   int              `json:"native_runs_agreeing"`
	Disagree    int              `json:"native_runs_disagreeing"`
	Fallbacks   int              `json:"native_fallback_runs"`
	Spurious    []string         `json:"unconfirmed_counterexamples,omitempty"`
	Wall        float64          `json:"wall_s"`
	Mismatch    []string         `json:"mismatches,omitempty"`
}

type replayItem struct {
	Harness  string      `json:"harness"`
	Inputs   []inputRec  `json:"inputs"`
	Tier     string      `json:"tier"`
	Repeat   int         `json:"repeat"`
	Want     [][2]string `json:"want,omitempty"`
	Property string      `json:"property,omitempty"`
	Label    string      `json:"label,omitempty"`
	Detail   string      `json:"detail,omitempty"`
}

type replayOutcome struct {
	Violations []string    `json:"violations"`
	Obs        [][2]string `json:"obs"`
	Assume     bool        `json:"assume"`
	Panic      string      `json:"panic"`
	Mismatch   string      `json:"mismatch"`
	Timeout    bool        `json:"timeout"`
	Missing    bool        `json:"missing"`
	Race       bool        `json:"race"`
	Crash      string      `json:"crash"`
}

func (o *replayOutcome) bad() (string, bool) {
	switch {
	case o.Race:
		return "data race while rendering", true
	case len(o.Violations) > 0:
		return o.Violations[0], true
	case o.Panic != "":
		return "uncaught panic: " + o.Panic, true
	case o.Timeout:
		return "does not terminate", true
	case o.Crash != "":
		return "process crash: " + o.Crash, true
	}
	return "", false
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Detail   string `json:"detail_contains"`
	What     string `json:"what"`
}

var (
	root    = "/verif"
	outDir  string
	verbose bool
)

func goEnv(extra ...string) []string {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GONOSUMDB=*")
	return append(env, extra...)
}

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "symgo: "+f+"\n", a...)
	os.Exit(code)
}

func loadProgram() (*Program, *ssa.Package) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(root, "harness"), Env: goEnv("CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, "verifharness/props")
	if err != nil {
		fatal(2, "load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, "verifharness") || strings.HasPrefix(p.PkgPath, "github.com/ulule") {
				fmt.Fprintln(os.Stderr, e)
				bad = true
			}
		}
	})
	if bad {
		fatal(2, "the tree does not build")
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, p := range prog.AllPackages() {
		pp := p.Pkg.Path()
		if strings.HasPrefix(pp, "verifharness") || strings.HasPrefix(pp, "github.com/ulule") {
			p.Build()
		}
	}
	P := &Program{ssa: prog}
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			P.rtErrType = o.Type()
		}
	}
	return P, ps[0]
}

func discover(pkg *ssa.Package, prop string) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 0 || f.Signature.Recv() != nil {
			continue
		}
		n := f.Name()
		if len(n) < 5 || n[0] != 'C' || n[3] != '_' {
			continue
		}
		if prop == "" || strings.HasPrefix(n, prop+"_") {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// buildReplay compiles the native counterpart of the harnesses from the current tree.
func buildReplay(names []string, race bool) (string, error) {
	var b bytes.Buffer
	b.WriteString("package main\n\nimport \"verifharness/props\"\n\nvar registry = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t%q: props.%s,\n", n, n)
	}
	b.WriteString("}\n")
	gen := filepath.Join(outDir, "registry.go")
	if err := os.WriteFile(gen, b.Bytes(), 0o644); err != nil {
		return "", err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(root, "harness/cmd/replay/registry.go"): gen}})
	ovf := filepath.Join(outDir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(outDir, "replay")
	args := []string{"build", "-overlay", ovf, "-o", bin, "./cmd/replay"}
	env := goEnv("CGO_ENABLED=0")
	if race {
		bin += "_race"
		args = []string{"build", "-race", "-overlay", ovf, "-o", bin, "./cmd/replay"}
		env = goEnv("CGO_ENABLED=1")
	}
	c := exec.Command("go", args...)
	c.Dir = filepath.Join(root, "harness")
	c.Env = env
	if out, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, nil
}

func runNative(bin string, items []replayItem, tag string, race bool) []replayOutcome {
	res := make([]replayOutcome, len(items))
	if len(items) == 0 {
		return res
	}
	in := filepath.Join(outDir, tag+".in.json")
	outp := filepath.Join(outDir, tag+".out.txt")
	os.Remove(outp)
	b, _ := json.Marshal(items)
	os.WriteFile(in, b, 0o644)
	done := 0
	readOut := func() {
		f, err := os.Open(outp)
		if err != nil {
			return
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		done = 0
		for sc.Scan() {
			l := sc.Text()
			i := strings.IndexByte(l, ' ')
			if i < 0 {
				continue
			}
			k, err := strconv.Atoi(l[:i])
			if err != nil || k >= len(res) {
				continue
			}
			var o replayOutcome
			if json.Unmarshal([]byte(l[i+1:]), &o) == nil {
				res[k] = o
				if k+1 > done {
					done = k + 1
				}
			}
		}
	}
	crashes := map[int]string{}
	raced := map[int]bool{}
	for tries := 0; done < len(items) && tries < 400; tries++ {
		c := exec.Command(bin, "-batch", in, outp, strconv.Itoa(done))
		c.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=1", "GOMEMLIMIT=4GiB")
		var eb bytes.Buffer
		c.Stderr = &eb
		err := c.Run()
		before := done
		readOut()
		if err == nil {
			break
		}
		code := -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if code == 3 {
			continue
		}
		if done >= len(items) {
			break
		}
		if code == 66 {
			raced[done] = true
		} else {
			msg := eb.String()
			if len(msg) > 300 {
				msg = msg[:300]
			}
			crashes[done] = msg
		}
		// record and go past the item that ended the process
		f, _ := os.OpenFile(outp, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		fmt.Fprintf(f, "%d {}\n", done)
		f.Close()
		_ = before
		readOut()
	}
	for k, m := range crashes {
		res[k] = replayOutcome{Crash: m}
	}
	for k := range raced {
		res[k] = replayOutcome{Race: true}
	}
	return res
}

func main() {
	var (
		prop    = flag.String("prop", "", "property id")
		only    = flag.String("only", "", "only harnesses whose name contains this")
		tier    = flag.String("tier", "", "quick or thorough")
		budget  = flag.Float64("budget", 0, "seconds of exploration for the whole property")
		workers = flag.Int("workers", 0, "")
		rootF   = flag.String("root", "/verif", "")
		prof    = flag.String("prof", "", "")
		noEv    = flag.Bool("noevidence", false, "")
		list    = flag.Bool("list", false, "")
	)
	flag.BoolVar(&verbose, "v", false, "")
	flag.Parse()
	start := time.Now()
	root = *rootF
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	if *budget == 0 {
		*budget = 200
		if *tier == "thorough" {
			*budget = 700
		}
	}
	var err error
	outDir = filepath.Join(root, "out", *prop)
	if *prop == "" {
		outDir = filepath.Join(root, "out", "all")
	}
	if err = os.MkdirAll(outDir, 0o755); err != nil {
		fatal(2, "%v", err)
	}
	P, pkg := loadProgram()
	fns := discover(pkg, *prop)
	if *only != "" {
		var k []*ssa.Function
		for _, f := range fns {
			if strings.Contains(f.Name(), *only) {
				k = append(k, f)
			}
		}
		fns = k
	}
	if *list {
		for _, f := range fns {
			fmt.Println(f.Name())
		}
		return
	}
	if len(fns) == 0 {
		fatal(2, "no harness for %q", *prop)
	}
	loadT := time.Since(start)
	// the native binary is built while the exploration runs
	type built struct {
		bin string
		err error
	}
	var names []string
	for _, f := range fns {
		names = append(names, f.Name())
	}
	bch := make(chan built, 1)
	go func() { b, e := buildReplay(names, false); bch <- built{b, e} }()

	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	bin := os.Getenv("SYMGO_SOLVER")
	if bin == "" {
		bin = "z3-new"
		if _, err := exec.LookPath(bin); err != nil {
			bin = "z3"
		}
	}
	var ins []*Interp
	for i := 0; i < *workers; i++ {
		in := NewInterp(P)
		in.solver = NewSolver(bin, 20000)
		ins = append(ins, in)
	}
	deadline := start.Add(time.Duration(*budget * float64(time.Second)))
	var exps []*Explorer
	var reps []*harnessReport
	for i, f := range fns {
		e := NewExplorer(P, f, *tier)
		left := time.Until(deadline)
		share := left
		if n := len(fns) - i; n > 1 {
			share = left / time.Duration(2*n) * 3
			if share > left {
				share = left
			}
		}
		e.deadline = time.Now().Add(share)
		t0 := time.Now()
		e.Run(ins)
		r := &harnessReport{Name: e.name, Paths: e.paths.Load(), Pruned: e.infeasible.Load(), Unsupported: e.unsupp.Load(), Reasons: e.unsuppMsgs,
			Instrs: e.instrs.Load(), Branches: e.branches.Load(), Asserts: e.asserts.Load(), Vars: e.maxInputs, MaxPC: e.maxPC, Covers: e.covers,
			Complete: !e.timedOut, Notes: sortedKeys(e.notes), Wall: time.Since(t0).Seconds()}
		exps = append(exps, e)
		reps = append(reps, r)
		if verbose {
			fmt.Fprintf(os.Stderr, "%-40s paths=%d pruned=%d unsupp=%d instrs=%d dec=%d asserts=%d complete=%v %.1fs q=%d covers=%v\n", r.Name, r.Paths, r.Pruned, r.Unsupported, r.Instrs, r.Branches, r.Asserts, r.Complete, r.Wall, stats.Queries.Load(), r.Covers)
			for m, n := range e.unsuppMsgs {
				fmt.Fprintf(os.Stderr, "    %d x %s\n", n, m)
			}
			for _, n := range r.Notes {
				fmt.Fprintf(os.Stderr, "    note %s\n", n)
			}
			for l, n := range e.vcount {
				fmt.Fprintf(os.Stderr, "    VIOLATION? %d x %s\n", n, l)
			}
		}
	}
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	for _, in := range ins {
		in.solver.Close()
	}
	b := <-bch
	if b.err != nil {
		fatal(2, "building the replay binary: %v", b.err)
	}

	// native execution: counterexamples, paths the encoding could not follow, and a sample of the others
	type confirmed struct {
		label string
		item  replayItem
		e     *Explorer
	}
	var found []confirmed
	validated := 0
	var samplesOut []any
	raceBin := ""
	for i, e := range exps {
		r := reps[i]
		// candidates
		var items []replayItem
		for _, v := range e.violations {
			rep := 1
			if v.MapOrder {
				rep = 400
			}
			items = append(items, replayItem{Harness: e.name, Inputs: v.Inputs, Tier: *tier, Repeat: rep, Property: *prop, Label: v.Label, Detail: v.Detail})
		}
		outs := runNative(b.bin, items, e.name+".cex", false)
		okLabel := map[string]bool{}
		spur := map[string]int{}
		for k, o := range outs {
			if l, bad := o.bad(); bad {
				items[k].Label = l
				found = append(found, confirmed{l, items[k], e})
				okLabel[e.violations[k].Label] = true
			}
		}
		needRace := false
		for k := range outs {
			if !okLabel[e.violations[k].Label] {
				spur[e.violations[k].Label]++
				if strings.Contains(e.violations[k].Label, "writes") {
					needRace = true
				}
			}
		}
		if needRace {
			if raceBin == "" {
				raceBin, err = buildReplay(names, true)
				if err != nil {
					fatal(2, "building the race replay binary: %v", err)
				}
			}
			var ri []replayItem
			per := map[string]int{}
			for k := range items {
				if l := e.violations[k].Label; !okLabel[l] && per[l] < 12 {
					per[l]++
					it := items[k]
					it.Repeat = 20
					ri = append(ri, it)
				}
			}
			for k, o := range runNative(raceBin, ri, e.name+".race", true) {
				if l, bad := o.bad(); bad {
					ri[k].Label = l
					found = append(found, confirmed{l, ri[k], e})
					okLabel[l] = true
					spur = map[string]int{}
				}
			}
		}
		for l, n := range spur {
			r.Spurious = append(r.Spurious, fmt.Sprintf("%d x %s", n, l))
		}
		// fallbacks and samples
		items = items[:0]
		all := append(append([]Sample{}, e.fallbacks...), e.samples...)
		for _, s := range all {
			it := replayItem{Harness: e.name, Inputs: s.Inputs, Tier: *tier, Repeat: 1, Property: *prop}
			if !s.Fallback {
				it.Want = s.Obs
				if it.Want == nil {
					it.Want = [][2]string{}
				}
				if s.MapOrder {
					it.Repeat = 60
				}
			}
			items = append(items, it)
		}
		for k, o := range runNative(b.bin, items, e.name+".paths", false) {
			s := all[k]
			if l, bad := o.bad(); bad {
				items[k].Want = nil
				items[k].Label = l
				found = append(found, confirmed{l, items[k], e})
				continue
			}
			if s.Fallback {
				r.Fallbacks++
				continue
			}
			if o.Mismatch == "" && !o.Assume && fmt.Sprint(o.Obs) == fmt.Sprint(s.Obs) {
				r.Validated++
				validated++
				if len(samplesOut) < 12 && k%7 == 0 {
					samplesOut = append(samplesOut, map[string]any{"harness": e.name, "inputs": describe(s.Inputs), "observed": s.Obs})
				}
			} else {
				r.Disagree++
				if len(r.Mismatch) < 5 {
					r.Mismatch = append(r.Mismatch, fmt.Sprintf("encoding %v native %v %s assume=%v inputs %v", s.Obs, o.Obs, o.Mismatch, o.Assume, describe(s.Inputs)))
				}
			}
		}
		if verbose && (r.Disagree > 0 || len(r.Spurious) > 0) {
			fmt.Fprintf(os.Stderr, "%s: disagree=%d spurious=%v %s\n", e.name, r.Disagree, r.Spurious, strings.Join(r.Mismatch, "\n   "))
			for _, v := range e.violations {
				fmt.Fprintf(os.Stderr, "   cand %s :: %s %s\n", v.Label, v.Detail, describe(v.Inputs))
			}
		}
	}

	// known findings
	var kf []knownFinding
	if f, err := os.Open(filepath.Join(root, "known_findings.txt")); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			var k knownFinding
			if t, ok := strings.CutPrefix(sc.Text(), "known: "); ok && json.Unmarshal([]byte(t), &k) == nil {
				kf = append(kf, k)
			}
		}
		f.Close()
	}
	nviol := 0
	seen := map[string]bool{}
	knownSeen := map[string]bool{}
	for _, c := range found {
		matched := false
		for _, k := range kf {
			if k.Property == *prop && (k.Harness == "" || k.Harness == c.e.name) && k.Label == c.label && strings.Contains(c.item.Detail, k.Detail) {
				matched = true
				if !knownSeen[k.What] {
					knownSeen[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				}
				break
			}
		}
		if matched {
			continue
		}
		nviol++
		key := c.e.name + c.label
		if seen[key] || len(seen) >= 8 {
			continue
		}
		seen[key] = true
		p := filepath.Join(root, "out", fmt.Sprintf("%s-%d.replay.json", *prop, len(seen)))
		js, _ := json.MarshalIndent(c.item, "", " ")
		os.WriteFile(p, js, 0o644)
		fmt.Printf("%s: %s\n  inputs: %s\n", c.e.name, c.label, describe(c.item.Inputs))
		if c.item.Detail != "" {
			fmt.Printf("  %s\n", strings.ReplaceAll(strings.TrimSpace(c.item.Detail), "\n", "\n  "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
	}

	if !*noEv && *prop != "" && *only == "" {
		writeEvidence(*prop, *tier, seed, bin, exps, reps, validated, samplesOut, nviol, len(knownSeen), start, loadT)
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "load %.1fs total %.1fs queries=%d cache=%d sat=%d unsat=%d unknown=%d errors=%d solver=%.1fs validated=%d\n", loadT.Seconds(), time.Since(start).Seconds(),
			stats.Queries.Load(), stats.CacheHits.Load(), stats.Sat.Load(), stats.Unsat.Load(), stats.Unknown.Load(), stats.Errors.Load(), float64(stats.Nanos.Load())/1e9, validated)
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "assertions: %d by solver, %d by simplification; value sets: %d; audit: %d simplifications %d value sets %d queries %d unknown %d refuted\n", assertStats.Solver.Load(), assertStats.Folded.Load(), tabulated.Load(),
			auditStats.Rewrites.Load(), auditStats.Domain.Load(), auditStats.Queries.Load(), auditStats.Unknown.Load(), auditStats.Bad.Load())
	}
	if nviol > 0 {
		os.Exit(1)
	}
	if auditStats.Bad.Load() > 0 {
		fatal(2, "the solver refutes the encoder")
	}
	fmt.Printf("OK property=%s harnesses=%d paths=%d\n", *prop, len(fns), func() (n int64) {
		for _, r := range reps {
			n += r.Paths
		}
		return
	}())
}

// describe prints inputs compactly, joining the bytes of strings.
func describe(in []inputRec) string {
	var b strings.Builder
	for i := 0; i < len(in); i++ {
		r := in[i]
		if b.Len() > 0 {
			b.WriteByte(' ')
		}
		if r.Kind == "byte" {
			var s []byte
			j := i
			for j < len(in) && in[j].Kind == "byte" && in[j].Name == r.Name {
				s = append(s, byte(in[j].Val))
				j++
			}
			fmt.Fprintf(&b, "%s=%q", r.Name, s)
			i = j - 1
			continue
		}
		switch r.Kind {
		case "int8":
			fmt.Fprintf(&b, "%s=%d", r.Name, int8(r.Val))
		case "int16":
			fmt.Fprintf(&b, "%s=%d", r.Name, int16(r.Val))
		case "int32":
			fmt.Fprintf(&b, "%s=%d", r.Name, int32(r.Val))
		case "int64", "int":
			fmt.Fprintf(&b, "%s=%d", r.Name, int64(r.Val))
		default:
			fmt.Fprintf(&b, "%s=%d", r.Name, r.Val)
		}
	}
	return b.String()
}

func writeEvidence(prop, tier string, seed int, solver string, exps []*Explorer, reps []*harnessReport, validated int, samples []any, nviol, nknown int, start time.Time, loadT time.Duration) {
	fset := map[string]bool{}
	var paths, trans, pruned, asserts, instrs, fb int64
	complete := true
	for i, e := range exps {
		for f := range e.fns {
			fset[f] = true
		}
		paths += reps[i].Paths
		pruned += reps[i].Pruned
		trans += reps[i].Branches
		asserts += reps[i].Asserts
		instrs += reps[i].Instrs
		fb += reps[i].Unsupported
		complete = complete && reps[i].Complete && reps[i].Unsupported == 0
	}
	var lk, lib []string
	for f := range fset {
		if strings.Contains(f, "github.com/ulule/loukoum") {
			lk = append(lk, strings.ReplaceAll(f, "github.com/ulule/loukoum/v3/", ""))
		} else if !strings.Contains(f, "verifharness") {
			lib = append(lib, f)
		}
	}
	sort.Strings(lk)
	sort.Strings(lib)
	for _, r := range reps {
		if r.Covers == nil {
			r.Covers = map[string]int64{}
		}
	}
	cov := map[string]any{
		"states":                         paths,
		"transitions":                    trans,
		"traces_validated_against_impl":  validated,
		"samples":                        samples,
		"exhaustive":                     complete,
		"explanation":                    "states: feasible execution paths of the harnesses over the real code, each standing for all inputs satisfying its path condition; transitions: symbolic decisions (branches, map orders, enumerated choices) taken on them; every assertion on every path was decided for all inputs of the path: by a solver query for the negation of the assertion under the path condition, unless the simplifying term constructors already reduced it to true under that path; branch feasibility is decided by exact value sets of single bytes where they suffice and by solver queries otherwise; a sample of the simplifications and of the value-set decisions is audited by the solver in every run",
		"paths_outside_assumptions":      pruned,
		"paths_left_to_native_execution": fb,
		"assertions_decided":             asserts,
		"ssa_instructions":               instrs,
		"functions_encoded_loukoum":      lk,
		"functions_encoded_library":      lib,
		"harnesses":                      reps,
		"bounds":                         boundsOf(prop, tier),
		"queries":                        map[string]int64{"discharged_by_solver": stats.Queries.Load(), "answered_from_cache": stats.CacheHits.Load(), "sat": stats.Sat.Load(), "unsat": stats.Unsat.Load(), "unknown": stats.Unknown.Load()},
		"assertions":                     map[string]int64{"by_solver_query": assertStats.Solver.Load(), "by_simplification": assertStats.Folded.Load()},
		"branch_decisions_by_value_sets": tabulated.Load(),
		"audit":                          map[string]int64{"simplifications": auditStats.Rewrites.Load(), "value_set_decisions": auditStats.Domain.Load(), "solver_queries": auditStats.Queries.Load(), "unknown": auditStats.Unknown.Load(), "refuted": auditStats.Bad.Load()},
		"solver":                         solver,
		"solver_time_s":                  float64(stats.Nanos.Load()) / 1e9,
		"slowest_query_s":                float64(stats.MaxNanos.Load()) / 1e9,
		"load_s":                         loadT.Seconds(),
		"known_findings":                 nknown,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the SSA form produced by golang.org/x/tools/go/ssa means what the compiler's code means",
			"the hand-written models of library leaves (strconv, fmt verbs, sort.Slice, sync, reflect, bytealg assembly) agree with the library; sampled paths are executed natively and compared on every run",
			"inputs outside the stated bounds are not covered",
			"floating point values are represented by the special values, values around every constant the code compares them with and some of each shape; times are symbolic instants (seconds and nanoseconds) in two zones",
		},
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), js, 0o644); err != nil {
		fatal(2, "%v", err)
	}
}

// boundsOf returns the bounds written next to the harnesses.
func boundsOf(prop, tier string) any {
	b, err := os.ReadFile(filepath.Join(root, "harness", "bounds.json"))
	if err != nil {
		return "see DESIGN.md"
	}
	var m map[string]any
	if json.Unmarshal(b, &m) != nil {
		return "see DESIGN.md"
	}
	return m[prop]
}

var _ types.Type
