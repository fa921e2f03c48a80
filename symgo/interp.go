package main

// SSA interpreter over symbolic values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- control-flow panics of the engine ------------------------------------

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

type targetPanic struct {
	v Iface
	// rt is set for run-time errors
	rt string
}
type specAbort struct{ why string }
type pathEnd struct{ why string } // infeasible, assumption failed, limits

func (in *Interp) rtPanic(msg string) targetPanic {
	v := Iface{}
	if in.prog.rtErrType != nil {
		v = Iface{in.prog.rtErrType, msg}
	}
	return targetPanic{v: v, rt: msg}
}
func (in *Interp) nilDeref() targetPanic {
	return in.rtPanic("invalid memory address or nil pointer dereference")
}

// ---- program --------------------------------------------------------------

type Program struct {
	ssa       *ssa.Program
	rtErrType types.Type
	infos     sync.Map // *ssa.Function -> *FnInfo
	methods   sync.Map // methKey -> *ssa.Function
	pkgOf     map[*ssa.Package]bool
	buildMu   sync.Mutex
	used      sync.Map // function name -> true (functions encoded)
}

type methKey struct {
	t types.Type
	m string
	p *types.Package
}

type operand struct {
	reg  int32 // >=0 register; -1 constant; -2 global; -3 absent
	val  Value
	glob *ssa.Global
}

type cInstr struct {
	ins ssa.Instruction
	dst int32
	ops []operand
	w   uint8
	s   bool
	t   types.Type // auxiliary type (operand or element)
	aux int
}

type cBlock struct {
	instrs []cInstr
	nphi   int
	pure   bool // only instructions that may be speculated
}

type FnInfo struct {
	fn       *ssa.Function
	nregs    int
	regs     map[ssa.Value]int32
	blocks   []cBlock
	hasDefer bool
	model    func(in *Interp, fr *Frame, args []Value) Value
	name     string
	ready    bool
	loukoum  bool
}

type deferred struct {
	fn   Value
	args []Value
	ci   *ssa.CallCommon
	inv  func()
}

type Frame struct {
	info    *FnInfo
	env     []Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	skipPhi bool
	defers  []deferred
	caller  *Frame
	result  Value
	done    bool
	panik   *targetPanic
	callee  *Frame
	depth   int
}

type Interp struct {
	prog       *Program
	tt         *TermTable
	solver     *Solver
	slotCache  map[types.Type]int
	fieldCache map[*types.Struct][]int
	globals    map[*ssa.Global]*Obj
	inited     map[*ssa.Package]bool
	typeIDs    *typeutil.Map
	fnVals     map[*ssa.Function]*Closure
	digits     map[string]Value
	nextObj    int64
	epoch      int64
	initDepth  int
	undo       []undoRec
	specStart  int64
	dom        domains
	specGuard  *Term
	specSteps  int
	lockDepth  int
	touches    map[int32]string
	nfrz       int32
	watch      int32 // freeze group to which writes to package state are reported
	allFns     map[string]bool

	p  *PathState
	ex *Explorer
}

func NewInterp(prog *Program) *Interp {
	return &Interp{prog: prog, tt: NewTermTable(), slotCache: map[types.Type]int{}, fieldCache: map[*types.Struct][]int{},
		globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{}, typeIDs: new(typeutil.Map),
		fnVals: map[*ssa.Function]*Closure{}}
}

func (in *Interp) noteTouch(g int32, what string) {
	if in.touches == nil {
		in.touches = map[int32]string{}
	}
	if _, ok := in.touches[g]; !ok {
		in.touches[g] = what
	}
}

func (in *Interp) fnVal(f *ssa.Function) *Closure {
	if c, ok := in.fnVals[f]; ok {
		return c
	}
	c := &Closure{fn: f}
	in.fnVals[f] = c
	return c
}

// ---- compilation of functions ----------------------------------------------

func (in *Interp) info(fn *ssa.Function) *FnInfo {
	if v, ok := in.prog.infos.Load(fn); ok {
		return v.(*FnInfo)
	}
	in.prog.buildMu.Lock()
	defer in.prog.buildMu.Unlock()
	if v, ok := in.prog.infos.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{fn: fn, regs: map[ssa.Value]int32{}, name: fn.String()}
	fi.model = findModel(fn)
	if fi.model == nil && fn.Blocks == nil && fn.Package() != nil {
		fn.Package().Build()
	}
	fi.loukoum = fnPkgPath(fn) != "" && strings.HasPrefix(fnPkgPath(fn), "github.com/ulule/loukoum")
	reg := func(v ssa.Value) {
		fi.regs[v] = int32(fi.nregs)
		fi.nregs++
	}
	for _, p := range fn.Params {
		reg(p)
	}
	for _, p := range fn.FreeVars {
		reg(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				reg(v)
			}
			switch ins.(type) {
			case *ssa.Defer:
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	fi.blocks = make([]cBlock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.pure = true
		for _, ins := range b.Instrs {
			ci := cInstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = fi.regs[v]
			}
			for _, op := range ins.Operands(nil) {
				if op == nil || *op == nil {
					ci.ops = append(ci.ops, operand{reg: -3})
					continue
				}
				switch x := (*op).(type) {
				case *ssa.Const:
					ci.ops = append(ci.ops, operand{reg: -1, val: x})
				case *ssa.Global:
					ci.ops = append(ci.ops, operand{reg: -2, glob: x})
				case *ssa.Function:
					ci.ops = append(ci.ops, operand{reg: -1, val: x})
				case *ssa.Builtin:
					ci.ops = append(ci.ops, operand{reg: -3})
				default:
					r, ok := fi.regs[x]
					if !ok {
						r = -3
					}
					ci.ops = append(ci.ops, operand{reg: r})
				}
			}
			switch x := ins.(type) {
			case *ssa.BinOp:
				ci.t = x.X.Type()
				ci.w, _ = intWidth(ci.t)
				ci.s = isSigned(ci.t)
				if x.Op == token.QUO || x.Op == token.REM {
					cb.pure = cb.pure && true
				}
			case *ssa.UnOp:
				ci.t = x.X.Type()
				ci.w, _ = intWidth(ci.t)
			case *ssa.Phi:
				cb.nphi++
				ci.t = x.Type()
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.Extract,
				*ssa.Index, *ssa.IndexAddr, *ssa.Lookup, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Slice,
				*ssa.DebugRef:
			case *ssa.Call:
				if len(fn.Blocks) > 200 {
					cb.pure = false
				}
			case *ssa.Alloc:
			case *ssa.Store:
			default:
				cb.pure = false
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
	fi.ready = true
	in.prog.infos.Store(fn, fi)
	return fi
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkgPath(o)
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + c.Type().String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, _ := intWidth(t)
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return u & mask(w)
		}
		i, _ := constant.Int64Val(v)
		return uint64(i) & mask(w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
	}
	panic(unsupported("const " + c.String()))
}

func (in *Interp) op(fr *Frame, o *operand) Value {
	switch {
	case o.reg >= 0:
		return fr.env[o.reg]
	case o.reg == -2:
		return Ptr{in.global(o.glob), 0}
	case o.reg == -1:
		switch x := o.val.(type) {
		case *ssa.Const:
			return in.constVal(x)
		case *ssa.Function:
			return in.fnVal(x)
		}
		return o.val
	}
	return nil
}

func (in *Interp) global(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		if !in.inited[g.Pkg] {
			in.initPkg(g.Pkg)
		}
		return o
	}
	in.initDepth++
	o := in.allocType(deref(g.Type()))
	in.initDepth--
	o.name = g.String()
	in.globals[g] = o
	if !in.inited[g.Pkg] {
		in.initPkg(g.Pkg)
	}
	return o
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsupported("deref of " + t.String()))
}

var debugInit = os.Getenv("SYMGO_DEBUG") != ""

// initPkg runs the package's own initialisers (not those of its imports, which are run lazily too).
func (in *Interp) initPkg(pkg *ssa.Package) {
	if in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	if noInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	in.prog.buildMu.Lock()
	pkg.Build()
	in.prog.buildMu.Unlock()
	saveSpec, saveGuard := in.specStart, in.specGuard
	saveLock := in.lockDepth
	in.specStart, in.specGuard = 0, nil
	in.initDepth++
	defer func() {
		in.initDepth--
		in.specStart, in.specGuard = saveSpec, saveGuard
		in.lockDepth = saveLock
		if r := recover(); r != nil {
			if debugInit {
				fmt.Fprintln(os.Stderr, "init of", pkg.Pkg.Path(), "stopped:", r)
			}
			switch r.(type) {
			case unsupportedErr, targetPanic, specAbort:
			default:
				panic(r)
			}
		}
	}()
	in.runFn(nil, in.info(f), nil, nil)
}

// ---- calls ----------------------------------------------------------------

func (in *Interp) callFn(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := in.info(fn)
	if in.initDepth > 0 && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic == "package initializer" {
		return nil // other packages initialise lazily
	}
	return in.runFn(caller, fi, args, env)
}

func (in *Interp) callValue(caller *Frame, f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", f)))
	}
	if c == nil {
		panic(in.nilDeref())
	}
	if c.native != nil {
		return c.native(in, args)
	}
	return in.callFn(caller, c.fn, args, c.env)
}

const maxDepth = 400

func (in *Interp) runFn(caller *Frame, fi *FnInfo, args []Value, env []Value) Value {
	fn := fi.fn
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > maxDepth {
		panic(unsupported("call depth limit in " + fi.name))
	}
	if fi.model != nil {
		fr := &Frame{info: fi, caller: caller, depth: depth}
		if in.initDepth == 0 && in.allFns != nil && fi.loukoum {
			in.allFns[fi.name] = true
		}
		for i := range args {
			switch l := args[i].(type) {
			case *LazyStr:
				args[i] = l.force()
			case *LazyFloat:
				if fn.Name() != "SameFloat" {
					args[i] = l.force()
				}
			}
		}
		r := fi.model(in, fr, args)
		if _, decline := r.(declined); !decline {
			return r
		}
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fi.name))
	}
	if in.initDepth == 0 && in.allFns != nil {
		in.allFns[fi.name] = true
	}
	fr := &Frame{info: fi, env: make([]Value, fi.nregs), caller: caller, depth: depth}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	fr.block = fn.Blocks[0]
	if fi.hasDefer {
		in.runDeferring(fr)
	} else {
		in.runBlocks(fr)
	}
	return fr.result
}

type declined struct{}

// runDeferring executes a frame whose function has deferred calls.
func (in *Interp) runDeferring(fr *Frame) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				fr.panik = &tp
			}
		}()
		in.runBlocks(fr)
	}()
	if fr.panik == nil {
		return
	}
	in.runDefers(fr)
	if fr.panik != nil {
		panic(*fr.panik)
	}
	// recovered
	if fr.info.fn.Recover != nil {
		fr.block, fr.prev, fr.done = fr.info.fn.Recover, nil, false
		in.runBlocks(fr)
		return
	}
	fr.result = in.zeroResult(fr.info.fn)
}

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(res.At(0).Type())
	}
	return in.zero(res)
}

func (in *Interp) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panik = &tp
				}
			}()
			in.invoke(fr, d.ci, d.fn, d.args, true)
		}()
	}
}

// ---- execution ------------------------------------------------------------

func (in *Interp) runBlocks(fr *Frame) {
	for !fr.done {
		cb := &fr.info.blocks[fr.block.Index]
		start := 0
		if cb.nphi > 0 {
			if !fr.skipPhi {
				in.evalPhis(fr, cb)
			}
			start = cb.nphi
		}
		fr.skipPhi = false
		next := false
		for i := start; i < len(cb.instrs); i++ {
			ci := &cb.instrs[i]
			in.step()
			if in.exec(fr, ci) {
				next = true
				break
			}
		}
		if !next && !fr.done {
			panic(unsupported("fell off block in " + fr.info.name))
		}
	}
}

func (in *Interp) step() {
	if in.initDepth > 0 {
		return
	}
	in.p.steps++
	if in.p.steps > in.ex.maxSteps {
		panic(unsupported("step limit"))
	}
	if in.specStart != 0 {
		in.specSteps++
		if in.specSteps > 4000 {
			panic(specAbort{"steps"})
		}
	}
}

func (in *Interp) evalPhis(fr *Frame, cb *cBlock) {
	pi := -1
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	if cb.nphi == 1 {
		ci := &cb.instrs[0]
		fr.env[ci.dst] = in.op(fr, &ci.ops[pi])
		return
	}
	vals := make([]Value, cb.nphi)
	for i := 0; i < cb.nphi; i++ {
		vals[i] = in.op(fr, &cb.instrs[i].ops[pi])
	}
	for i := 0; i < cb.nphi; i++ {
		fr.env[cb.instrs[i].dst] = vals[i]
	}
}

func (in *Interp) jump(fr *Frame, to *ssa.BasicBlock) {
	fr.prev, fr.block = fr.block, to
}

// exec runs one instruction; true means control left the block.
func (in *Interp) exec(fr *Frame, ci *cInstr) bool {
	switch x := ci.ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Jump:
		in.jump(fr, fr.block.Succs[0])
		return true
	case *ssa.If:
		c := in.op(fr, &ci.ops[0])
		b, ok := c.(bool)
		if !ok {
			t, isT := c.(*Term)
			if !isT {
				panic(unsupported(fmt.Sprintf("branch on %T", c)))
			}
			if in.specStart == 0 {
				if in.region(fr, t) {
					return true
				}
			} else if in.region(fr, t) {
				return true
			}
			b = in.branch(t)
		}
		if b {
			in.jump(fr, fr.block.Succs[0])
		} else {
			in.jump(fr, fr.block.Succs[1])
		}
		return true
	case *ssa.Return:
		switch len(ci.ops) {
		case 0:
		case 1:
			fr.result = in.op(fr, &ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = in.op(fr, &ci.ops[i])
			}
			fr.result = t
		}
		fr.done = true
		return true
	case *ssa.RunDefers:
		in.runDefers(fr)
		if fr.panik != nil {
			tp := *fr.panik
			panic(tp)
		}
	case *ssa.Panic:
		v := in.op(fr, &ci.ops[0]).(Iface)
		if v.t == nil {
			panic(in.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)"))
		}
		panic(targetPanic{v: v})
	case *ssa.Store:
		in.store(nil, in.op(fr, &ci.ops[0]), in.op(fr, &ci.ops[1]))
	case *ssa.MapUpdate:
		m := in.op(fr, &ci.ops[0]).(*MapObj)
		if m == nil {
			panic(in.rtPanic("assignment to entry in nil map"))
		}
		in.mapSet(m, in.op(fr, &ci.ops[1]), in.op(fr, &ci.ops[2]))
	case *ssa.Defer:
		fn, args := in.prepCall(fr, ci, &x.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args, ci: &x.Call})
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(unsupported(fmt.Sprintf("%T", x)))
	case ssa.Value:
		if in.initDepth > 0 {
			in.execInit(fr, ci, x)
			return false
		}
		fr.env[ci.dst] = in.eval(fr, ci, x)
	default:
		panic(unsupported(fmt.Sprintf("%T", x)))
	}
	return false
}

// execInit tolerates unsupported computations during package initialisation by poisoning their result.
func (in *Interp) execInit(fr *Frame, ci *cInstr, x ssa.Value) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupportedErr)
			if !ok {
				if tp, ok2 := r.(targetPanic); ok2 && fr.info.fn.Synthetic == "package initializer" {
					u = unsupportedErr{"panic in init " + tp.rt}
				} else {
					panic(r)
				}
			}
			if fr.info.fn.Synthetic != "package initializer" {
				panic(u)
			}
			if debugInit {
				fmt.Fprintln(os.Stderr, "init poison:", fr.info.name, x.String(), u.msg)
			}
			n := in.nslots(x.Type())
			if isAgg(x.Type()) {
				a := make(Agg, n)
				for i := range a {
					a[i] = Poison{u.msg}
				}
				fr.env[ci.dst] = a
				return
			}
			fr.env[ci.dst] = Poison{u.msg}
		}
	}()
	fr.env[ci.dst] = in.eval(fr, ci, x)
}

func (in *Interp) eval(fr *Frame, ci *cInstr, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := ci.t
		if t == nil {
			t = deref(x.Type())
		}
		return Ptr{in.allocType(t), 0}
	case *ssa.BinOp:
		return in.binop(x.Op, ci, in.op(fr, &ci.ops[0]), in.op(fr, &ci.ops[1]), x.Y.Type())
	case *ssa.UnOp:
		a := in.op(fr, &ci.ops[0])
		switch x.Op {
		case token.MUL:
			return in.load(x.Type(), a)
		case token.NOT:
			return in.notV(a)
		case token.SUB:
			switch y := a.(type) {
			case uint64:
				return (-y) & mask(ci.w)
			case *LazyFloat:
				return -y.force()
			case float64:
				return -y
			case complex128:
				return -y
			case *Term:
				return norm(in.tt.Neg(y))
			}
		case token.XOR:
			switch y := a.(type) {
			case uint64:
				return (^y) & mask(ci.w)
			case *Term:
				return norm(in.tt.Bnot(y))
			}
		}
		panic(unsupported("unop " + x.String()))
	case *ssa.Call:
		fn, args := in.prepCall(fr, ci, &x.Call)
		return in.invoke(fr, &x.Call, fn, args, false)
	case *ssa.ChangeInterface:
		return in.op(fr, &ci.ops[0])
	case *ssa.ChangeType:
		return in.op(fr, &ci.ops[0])
	case *ssa.Convert:
		return in.convert(in.op(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return in.convert(in.op(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.Extract:
		t, ok := in.op(fr, &ci.ops[0]).(Tuple)
		if !ok {
			panic(unsupported("extract from poison"))
		}
		return t[x.Index]
	case *ssa.Field:
		a := in.op(fr, &ci.ops[0]).(Agg)
		st := x.X.Type().Underlying().(*types.Struct)
		return in.aggGet(a, in.fieldOff(st, x.Field), x.Type())
	case *ssa.FieldAddr:
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		off := in.fieldOff(st, x.Field)
		switch p := in.op(fr, &ci.ops[0]).(type) {
		case Ptr:
			if p.obj == nil {
				panic(in.nilDeref())
			}
			return Ptr{p.obj, p.off + off}
		case *SymPtr:
			q := *p
			q.add += off
			return &q
		}
		panic(unsupported("fieldaddr base"))
	case *ssa.Index:
		return in.index(in.op(fr, &ci.ops[0]), in.op(fr, &ci.ops[1]), x)
	case *ssa.IndexAddr:
		return in.indexAddr(in.op(fr, &ci.ops[0]), in.op(fr, &ci.ops[1]), x)
	case *ssa.Lookup:
		a := in.op(fr, &ci.ops[0])
		k := in.op(fr, &ci.ops[1])
		if isStringT(x.X.Type()) {
			return in.strIndex(a, k, x.Index.Type())
		}
		m := a.(*MapObj)
		mt := x.X.Type().Underlying().(*types.Map)
		e := in.mapFind(m, k)
		var r Value
		if e != nil {
			r = e.v
		} else {
			r = in.zero(mt.Elem())
		}
		if x.CommaOk {
			return Tuple{r, e != nil}
		}
		return r
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i := range x.Bindings {
			env[i] = in.op(fr, &ci.ops[i+1])
		}
		return &Closure{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.MakeInterface:
		a := in.op(fr, &ci.ops[0])
		if pz, ok := a.(Poison); ok {
			panic(unsupported("use of uninitialised: " + pz.why))
		}
		return Iface{x.X.Type(), a}
	case *ssa.MakeMap:
		return in.newMap(x.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := in.sizeArg(in.op(fr, &ci.ops[0]), x.Len.Type(), "makeslice: len out of range")
		c := in.sizeArg(in.op(fr, &ci.ops[1]), x.Cap.Type(), "makeslice: cap out of range")
		if c < n {
			panic(in.rtPanic("makeslice: cap out of range"))
		}
		return in.makeSlice(et, n, c)
	case *ssa.Phi:
		panic(unsupported("phi"))
	case *ssa.Range:
		a := in.op(fr, &ci.ops[0])
		if m, ok := a.(*MapObj); ok {
			it := &mapIter{m: m}
			if m != nil {
				for _, e := range m.ents {
					if !e.dead {
						it.todo = append(it.todo, e)
					}
				}
			}
			return Opaque{it}
		}
		return Opaque{&strIter{s: fstr(a)}}
	case *ssa.Next:
		return in.next(fr, in.op(fr, &ci.ops[0]).(Opaque).x, x)
	case *ssa.Slice:
		return in.slice(fr, ci, x)
	case *ssa.SliceToArrayPointer:
		s := in.op(fr, &ci.ops[0]).(Slice)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if s.len < n {
			panic(in.rtPanic("cannot convert slice to array: length too short"))
		}
		return Ptr{s.obj, s.off}
	case *ssa.TypeAssert:
		return in.typeAssert(in.op(fr, &ci.ops[0]), x)
	}
	panic(unsupported(fmt.Sprintf("%T", v)))
}

func (in *Interp) makeSlice(et types.Type, n, c int) Slice {
	es := in.nslots(et)
	o := in.newObj(0)
	o.slots = make([]Value, 0, c*es)
	if !isAgg(et) {
		z := in.zero(et)
		for i := 0; i < c; i++ {
			o.slots = append(o.slots, z)
		}
	} else {
		for i := 0; i < c; i++ {
			o.slots = in.zeroInto(et, o.slots)
		}
	}
	return Slice{obj: o, len: n, cap: c, es: es}
}

func (in *Interp) sizeArg(v Value, t types.Type, msg string) int {
	w, _ := intWidth(t)
	n := in.intArg(v, w, isSigned(t))
	if n < 0 || n > 1<<24 {
		if n < 0 || n > 1<<40 {
			panic(in.rtPanic(msg))
		}
		panic(unsupported("huge allocation"))
	}
	return int(n)
}

// intArg returns a concrete signed value, forking over the values of a symbolic one.
func (in *Interp) intArg(v Value, w uint8, signed bool) int64 {
	switch x := v.(type) {
	case uint64:
		if signed {
			return sext64(x, w)
		}
		return int64(x)
	case *Term:
		u := in.concretize(x, x.w)
		if signed {
			return sext64(u, x.w)
		}
		return int64(u)
	}
	panic(unsupported(fmt.Sprintf("intArg %T", v)))
}

// boundsCheck: 0 <= idx < n; panics in the target when violated. Returns idx concrete or symbolic (64-bit).
func (in *Interp) boundsCheck(idx Value, it types.Type, n int) (int, *Term) {
	w, _ := intWidth(it)
	sg := isSigned(it)
	if u, ok := idx.(uint64); ok {
		i := int64(u)
		if sg {
			i = sext64(u, w)
		}
		if i < 0 || i >= int64(n) {
			panic(in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return int(i), nil
	}
	t, ok := idx.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("index %T", idx)))
	}
	t = in.tt.Resize(t, 64, sg)
	if t.isConst() {
		return in.boundsCheck(t.val, types.Typ[types.Int], n)
	}
	okT := in.tt.Cmp(OpUlt, t, in.tt.BV(uint64(n), 64))
	if !in.branch(okT) {
		panic(in.rtPanic(fmt.Sprintf("index out of range with length %d", n)))
	}
	return 0, t
}

func (in *Interp) strIndex(s, k Value, it types.Type) Value {
	i, t := in.boundsCheck(k, it, strLen(s))
	if t == nil {
		return strByte(s, i)
	}
	o := &Obj{slots: strBytes(s)}
	return in.symLoad(types.Typ[types.Uint8], &SymPtr{obj: o, es: 1, n: strLen(s), idx: t})
}

func (in *Interp) index(a, k Value, x *ssa.Index) Value {
	if isStringT(x.X.Type()) {
		return in.strIndex(a, k, x.Index.Type())
	}
	ag, ok := a.(Agg)
	if !ok {
		panic(unsupported("index base"))
	}
	et := x.Type()
	at := x.X.Type().Underlying().(*types.Array)
	es := in.nslots(et)
	i, t := in.boundsCheck(k, x.Index.Type(), int(at.Len()))
	if t == nil {
		return in.aggGet(ag, i*es, et)
	}
	return in.symLoad(et, &SymPtr{obj: &Obj{slots: ag}, es: es, n: int(at.Len()), idx: t})
}

func (in *Interp) indexAddr(a, k Value, x *ssa.IndexAddr) Value {
	var obj *Obj
	var off, n, es int
	switch b := a.(type) {
	case Slice:
		obj, off, n, es = b.obj, b.off, b.len, b.es
	case *SymPtr:
		a = in.concretizePtr(b)
		return in.indexAddr(a, k, x)
	case Ptr:
		if b.obj == nil {
			panic(in.nilDeref())
		}
		at := deref(x.X.Type()).Underlying().(*types.Array)
		obj, off, n, es = b.obj, b.off, int(at.Len()), in.nslots(at.Elem())
	default:
		panic(unsupported(fmt.Sprintf("indexaddr base %T", a)))
	}
	i, t := in.boundsCheck(k, x.Index.Type(), n)
	if t == nil {
		return Ptr{obj, off + i*es}
	}
	return &SymPtr{obj: obj, off: off, es: es, n: n, idx: t}
}

func (in *Interp) slice(fr *Frame, ci *cInstr, x *ssa.Slice) Value {
	a := in.op(fr, &ci.ops[0])
	get := func(i int, v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		o := in.op(fr, &ci.ops[i])
		w, _ := intWidth(v.Type())
		return int(in.intArg(o, w, isSigned(v.Type())))
	}
	oob := func(lo, hi, mx, c int) {
		panic(in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c)))
	}
	switch b := fstr(a).(type) {
	case string, *SymStr:
		n := strLen(b)
		lo, hi := get(1, x.Low, 0), get(2, x.High, n)
		if lo < 0 || hi < lo || hi > n {
			oob(lo, hi, n, n)
		}
		return strSlice(b, lo, hi)
	case Slice:
		lo, hi, mx := get(1, x.Low, 0), get(2, x.High, b.len), get(3, x.Max, b.cap)
		if lo < 0 || hi < lo || mx < hi || mx > b.cap {
			oob(lo, hi, mx, b.cap)
		}
		if b.obj == nil {
			return b
		}
		return Slice{b.obj, b.off + lo*b.es, hi - lo, mx - lo, b.es}
	case Ptr:
		if b.obj == nil {
			panic(in.nilDeref())
		}
		at := deref(x.X.Type()).Underlying().(*types.Array)
		n := int(at.Len())
		es := in.nslots(at.Elem())
		lo, hi, mx := get(1, x.Low, 0), get(2, x.High, n), get(3, x.Max, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			oob(lo, hi, mx, n)
		}
		return Slice{b.obj, b.off + lo*es, hi - lo, mx - lo, es}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", a)))
}

func (in *Interp) next(fr *Frame, it any, x *ssa.Next) Value {
	switch i := it.(type) {
	case *mapIter:
		// drop entries deleted during the iteration, pick any of the rest
		var rest []*mapEntry
		for _, e := range i.todo {
			if !e.dead {
				rest = append(rest, e)
			}
		}
		tt := x.Type().(*types.Tuple)
		if len(rest) == 0 {
			i.todo = nil
			return Tuple{false, in.zeroOrNil(tt.At(1).Type()), in.zeroOrNil(tt.At(2).Type())}
		}
		k := 0
		if len(rest) > 1 && in.initDepth == 0 {
			if in.specStart != 0 {
				panic(specAbort{"map order"})
			}
			in.p.mapOrder = true
			switch {
			case in.p.mapMode == 1:
				in.p.reduced("iteration order of maps: insertion order only where the harness says so")
			case in.p.mapMode == 2:
				in.p.reduced("iteration order of maps: reverse insertion order where the harness says so")
				k = len(rest) - 1
			case i.big || len(rest) > 4:
				in.p.reduced("iteration order of maps with more than 4 entries: insertion order and its reverse only")
				if !i.big {
					i.big = true
					i.back = in.choose(2) == 1
				}
				if i.back {
					k = len(rest) - 1
				}
			default:
				k = in.choose(len(rest))
			}
		}
		e := rest[k]
		i.todo = append(append([]*mapEntry{}, rest[:k]...), rest[k+1:]...)
		return Tuple{true, e.k, e.v}
	case *strIter:
		n := strLen(i.s)
		if i.pos >= n {
			return Tuple{false, zeroInt, zeroInt}
		}
		start := i.pos
		b := strByte(i.s, i.pos)
		asciiB := false
		switch c := b.(type) {
		case uint64:
			asciiB = c < 0x80
		case *Term:
			asciiB = in.branch(in.tt.Cmp(OpUlt, c, in.tt.BV(0x80, 8)))
		}
		if asciiB {
			i.pos++
			return Tuple{true, mkInt(start), in.convInt(b, 8, false, 32)}
		}
		r, w := in.decodeRune(fr, strSlice(i.s, i.pos, n))
		i.pos += w
		return Tuple{true, mkInt(start), r}
	}
	panic(unsupported("next"))
}

func (in *Interp) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return in.zero(t)
}

func (in *Interp) decodeRune(fr *Frame, s Value) (Value, int) {
	f := in.stdFunc("unicode/utf8", "DecodeRuneInString")
	t := in.callFn(fr, f, []Value{s}, nil).(Tuple)
	return t[0], int(in.intArg(t[1], 64, true))
}

func (in *Interp) stdFunc(pkg, name string) *ssa.Function {
	for _, p := range in.prog.ssa.AllPackages() {
		if p.Pkg.Path() == pkg {
			if f := p.Func(name); f != nil {
				return f
			}
		}
	}
	panic(unsupported("missing " + pkg + "." + name))
}

// implements reports whether dynamic type t satisfies interface it.
func implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

type implKey struct {
	t  types.Type
	it types.Type
}

var implCache sync.Map

func (in *Interp) typeAssert(a Value, x *ssa.TypeAssert) Value {
	i, ok := a.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("type assertion on %T", a)))
	}
	good := false
	var r Value
	at := x.AssertedType
	if i.t != nil {
		if types.IsInterface(at) {
			k := implKey{i.t, at}
			if v, ok := implCache.Load(k); ok {
				good = v.(bool)
			} else {
				good = implements(i.t, at.Underlying().(*types.Interface))
				implCache.Store(k, good)
			}
			r = i
		} else {
			good = sameType(i.t, at)
			r = i.v
		}
	}
	if x.CommaOk {
		if !good {
			r = in.zero(at)
		}
		return Tuple{r, good}
	}
	if !good {
		d := "nil"
		if i.t != nil {
			d = typeName(i.t)
		}
		panic(in.rtPanic("interface conversion: interface is " + d + ", not " + typeName(at)))
	}
	return r
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// prepCall evaluates the callee and its arguments.
func (in *Interp) prepCall(fr *Frame, ci *cInstr, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(ci.ops))
	if c.IsInvoke() {
		recv := in.op(fr, &ci.ops[0])
		i, ok := recv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
		}
		if i.t == nil {
			panic(in.nilDeref())
		}
		if o, ok := i.v.(Opaque); ok {
			args = append(args, o)
			for k := range c.Args {
				args = append(args, in.op(fr, &ci.ops[1+k]))
			}
			m := c.Method.Name()
			return &Closure{native: func(in *Interp, a []Value) Value { return in.opaqueMethod(m, a) }, name: m}, args
		}
		fn := in.method(i.t, c.Method)
		args = append(args, i.v)
		for k := range c.Args {
			args = append(args, in.op(fr, &ci.ops[1+k]))
		}
		return in.fnVal(fn), args
	}
	var fn Value
	if b, ok := c.Value.(*ssa.Builtin); ok {
		fn = b
	} else {
		fn = in.op(fr, &ci.ops[0])
	}
	for k := range c.Args {
		args = append(args, in.op(fr, &ci.ops[1+k]))
	}
	return fn, args
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), m.Pkg()}
	if m.Exported() {
		k.p = nil
	}
	if f, ok := in.prog.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	in.prog.buildMu.Lock()
	defer in.prog.buildMu.Unlock()
	f := in.prog.ssa.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.String()))
	}
	in.prog.methods.Store(k, f)
	return f
}

// methodByName finds an exported method, nil if there is none.
func (in *Interp) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{t, "?" + name, nil}
	if f, ok := in.prog.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	in.prog.buildMu.Lock()
	defer in.prog.buildMu.Unlock()
	var f *ssa.Function
	if sel := in.prog.ssa.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
		f = in.prog.ssa.MethodValue(sel)
	}
	in.prog.methods.Store(k, f)
	return f
}

func (in *Interp) invoke(fr *Frame, c *ssa.CallCommon, fn Value, args []Value, isDefer bool) Value {
	if b, ok := fn.(*ssa.Builtin); ok {
		return in.builtin(fr, b, c, args, isDefer)
	}
	return in.callValue(fr, fn, args)
}
