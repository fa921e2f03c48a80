package main

// Merging of side-effect-free control flow: instead of forking at a symbolic branch, the acyclic region behind it is
// evaluated under guards and joined with if-then-else terms; only distinct exits of the region fork.

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

type redge struct {
	from  *ssa.BasicBlock
	guard *Term
	pi    int // index of the edge in the target's Preds
}

type retRes struct {
	guard *Term
	v     Value
}

var regionDebug = os.Getenv("SYMGO_REGION") != ""

const maxRegion = 48

// speculate runs f with memory writes to older objects, forks and target panics turned into failure.
func (in *Interp) speculate(guard *Term, f func()) (ok bool) {
	s0, g0, steps0 := in.specStart, in.specGuard, in.specSteps
	if in.specStart == 0 {
		in.specSteps = 0
		in.specGuard = guard
	} else {
		in.specGuard = in.tt.And(in.specGuard, guard)
	}
	in.specStart = in.nextObj + 1
	lock0 := in.lockDepth
	defer func() {
		in.specStart, in.specGuard = s0, g0
		if s0 == 0 {
			in.specSteps = steps0
		}
		if r := recover(); r != nil {
			in.lockDepth = lock0
			switch x := r.(type) {
			case specAbort, targetPanic, pathEnd:
				if regionDebug {
					fmt.Fprintln(os.Stderr, "spec abort", x)
				}
				ok = false
				return
			case unsupportedErr:
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// region tries to execute the branch at the end of fr.block on cond without forking per path.
// It returns false if nothing was gained (caller does a plain two-way branch).
func (in *Interp) region(fr *Frame, cond *Term) bool {
	if in.initDepth > 0 {
		return false
	}
	start := fr.block
	if imp := in.implied(cond); imp != 0 {
		return false
	}
	tt := in.tt
	type pend struct {
		edges []redge
		n     int
	}
	pending := map[*ssa.BasicBlock]*pend{}
	var order []*ssa.BasicBlock // blocks with pending edges in discovery order
	addEdge := func(from, to *ssa.BasicBlock, g *Term) {
		p := pending[to]
		if p == nil {
			p = &pend{}
			pending[to] = p
			order = append(order, to)
		}
		skip := 0
		for _, e := range p.edges {
			if e.from == from {
				skip++
			}
		}
		pi := -1
		for q, pr := range to.Preds {
			if pr == from {
				if skip == 0 {
					pi = q
					break
				}
				skip--
			}
		}
		p.n++
		p.edges = append(p.edges, redge{from, g, pi})
	}
	addEdge(start, start.Succs[0], cond)
	addEdge(start, start.Succs[1], tt.Not(cond))
	included := map[*ssa.BasicBlock]bool{}
	failed := map[*ssa.BasicBlock]bool{}
	var rets []retRes
	nIncl := 0
	prevSave, blockSave := fr.prev, fr.block
	for progress := true; progress && nIncl < maxRegion; {
		progress = false
		for _, b := range order {
			p := pending[b]
			if included[b] || failed[b] || b == start || p.n != len(b.Preds) {
				continue
			}
			cb := &fr.info.blocks[b.Index]
			if !cb.pure {
				failed[b] = true
				continue
			}
			guard := tt.False
			for _, e := range p.edges {
				guard = tt.Or(guard, e.guard)
			}
			if guard == tt.False {
				// unreachable under this branch: do not execute it
				included[b] = true
				progress = true
				for _, to := range b.Succs {
					addEdge(b, to, tt.False)
				}
				continue
			}
			phis, ok := in.mergePhis(fr, b, p.edges)
			if !ok {
				failed[b] = true
				continue
			}
			// evaluate
			var term *cInstr
			ok = in.speculate(guard, func() {
				for i := 0; i < cb.nphi; i++ {
					fr.env[cb.instrs[i].dst] = phis[i]
				}
				fr.block = b
				for i := cb.nphi; i < len(cb.instrs); i++ {
					ci := &cb.instrs[i]
					switch ci.ins.(type) {
					case *ssa.If, *ssa.Jump, *ssa.Return:
						term = ci
						return
					}
					in.step()
					in.exec(fr, ci)
				}
			})
			fr.block = blockSave
			if !ok || term == nil {
				failed[b] = true
				continue
			}
			var condV Value
			if _, isIf := term.ins.(*ssa.If); isIf {
				condV = in.op(fr, &term.ops[0])
				if _, isT := condV.(*Term); !isT {
					if _, isB := condV.(bool); !isB {
						failed[b] = true
						continue
					}
				}
			}
			included[b] = true
			nIncl++
			progress = true
			switch term.ins.(type) {
			case *ssa.Jump:
				addEdge(b, b.Succs[0], guard)
			case *ssa.If:
				var c *Term
				switch cv := condV.(type) {
				case *Term:
					c = cv
				case bool:
					c = tt.Bool(cv)
				}
				addEdge(b, b.Succs[0], tt.And(guard, c))
				addEdge(b, b.Succs[1], tt.And(guard, tt.Not(c)))
			case *ssa.Return:
				var v Value
				switch len(term.ops) {
				case 0:
				case 1:
					v = in.op(fr, &term.ops[0])
				default:
					t := make(Tuple, len(term.ops))
					for i := range term.ops {
						t[i] = in.op(fr, &term.ops[i])
					}
					v = t
				}
				rets = append(rets, retRes{guard, v})
			}
		}
	}
	fr.prev, fr.block = prevSave, blockSave
	if nIncl == 0 {
		// both arms jump to the same non-includable block? (phi diamond without bodies)
		if start.Succs[0] != start.Succs[1] {
			return false
		}
	}
	// exits
	type exit struct {
		guard *Term
		to    *ssa.BasicBlock
		from  *ssa.BasicBlock
		phis  []Value
		ret   bool
		val   Value
	}
	var exits []exit
	for _, b := range order {
		if included[b] {
			continue
		}
		var live []redge
		for _, e := range pending[b].edges {
			if e.guard != tt.False {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		if phis, ok := in.mergePhis(fr, b, live); ok {
			g := tt.False
			for _, e := range live {
				g = tt.Or(g, e.guard)
			}
			exits = append(exits, exit{guard: g, to: b, from: live[0].from, phis: phis})
			continue
		}
		for _, e := range live {
			phis, _ := in.mergePhis(fr, b, []redge{e})
			exits = append(exits, exit{guard: e.guard, to: b, from: e.from, phis: phis})
		}
	}
	if len(rets) > 0 {
		var resT types.Type = fr.info.fn.Signature.Results()
		if rt := fr.info.fn.Signature.Results(); rt.Len() == 1 {
			resT = rt.At(0).Type()
		}
		acc := rets[len(rets)-1].v
		g := rets[len(rets)-1].guard
		ok := true
		for i := len(rets) - 2; i >= 0 && ok; i-- {
			acc, ok = in.mergeVals(resT, rets[i].guard, rets[i].v, acc)
			g = tt.Or(g, rets[i].guard)
		}
		if ok {
			exits = append(exits, exit{guard: g, ret: true, val: acc})
		} else {
			for _, r := range rets {
				if r.guard != tt.False {
					exits = append(exits, exit{guard: r.guard, ret: true, val: r.v})
				}
			}
		}
	}
	if regionDebug {
		fmt.Fprintf(os.Stderr, "region %s b%d: incl %d exits %d\n", fr.info.name, start.Index, nIncl, len(exits))
	}
	k := 0
	if len(exits) > 1 {
		if in.specStart != 0 && in.specGuard != nil {
			// speculating: continue only if a single exit is possible under the guard
			found := -1
			for i, e := range exits {
				if in.feasible(in.tt.And(in.specGuard, e.guard)) {
					if found >= 0 {
						panic(specAbort{"fork"})
					}
					found = i
				}
			}
			if found < 0 {
				panic(specAbort{"dead"})
			}
			k = found
		} else {
			gs := make([]*Term, len(exits))
			for i, e := range exits {
				gs[i] = e.guard
			}
			k = in.fork(gs)
		}
	}
	if len(exits) == 0 {
		return false
	}
	e := exits[k]
	if e.ret {
		fr.result = e.val
		fr.done = true
		return true
	}
	cb := &fr.info.blocks[e.to.Index]
	for i := 0; i < cb.nphi; i++ {
		fr.env[cb.instrs[i].dst] = e.phis[i]
	}
	fr.skipPhi = true
	fr.prev, fr.block = e.from, e.to
	return true
}

func (in *Interp) mergePhis(fr *Frame, b *ssa.BasicBlock, edges []redge) ([]Value, bool) {
	cb := &fr.info.blocks[b.Index]
	if cb.nphi == 0 {
		return nil, true
	}
	out := make([]Value, cb.nphi)
	for i := 0; i < cb.nphi; i++ {
		ci := &cb.instrs[i]
		var acc Value
		first := true
		vals := make([]Value, len(edges))
		for j, e := range edges {
			if e.pi < 0 {
				return nil, false
			}
			vals[j] = in.op(fr, &ci.ops[e.pi])
		}
		for j := len(edges) - 1; j >= 0; j-- {
			if edges[j].guard == in.tt.False {
				continue
			}
			if first {
				acc, first = vals[j], false
				continue
			}
			var ok bool
			acc, ok = in.mergeVals(ci.t, edges[j].guard, vals[j], acc)
			if !ok {
				return nil, false
			}
		}
		if first {
			if len(edges) == 0 {
				return nil, false
			}
			acc = vals[0]
		}
		out[i] = acc
	}
	return out, true
}

// mergeVals builds ite(g, a, b) when the two values can be joined.
func (in *Interp) mergeVals(t types.Type, g *Term, a, b Value) (Value, bool) {
	if g == in.tt.True {
		return a, true
	}
	if g == in.tt.False {
		return b, true
	}
	switch x := a.(type) {
	case nil:
		return a, b == nil
	case uint64, *Term, bool:
		switch b.(type) {
		case uint64, *Term, bool:
		default:
			return nil, false
		}
		if a == b {
			return a, true
		}
		var w uint8
		if ta, ok := a.(*Term); ok {
			w = ta.w
		} else if tb, ok := b.(*Term); ok {
			w = tb.w
		} else if _, ok := a.(bool); ok {
			w = 0
		} else {
			if t == nil {
				return nil, false
			}
			var ok bool
			if w, ok = intWidth(t); !ok {
				return nil, false
			}
		}
		return norm(in.tt.Ite(g, in.toTerm(a, w), in.toTerm(b, w))), true
	case string, *SymStr:
		switch b.(type) {
		case string, *SymStr:
		default:
			return nil, false
		}
		n := strLen(a)
		if n != strLen(b) {
			return nil, false
		}
		if sa, ok := a.(string); ok {
			if sb, ok := b.(string); ok {
				if sa == sb {
					return a, true
				}
				if n > 64 {
					return nil, false
				}
			}
		}
		out := make([]Value, n)
		for i := 0; i < n; i++ {
			out[i] = norm(in.tt.Ite(g, in.toTerm(strByte(a, i), 8), in.toTerm(strByte(b, i), 8)))
		}
		return mkStr(out), true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		tt, _ := t.(*types.Tuple)
		out := make(Tuple, len(x))
		for i := range x {
			var et types.Type
			if tt != nil && i < tt.Len() {
				et = tt.At(i).Type()
			}
			v, ok := in.mergeVals(et, g, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Agg, len(x))
		for i := range x {
			v, ok := in.mergeVals(nil, g, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return a, true
		}
		if x.t == nil || y.t == nil || !sameType(x.t, y.t) {
			return nil, false
		}
		v, ok := in.mergeVals(x.t, g, x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	case Ptr:
		y, ok := b.(Ptr)
		return a, ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return a, ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return a, ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return a, ok && x == y
	case float64:
		y, ok := b.(float64)
		return a, ok && x == y
	}
	return nil, false
}
