package main

// The encoder simplifies terms as it builds them, and decides many branch conditions from value sets before a query
// would be sent. Both are audited: a sample of the rewrites (for every shape of rewrite the first ones, and a thinning
// rest) and of the value-set decisions is handed to the solver in its unsimplified form. A disagreement is an engine
// error and ends the run.

import (
	"fmt"
	"os"
	"sync/atomic"
)

type auditor struct {
	seen    map[uint64]int
	pending []*Term // each must be unsatisfiable
	off     bool
}

var auditStats struct{ Rewrites, Domain, Queries, Unknown, Bad atomic.Int64 }

const (
	auditFirst = 6
	auditEvery = 50000
	auditBatch = 32
)

func (a *auditor) due(key uint64) bool {
	n := a.seen[key]
	a.seen[key] = n + 1
	return n < auditFirst || n%auditEvery == 0
}

// note samples the rewrite of (op args) to r.
func (tt *TermTable) note(op Op, w uint8, val uint64, r *Term, args ...*Term) *Term {
	a := tt.aud
	if a == nil || a.off {
		return r
	}
	if r.op == op && int(r.n) == len(args) {
		same := true
		for i, x := range args {
			if r.args[i] != x {
				same = false
			}
		}
		if same {
			return r
		}
	}
	key := uint64(op)<<32 | uint64(r.op)<<24
	ground, hard, size := true, false, 0
	for i, x := range args {
		key |= uint64(x.op) << (8 * uint(i))
		ground = ground && len(x.vars) == 0
		hard = hard || x.hard
		size += x.size
	}
	if ground || hard || size > 2000 || !a.due(key) {
		return r
	}
	raw := tt.mk(op, w, val, "", args...)
	if raw == r {
		return r
	}
	a.pending = append(a.pending, tt.mk(OpNot, 0, 0, "", tt.mk(OpEq, 0, 0, "", raw, r)))
	auditStats.Rewrites.Add(1)
	return r
}

// noteDomain samples a decision, made from value sets, that t contradicts the path condition.
func (in *Interp) noteDomain(t *Term) {
	a := in.tt.aud
	if a == nil || a.off || t.hard || t.size > 4000 || !a.due(1<<60|uint64(t.op)<<8|uint64(t.args0op())) {
		return
	}
	c := in.relevant(t)
	conj := c[0]
	for _, x := range c[1:] {
		conj = in.tt.mk(OpAnd, 0, 0, "", conj, x)
	}
	a.pending = append(a.pending, conj)
	auditStats.Domain.Add(1)
}

func (t *Term) args0op() Op {
	if t.n == 0 {
		return t.op
	}
	return t.args[0].op
}

func (in *Interp) flushAudit(all bool) {
	a := in.tt.aud
	if a == nil || len(a.pending) == 0 || !all && len(a.pending) < auditBatch {
		return
	}
	for len(a.pending) > 0 {
		n := min(len(a.pending), auditBatch)
		q := a.pending[0]
		for _, x := range a.pending[1:n] {
			q = in.tt.mk(OpOr, 0, 0, "", q, x)
		}
		auditStats.Queries.Add(1)
		switch r, m := in.solver.Check(in.tt, []*Term{q}); r {
		case Sat:
			auditStats.Bad.Add(1)
			for _, x := range a.pending[:n] {
				if evalTerm(x, m, map[*Term]uint64{}) == 1 {
					fmt.Fprintf(os.Stderr, "symgo: the solver refutes a simplification: %s\n", x.long(6))
				}
			}
		case Unknown:
			auditStats.Unknown.Add(1)
		}
		a.pending = a.pending[n:]
	}
	a.pending = nil
}

// long prints a term to a depth.
func (t *Term) long(depth int) string {
	if t.n == 0 || depth == 0 {
		return t.ref()
	}
	s := "(" + opNames[t.op]
	for i := 0; i < int(t.n); i++ {
		s += " " + t.args[i].long(depth-1)
	}
	return s + ")"
}
