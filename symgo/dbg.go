package main

import (
	"fmt"
	"os"
)

func (t *Term) sexp() string {
	switch t.op {
	case OpConst, OpVar:
		return t.ref()
	case OpZext, OpSext, OpExtract:
		return fmt.Sprintf("(%s[%d] %s)", opNames[t.op], t.w, t.args[0].sexp())
	}
	s := "(" + opNames[t.op]
	for i := 0; i < int(t.n); i++ {
		s += " " + t.args[i].sexp()
	}
	return s + ")"
}

var debugPC = os.Getenv("SYMGO_PC") != ""

func (in *Interp) dumpPC(why string) {
	fmt.Fprintf(os.Stderr, "PC %s\n", why)
	for _, t := range in.p.pc {
		fmt.Fprintln(os.Stderr, "   ", t.sexp(), evalTerm(t, in.p.model, map[*Term]uint64{}))
	}
}
