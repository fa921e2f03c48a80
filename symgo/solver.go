package main

// One z3 process per worker, fed with define-funs for terms; queries are check-sat under push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int8

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Stats struct {
	Queries   atomic.Int64
	CacheHits atomic.Int64
	Sat       atomic.Int64
	Unsat     atomic.Int64
	Unknown   atomic.Int64
	Nanos     atomic.Int64
	MaxNanos  atomic.Int64
	Errors    atomic.Int64
}

var stats Stats

type cacheKey struct{ a, b uint64 }
type cacheVal struct {
	res   Result
	model map[string]uint64
}

var qcache sync.Map // cacheKey -> *cacheVal

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	declared map[int]bool
	timeout  int
	bin      string
	log      *os.File
}

func NewSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{timeout: timeoutMs, bin: bin}
	if p := os.Getenv("SYMGO_SMTLOG"); p != "" {
		s.log, _ = os.CreateTemp(p, "smt*.smt2")
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.defined = map[int]bool{}
	s.declared = map[int]bool{}
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReader(out)
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout))
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OpConst {
		return
	}
	if t.op == OpVar {
		if !s.declared[t.id] {
			s.declared[t.id] = true
			s.send("(declare-const " + quoteSym(t.name) + " " + sortName(t.w) + ")\n")
		}
		return
	}
	if s.defined[t.id] {
		return
	}
	for i := 0; i < int(t.n); i++ {
		s.define(t.args[i])
	}
	s.defined[t.id] = true
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body()))
}

// Check decides the conjunction of cs; on Sat it returns a model for their variables.
func (s *Solver) Check(tt *TermTable, cs []*Term) (Result, map[int32]uint64) {
	var k cacheKey
	for _, c := range cs {
		k.a += mix(c.h1, 0x1234567)
		k.b += mix(c.h2, 0x89abcde)
	}
	vars := []int32{}
	for _, c := range cs {
		vars = unionVars(vars, c.vars)
	}
	if v, ok := qcache.Load(k); ok {
		cv := v.(*cacheVal)
		stats.CacheHits.Add(1)
		if cv.res != Sat {
			return cv.res, nil
		}
		m := make(map[int32]uint64, len(vars))
		for _, id := range vars {
			m[id] = cv.model[tt.vars[id].name]
		}
		return Sat, m
	}
	t0 := time.Now()
	s.send("(push)\n")
	clear(s.defined)
	clear(s.declared)
	for _, c := range cs {
		s.define(c)
	}
	for _, c := range cs {
		s.send("(assert " + c.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	res := Unknown
	var model map[int32]uint64
	switch {
	case line == "sat":
		res = Sat
		model = map[int32]uint64{}
		if len(vars) > 0 {
			s.send("(get-value (")
			for _, id := range vars {
				s.send(" " + quoteSym(tt.vars[id].name))
			}
			s.send("))\n")
			s.in.Flush()
			vals := s.readValues(len(vars))
			for i, id := range vars {
				model[id] = vals[i]
			}
		}
	case line == "unsat":
		res = Unsat
	case strings.HasPrefix(line, "(error"):
		stats.Errors.Add(1)
		fmt.Fprintln(os.Stderr, "solver error:", line)
	}
	s.send("(pop)\n")
	d := time.Since(t0).Nanoseconds()
	stats.Queries.Add(1)
	stats.Nanos.Add(d)
	for {
		o := stats.MaxNanos.Load()
		if d <= o || stats.MaxNanos.CompareAndSwap(o, d) {
			break
		}
	}
	switch res {
	case Sat:
		stats.Sat.Add(1)
	case Unsat:
		stats.Unsat.Add(1)
	default:
		stats.Unknown.Add(1)
	}
	if res != Unknown {
		cv := &cacheVal{res: res}
		if res == Sat {
			cv.model = make(map[string]uint64, len(vars))
			for _, id := range vars {
				cv.model[tt.vars[id].name] = model[id]
			}
		}
		qcache.Store(k, cv)
	}
	return res, model
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "(error \"solver died: " + err.Error() + "\")"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// readValues parses ((|x| #x00) (|y| true) ...) with n entries.
func (s *Solver) readValues(n int) []uint64 {
	depth := 0
	var sb strings.Builder
	inBar := false
	started := false
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			break
		}
		if c == '|' {
			inBar = !inBar
		}
		if !inBar {
			if c == '(' {
				depth++
				started = true
			}
			if c == ')' {
				depth--
			}
		}
		sb.WriteByte(c)
	}
	txt := sb.String()
	out := make([]uint64, 0, n)
	// scan for value tokens: after the closing bar
	i := 0
	for len(out) < n {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			break
		}
		i += j + 1
		j = strings.IndexByte(txt[i:], '|')
		if j < 0 {
			break
		}
		i += j + 1
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		e := i
		for e < len(txt) && txt[e] != ')' && txt[e] != ' ' && txt[e] != '\n' {
			e++
		}
		tok := txt[i:e]
		var v uint64
		switch {
		case tok == "true":
			v = 1
		case tok == "false":
		case strings.HasPrefix(tok, "#x"):
			v, _ = strconv.ParseUint(tok[2:], 16, 64)
		case strings.HasPrefix(tok, "#b"):
			v, _ = strconv.ParseUint(tok[2:], 2, 64)
		}
		out = append(out, v)
		i = e
	}
	for len(out) < n {
		out = append(out, 0)
	}
	return out
}
