package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	values   []*Term // debugging: values to print
	valOut   []string
	c        *Ctx
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	buf      strings.Builder
	named    map[int]bool
	litN     int
	funN     int
	varN     int
	dtN      int
	opqN     int
	updSeen  map[string]bool
	axN      int
	log      io.Writer
	Time     time.Duration
	Queries  int
	dead     bool
	asserted []*Term
}

var solverTime int64
var solverQueries int64

func NewSolver(c *Ctx, bin string, args ...string) *Solver {
	s := &Solver{c: c, bin: bin, args: args}
	s.start()
	return s
}

func (s *Solver) start() {
	s.named = map[int]bool{}
	s.litN, s.funN, s.varN, s.dtN, s.opqN, s.axN = 0, 0, 0, 0, 0, 0
	s.updSeen = map[string]bool{}
	s.buf.Reset()
	s.cmd = exec.Command(s.bin, s.args...)
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.bin, err))
	}
	s.dead = false
	if d := os.Getenv("GOVER_SMTLOG"); d != "" && s.log == nil {
		f, _ := os.CreateTemp(d, "q*.smt2")
		s.log = f
	}
	s.emit("(set-option :global-declarations true)")
	if strings.Contains(s.bin, "z3") {
		s.emit("(set-option :auto_config false)")
		s.emit("(set-option :smt.mbqi false)")
		s.emit("(set-option :smt.case_split 3)")
		s.emit("(set-option :smt.random_seed 1)")
	} else {
		s.emit("(set-logic ALL)")
	}
	s.emit("(declare-sort Str 0)(declare-sort Any 0)(declare-sort Flt 0)")
	s.emit("(declare-fun cat (Str Str) Str)(declare-fun strid (Str) Int)")
	s.emit("(declare-fun |strlen| (Str) Int)")
}

func (s *Solver) Close() {
	if s.cmd != nil && !s.dead {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) emit(l string) {
	s.buf.WriteString(l)
	s.buf.WriteByte('\n')
}

func (s *Solver) sync() {
	c := s.c
	for ; s.opqN < len(c.opq); s.opqN++ {
		s.emit(fmt.Sprintf("(declare-sort %s 0)", c.opq[s.opqN]))
	}
	for ; s.dtN < len(c.dtOrd); s.dtN++ {
		d := c.dts[c.dtOrd[s.dtN]]
		var b strings.Builder
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", d.sort, smtSym(d.ctor))
		for i, f := range d.fields {
			fmt.Fprintf(&b, " (%s %s)", smtSym(f), d.fsorts[i])
		}
		b.WriteString("))))")
		s.emit(b.String())
	}
	for ; s.litN < len(c.litOrd); s.litN++ {
		t := c.lits[c.litOrd[s.litN]]
		s.emit(fmt.Sprintf("(declare-const lit%d Str)(assert (= (strid lit%d) %d))(assert (= (|strlen| lit%d) %d))", t.id, t.id, t.id, t.id, len(t.name)))
	}
	for ; s.varN < len(c.varOrd); s.varN++ {
		t := c.varOrd[s.varN]
		s.emit(fmt.Sprintf("(declare-const %s %s)", smtSym(t.name), t.sort))
	}
	for ; s.funN < len(c.funOrd); s.funN++ {
		f := c.funOrd[s.funN]
		if f == "strlen" {
			continue
		}
		ss := c.funs[f]
		var b strings.Builder
		fmt.Fprintf(&b, "(declare-fun %s (", smtSym(f))
		for i := 0; i < len(ss)-1; i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(string(ss[i]))
		}
		fmt.Fprintf(&b, ") %s)", ss[len(ss)-1])
		s.emit(b.String())
	}
}

// ensure definitions of all shared subterms
func (s *Solver) define(t *Term) {
	if s.named[t.id] {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	for _, a := range t.pat {
		s.define(a)
	}
	if t.op == OUpd {
		k := string(t.sort) + "." + t.name
		if !s.updSeen[k] {
			s.updSeen[k] = true
			s.emit(fmt.Sprintf("(declare-fun %s (%s %s) %s)", smtSym("upd."+k), t.sort, t.args[1].sort, t.sort))
		}
	}
	if t.hasB || len(t.args) == 0 || t.size < 6 {
		return
	}
	txt := s.c.print(t, s.named)
	s.emit(fmt.Sprintf("(define-fun t%d () %s %s)", t.id, t.sort, txt))
	s.named[t.id] = true
}

func (s *Solver) assertT(t *Term) {
	s.define(t)
	s.emit("(assert " + s.c.print2(t, s.named) + ")")
}

func (c *Ctx) print2(t *Term, named map[int]bool) string {
	if named[t.id] {
		return fmt.Sprintf("t%d", t.id)
	}
	return c.print(t, named)
}

func (s *Solver) flush() {
	txt := s.buf.String()
	s.buf.Reset()
	if s.log != nil {
		io.WriteString(s.log, txt)
	}
	io.WriteString(s.in, txt)
}

// Check satisfiability of conj with a timeout; returns "sat","unsat","unknown".
func (s *Solver) Check(conj []*Term, timeoutMs int, mbqi bool) string {
	for _, t := range conj {
		if t.op == OFalse {
			return "unsat"
		}
	}
	if s.dead {
		s.start()
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		s.Queries++
		atomic.AddInt64(&solverTime, int64(d))
		atomic.AddInt64(&solverQueries, 1)
	}()
	// axioms may be added while new terms are created
	s.sync()
	for ; s.axN < len(s.c.axioms); s.axN++ {
		a := s.c.axioms[s.axN]
		for len(s.c.axSyms) <= s.axN {
			s.c.axSyms = append(s.c.axSyms, s.c.symsOf(s.c.axioms[len(s.c.axSyms)]))
		}
		if len(s.c.axSyms[s.axN]) == 0 {
			s.sync()
			s.assertT(a)
		}
	}
	for _, t := range conj {
		s.define(t)
	}
	// facts about terms of this query only (leaving some out is sound)
	have := map[*Term]bool{}
	seen := map[*Term]bool{}
	for _, t := range conj {
		collectSyms(t, seen, have)
	}
	var local []*Term
	for i, sy := range s.c.axSyms {
		if len(sy) == 0 {
			continue
		}
		in := true
		for _, x := range sy {
			if !have[x] {
				in = false
				break
			}
		}
		if in {
			local = append(local, s.c.axioms[i])
		}
	}
	for _, t := range local {
		s.define(t)
	}
	for _, t := range s.values {
		s.define(t)
	}
	s.sync()
	s.emit("(push 1)")
	for _, t := range local {
		s.emit("(assert " + s.c.print2(t, s.named) + ")")
	}
	for _, t := range conj {
		s.emit("(assert " + s.c.print2(t, s.named) + ")")
	}
	if strings.Contains(s.bin, "z3") {
		s.emit(fmt.Sprintf("(set-option :timeout %d)", timeoutMs))
		s.emit(fmt.Sprintf("(set-option :smt.mbqi %v)", mbqi))
	} else {
		s.emit(fmt.Sprintf("(set-option :tlimit-per %d)", timeoutMs))
	}
	s.emit("(check-sat)")
	for _, t := range s.values {
		s.emit("(get-value (" + s.c.print2(t, s.named) + "))")
	}
	s.emit("(pop 1)")
	s.emit("(echo \"done\")")
	s.flush()
	res := "unknown"
	timer := time.AfterFunc(time.Duration(timeoutMs*3+3000)*time.Millisecond, func() {
		s.dead = true
		s.cmd.Process.Kill()
	})
	defer timer.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			s.cmd.Wait()
			return "unknown"
		}
		l = strings.TrimSpace(l)
		if s.log != nil {
			io.WriteString(s.log, "; "+l+"\n")
		}
		if l == "done" || l == "\"done\"" {
			return res
		}
		switch l {
		case "sat", "unsat", "unknown":
			res = l
		default:
			s.valOut = append(s.valOut, l)
			if strings.HasPrefix(l, "(error") {
				if os.Getenv("GOVER_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SMT", s.bin, l)
				}
				// a refused assertion only weakens the hypotheses; the fallback back end
				// rejects some array constants, which is then just a failed attempt
				if !strings.Contains(l, "set-option") && strings.Contains(s.bin, "z3") {
					smtMu.Lock()
					smtErrors = append(smtErrors, l)
					smtMu.Unlock()
				}
			}
		}
	}
}

var smtErrors []string
var smtMu sync.Mutex

// collectSyms: the constants introduced during execution that occur in t
func collectSyms(t *Term, seen, acc map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar && strings.Contains(t.name, "!") {
		acc[t] = true
	}
	for _, a := range t.args {
		collectSyms(a, seen, acc)
	}
}

func (c *Ctx) symsOf(t *Term) []*Term {
	acc := map[*Term]bool{}
	collectSyms(t, map[*Term]bool{}, acc)
	var r []*Term
	for x := range acc {
		r = append(r, x)
	}
	return r
}
