package main

import (
	"os"
	"strings"
)

// traceFail: debugging aid, shows a failed entailment with its ground instances
func (u *Unit) traceFail(hyps []*Term, goal *Term, extra []*Term) {
	c := u.c
	fs := relevant(hyps, goal)
	for _, mode := range []bool{true, false} {
		ok, r := u.entails1(hyps, goal, extra, mode)
		ok2, r2 := u.entails1(fs, goal, extra, mode)
		dbg("TRACE quick=%v all: %v %s relevant: %v %s  (%d/%d hyps)", mode, ok, r, ok2, r2, len(fs), len(hyps))
	}
	if os.Getenv("GOVER_TRACEFULL") == "" {
		return
	}
	in := &inst{u: u, c: c, seen: map[*Term]bool{}, done: map[string]bool{}, extra: extra}
	in.add(in.nnf(goal, false, false))
	ng := append([]*Term{}, in.conj...)
	for _, h := range relevant(hyps, goal) {
		in.add(in.nnf(h, true, false))
	}
	in.gskol = append(in.gskol, in.skol...)
	in.matchGoal(ng, 400)
	in.round(1200)
	in.round(1200)
	var g []*Term
	for _, t := range in.conj {
		if !hasQuant(t) {
			g = append(g, t)
		}
	}
	// truth values of the atoms of every disjunction
	seen := map[*Term]bool{}
	var atoms []*Term
	var coll func(t *Term)
	coll = func(t *Term) {
		if seen[t] || t.sort != SBool || t.hasB {
			return
		}
		seen[t] = true
		if t.op == OAnd || t.op == OOr || t.op == ONot || t.op == OIte {
			for _, a := range t.args {
				coll(a)
			}
			return
		}
		atoms = append(atoms, t)
	}
	for _, t := range ng {
		coll(t)
	}
	for _, t := range g {
		coll(t)
	}
	s2 := NewSolver(c, z3bin())
	s2.values = atoms
	dbg("TRACE ground: %s", s2.Check(g, 30000, false))
	val := map[*Term]string{}
	for k, l := range s2.valOut {
		if k < 5 {
			dbg("TRACE val %s", l)
		}
	}
	i := 0
	depth := 0
	for _, l := range s2.valOut {
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth == 0 {
			if i < len(atoms) {
				v := "?"
				if strings.HasSuffix(l, " true))") {
					v = "T"
				} else if strings.HasSuffix(l, " false))") {
					v = "F"
				}
				val[atoms[i]] = v
				i++
			}
		}
	}
	for k, t := range atoms {
		if k < 400 {
			dbg("TRACE   %s %s", val[t], c.Show(t))
		}
	}
	s2.Close()
}
