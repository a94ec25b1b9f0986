package main

import (
	"sort"
	"strings"
	"time"
)

// Quantifier handling done on our side: skolemisation of the goal and of
// existential hypotheses, then ground instantiation of universal hypotheses by
// matching modulo linear offsets.  Everything here only ever adds consequences
// of the hypotheses (or replaces positive existentials by witnesses), so an
// "unsat" answer is a proof.

type inst struct {
	u     *Unit
	c     *Ctx
	conj  []*Term
	seen  map[*Term]bool
	done  map[string]bool
	extra []*Term // candidate index terms to always try
	skol  []*Term
	gskol []*Term // the goal's own
}

func hasQuant(t *Term) bool {
	memo := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t.op == OForall || t.op == OExists {
			return true
		}
		if t.sort != SBool {
			return false
		}
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		for _, a := range t.args {
			if f(a) {
				memo[t] = true
				return true
			}
		}
		return false
	}
	return f(t)
}

// nnf with skolemisation of positive existentials (not below a universal)
func (in *inst) nnf(t *Term, pos bool, under bool) *Term {
	c := in.c
	if !hasQuant(t) {
		if pos {
			return t
		}
		return c.Not(t)
	}
	switch t.op {
	case ONot:
		return in.nnf(t.args[0], !pos, under)
	case OAnd, OOr:
		var as []*Term
		for _, a := range t.args {
			as = append(as, in.nnf(a, pos, under))
		}
		if (t.op == OAnd) == pos {
			return c.And(as...)
		}
		return c.Or(as...)
	case OEq: // boolean equality with quantifiers inside
		a, b := t.args[0], t.args[1]
		p := c.And(c.Implies(a, b), c.Implies(b, a))
		if p.op == OEq {
			return t
		}
		return in.nnf(p, pos, under)
	case OIte:
		p := c.And(c.Implies(t.args[0], t.args[1]), c.Implies(c.Not(t.args[0]), t.args[2]))
		return in.nnf(p, pos, under)
	case OForall, OExists:
		univ := (t.op == OForall) == pos
		if univ {
			// alpha-fresh is unnecessary: bound variables are globally unique, but the
			// same quantifier may be instantiated at terms with its own variable only
			// when nested, which we never do.
			body := in.nnf(t.args[0], pos, true)
			return c.Forall(t.bnd, body, t.pat...)
		}
		if under {
			body := in.nnf(t.args[0], pos, true)
			return c.Exists(t.bnd, body)
		}
		m := map[*Term]*Term{}
		for _, b := range t.bnd {
			k := c.Fresh("sk", b.sort)
			in.skol = append(in.skol, k)
			m[b] = k
		}
		return in.nnf(c.Subst(t.args[0], m), pos, under)
	}
	if pos {
		return t
	}
	return c.Not(t)
}

func (in *inst) add(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			in.add(a)
		}
		return
	}
	if t.op == OTrue || in.seen[t] {
		return
	}
	in.seen[t] = true
	in.conj = append(in.conj, t)
}

// ground index material
type ground struct {
	byArr  map[Sort][]*Term // select/store index terms by array sort
	byApp  map[string][]*Term
	bySort map[Sort][]*Term
	seen   map[*Term]bool
	have   map[string]bool
}

func (g *ground) put(m map[Sort][]*Term, k Sort, t *Term) {
	id := string(k) + "#" + itoa(t.id)
	if g.have[id] {
		return
	}
	g.have[id] = true
	m[k] = append(m[k], t)
}

func itoa(n int) string {
	return string(appendInt(nil, n))
}
func appendInt(b []byte, n int) []byte {
	if n < 0 {
		b = append(b, '-')
		n = -n
	}
	if n >= 10 {
		b = appendInt(b, n/10)
	}
	return append(b, byte('0'+n%10))
}

func (g *ground) scan(t *Term) {
	if g.seen[t] {
		return
	}
	g.seen[t] = true
	switch t.op {
	case OSelect, OStore:
		if !t.args[1].hasB {
			g.put(g.byArr, t.args[0].sort, t.args[1])
		}
	case OApp:
		for i, a := range t.args {
			if !a.hasB {
				k := t.name + "@" + itoa(i)
				id := k + "#" + itoa(a.id)
				if !g.have[id] {
					g.have[id] = true
					g.byApp[k] = append(g.byApp[k], a)
				}
			}
		}
	}
	for _, a := range t.args {
		g.scan(a)
	}
}

// candidate instantiations for bound variable b in body
func (in *inst) cands(g *ground, b *Term, body *Term) []*Term {
	c := in.c
	var out []*Term
	have := map[*Term]bool{}
	put := func(t *Term) {
		if t.sort == b.sort && !have[t] && !t.hasB {
			have[t] = true
			out = append(out, t)
		}
	}
	for _, s := range in.skol {
		put(s)
	}
	for _, s := range in.extra {
		put(s)
	}
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] || !t.hasB {
			return
		}
		seen[t] = true
		switch t.op {
		case OSelect, OStore:
			idx := t.args[1]
			if idx == b {
				for _, x := range g.byArr[t.args[0].sort] {
					put(x)
				}
			} else if idx.op == OAdd && b.sort == SInt {
				// idx = b + rest
				rest := c.Sub(idx, b)
				if !rest.hasB {
					for _, x := range g.byArr[t.args[0].sort] {
						put(c.Sub(x, rest))
					}
				}
			} else if idx.op == OCtor {
				// constructor pattern: match component-wise
				for _, x := range g.byArr[t.args[0].sort] {
					for i, a := range idx.args {
						if a == b {
							put(c.Sel(x, i))
						}
					}
				}
			}
		case OApp:
			for i, a := range t.args {
				if a == b {
					for _, x := range g.byApp[t.name+"@"+itoa(i)] {
						put(x)
					}
				} else if a.op == OAdd && b.sort == SInt {
					rest := c.Sub(a, b)
					if !rest.hasB {
						for _, x := range g.byApp[t.name+"@"+itoa(i)] {
							put(c.Sub(x, rest))
						}
					}
				}
			}
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(body)
	return out
}

// find outermost universals in positive positions
func univs(t *Term, acc *[]*Term) {
	if t.op == OForall {
		*acc = append(*acc, t)
		return
	}
	if t.op == OOr || t.op == OAnd {
		for _, a := range t.args {
			univs(a, acc)
		}
	}
}

func (in *inst) round(limit int) bool {
	c := in.c
	g := &ground{byArr: map[Sort][]*Term{}, byApp: map[string][]*Term{}, bySort: map[Sort][]*Term{}, seen: map[*Term]bool{}, have: map[string]bool{}}
	for _, t := range in.conj {
		g.scan(t)
	}
	for _, a := range c.axioms {
		g.scan(a)
	}
	var work []*Term
	work = append(work, in.conj...)
	for _, a := range c.axioms {
		if a.op == OForall {
			work = append(work, a)
		}
	}
	n := 0
	added := false
	for _, t := range work {
		var us []*Term
		univs(t, &us)
		for _, q := range us {
			var lists [][]*Term
			tot := 1
			for _, b := range q.bnd {
				l := in.cands(g, b, q.args[0])
				if len(l) > 40 {
					l = l[:40]
				}
				lists = append(lists, l)
				tot *= len(l)
			}
			if tot == 0 {
				continue
			}
			if tot > 200 {
				for i := range lists {
					if len(lists[i]) > 12 {
						lists[i] = lists[i][:12]
					}
				}
			}
			idx := make([]int, len(lists))
			mine := 0
			for mine < 160 {
				m := map[*Term]*Term{}
				key := itoa(t.id) + ":" + itoa(q.id)
				for i, b := range q.bnd {
					m[b] = lists[i][idx[i]]
					key += "," + itoa(lists[i][idx[i]].id)
				}
				if !in.done[key] {
					in.done[key] = true
					body := c.Subst(q.args[0], m)
					var ins *Term
					if t == q {
						ins = body
					} else {
						ins = c.Subst(t, map[*Term]*Term{q: body})
					}
					ins = in.nnf(ins, true, false)
					if ins.op != OTrue && !in.seen[ins] {
						in.add(ins)
						added = true
						n++
						mine++
						if n > limit {
							return added
						}
					}
				}
				j := 0
				for ; j < len(idx); j++ {
					idx[j]++
					if idx[j] < len(lists[j]) {
						break
					}
					idx[j] = 0
				}
				if j == len(idx) {
					break
				}
			}
		}
	}
	return added
}

// entails: try to show hyps |= goal. quick: ground instantiation only.
func (u *Unit) entails(hyps []*Term, goal *Term, extra []*Term, quick bool) (bool, string) {
	if goal.op == OTrue {
		return true, "simplifier"
	}
	if goal.op == OForall || goal.op == OExists {
		for _, h := range hyps {
			if h.op == goal.op && alphaEq(h, goal) {
				return true, "simplifier"
			}
		}
	}
	{
		// with many quantified facts, first those that speak about what the goal speaks about
		nq := 0
		for _, h := range hyps {
			if hasQuant(h) {
				nq++
			}
		}
		if nq > 8 && !u.wide {
			if fs := relevant(hyps, goal); len(fs) < len(hyps) {
				ok, be := u.entails1(fs, goal, extra, true)
				if ok || quick {
					return ok, be
				}
			}
		}
	}
	return u.entails1(hyps, goal, extra, quick)
}

// freshSyms: the constants introduced during execution that occur in t
func freshSyms(t *Term, seen map[*Term]bool, acc map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar && strings.Contains(t.name, "!") {
		acc[t.name] = true
	}
	for _, a := range t.args {
		freshSyms(a, seen, acc)
	}
}

// relevant drops the quantified hypotheses that share no such constant with the goal
func relevant(hyps []*Term, goal *Term) []*Term {
	gs := map[string]bool{}
	freshSyms(goal, map[*Term]bool{}, gs)
	var out []*Term
	for _, h := range hyps {
		if hasQuant(h) {
			hs := map[string]bool{}
			freshSyms(h, map[*Term]bool{}, hs)
			hit := len(hs) == 0
			for k := range hs {
				if gs[k] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
		}
		out = append(out, h)
	}
	return out
}

// matchGoal instantiates universal facts by matching their atoms against the
// atoms of the (negated, skolemised) goal; nested universals are taken together.
func (in *inst) matchGoal(goal []*Term, limit int) bool {
	c := in.c
	var atoms []*Term
	seen := map[*Term]bool{}
	var coll func(t *Term)
	coll = func(t *Term) {
		if seen[t] || t.hasB {
			return
		}
		seen[t] = true
		if t.op == OEq || t.op == OSelect || t.op == OApp || t.op == OSel {
			atoms = append(atoms, t)
		}
		for _, a := range t.args {
			coll(a)
		}
	}
	for _, t := range goal {
		coll(t)
	}
	n := 0
	gskol := append([]*Term{}, in.gskol...)
	// what a negated existential goal rules out is matched against everything known
	fromGoal := map[*Term]bool{}
	for _, t := range goal {
		if t.op == OForall {
			fromGoal[t] = true
		}
	}
	gatoms := atoms
	if len(fromGoal) > 0 {
		for _, t := range in.conj {
			coll(t)
		}
	}
	allAtoms := atoms
	for _, h := range append([]*Term{}, in.conj...) {
		if h.op != OForall {
			continue
		}
		atoms = gatoms
		if fromGoal[h] {
			atoms = allAtoms
		}
		body := h
		var bnd []*Term
		for body.op == OForall {
			bnd = append(bnd, body.bnd...)
			body = body.args[0]
		}
		isB := map[*Term]bool{}
		for _, b := range bnd {
			isB[b] = true
		}
		seenB := map[*Term]bool{}
		mine := 0
		var walk func(t *Term)
		walk = func(t *Term) {
			if seenB[t] || !t.hasB || mine > 24 || n > limit || t.op == OForall || t.op == OExists {
				return
			}
			seenB[t] = true
			if t.op == OEq || t.op == OSelect || t.op == OApp || t.op == OSel {
				for _, g := range atoms {
					if g.op != t.op || g.name != t.name || g.sort != t.sort {
						continue
					}
					m := map[*Term]*Term{}
					if !in.match(t, g, isB, m) {
						continue
					}
					// variables the match leaves open: the goal's own witnesses
					ms := []map[*Term]*Term{m}
					for _, b := range bnd {
						if _, ok := m[b]; ok {
							continue
						}
						var nx []map[*Term]*Term
						for _, sk := range gskol {
							if sk.sort != b.sort {
								continue
							}
							for _, m0 := range ms {
								m1 := map[*Term]*Term{b: sk}
								for k, v := range m0 {
									m1[k] = v
								}
								nx = append(nx, m1)
							}
						}
						ms = nx
						if len(ms) > 8 {
							ms = nil
						}
					}
					for _, m := range ms {
						ins := in.nnf(c.Subst(body, m), true, false)
						if ins.op != OTrue && !in.seen[ins] {
							in.add(ins)
							n++
							mine++
						}
					}
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(body)
	}
	return n > 0
}

func (in *inst) match(p, g *Term, isB map[*Term]bool, m map[*Term]*Term) bool {
	if p.sort != g.sort || g.hasB {
		return false
	}
	if isB[p] {
		if v, ok := m[p]; ok {
			return v == g
		}
		m[p] = g
		return true
	}
	if !p.hasB {
		return p == g
	}
	if p.op == OAdd && p.sort == SInt {
		// a single bound variable plus an offset
		for _, a := range p.args {
			if isB[a] {
				rest := in.c.Sub(p, a)
				if len(m) > 0 {
					rest = in.c.Subst(rest, m)
				}
				if rest.hasB {
					return false
				}
				v := in.c.Sub(g, rest)
				if w, ok := m[a]; ok {
					return w == v
				}
				m[a] = v
				return true
			}
		}
	}
	if p.op != g.op || p.name != g.name || len(p.args) != len(g.args) || p.op == OForall || p.op == OExists {
		return false
	}
	if p.op == OEq {
		save := map[*Term]*Term{}
		for k, v := range m {
			save[k] = v
		}
		if in.match(p.args[0], g.args[0], isB, m) && in.match(p.args[1], g.args[1], isB, m) {
			return true
		}
		for k := range m {
			delete(m, k)
		}
		for k, v := range save {
			m[k] = v
		}
		return in.match(p.args[0], g.args[1], isB, m) && in.match(p.args[1], g.args[0], isB, m)
	}
	for i := range p.args {
		if !in.match(p.args[i], g.args[i], isB, m) {
			return false
		}
	}
	return true
}

func (u *Unit) entails1(hyps []*Term, goal *Term, extra []*Term, quick bool) (bool, string) {
	c := u.c
	in := &inst{u: u, c: c, seen: map[*Term]bool{}, done: map[string]bool{}, extra: extra}
	in.add(in.nnf(goal, false, false)) // first: its skolems become candidates
	ngoal := append([]*Term{}, in.conj...)
	in.gskol = append(in.gskol, in.skol...)
	quant := false
	for _, h := range hyps {
		if hasQuant(h) {
			quant = true
		}
		in.add(in.nnf(h, true, false))
	}
	for _, a := range c.axioms {
		if a.op == OForall {
			quant = true
			break
		}
	}
	for _, t := range in.conj {
		if t.op == OFalse {
			return true, "simplifier"
		}
		if hasQuant(t) {
			quant = true
		}
	}
	groundOnly := func() []*Term {
		var r []*Term
		for _, t := range in.conj {
			if !hasQuant(t) {
				r = append(r, t)
			}
		}
		return r
	}
	tck := time.Now()
	r := u.sv.Check(groundOnly(), 2000, false)
	if debug && time.Since(tck) > 500*time.Millisecond {
		dbg("     slow ground %v n=%d %s goal %.200s", time.Since(tck), len(groundOnly()), r, c.Show(goal))
	}
	if r == "unsat" {
		return true, "z3"
	}
	if !quant {
		if r == "sat" {
			return false, "z3:sat"
		}
		if quick {
			return false, r
		}
	}
	if quant {
		if in.matchGoal(ngoal, 400) {
			tck = time.Now()
			r = u.sv.Check(groundOnly(), 2000, false)
			if debug && time.Since(tck) > 500*time.Millisecond {
				dbg("     slow match %v n=%d %s goal %.200s", time.Since(tck), len(groundOnly()), r, c.Show(goal))
			}
			if r == "unsat" {
				return true, "z3"
			}
		}
		for k := 0; k < 3; k++ {
			if !in.round(1200) {
				break
			}
			for _, t := range in.conj {
				if t.op == OFalse {
					return true, "simplifier"
				}
			}
			tck = time.Now()
			r = u.sv.Check(groundOnly(), 3000, false)
			if debug && time.Since(tck) > 500*time.Millisecond {
				dbg("     slow round %d %v n=%d %s quick=%v goal %.200s", k, time.Since(tck), len(groundOnly()), r, quick, c.Show(goal))
			}
			if r == "unsat" {
				return true, "z3"
			}
			if quick && (k >= 1 && !u.deep || k >= 2) {
				break
			}
		}
		if quick {
			return false, r
		}
	}
	r1 := u.sv.Check(in.conj, 4000, false)
	if r1 == "unsat" {
		return true, "z3"
	}
	s2 := NewSolver(c, z3bin())
	r2 := s2.Check(in.conj, 8000, true)
	s2.Close()
	if r2 == "unsat" {
		return true, "z3"
	}
	if r2 == "sat" {
		return false, "z3:sat"
	}
	s3 := NewSolver(c, "cvc5", "--incremental", "--lang=smt2")
	r3 := s3.Check(in.conj, 8000, false)
	s3.Close()
	if r3 == "unsat" {
		return true, "cvc5"
	}
	return false, "z3:" + r2 + " cvc5:" + r3
}

var _ = sort.Ints
