package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- loops ----------
//
// A loop is summarised by an inductive invariant.  The set of locations it
// modifies is discovered by symbolic dry runs of one iteration from a havoced
// state; candidate invariants come from templates instantiated with what one
// iteration does, plus the candidates stated in the contract; a Houdini
// fixpoint keeps those that hold on entry and are preserved by every back edge.
// Only invariants proved that way are assumed.

type slot struct {
	kind  string // ref, fld, heap, heapF
	key   string
	ref   *Term
	field int
	typ   types.Type
	cst   *Term
	entry *Term
}

func (s *slot) id() string {
	switch s.kind {
	case "ref":
		return fmt.Sprintf("ref %s@%d", s.key, s.ref.id)
	case "fld":
		return fmt.Sprintf("fld %s@%d.%d", s.key, s.ref.id, s.field)
	}
	return s.kind + " " + s.key
}

type phiSlot struct {
	phi   *ssa.Phi
	cst   *Term
	entry *Term
	fixed Val
}

type cand struct {
	name string
	t    *Term // over head constants
	at   func(st *State) *Term
	atv  func(st *State, v *Term) *Term // with the value of the loop index iv
	atm  func(st *State, m map[*Term]*Term) *Term // with the values of the head constants
	iv   *iterV
}

// sat: the candidate in a state, for the given value of the loop index
func (k *cand) in(st *State, v *Term, m map[*Term]*Term) *Term {
	if k.atm != nil {
		return k.atm(st, m)
	}
	if k.atv != nil {
		return k.atv(st, v)
	}
	return k.at(st)
}

type backEdge struct {
	o  Outcome
	d  []*Term         // delta path condition
	m  map[*Term]*Term // head constants -> values at the back edge
	it *Term           // value of the iteration variable in this iteration
}

type loopCtx struct {
	u         *Unit
	fr        *Frame
	st        *State
	h         *ssa.BasicBlock
	body      map[*ssa.BasicBlock]bool
	slots     map[string]*slot
	whole     map[string]bool
	framed    map[string]bool
	phis      []*phiSlot
	ts0       int
	head      *State
	hfr       *Frame
	dropNotes map[string]bool
	epoch0    int
}

func plainSort(s Sort) bool { return s == SInt || s == SBool || s == SStr || s == SFlt }

func (L *loopCtx) isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Interface, *types.Signature, *types.Struct, *types.Array:
		return true
	}
	return false
}

func (L *loopCtx) mkHead() {
	u, c := L.u, L.u.c
	fr := L.fr.clone()
	st := L.st.clone()
	L.phis = nil
	mkPhi := func(ph *ssa.Phi) {
		ev := fr.env[ph]
		fix := false
		switch x := ev.(type) {
		case *Ptr:
			if len(x.path) > 0 || x.idx != nil || x.arr || x.heap[0] == 'G' {
				fix = true
			}
		case *Clo, *BoundMethod, *MapIter, Tuple:
			fix = true
		}
		if fix {
			L.phis = append(L.phis, &phiSlot{phi: ph, fixed: ev})
			return
		}
		e := u.term(st, ev, ph.Type())
		if e.sort != c.SortOf(ph.Type()) && c.SortOf(ph.Type()) == SAny {
			u.fail("phi sort")
		}
		cst := c.Fresh("phi."+ph.Comment+ph.Name(), e.sort)
		fr.env[ph] = cst
		L.phis = append(L.phis, &phiSlot{phi: ph, cst: cst, entry: e})
	}
	var later []*ssa.Phi
	for _, in := range L.h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if L.isRefType(ph.Type()) {
			later = append(later, ph)
		} else {
			mkPhi(ph)
		}
	}
	// heaps
	keys := map[string]bool{}
	for _, s := range L.slots {
		keys[s.key] = true
	}
	for k := range L.whole {
		keys[k] = true
	}
	for k := range L.framed {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h, ok := st.heaps[k]
		if !ok {
			h = L.st.heaps[k]
		}
		if h == nil {
			continue
		}
		if L.whole[k] {
			s := &slot{kind: "heap", key: k, entry: h, cst: c.Fresh("hv."+k, h.sort)}
			st.heaps[k] = s.cst
			L.slots[s.id()] = s
			continue
		}
		base := h
		if L.framed[k] {
			s := &slot{kind: "heapF", key: k, entry: h, cst: c.Fresh("hv."+k, h.sort)}
			u.havocBase[s.cst] = &havocInfo{base: h, top: L.st.top}
			L.slots[s.id()] = s
			h = s.cst
		}
		var ss []*slot
		for _, s := range L.slots {
			if s.key == k && (s.kind == "ref" || s.kind == "fld") {
				ss = append(ss, s)
			}
		}
		sort.Slice(ss, func(i, j int) bool { return ss[i].id() < ss[j].id() })
		for _, s := range ss {
			ev := u.hsel(base, s.ref)
			if s.kind == "ref" {
				s.entry = ev
				s.cst = c.Fresh("hv."+k, ev.sort)
				h = c.Store(h, s.ref, s.cst)
			} else {
				s.entry = c.Field(ev, s.typ, s.field)
				s.cst = c.Fresh("hv."+k, s.entry.sort)
				h = c.Store(h, s.ref, c.SetField(u.hsel(h, s.ref), s.typ, s.field, s.cst))
			}
		}
		st.heaps[k] = h
	}
	nt := c.Fresh("top", SInt)
	st.assume(c.Le(st.top, nt))
	st.top = nt
	for _, s := range L.slots {
		if s.kind == "fld" && s.cst != nil {
			u.refFacts(st, s.cst, s.typ.Underlying().(*types.Struct).Field(s.field).Type())
		}
		if s.key != "" && strings.HasPrefix(s.key, "MC:") && s.kind == "ref" && s.cst != nil {
			st.assume(c.Le(c.Int(0), s.cst))
		}
	}
	for _, ph := range later {
		mkPhi(ph)
		p := L.phis[len(L.phis)-1]
		if p.cst != nil {
			u.refFacts(st, p.cst, ph.Type())
			st.nonnil[p.cst.id] = false
		}
	}
	for k := range L.dropNotes {
		delete(st.notes, k)
	}
	L.head, L.hfr = st, fr
}

// discover modifications; true if something new was found
func (L *loopCtx) diff(o Outcome) bool {
	u, c := L.u, L.u.c
	ch := false
	if o.st.epoch != L.head.epoch {
		u.fail("loop body havocs all shared state (%s)", fnName(L.fr.fn))
	}
	for k, b := range o.st.heaps {
		h, ok := L.head.heaps[k]
		if !ok {
			h = u.heap(L.head, k, b.sort)
			L.st.heaps[k] = h
		}
		if b == h || L.whole[k] {
			continue
		}
		if k[0] == 'G' || k == "NET" || k == "FS" || k == "REPLY" || k == "STATUS" {
			L.whole[k] = true
			ch = true
			continue
		}
		if strings.HasPrefix(k, "IT:") {
			if _, atEntry := L.st.heaps[k]; atEntry {
				L.whole[k] = true
				ch = true
			}
			continue
		}
		var refs []*Term
		// stores of an iteration above the deepest part shared with the head
		// (a store to a location already written replaces the older one)
		suffix := map[*Term]bool{h: true}
		for t := h; t.op == OStore; t = t.args[0] {
			suffix[t.args[0]] = true
		}
		t := b
		for !suffix[t] && t.op == OStore {
			refs = append(refs, t.args[1])
			t = t.args[0]
		}
		if !suffix[t] {
			L.whole[k] = true
			ch = true
			continue
		}
		for x := h; x != t; x = x.args[0] {
			refs = append(refs, x.args[1])
		}
		for _, r := range refs {
			if isAlloc(r) && r.maxts > L.ts0 {
				if !L.framed[k] {
					L.framed[k] = true
					ch = true
				}
				continue
			}
			if r.maxts <= L.ts0 && !r.hasB {
				// struct cells: by field
				if strings.HasPrefix(k, "C:") {
					hv, bv := u.hsel(h, r), u.hsel(b, r)
					if hv == bv {
						continue
					}
					if si := c.structs[hv.sort]; si != nil && !si.opaque && c.dts[hv.sort] != nil {
						ty := L.typeOfCell(k, si)
						if ty != nil {
							for i := range c.dts[hv.sort].fields {
								if c.Sel(hv, i) != c.Sel(bv, i) {
									s := &slot{kind: "fld", key: k, ref: r, field: i, typ: ty}
									if L.slots[s.id()] == nil {
										L.slots[s.id()] = s
										ch = true
									}
								}
							}
							continue
						}
					}
				}
				if u.hsel(h, r) == u.hsel(b, r) {
					continue
				}
				s := &slot{kind: "ref", key: k, ref: r}
				if L.slots[s.id()] == nil {
					L.slots[s.id()] = s
					ch = true
				}
				continue
			}
			if u.hsel(h, r) == u.hsel(b, r) {
				continue
			}
			L.whole[k] = true
			ch = true
			break
		}
	}
	// Go-side notes
	for k, v := range L.head.notes {
		if nv, ok := o.st.notes[k]; !ok || !sameVal(nv, v) {
			if !L.dropNotes[k] {
				L.dropNotes[k] = true
				ch = true
			}
		}
	}
	for k := range o.st.notes {
		if _, ok := L.head.notes[k]; !ok {
			_ = k // created in the iteration: invisible outside
		}
	}
	for k := range o.st.locks {
		if o.st.locks[k] != L.head.locks[k] {
			u.lockLoop(o.st, L.head, k, fnName(L.fr.fn))
		}
	}
	for k := range L.head.locks {
		if o.st.locks[k] != L.head.locks[k] {
			u.lockLoop(o.st, L.head, k, fnName(L.fr.fn))
		}
	}
	if len(o.fr.defers) != len(L.fr.defers) {
		u.fail("defer inside a loop in %s", fnName(L.fr.fn))
	}
	return ch
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.heap != y.heap || x.ref != y.ref || x.idx != y.idx || len(x.path) != len(y.path) || x.arr != y.arr {
			return false
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field || x.path[i].idx != y.path[i].idx {
				return false
			}
		}
		return true
	case *Clo:
		y, ok := b.(*Clo)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.typ, y.typ) && sameVal(x.v, y.v)
	case *MapIter:
		return a == b
	}
	return false
}

func (L *loopCtx) typeOfCell(k string, si *structInfo) types.Type {
	return L.u.cellTypes[k]
}

func (u *Unit) handleLoop(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State) []Outcome {
	c := u.c
	// 1. constant unrolling
	if fr.unroll == nil {
		fr.unroll = map[*ssa.BasicBlock]int{}
	}
	if fr.unroll[h] >= 0 && fr.unroll[h] < 24 {
		if cond := u.headerCond(fr, h, st); cond != nil && (cond.op == OTrue || cond.op == OFalse) {
			fr.unroll[h]++
			outs := u.run(fr, h, u.firstNonPhi(h), st)
			return outs
		}
	}
	fr.unroll[h] = -1
	defer func() {}()

	L := &loopCtx{u: u, fr: fr, st: st, h: h, body: body, slots: map[string]*slot{}, whole: map[string]bool{}, framed: map[string]bool{}, dropNotes: map[string]bool{}, ts0: c.nfresh}
	var backs []Outcome
	u.loopDepth++
	for k := 0; ; k++ {
		if k > 8 {
			u.loopDepth--
			u.fail("loop modifications do not stabilise in %s", fnName(fr.fn))
		}
		L.mkHead()
		backs = L.dryRun(nil)
		ch := false
		for _, o := range backs {
			if L.diff(o) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	// 2. candidates and Houdini
	bes := L.backEdges(backs)
	cands := L.candidates(bes)
	proved := L.houdini(cands, bes)
	if L.hasInner() && len(proved) > 0 {
		// a second pass: inner loops are analysed under the outer invariant
		backs = L.dryRun(proved)
		bes = L.backEdges(backs)
		// keep the constants of this head: candidates range over them
		more := L.candidates(bes)
		all := append(append([]*cand{}, proved...), more...)
		proved = L.houdini(all, bes)
	}
	u.loopDepth--
	if debug {
		dbg("LOOP %s block %d: %d back edges, %d/%d candidates hold", fnName(fr.fn), h.Index, len(bes), len(proved), len(cands))
		for _, p := range proved {
			dbg("   inv %s: %s", p.name, c.Show(p.t))
		}
	}
	if u.dry == 0 {
		u.loopsDone++
		u.loopInvs += len(proved)
	}
	// 3. final run from the invariant state
	fst := L.head.clone()
	ffr := L.hfr.clone()
	for _, p := range proved {
		fst.assume(p.t)
	}
	for _, ps := range L.phis {
		if ps.cst != nil && ps.cst.sort == SInt && !L.isRefType(ps.phi.Type()) {
			u.idxTerms = append(u.idxTerms, ps.cst, c.Add(ps.cst, c.Int(1)))
		}
	}
	ffr.loop = &loopRun{header: h, blocks: body, dry: false, parent: fr.loop}
	outs := u.run(ffr, h, u.firstNonPhi(h), fst)
	var res []Outcome
	for _, o := range outs {
		if o.kind == KBack && o.pred != nil && body[o.pred] && o.fr.fn == fr.fn && o.hdr == h {
			continue // covered by the invariant
		}
		res = append(res, o)
	}
	return res
}

func (L *loopCtx) hasInner() bool {
	for h := range L.u.loopsOf(L.fr.fn) {
		if h != L.h && L.body[h] {
			return true
		}
	}
	// loops inside inlined callees count as well
	for b := range L.body {
		for _, in := range b.Instrs {
			if cc, ok := in.(ssa.CallInstruction); ok {
				if f := cc.Common().StaticCallee(); f != nil && len(f.Blocks) > 0 {
					if len(L.u.loopsOf(f)) > 0 {
						return true
					}
				}
			}
		}
	}
	return false
}

func (L *loopCtx) dryRun(assume []*cand) []Outcome {
	u := L.u
	st := L.head.clone()
	for _, p := range assume {
		st.assume(p.t)
	}
	fr := L.hfr.clone()
	fr.loop = &loopRun{header: L.h, blocks: L.body, dry: true, parent: L.fr.loop}
	u.dry++
	outs := u.run(fr, L.h, u.firstNonPhi(L.h), st)
	u.dry--
	var backs []Outcome
	for _, o := range outs {
		if o.kind == KBack && o.hdr == L.h && o.fr.fn == L.fr.fn {
			backs = append(backs, o)
		}
	}
	return backs
}

func (u *Unit) headerCond(fr *Frame, h *ssa.BasicBlock, st *State) *Term {
	// only headers made of simple instructions ending in If
	last := h.Instrs[len(h.Instrs)-1]
	if _, ok := last.(*ssa.If); !ok {
		return nil
	}
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
	}
	u.dry++
	save := u.stopAtIf
	u.stopAtIf = h
	outs := u.run(fr.clone(), h, u.firstNonPhi(h), st.clone())
	u.stopAtIf = save
	u.dry--
	for _, o := range outs {
		if o.cond != nil {
			return o.cond
		}
	}
	return nil
}

func (L *loopCtx) backEdges(outs []Outcome) []*backEdge {
	u, c := L.u, L.u.c
	n0 := len(L.head.pc)
	var res []*backEdge
	for _, o := range outs {
		b := &backEdge{o: o, m: map[*Term]*Term{}}
		if len(o.st.pc) >= n0 {
			b.d = o.st.pc[n0:]
		}
		for _, ps := range L.phis {
			if ps.cst == nil {
				if !sameVal(ps.fixed, o.fr.env[ps.phi]) {
					u.fail("loop-carried %T changes in %s", ps.fixed, fnName(L.fr.fn))
				}
				continue
			}
			b.m[ps.cst] = u.term(o.st, o.fr.env[ps.phi], ps.phi.Type())
		}
		for _, s := range L.slots {
			if s.cst == nil {
				continue
			}
			switch s.kind {
			case "heap", "heapF":
				b.m[s.cst] = o.st.heaps[s.key]
			case "ref":
				b.m[s.cst] = u.hsel(o.st.heaps[s.key], s.ref)
			case "fld":
				b.m[s.cst] = c.Field(u.hsel(o.st.heaps[s.key], s.ref), s.typ, s.field)
			}
		}
		// what the path has decided need not be asked again
		lits := map[*Term]*Term{}
		for _, t := range b.d {
			switch {
			case t.op == ONot:
				lits[t.args[0]] = c.False
			case t.op == OAnd || t.op == OOr || t.op == OTrue || t.op == OFalse || t.op == OForall || t.op == OExists:
			default:
				lits[t] = c.True
			}
		}
		if len(lits) > 0 {
			d := make([]*Term, len(b.d))
			for i, t := range b.d {
				a := t
				if t.op == ONot {
					a = t.args[0]
				}
				v, own := lits[a]
				delete(lits, a)
				d[i] = c.Subst(t, lits)
				if own {
					lits[a] = v
				}
			}
			b.d = d
			for k, v := range b.m {
				if v != k {
					b.m[k] = c.Subst(v, lits)
				}
			}
		}
		res = append(res, b)
	}
	return res
}

func (L *loopCtx) entryMap() map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, ps := range L.phis {
		if ps.cst != nil {
			m[ps.cst] = ps.entry
		}
	}
	for _, s := range L.slots {
		if s.cst != nil {
			m[s.cst] = s.entry
		}
	}
	for g, v := range L.ghostEntry() {
		m[g] = v
	}
	return m
}

var ghostEntryVals map[*Term]*Term

func (L *loopCtx) ghostEntry() map[*Term]*Term { return L.u.ghostEntry }

func (L *loopCtx) houdini(cs []*cand, bes []*backEdge) []*cand {
	u, c := L.u, L.u.c
	em := L.entryMap()
	var live []*cand
	seen := map[*Term]bool{}
	for _, k := range cs {
		if k.t == nil || k.t.op == OTrue || seen[k.t] {
			continue
		}
		seen[k.t] = true
		var g *Term
		if k.at != nil || k.atv != nil || k.atm != nil {
			s := L.st.clone()
			var v0 *Term
			if k.iv != nil {
				v0 = k.iv.v0
			}
			g = k.in(s, v0, em)
			if ok, _ := u.entails(s.pc, g, nil, true); ok {
				live = append(live, k)
			} else if debug {
				dbg("   cand %s fails at entry", k.name)
			}
			continue
		}
		g = c.Subst(k.t, em)
		if ok, _ := u.entails(L.st.pc, g, nil, true); ok {
			live = append(live, k)
		} else if debug {
			dbg("   cand %s fails at entry: %s", k.name, c.Show(g))
		}
	}
	var idx []*Term
	for _, ps := range L.phis {
		if ps.cst != nil && ps.cst.sort == SInt && !L.isRefType(ps.phi.Type()) {
			idx = append(idx, ps.cst)
		}
	}
	for round := 0; round < 12; round++ {
		changed := false
		for _, b := range bes {
			var keep []*cand
			base := append([]*Term{}, b.o.st.pc...)
			for _, k := range live {
				base = append(base, k.t)
			}
			for _, k := range live {
				var g *Term
				hy := base
				if k.at != nil || k.atv != nil || k.atm != nil {
					s := b.o.st.clone()
					n := len(s.pc)
					var v *Term
					if k.iv != nil {
						v = b.m[k.iv.v]
					}
					g = k.in(s, v, b.m)
					hy = append(append([]*Term{}, base...), s.pc[n:]...)
				} else {
					g = c.Subst(k.t, b.m)
				}
				ex := idx
				if b.it != nil {
					ex = append(append([]*Term{}, idx...), b.it)
				}
				t0 := time.Now()
				u.wide = k.name == "vis.dom"         // needs what the loop does to the map, which the goal does not mention
				u.deep = k.at != nil || k.atv != nil || k.atm != nil // the contract's own clauses are worth another round
				ok, why := u.entails(hy, g, ex, true)
				if !ok && k.atm != nil { // an invariant somebody wrote down: worth the full effort
					ok, why = u.entails1(hy, g, ex, false)
				}
				u.deep, u.wide = false, false
				if debug && time.Since(t0) > time.Second {
					dbg("   slow %s %v %v", k.name, ok, time.Since(t0))
				}
				if ok {
					keep = append(keep, k)
				} else {
					changed = true
					if debug {
						dbg("   cand %s not preserved (%s): %s", k.name, why, c.Show(g))
						if tr := os.Getenv("GOVER_TRACE"); tr != "" && strings.Contains(k.name, tr) {
							u.traceFail(hy, g, ex)
						}
					}
				}
			}
			live = keep
		}
		if !changed {
			return live
		}
	}
	return nil
}

// ---------- candidate templates ----------

type iterV struct {
	kind string // idx, map
	v    *Term  // idx: phi constant
	v0   *Term
	V    *Term // map: visited-set head constant
	sort Sort
}

func (it *iterV) past(c *Ctx, q *Term) *Term {
	if it.kind == "idx" {
		return c.And(c.Le(it.v0, q), c.Lt(q, it.v))
	}
	return c.Select(it.V, q)
}

func (L *loopCtx) candidates(bes []*backEdge) []*cand {
	u, c := L.u, L.u.c
	var out []*cand
	add := func(name string, t *Term) {
		if t.op != OTrue {
			out = append(out, &cand{name: name, t: t})
		}
	}
	if len(bes) == 0 {
		return nil
	}
	if u.ghostEntry == nil {
		u.ghostEntry = map[*Term]*Term{}
	}
	// iteration variable
	var it *iterV
	for _, ps := range L.phis {
		if ps.cst == nil || ps.cst.sort != SInt || L.isRefType(ps.phi.Type()) {
			continue
		}
		ok := true
		for _, b := range bes {
			d := c.Sub(b.m[ps.cst], ps.cst)
			if d.op != OInt || d.ival != 1 {
				ok = false
			}
		}
		if ok {
			it = &iterV{kind: "idx", v: ps.cst, v0: ps.entry, sort: SInt}
			for _, b := range bes {
				b.it = ps.cst
			}
			break
		}
	}
	if it == nil {
		for _, s := range L.slots {
			if s.kind == "heap" && strings.HasPrefix(s.key, "IT:") {
				ok := true
				for _, b := range bes {
					n := b.m[s.cst]
					if n.op == OStore && n.args[0] == s.cst {
						b.it = n.args[1]
					} else {
						ok = false
					}
				}
				if ok {
					ks, _ := arrSorts(s.cst.sort)
					it = &iterV{kind: "map", V: s.cst, sort: ks, v: s.cst, v0: s.entry}
					break
				}
			}
		}
	}
	// integer phis
	for _, ps := range L.phis {
		if ps.cst == nil || ps.cst.sort != SInt || L.isRefType(ps.phi.Type()) {
			continue
		}
		add("lo", c.Le(ps.entry, ps.cst))
		add("hi", c.Le(ps.cst, ps.entry))
		if it != nil && it.kind == "idx" && ps.cst != it.v {
			add("sync", c.Eq(c.Sub(ps.cst, ps.entry), c.Sub(it.v, it.v0)))
			add("slow", c.Le(c.Sub(ps.cst, ps.entry), c.Sub(it.v, it.v0)))
		}
	}
	if it != nil && it.kind == "idx" {
		bs := map[*Term]bool{}
		for _, b := range bes {
			for _, t := range b.d {
				L.bounds(t, it.v, bs)
			}
		}
		for n := range bs {
			add("bound", c.Le(it.v, n))
			add("bound1", c.Le(c.Add(it.v, c.Int(1)), n))
			add("bound2", c.Le(it.v, c.Add(n, c.Int(1))))
		}
	}
	// user candidates
	out = append(out, L.userCands(it)...)
	if it == nil {
		return out
	}
	if len(bes) > 14 {
		return out
	}
	q := c.BVar("q", it.sort)
	gen := func(t *Term, b *backEdge, x *Term) *Term { return c.Subst(t, map[*Term]*Term{b.it: x}) }
	clean := func(t *Term) bool { return t.maxts <= L.ts0 }
	// generalised condition of one iteration along back edge b
	cond := func(b *backEdge, x *Term) *Term {
		var cs []*Term
		for _, t := range b.d {
			g := gen(t, b, q)
			if clean(g) {
				cs = append(cs, c.Subst(g, map[*Term]*Term{q: x}))
			}
		}
		return c.And(cs...)
	}
	anyOf := func(x *Term, f func(b *backEdge) *Term) *Term {
		var ds []*Term
		for _, b := range bes {
			if t := f(b); t != nil {
				ds = append(ds, c.And(cond(b, x), t))
			}
		}
		return c.Or(ds...)
	}
	all := func(body *Term) *Term { return c.Forall([]*Term{q}, body) }
	past := it.past(c, q)
	// T2
	add("past", all(c.Implies(past, anyOf(q, func(b *backEdge) *Term { return c.True }))))
	if len(bes) > 1 {
		for _, t := range bes[0].d {
			g := gen(t, bes[0], q)
			if clean(g) && g.hasB {
				add("past1", all(c.Implies(past, g)))
			}
		}
	} else {
		for _, t := range bes[0].d {
			g := gen(t, bes[0], q)
			if clean(g) && g.hasB {
				add("past1", all(c.Implies(past, g)))
			}
		}
	}
	if it.kind == "map" {
		// only keys the map had at the start are visited, whatever is deleted meanwhile
		for _, s := range L.sortedSlots() {
			if s.cst != nil && s.cst.sort == it.V.sort && strings.HasPrefix(s.key, "MD:") {
				add("vis.dom", all(c.Implies(past, c.Select(s.entry, q))))
			}
		}
	}
	ghost := func(hint string, s Sort, entry *Term) *Term {
		g := c.Fresh("gh."+hint, s)
		if entry != nil {
			u.ghostEntry[g] = entry
		} else {
			delete(u.ghostEntry, g)
		}
		return g
	}
	// T3: slice accumulators
	for _, ps := range L.phis {
		if ps.cst == nil || ps.cst.sort != SSlice {
			continue
		}
		st, ok := ps.phi.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		ek := elemKey(st.Elem())
		s := ps.cst
		hE := L.head.heaps[ek]
		if hE == nil {
			continue
		}
		len0 := c.Sel(ps.entry, 2)
		type app struct {
			e *Term
		}
		apps := make([]*app, len(bes))
		good, nApp := true, 0
		for i, b := range bes {
			v := b.m[s]
			if v == s {
				continue
			}
			if c.Sub(c.Sel(v, 2), c.Sel(s, 2)) == c.Int(1) && c.Sel(v, 1) == c.Sel(s, 1) {
				e := c.Select(u.hsel(b.o.st.heaps[ek], c.Sel(v, 0)), c.Add(c.Sel(s, 1), c.Sel(s, 2)))
				apps[i] = &app{e}
				nApp++
				continue
			}
			good = false
		}
		if !good || nApp == 0 {
			continue
		}
		src := ghost("src", ArrSort(SInt, it.sort), nil)
		pos := ghost("pos", ArrSort(it.sort, SInt), nil)
		for i, b := range bes {
			if apps[i] != nil {
				b.m[src] = c.Store(src, c.Sel(s, 2), b.it)
				b.m[pos] = c.Store(pos, b.it, c.Sel(s, 2))
			} else {
				b.m[src], b.m[pos] = src, pos
			}
		}
		l := c.Sel(s, 2)
		S := func(p *Term) *Term { return c.Select(c.Select(hE, c.Sel(s, 0)), c.Add(c.Sel(s, 1), p)) }
		add("acc.off", c.Eq(c.Sel(s, 1), c.Sel(ps.entry, 1)))
		add("acc.len0", c.Le(len0, l))
		if it.kind == "idx" {
			add("acc.len", c.Eq(c.Sub(l, len0), c.Sub(it.v, it.v0)))
			add("acc.lenle", c.Le(c.Sub(l, len0), c.Sub(it.v, it.v0)))
		}
		p := c.BVar("p", SInt)
		rng := c.And(c.Le(len0, p), c.Lt(p, l))
		sp := c.Select(src, p)
		add("acc.src", c.Forall([]*Term{p}, c.Implies(rng, it.past(c, sp))))
		cleanE := func(b *backEdge, e *Term) *Term {
			g := gen(e, b, q)
			if clean(g) {
				return g
			}
			return nil
		}
		eqAt := func(pp, x *Term) func(i int) *Term {
			return func(i int) *Term {
				g := cleanE(bes[i], apps[i].e)
				if g != nil {
					return c.Eq(S(pp), c.Subst(g, map[*Term]*Term{q: x}))
				}
				// fieldwise for struct elements
				e := apps[i].e
				if d := c.dts[e.sort]; d != nil {
					var cs []*Term
					for k := range d.fields {
						if g := cleanE(bes[i], c.Sel(e, k)); g != nil {
							cs = append(cs, c.Eq(c.Sel(S(pp), k), c.Subst(g, map[*Term]*Term{q: x})))
						}
					}
					return c.And(cs...)
				}
				return c.True
			}
		}
		var ds, es []*Term
		for i, b := range bes {
			if apps[i] != nil {
				ds = append(ds, c.And(cond(b, sp), eqAt(p, sp)(i)))
				es = append(es, c.And(cond(b, q), c.Le(len0, c.Select(pos, q)), c.Lt(c.Select(pos, q), l), eqAt(c.Select(pos, q), q)(i)))
			} else {
				es = append(es, cond(b, q))
			}
		}
		add("acc.elem", c.Forall([]*Term{p}, c.Implies(rng, c.Or(ds...))))
		add("acc.cov", all(c.Implies(past, c.Or(es...))))
		if nApp == len(bes) && it.kind == "idx" {
			var fs []*Term
			for i, b := range bes {
				pp := c.Add(len0, c.Sub(q, it.v0))
				fs = append(fs, c.And(cond(b, q), eqAt(pp, q)(i)))
			}
			add("acc.map", all(c.Implies(past, c.Or(fs...))))
		}
		if !(len0.op == OInt && len0.ival == 0) {
			e0 := c.Select(u.hsel(L.st.heaps[ek], c.Sel(ps.entry, 0)), c.Add(c.Sel(ps.entry, 1), p))
			add("acc.prefix", c.Forall([]*Term{p}, c.Implies(c.And(c.Le(c.Int(0), p), c.Lt(p, len0)), c.Eq(S(p), e0))))
		}
	}
	// T4/T7/T8: array-like slots (map domain with values, element arrays, ghost sets)
	for _, s := range L.sortedSlots() {
		if s.cst == nil {
			continue
		}
		isDom := strings.HasPrefix(s.key, "MD:") && s.kind == "ref"
		isArr := strings.HasPrefix(s.key, "E:") && s.kind == "ref"
		isSet := s.kind == "heap" && (s.key == "NET" || s.key == "FS" || s.key == "REPLY")
		isBits := s.kind == "ref" && s.key == "C:github.com/bits-and-blooms/bitset.BitSet"
		if !isDom && !isArr && !isSet && !isBits {
			continue
		}
		ks, _ := arrSorts(s.cst.sort)
		var val *slot
		if isDom {
			for _, v := range L.slots {
				if v.kind == "ref" && v.key == "MV:"+s.key[3:] && v.ref == s.ref {
					val = v
				}
			}
		}
		type upd struct{ k, d, v *Term }
		ups := make([][]upd, len(bes))
		good := true
		for i, b := range bes {
			t := b.m[s.cst]
			var us []upd
			for t.op == OStore && t != s.cst {
				us = append(us, upd{k: t.args[1], d: t.args[2]})
				t = t.args[0]
			}
			if t != s.cst {
				good = false
				break
			}
			if val != nil {
				for x := range us {
					us[x].v = c.Select(b.m[val.cst], us[x].k)
				}
			}
			ups[i] = us
		}
		if !good {
			continue
		}
		x := c.BVar("x", ks)
		D, D0 := c.Select(s.cst, x), c.Select(s.entry, x)
		touched := ghost("t", ArrSort(ks, SBool), c.ConstArr(ks, c.False))
		ksrc := ghost("ks", ArrSort(ks, it.sort), nil)
		for i, b := range bes {
			tt, kk := touched, ksrc
			for j := len(ups[i]) - 1; j >= 0; j-- {
				tt = c.Store(tt, ups[i][j].k, c.True)
				kk = c.Store(kk, ups[i][j].k, b.it)
			}
			b.m[touched], b.m[ksrc] = tt, kk
		}
		same := c.Eq(D, D0)
		if val != nil {
			same = c.And(same, c.Implies(D, c.Eq(c.Select(val.cst, x), c.Select(val.entry, x))))
		}
		add("upd.frame", c.Forall([]*Term{x}, c.Implies(c.Not(c.Select(touched, x)), same)))
		if strings.Contains(s.cst.name, "E_3a__2a_") { // pointers: none of the stored ones is nil
			add("upd.nonnil", c.Forall([]*Term{x}, c.Implies(c.Select(touched, x), c.Not(c.Eq(D, c.Int(0))))))
		}
		if isDom || isSet || isBits {
			add("upd.grow", c.Forall([]*Term{x}, c.Implies(D0, D)))
			add("upd.shrink", c.Forall([]*Term{x}, c.Implies(D, D0)))
		}
		sx := c.Select(ksrc, x)
		// facts for touched keys
		var ds []*Term
		okAll := true
		for i, b := range bes {
			for _, up := range ups[i] {
				g := gen(up.k, b, q)
				var cs []*Term
				cs = append(cs, cond(b, sx))
				if clean(g) {
					cs = append(cs, c.Eq(x, c.Subst(g, map[*Term]*Term{q: sx})))
				}
				gd := gen(up.d, b, q)
				if clean(gd) {
					cs = append(cs, c.Eq(D, c.Subst(gd, map[*Term]*Term{q: sx})))
				}
				if up.v != nil {
					gv := gen(up.v, b, q)
					if clean(gv) {
						cs = append(cs, c.Eq(c.Select(val.cst, x), c.Subst(gv, map[*Term]*Term{q: sx})))
					}
				}
				ds = append(ds, c.And(cs...))
			}
		}
		_ = okAll
		add("upd.src", c.Forall([]*Term{x}, c.Implies(c.Select(touched, x), it.past(c, sx))))
		add("upd.what", c.Forall([]*Term{x}, c.Implies(c.Select(touched, x), c.Or(ds...))))
		// every past iteration did its update
		var es, vs []*Term
		single := true
		for i, b := range bes {
			cs := []*Term{cond(b, q)}
			csv := []*Term{cond(b, q)}
			for _, up := range ups[i] {
				g := gen(up.k, b, q)
				if !clean(g) {
					single = false
					continue
				}
				cs = append(cs, c.Select(touched, g))
				gd := gen(up.d, b, q)
				if clean(gd) {
					csv = append(csv, c.Eq(c.Select(s.cst, g), gd))
				}
				if up.v != nil {
					gv := gen(up.v, b, q)
					if clean(gv) {
						csv = append(csv, c.Eq(c.Select(val.cst, g), gv))
					}
				}
			}
			es = append(es, c.And(cs...))
			vs = append(vs, c.And(append(cs, csv...)...))
		}
		add("upd.cov", all(c.Implies(past, c.Or(es...))))
		add("upd.val", all(c.Implies(past, c.Or(vs...))))
		if isArr || isBits || isSet || isDom {
			var xs []*Term
			for i, b := range bes {
				cs := []*Term{cond(b, q)}
				for _, up := range ups[i] {
					g := gen(up.k, b, q)
					gd := gen(up.d, b, q)
					if clean(g) && clean(gd) {
						cs = append(cs, c.Eq(c.Select(s.cst, g), gd))
					}
				}
				xs = append(xs, c.And(cs...))
			}
			add("upd.dir", all(c.Implies(past, c.Or(xs...))))
		}
		// distinct keys
		if single && it.kind == "idx" && isDom {
			q2 := c.BVar("q", it.sort)
			for i, b := range bes {
				for _, up := range ups[i] {
					g := gen(up.k, b, q)
					if clean(g) && g.hasB && len(bes) == 1 {
						g2 := c.Subst(g, map[*Term]*Term{q: q2})
						add("distinct", c.Forall([]*Term{q, q2}, c.Implies(c.And(past, c.Lt(q, q2), c.Lt(q2, it.v)), c.Ne(g, g2))))
					}
				}
			}
		}
	}
	// cardinalities
	for _, s := range L.sortedSlots() {
		if s.kind == "ref" && strings.HasPrefix(s.key, "MC:") && s.cst != nil {
			if it.kind == "idx" {
				add("card", c.Eq(c.Sub(s.cst, s.entry), c.Sub(it.v, it.v0)))
				add("cardle", c.Le(c.Sub(s.cst, s.entry), c.Sub(it.v, it.v0)))
			}
			add("cardlo", c.Le(s.entry, s.cst))
			add("cardhi", c.Le(s.cst, s.entry))
		}
	}
	// T5/T6: scalars
	scal := func(cst, entry *Term) {
		if it.kind == "idx" && cst == it.v {
			return
		}
		tb := ghost("ch", SBool, c.False)
		w := ghost("w", it.sort, nil)
		var changedD, keepD []*Term
		nch := 0
		var keepC, incC []*Term
		isCount := cst.sort == SInt
		for _, b := range bes {
			v := b.m[cst]
			if v == cst {
				b.m[tb], b.m[w] = tb, w
				keepD = append(keepD, cond(b, q))
				keepC = append(keepC, cond(b, q))
				continue
			}
			nch++
			b.m[tb], b.m[w] = c.True, b.it
			cs := []*Term{cond(b, w)}
			g := gen(v, b, q)
			if clean(g) {
				cs = append(cs, c.Eq(cst, c.Subst(g, map[*Term]*Term{q: w})))
			}
			changedD = append(changedD, c.And(cs...))
			if isCount {
				d := c.Sub(v, cst)
				if d.op == OInt && d.ival == 1 {
					incC = append(incC, cond(b, q))
				} else {
					isCount = false
				}
			}
		}
		if nch == 0 {
			return
		}
		add("last.ch", c.Implies(tb, c.And(it.past(c, w), c.Or(changedD...))))
		add("last.src", c.Implies(tb, it.past(c, w)))
		add("last.keep", c.Implies(c.Not(tb), c.And(c.Eq(cst, entry), all(c.Implies(past, c.Or(keepD...))))))
		if isCount {
			add("cnt.zero", c.Implies(c.Eq(cst, entry), all(c.Implies(past, c.Or(keepC...)))))
			add("cnt.pos", c.Implies(tb, c.Lt(entry, cst)))
			add("cnt.neg", c.Implies(c.Not(tb), c.Eq(entry, cst)))
			if it.kind == "idx" {
				// an iteration that did not count, if there was one
				kb := ghost("kb", SBool, c.False)
				wk := ghost("wk", it.sort, nil)
				var kd []*Term
				for _, b := range bes {
					if b.m[cst] == cst {
						b.m[kb], b.m[wk] = c.True, b.it
						kd = append(kd, cond(b, wk))
					} else {
						b.m[kb], b.m[wk] = kb, wk
					}
				}
				add("cnt.kept", c.Implies(kb, c.And(it.past(c, wk), c.Or(kd...))))
				add("cnt.allcounted", c.Implies(c.Not(kb), c.Eq(c.Sub(cst, entry), c.Sub(it.v, it.v0))))
				add("cnt.notall", c.Implies(kb, c.Lt(c.Sub(cst, entry), c.Sub(it.v, it.v0))))
				add("cnt.full", c.Implies(c.Eq(c.Sub(cst, entry), c.Sub(it.v, it.v0)), all(c.Implies(past, c.Or(incC...)))))
			}
		} else if isLitTerm(entry) || entry == c.nilAny() {
			// value still the initial one => every past iteration either kept it or re-set it to it
			var ks []*Term
			for _, b := range bes {
				v := b.m[cst]
				if v == cst {
					ks = append(ks, cond(b, q))
					continue
				}
				e := c.Eq(v, entry)
				if e.op == OFalse {
					continue
				}
				g := gen(e, b, q)
				if clean(g) {
					ks = append(ks, c.And(cond(b, q), g))
				} else {
					ks = append(ks, cond(b, q))
				}
			}
			add("last.init", c.Implies(c.Eq(cst, entry), all(c.Implies(past, c.Or(ks...)))))
		}
	}
	for _, ps := range L.phis {
		if ps.cst == nil || ps.cst.sort == SSlice {
			continue
		}
		scal(ps.cst, ps.entry)
	}
	for _, s := range L.sortedSlots() {
		if s.cst == nil {
			continue
		}
		if s.kind == "fld" || s.kind == "ref" && strings.HasPrefix(s.key, "C:") {
			if !strings.HasPrefix(string(s.cst.sort), "(Array") && !L.deadSlot(s, bes) {
				scal(s.cst, s.entry)
			}
		}
	}
	return out
}

// deadSlot: a local that every iteration overwrites before reading and that only
// the loop's own blocks mention (a range variable whose address is taken)
func (L *loopCtx) deadSlot(s *slot, bes []*backEdge) bool {
	local := false
	for v, x := range L.fr.env {
		al, ok := v.(*ssa.Alloc)
		if !ok {
			continue
		}
		p, ok := x.(*Ptr)
		if !ok || p.ref != s.ref || p.heap != s.key {
			continue
		}
		for _, r := range *al.Referrers() {
			if !L.body[r.Block()] {
				return false
			}
		}
		local = true
	}
	if !local {
		return false
	}
	seen := map[*Term]bool{}
	var uses func(t *Term) bool
	uses = func(t *Term) bool {
		if t == s.cst {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if uses(a) {
				return true
			}
		}
		return false
	}
	for _, b := range bes {
		for _, t := range b.d {
			if uses(t) {
				return false
			}
		}
		for _, v := range b.m {
			if uses(v) {
				return false
			}
		}
	}
	return true
}

func (L *loopCtx) sortedSlots() []*slot {
	var r []*slot
	for _, s := range L.slots {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id() < r[j].id() })
	return r
}

// upper bounds n with  v < n  or v+1 < n ... appearing in a condition
func (L *loopCtx) bounds(t, v *Term, out map[*Term]bool) {
	c := L.u.c
	if t.op == OAnd {
		for _, a := range t.args {
			L.bounds(a, v, out)
		}
		return
	}
	neg := false
	if t.op == ONot {
		neg = true
		t = t.args[0]
	}
	if t.op != OLe {
		return
	}
	a, b := t.args[0], t.args[1]
	// a <= b ; neg: b < a
	if neg {
		a, b = b, a // b' < a' i.e. a < b
	}
	d := c.Sub(a, v)
	if d.op == OInt && b.maxts <= L.ts0 {
		out[b] = true
	}
}

func (L *loopCtx) userCands(it *iterV) []*cand {
	u := L.u
	var out []*cand
	if u.con == nil {
		return nil
	}
	// does the loop change anything the clause speaks about?
	slots := map[*Term]bool{}
	for _, s := range L.slots {
		slots[s.cst] = true
	}
	for _, ps := range L.phis {
		if ps.cst != nil {
			slots[ps.cst] = true
		}
	}
	touches := func(t, except *Term) bool {
		seen := map[*Term]bool{}
		var f func(t *Term) bool
		f = func(t *Term) bool {
			if seen[t] {
				return false
			}
			seen[t] = true
			if slots[t] && t != except {
				return true
			}
			for _, a := range t.args {
				if f(a) {
					return true
				}
			}
			return false
		}
		return f(t)
	}
	em := L.entryMap()
	for _, cl := range u.con.clauses {
		if !cl.applies(u.prop) || cl.expr == nil {
			continue
		}
		if cl.kind == "candidate" {
			// an invariant that may speak of the loop's variables and of the indices it is done with
			cl := cl
			hm := map[*Term]*Term{}
			for k := range em {
				hm[k] = k
			}
			atm := func(st *State, m map[*Term]*Term) (t *Term) {
				defer func() {
					if r := recover(); r != nil {
						switch r.(type) {
						case unsupported, specErr:
							t = u.c.False
							return
						}
						panic(r)
					}
				}()
				vars := u.con.bind(u, u.rootArgs)
				for _, ps := range L.phis {
					if ps.phi.Comment == "" || ps.phi.Comment == "rangeindex" {
						continue
					}
					v := ps.fixed
					if ps.cst != nil {
						v = m[ps.cst]
					}
					if v != nil {
						vars[ps.phi.Comment] = SVal{v, ps.phi.Type()}
					}
				}
				for v, x := range L.fr.env {
					al, ok := v.(*ssa.Alloc)
					if ok && (al.Comment == "complit" || al.Comment == "new") {
						// an unnamed object goes by its type
						if n, isN := types.Unalias(deref(al.Type())).(*types.Named); isN {
							if p, ok := x.(*Ptr); ok && p.ref != nil && p.idx == nil {
								vars["new_"+n.Obj().Name()] = SVal{p, al.Type()}
							}
						}
						continue
					}
					if !ok || al.Comment == "" || strings.ContainsAny(al.Comment, " .") {
						continue
					}
					if p, ok := x.(*Ptr); ok {
						if _, dup := vars[al.Comment]; !dup {
							vars[al.Comment] = SVal{u.load(st, p), deref(al.Type())}
						}
					}
				}
				e := &SEnv{u: u, st: st, old: u.entry, vars: vars}
				if it != nil {
					e.done = func(q *Term) *Term {
						c := u.c
						if it.kind == "idx" {
							if it.v0.op == OInt && it.v0.ival == -1 {
								return c.And(c.Le(c.Int(0), q), c.Le(q, m[it.v]))
							}
							return c.And(c.Le(it.v0, q), c.Lt(q, m[it.v]))
						}
						return c.Select(m[it.V], q)
					}
				}
				return u.evalBool(e, cl.expr)
			}
			ht := atm(L.head, hm)
			if ht.op == OFalse || ht.op == OTrue {
				continue
			}
			out = append(out, &cand{name: "user." + cl.name, t: ht, atm: atm})
			continue
		}
		if cl.kind == "ensures" && !mentionsResult(cl.expr, u.con) || cl.kind == "requires" {
			cl := cl
			at := func(st *State) (t *Term) {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); ok {
							t = u.c.False
							return
						}
						panic(r)
					}
				}()
				return u.evalBool(&SEnv{u: u, st: st, old: u.entry, vars: u.con.bind(u, u.rootArgs)}, cl.expr)
			}
			ht := at(L.head)
			if ht.op == OFalse || ht.op == OTrue || !touches(ht, nil) {
				continue
			}
			out = append(out, &cand{name: "user." + cl.name, t: ht, at: at})
		}
		// what a clause `implies(result, forall(i, int, ...))` promises of every
		// index holds so far of the indices the loop has been through
		if cl.kind == "ensures" && it != nil {
			call, ok := cl.expr.(*ast.CallExpr)
			if !ok {
				continue
			}
			id, ok := call.Fun.(*ast.Ident)
			if !ok {
				continue
			}
			var every ast.Expr
			switch {
			case id.Name == "forall" && !mentionsResult(call, u.con):
				every = call
			case id.Name == "implies" && len(call.Args) == 2 && !mentionsResult(call.Args[1], u.con) && mentionsResult(call.Args[0], u.con):
				every = call.Args[1]
			default:
				continue
			}
			for _, shift := range []int64{0, 1} {
				if it.kind == "map" && shift > 0 {
					continue
				}
				shift := shift
				atv := func(st *State, v *Term) (t *Term) {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupported); ok {
								t = u.c.False
								return
							}
							panic(r)
						}
					}()
					f := u.evalBool(&SEnv{u: u, st: st, old: u.entry, vars: u.con.bind(u, u.rootArgs)}, every)
					if f.op == OForall && it.kind == "map" && f.bnd[0].sort == it.sort && v.sort == it.V.sort {
						return u.c.Forall(f.bnd, u.c.Implies(u.c.Select(v, f.bnd[0]), f.args[0]))
					}
					if f.op != OForall || f.bnd[0].sort != SInt || it.kind != "idx" {
						return u.c.False
					}
					return u.c.Forall(f.bnd, u.c.Or(u.c.Le(u.c.Add(v, u.c.Int(shift)), f.bnd[0]), f.args[0]))
				}
				ht := atv(L.head, it.v)
				if ht.op == OFalse || ht.op == OTrue || !touches(ht, it.v) {
					continue
				}
				out = append(out, &cand{name: "sofar." + cl.name, t: ht, atv: atv, iv: it})
			}
		}
	}
	return out
}
