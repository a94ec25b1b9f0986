package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---------- lock typestate, guarded data ----------

type guardRef struct {
	g    *Guard
	lock string // key of the protecting lock
}

// lock state per key: 0 free, -1 write-held, n>0 read-held
func (u *Unit) lockOp(e *ECall, op string) []Outcome {
	p := e.ptr(0)
	st := e.st
	k := u.noteKey(p)
	var outs []Outcome
	if p.ref != nil && len(p.path) == 0 && p.idx == nil && p.heap[0] != 'G' {
		if !u.nonNil(st, p.ref, "nil lock", &outs) {
			return outs
		}
	}
	at := u.pos(e.fr, e.in)
	bad := func(msg string) {
		if u.checkLocks {
			u.oblige(st, "locks", u.c.False, msg+" at "+at)
		}
	}
	okk := func() {
		if u.checkLocks {
			u.oblige(st, "locks", u.c.True, "")
		}
	}
	n := st.locks[k]
	if u.checkLocks && (op == "lock" || op == "rlock") {
		for k2, n2 := range st.locks {
			if n2 != 0 && k2 != k {
				u.lockEdges[[2]string{lockName(u.lockField(u.lockPtrs[k2])), lockName(u.lockField(p))}] = at
			}
		}
		u.lockPtrs[k] = p
	}
	if u.checkLocks && (op == "lock" || op == "rlock") {
		u.mayAcquire(st, lockName(u.lockField(p)), "at "+at)
	}
	switch op {
	case "lock":
		if n != 0 {
			bad("lock acquired while already held (self-deadlock)")
			return append(outs, Outcome{kind: KExit, st: st, msg: "deadlock"})
		}
		okk()
		st.locks[k] = -1
		u.acquire(st, p, k)
	case "rlock":
		if n < 0 {
			bad("read lock acquired while write lock is held (self-deadlock)")
			return append(outs, Outcome{kind: KExit, st: st, msg: "deadlock"})
		}
		okk()
		st.locks[k] = n + 1
		if n == 0 {
			u.acquire(st, p, k)
		}
	case "unlock":
		if n != -1 {
			bad("unlock of a lock that is not write-held")
			return append(outs, u.panicOut(st, "unlock of unlocked mutex "+at))
		}
		okk()
		u.release(st, p, k, at)
		delete(st.locks, k)
	case "runlock":
		if n <= 0 {
			bad("read-unlock of a lock that is not read-held")
			return append(outs, u.panicOut(st, "runlock of unlocked mutex "+at))
		}
		okk()
		if n == 1 {
			delete(st.locks, k)
		} else {
			st.locks[k] = n - 1
		}
	}
	return append(outs, e.ret()...)
}

// a function that declares the locks it takes takes no other
func (u *Unit) mayAcquire(st *State, lock, what string) {
	if u.con == nil || u.detached > 0 {
		return
	}
	acq := u.con.of("acquires", u.prop)
	if len(acq) == 0 {
		return
	}
	for _, w := range acq[0].words {
		if w == lock {
			return
		}
	}
	u.oblige(st, "locks", u.c.False, "undeclared acquisition of "+lock+": "+what)
}

func (u *Unit) lockBalance(st *State, want map[string]int, what string) {
	if !u.checkLocks {
		return
	}
	ok := u.c.True
	msg := ""
	for k, n := range st.locks {
		if n != want[k] {
			ok = u.c.False
			msg = "lock " + k + " still held at the end of " + what
		}
	}
	for k, n := range want {
		if st.locks[k] != n {
			ok = u.c.False
			msg = "lock " + k + " released by " + what
		}
	}
	u.oblige(st, "locks", ok, msg)
}

func (u *Unit) lockLoop(st, head *State, k, fn string) {
	if u.checkLocks {
		save := u.dry
		u.dry = 0
		u.oblige(st, "locks", u.c.False, "a loop iteration in "+fn+" changes the state of lock "+k)
		u.dry = save
		return
	}
	// not the subject here: forget it
}

// the guards declared for the struct that contains lock pointer p
func (u *Unit) guardsOfLock(p *Ptr) ([]*Guard, *Ptr) {
	p = u.lockField(p)
	if len(p.path) == 0 {
		return nil, nil
	}
	last := p.path[len(p.path)-1]
	if last.idx != nil {
		return nil, nil
	}
	tn := shortType(types.Unalias(last.on))
	ln := last.on.Underlying().(*types.Struct).Field(last.field).Name()
	base := *p
	base.path = p.path[:len(p.path)-1]
	base.ptyp = last.on
	var gs []*Guard
	for _, g := range u.sp.guardOrder {
		if g.typ == tn && g.lock == ln {
			gs = append(gs, g)
		}
	}
	return gs, &base
}

// the struct field that holds the pointer to lock p, where the lock is not embedded
func (u *Unit) lockField(p *Ptr) *Ptr {
	if p != nil && len(p.path) == 0 && p.ref != nil {
		if f := u.lockOwner[p.ref.id]; f != nil {
			return f
		}
	}
	return p
}

func isLock(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// the lock designated by field pointer lp: the field itself, or what it points to
func (u *Unit) lockOf(st *State, lp *Ptr) *Ptr {
	if pt, ok := lp.ptyp.Underlying().(*types.Pointer); ok && isLock(pt.Elem()) {
		p2 := u.toPtr(u.load(st, lp), lp.ptyp)
		if p2.ref != nil {
			u.lockOwner[p2.ref.id] = lp
		}
		return p2
	}
	return lp
}

func fieldPtr(base *Ptr, name string) *Ptr {
	st := base.ptyp.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			np := *base
			np.path = append(base.path[:len(base.path):len(base.path)], pstep{field: i, on: base.ptyp})
			np.ptyp = st.Field(i).Type()
			return &np
		}
	}
	return nil
}

// guarded map value of a guard (through pointer-to-map fields as well)
func (u *Unit) guardedMap(st *State, g *Guard, base *Ptr) (*Term, *types.Map) {
	fp := fieldPtr(base, g.field)
	if fp == nil {
		return nil, nil
	}
	v := u.load(st, fp)
	t := fp.ptyp
	if _, ok := t.Underlying().(*types.Pointer); ok {
		p2 := u.toPtr(v, t)
		v = u.load(st, p2)
		t = p2.ptyp
	}
	mt, ok := t.Underlying().(*types.Map)
	if !ok {
		return nil, nil
	}
	return u.term(st, v, t), mt
}

// entering a critical section: other threads may have changed the guarded data
func (u *Unit) acquire(st *State, p *Ptr, k string) {
	if !u.conc {
		return
	}
	gs, base := u.guardsOfLock(p)
	if len(gs) == 0 {
		return
	}
	u.lockPtr[k] = p
	old := st.snaps[k]
	if old == nil {
		old = st.base
	}
	if old == nil {
		old = u.entry
	}
	for _, g := range gs {
		u.interfere(st, g, base, old)
	}
	u.snap(st, k)
}

func (u *Unit) snap(st *State, k string) {
	if st.snaps == nil {
		st.snaps = map[string]*State{}
	}
	s := st.clone()
	s.snaps, s.base = nil, nil
	st.snaps[k] = s
}

// the guarded data as any number of steps of other threads leave it
func (u *Unit) interfere(st *State, g *Guard, base *Ptr, old *State) {
	c := u.c
	if g.swap {
		// the map itself may have been replaced by a new one
		fp := fieldPtr(base, g.field)
		if fp == nil {
			return
		}
		r0 := u.term(old, u.load(old, fp), fp.ptyp)
		r := c.Fresh("swap."+g.field, SInt)
		st.assume(c.Le(r0, old.top))
		nt := c.Fresh("top", SInt)
		st.assume(c.Le(st.top, nt))
		// (numbered above everything this thread knows)
		st.assume(c.Or(c.Eq(r, r0), c.And(c.Lt(st.top, r), c.Le(r, nt))))
		st.top = nt
		u.store(st, fp, r)
	}
	ref, mt := u.guardedMap(st, g, base)
	if ref == nil {
		return
	}
	st.assume(u.distinctMaps(st, g, base, ref, mt))
	u.havocMap(st, mt, ref)
	u.assumeGuard(st, g, base, ref, mt, old)
	if u.entry != old {
		u.assumeGuard(st, g, base, ref, mt, u.entry)
	}
}

// the guarded maps of one object are different maps
func (u *Unit) distinctMaps(st *State, g *Guard, base *Ptr, ref *Term, mt *types.Map) *Term {
	c := u.c
	r := c.True
	for _, o := range u.sp.guardOrder {
		if o.typ != g.typ || o.field == g.field {
			continue
		}
		oref, omt := u.guardedMap(st, o, base)
		if oref != nil && types.Identical(omt, mt) {
			r = c.And(r, c.Not(c.Eq(ref, oref)))
		}
	}
	return r
}

func (u *Unit) assumeGuard(st *State, g *Guard, base *Ptr, ref *Term, mt *types.Map, old *State) {
	c := u.c
	same := c.True
	if g.swap {
		if oref, _ := u.guardedMap(old.clone(), g, base); oref != nil {
			same = c.Eq(ref, oref)
		}
	}
	env := &SEnv{u: u, st: st, old: old, vars: map[string]SVal{"m": {ref, mt}}}
	for _, cl := range g.inv {
		if cl.applies(u.prop) {
			st.assume(u.evalBool(env, cl.expr))
		}
	}
	for _, cl := range g.guar {
		if cl.applies(u.prop) {
			st.assume(c.Implies(same, u.evalBool(env, cl.expr)))
		}
	}
}

// after a call: the callee and other threads followed the guarantees
func (u *Unit) afterCall(st *State) {
	if !u.conc {
		return
	}
	keys := make([]string, 0, len(st.snaps))
	for k := range st.snaps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if st.locks[k] != 0 {
			continue
		}
		gs, base := u.guardsOfLock(u.lockPtr[k])
		for _, g := range gs {
			if ref, mt := u.guardedMap(st, g, base); ref != nil {
				if g.swap {
					sn := st.snaps[k]
					if oref, _ := u.guardedMap(sn.clone(), g, base); oref != nil {
						st.assume(u.c.Or(u.c.Eq(ref, oref), u.c.Lt(sn.top, ref)))
					}
				}
				st.assume(u.distinctMaps(st, g, base, ref, mt))
				u.assumeGuard(st, g, base, ref, mt, st.snaps[k])
			}
		}
		u.snap(st, k)
	}
	b := st.clone()
	b.snaps, b.base = nil, nil
	st.base = b
}

func (u *Unit) release(st *State, p *Ptr, k, at string) {
	if !u.conc {
		return
	}
	gs, base := u.guardsOfLock(p)
	old := st.snaps[k]
	if old == nil {
		return
	}
	for _, g := range gs {
		ref, mt := u.guardedMap(st, g, base)
		if ref == nil {
			continue
		}
		if g.swap && u.con.swaps {
			u.oblige(st, "release "+g.typ+"."+g.field+" not shared", u.distinctMaps(st, g, base, ref, mt), "unlock at "+at)
		}
		if !g.swap || !u.con.swaps {
			if oref, _ := u.guardedMap(old.clone(), g, base); oref != nil {
				u.oblige(st, "release "+g.typ+"."+g.field+" not replaced", u.c.Eq(ref, oref), "unlock at "+at)
			}
		}
		env := &SEnv{u: u, st: st, old: old, vars: map[string]SVal{"m": {ref, mt}}}
		for _, cl := range g.inv {
			if cl.applies(u.prop) {
				u.oblige(st, "release "+g.typ+"."+g.field+" invariant "+cl.name, u.evalBool(env, cl.expr), "unlock at "+at)
			}
		}
		for _, cl := range g.obl {
			if cl.applies(u.prop) {
				u.oblige(st, "release "+g.typ+"."+g.field+" "+cl.name, u.evalBool(env, cl.expr), "unlock at "+at)
			}
		}
		if g.swap && u.con.swaps {
			continue
		}
		for _, cl := range g.guar {
			if cl.applies(u.prop) {
				u.oblige(st, "release "+g.typ+"."+g.field+" guarantee "+cl.name, u.evalBool(env, cl.expr), "unlock at "+at)
			}
		}
	}
	u.snap(st, k)
}

// called on loads/stores through p: remember which lock guards a loaded map,
// and check direct accesses of guarded fields
func (u *Unit) checkGuard(st *State, p *Ptr, write bool, at string) {
	if len(p.path) == 0 {
		// the data behind a guarded pointer
		if p.ref != nil && write && (u.checkLocks || u.conc) {
			if gr := u.guardOf[p.ref.id]; gr != nil {
				u.needLock(st, gr.g, gr.lock, write, at)
			}
		}
		return
	}
	last := p.path[len(p.path)-1]
	if last.idx != nil {
		return
	}
	stt, ok := last.on.Underlying().(*types.Struct)
	if !ok {
		return
	}
	if tn := shortType(types.Unalias(last.on)); write && (u.sp.immut[tn+"."+stt.Field(last.field).Name()] || u.sp.immut[tn+".*"]) && p.ref != nil && !isAlloc(p.ref) && p.heap[0] != 'G' {
		u.oblige(st, "immutable "+tn+"."+stt.Field(last.field).Name(), u.c.False, "written at "+at)
	}
	if !u.checkLocks && !u.conc {
		return
	}
	u.lockOf(st, p)
	g := u.sp.guards[shortType(types.Unalias(last.on))+"."+stt.Field(last.field).Name()]
	if g == nil {
		return
	}
	base := *p
	base.path = p.path[:len(p.path)-1]
	base.ptyp = last.on
	lp := fieldPtr(&base, g.lock)
	if lp == nil {
		u.oblige(st, "guard "+g.typ+"."+g.field, u.c.False, "lock field "+g.lock+" does not exist")
		return
	}
	if lp.ref != nil && isAlloc(lp.ref) {
		return // not yet shared
	}
	key := u.noteKey(u.lockOf(st, lp))
	switch p.ptyp.Underlying().(type) {
	case *types.Map, *types.Pointer:
		v, ok := u.load(st, p).(*Term)
		if ok {
			u.guardOf[v.id] = &guardRef{g: g, lock: key}
			if pt, isP := p.ptyp.Underlying().(*types.Pointer); isP {
				if _, isM := pt.Elem().Underlying().(*types.Map); isM {
					p2 := u.toPtr(v, p.ptyp)
					if m, ok := u.load(st, p2).(*Term); ok {
						u.guardOf[m.id] = &guardRef{g: g, lock: key}
					}
				}
			}
		}
		if write || g.swap {
			u.needLock(st, g, key, write, at)
		}
	default:
		u.needLock(st, g, key, write, at)
	}
}

func (u *Unit) needLock(st *State, g *Guard, key string, write bool, at string) {
	n := st.locks[key]
	ok := n == -1 || !write && n > 0
	if p, isA := u.localOwner(key); isA {
		_ = p
		ok = true
	}
	kind := "read"
	if write {
		kind = "write"
	}
	u.oblige(st, "guard "+g.typ+"."+g.field, u.c.Bool(ok), kind+" access without "+g.lock+" at "+at)
}

// objects allocated by the function itself are not yet shared
func (u *Unit) localOwner(key string) (string, bool) {
	i := strings.Index(key, "@")
	if i < 0 {
		return "", false
	}
	var id int
	fmt.Sscanf(key[i+1:], "%d", &id)
	for _, t := range u.c.varOrd {
		if t.id == id {
			return "", isAlloc(t)
		}
	}
	return "", false
}

func (u *Unit) checkMapGuard(st *State, mt *types.Map, ref *Term, write bool, at string) {
	if !u.checkLocks && !u.conc {
		return
	}
	gr := u.guardOf[ref.id]
	if gr == nil {
		return
	}
	u.needLock(st, gr.g, gr.lock, write, at)
}

// after havoc: fields declared immutable keep their entry values
func (u *Unit) keepImmutable(st *State) {
	for k, h := range st.heaps {
		base := h
		for base.op == OStore {
			base = base.args[0]
		}
		u.immutHeap(k, base)
	}
}

func (u *Unit) immutHeap(k string, base *Term) {
	c := u.c
	ty := u.cellTypes[k]
	if ty == nil || u.entry == nil || k[0] != 'C' {
		return
	}
	s, ok := ty.Underlying().(*types.Struct)
	if !ok {
		return
	}
	h0, ok := u.entry.heaps[k]
	if !ok {
		h0 = c.Const("H0."+k, base.sort)
	}
	if base == h0 || c.immut[base] != nil {
		return
	}
	for f := 0; f < s.NumFields(); f++ {
		n := s.Field(f).Name()
		if u.sp.immut[k[2:]+"."+n] || u.sp.immut[k[2:]+".*"] {
			if c.immut == nil {
				c.immut = map[*Term]*immutHeap{}
			}
			im := c.immut[base]
			if im == nil {
				im = &immutHeap{h0: h0, fields: map[string]bool{}, idx: map[int]bool{}}
				c.immut[base] = im
			}
			im.fields[n] = true
			im.idx[f] = true
		}
	}
}

// the field of a lock, e.g. gossiper.Gossip_object_storage.STH_INIT_LOCK
func lockName(p *Ptr) string {
	if p == nil || len(p.path) == 0 {
		return ""
	}
	last := p.path[len(p.path)-1]
	if last.idx != nil {
		return ""
	}
	return shortType(types.Unalias(last.on)) + "." + last.on.Underlying().(*types.Struct).Field(last.field).Name()
}

// lockOrder adds an obligation: the order in which locks are nested has no cycle
func lockOrder(results []*UnitResult) {
	next := map[string]map[string]string{}
	var first *UnitResult
	for _, r := range results {
		for e, at := range r.LockEdges {
			if e[0] == "" || e[1] == "" {
				continue
			}
			if next[e[0]] == nil {
				next[e[0]] = map[string]string{}
			}
			next[e[0]][e[1]] = at
			if first == nil || r.Fn < first.Fn {
				first = r
			}
		}
	}
	if first == nil {
		return
	}
	o := &Obligation{Fn: "-", Name: "lock order", Status: "discharged", Backend: "simplifier", Count: 1}
	state := map[string]int{}
	var path []string
	var dfs func(n string) bool
	dfs = func(n string) bool {
		state[n] = 1
		path = append(path, n)
		for _, m := range sortedKeys(next[n]) {
			if state[m] == 1 || state[m] == 0 && dfs(m) {
				if state[m] == 1 && o.Status == "discharged" {
					o.Status = "failed"
					o.Detail = "locks are nested in a cycle: " + strings.Join(append(path, m), " -> ") + " (" + next[n][m] + ")"
				}
				return true
			}
		}
		state[n] = 2
		path = path[:len(path)-1]
		return false
	}
	var ns []string
	for n := range next {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if state[n] == 0 && dfs(n) {
			break
		}
	}
	first.Obls = append(first.Obls, o)
}

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
