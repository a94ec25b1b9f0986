package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- values ----------

type Val interface{}

type Ptr struct {
	heap string
	ref  *Term
	idx  *Term // element index within E heap (nil for cell heaps)
	typ  types.Type
	path []pstep
	ptyp types.Type
	arr  bool // pointer to a whole array living in an E heap (ptyp is the array type)
}

type pstep struct {
	field int
	idx   *Term
	on    types.Type
}

type Clo struct {
	fn    *ssa.Function
	binds []Val
}

type IfaceV struct {
	typ types.Type
	v   Val
}

type Tuple []Val

type MapIter struct {
	key  string // ghost heap key of visited set
	ref  *Term
	mt   *types.Map
	dom0 *Term
}

type BoundMethod struct { // method value on external receiver
	name string
	recv Val
}

// ---------- state ----------

type State struct {
	heaps  map[string]*Term
	pc     []*Term
	top    *Term
	locks  map[string]int
	nonnil map[int]bool
	trace  []string
	notes  map[string]Val
	snaps  map[string]*State
	base   *State
	epoch  int
}

func (s *State) clone() *State {
	n := &State{heaps: make(map[string]*Term, len(s.heaps)), pc: s.pc[:len(s.pc):len(s.pc)], top: s.top, locks: make(map[string]int, len(s.locks)), nonnil: s.nonnil, trace: s.trace[:len(s.trace):len(s.trace)], epoch: s.epoch, base: s.base}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.nonnil = make(map[int]bool, len(s.nonnil))
	for k, v := range s.nonnil {
		n.nonnil[k] = v
	}
	if s.snaps != nil {
		n.snaps = make(map[string]*State, len(s.snaps))
		for k, v := range s.snaps {
			n.snaps[k] = v
		}
	}
	if s.notes != nil {
		n.notes = make(map[string]Val, len(s.notes))
		for k, v := range s.notes {
			n.notes[k] = v
		}
	}
	return n
}

func (s *State) assume(t *Term) {
	if t.op == OTrue {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pc = append(s.pc, t)
}

type OutKind int

const (
	KReturn OutKind = iota
	KPanic
	KExit
	KBack // loop back edge
)

type Outcome struct {
	kind OutKind
	st   *State
	rets []Val
	msg  string
	fr   *Frame
	pred *ssa.BasicBlock
	cond *Term
	hdr  *ssa.BasicBlock
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	instr ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	depth  int
	loop   *loopRun // innermost loop being analysed in this frame
	unroll map[*ssa.BasicBlock]int
	seq    map[ssa.Instruction]int
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)+8), defers: f.defers[:len(f.defers):len(f.defers)], depth: f.depth, loop: f.loop}
	for k, v := range f.env {
		n.env[k] = v
	}
	if f.unroll != nil {
		n.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			n.unroll[k] = v
		}
	}
	return n
}

type loopRun struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	dry    bool
	parent *loopRun
}

// ---------- unit ----------

type Obligation struct {
	Name    string
	Fn      string
	Status  string // discharged / failed / unsupported
	Backend string
	Millis  int64
	Detail  string
	Reach   bool
	Count   int
}

type Unit struct {
	deep   bool
	wide   bool
	fileOf map[*Term]*Term // file handle -> path
	gzdst  map[*Term]*Term // gzip writer -> the buffer it writes to

	P          *Program
	c          *Ctx
	sv         *Solver
	sv2        *Solver
	sp         *Specs
	fn         *ssa.Function
	con        *Contract
	prop       string
	obls       map[string]*Obligation
	oblOrd     []string
	dry        int
	unsup      map[string]bool
	used       map[string]bool
	inlined    map[string]bool
	stack      []string
	entry      *State
	steps      int
	paths      int
	conc       bool
	checkLocks bool
	loops      map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	rootArgs   []Val
	nowPeriod  *Term
	loopInfo   []string
	backends   map[string]int
	detached   int
	pushN      int
	boxedN     int
	entryLocks map[string]int
	havocBase  map[*Term]*havocInfo
	loopDepth  int
	idxTerms   []*Term
	guardOf    map[int]*guardRef
	lockPtr    map[string]*Ptr
	stopAtIf   *ssa.BasicBlock
	exitNote   []string
	ghostEntry map[*Term]*Term
	cellTypes  map[string]types.Type
	pureDone   map[string]bool
	lockEdges  map[[2]string]string
	lockPtrs   map[string]*Ptr
	lockOwner  map[int]*Ptr // by the id of a pointer to a lock: the field it was loaded from
	loopsDone  int
	loopInvs   int
	epochs     int
	deadline   time.Time
	seqSeen    map[*Term]bool
	seqs       map[Sort][]*Term
	setSeen    map[*Term]bool
	jsonTmpl   [][2]*Term
	seqofVar   *Term
	seqofMemo  map[*Term]*Term
}

type havocInfo struct{ base, top *Term }

type unsupported struct{ msg string }

func (u *Unit) fail(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func (u *Unit) note(format string, a ...interface{}) {
	u.unsup[fmt.Sprintf(format, a...)] = true
}

var debug = os.Getenv("GOVER_DEBUG") != ""

func dbg(format string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

// feasibility
func (u *Unit) feasible(st *State, extra *Term) bool {
	if extra != nil && extra.op == OFalse {
		return false
	}
	if extra != nil && extra.op == OTrue {
		return true
	}
	conj := st.pc
	if extra != nil {
		conj = append(conj[:len(conj):len(conj)], extra)
	}
	r := u.sv.Check(conj, 1000, false)
	return r != "unsat"
}

// valid: pc |= g  (quick attempt)
func (u *Unit) valid(st *State, g *Term, ms int) bool {
	if g.op == OTrue {
		return true
	}
	conj := append(st.pc[:len(st.pc):len(st.pc)], u.c.Not(g))
	return u.sv.Check(conj, ms, false) == "unsat"
}

// prove with all back ends
func (u *Unit) prove(st *State, g *Term) (bool, string) {
	if g.op == OTrue {
		return true, "simplifier"
	}
	if g.op == OAnd {
		be := "simplifier"
		for _, a := range g.args {
			ok, b := u.prove(st, a)
			if !ok {
				return false, b
			}
			be = b
		}
		return true, be
	}
	return u.entails(st.pc, g, u.idxTerms, u.dry > 0)
}

func z3bin() string {
	if b := os.Getenv("GOVER_Z3"); b != "" {
		return b
	}
	return "z3-new"
}

// record an obligation
func (u *Unit) oblige(st *State, name string, g *Term, detail string) bool {
	if u.dry > 0 {
		return true
	}
	o := u.obls[name]
	if o == nil {
		o = &Obligation{Name: name, Fn: fnName(u.fn), Status: "discharged"}
		u.obls[name] = o
		u.oblOrd = append(u.oblOrd, name)
	}
	o.Count++
	if o.Status == "failed" {
		return false
	}
	ok, be := u.prove(st, g)
	u.backends[be]++
	o.Backend = be
	if !ok {
		o.Status = "failed"
		o.Detail = detail + " | goal: " + u.c.Show(g) + " | solver: " + be + " | path: " + strings.Join(st.trace, " > ")
		if debug {
			dbg("FAILED %s: %s", name, o.Detail)
			for _, p := range st.pc {
				dbg("   pc %s", u.c.Show(p))
			}
		}
	}
	return ok
}

func (u *Unit) unsupportedObl(name, detail string) {
	o := u.obls[name]
	if o == nil {
		o = &Obligation{Name: name, Fn: fnName(u.fn)}
		u.obls[name] = o
		u.oblOrd = append(u.oblOrd, name)
	}
	o.Status = "unsupported"
	o.Detail = detail
}

// ---------- heaps ----------

func (u *Unit) heap(st *State, k string, s Sort) *Term {
	if h, ok := st.heaps[k]; ok {
		return h
	}
	if strings.HasPrefix(k, "GC:") { // no call recorded yet
		h := u.c.ConstArr(SInt, u.c.False)
		st.heaps[k] = h
		return h
	}
	h := u.c.Const(fmt.Sprintf("H%d.%s", st.epoch, k), s)
	st.heaps[k] = h
	if st.epoch > 0 {
		u.immutHeap(k, h)
		return h
	}
	if u.entry != nil {
		if _, ok := u.entry.heaps[k]; !ok {
			u.entry.heaps[k] = h
		}
	}
	return h
}

func cellKey(t types.Type) string { return "C:" + shortType(types.Unalias(t)) }
func elemKey(t types.Type) string { return "E:" + shortType(types.Unalias(t)) }
func mapKey(t *types.Map) string  { return shortType(t.Underlying()) }

func (u *Unit) cellHeap(st *State, t types.Type) (string, *Term) {
	k := cellKey(t)
	if u.cellTypes[k] == nil {
		u.cellTypes[k] = t
	}
	return k, u.heap(st, k, ArrSort(SInt, u.c.SortOf(t)))
}
func (u *Unit) elemHeap(st *State, t types.Type) (string, *Term) {
	k := elemKey(t)
	return k, u.heap(st, k, ArrSort(SInt, ArrSort(SInt, u.c.SortOf(t))))
}

func (u *Unit) mapDomH(st *State, m *types.Map) (string, *Term) {
	k := "MD:" + mapKey(m)
	return k, u.heap(st, k, ArrSort(SInt, ArrSort(u.c.SortOf(m.Key()), SBool)))
}
func (u *Unit) mapValH(st *State, m *types.Map) (string, *Term) {
	k := "MV:" + mapKey(m)
	return k, u.heap(st, k, ArrSort(SInt, ArrSort(u.c.SortOf(m.Key()), u.c.SortOf(m.Elem()))))
}
func (u *Unit) mapCardH(st *State, m *types.Map) (string, *Term) {
	k := "MC:" + mapKey(m)
	return k, u.heap(st, k, ArrSort(SInt, SInt))
}

// Select on a heap with knowledge of havoc frames
func (u *Unit) hsel(h, ref *Term) *Term {
	r := u.c.Select(h, ref)
	for r.op == OSelect && r.args[0].op == OVar {
		hi, ok := u.havocBase[r.args[0]]
		if !ok || ref.hasB || ref.maxts >= r.args[0].maxts {
			break
		}
		r = u.c.Select(hi.base, ref)
	}
	return r
}

func (u *Unit) mapDom(st *State, m *types.Map, ref *Term) *Term {
	_, h := u.mapDomH(st, m)
	if ref.op == OInt && ref.ival == 0 {
		return u.c.ConstArr(u.c.SortOf(m.Key()), u.c.False)
	}
	return u.hsel(h, ref)
}
func (u *Unit) mapVal(st *State, m *types.Map, ref *Term) *Term {
	_, h := u.mapValH(st, m)
	return u.hsel(h, ref)
}

// nil map (ref 0) must look empty
func (u *Unit) mapNilFact(st *State, m *types.Map, ref *Term) {
	if isAlloc(ref) || st.nonnil[ref.id] {
		return
	}
	c := u.c
	d := u.mapDom(st, m, ref)
	if d.op == OConstArr {
		return
	}
	st.assume(c.Implies(c.Eq(ref, c.Int(0)), c.Eq(d, c.ConstArr(c.SortOf(m.Key()), c.False))))
}

func (u *Unit) alloc(st *State) *Term {
	a := u.c.Fresh("alloc", SInt)
	st.assume(u.c.Lt(st.top, a))
	st.top = a
	st.nonnil[a.id] = true
	return a
}

// facts about a reference loaded from memory
func (u *Unit) refFacts(st *State, v *Term, t types.Type) {
	c := u.c
	if v.hasB {
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		if isAlloc(v) || v.op == OInt {
			return
		}
		k := -v.id
		if st.nonnil[k] {
			return
		}
		st.nonnil[k] = true
		st.assume(c.Le(c.Int(0), v))
		st.assume(c.Le(v, u.topFor(st, v)))
	case *types.Slice:
		if v.op == OCtor {
			return
		}
		k := -v.id
		if st.nonnil[k] {
			return
		}
		st.nonnil[k] = true
		st.assume(u.sliceWF(v))
		st.assume(c.Le(c.Sel(v, 0), u.topFor(st, v)))
	}
}

// topFor: a reference read from the memory as it was on entry was allocated
// before the call
func (u *Unit) topFor(st *State, v *Term) *Term {
	t := v
	for t.op == OSelect || t.op == OSel {
		t = t.args[0]
	}
	if u.entry != nil && t.op == OVar && strings.HasPrefix(t.name, "H0.") && t != v {
		return u.entry.top
	}
	return st.top
}

func (u *Unit) sliceWF(v *Term) *Term {
	c := u.c
	ref, off, l, cp := c.Sel(v, 0), c.Sel(v, 1), c.Sel(v, 2), c.Sel(v, 3)
	return c.And(c.Le(c.Int(0), ref), c.Le(c.Int(0), off), c.Le(c.Int(0), l), c.Le(l, cp),
		c.Implies(c.Eq(ref, c.Int(0)), c.Eq(l, c.Int(0))))
}

// ---------- pointers ----------

func (u *Unit) toPtr(v Val, t types.Type) *Ptr {
	switch p := v.(type) {
	case *Ptr:
		return p
	case *Term:
		el := deref(t)
		return &Ptr{heap: cellKey(el), ref: p, typ: el, ptyp: el}
	}
	u.fail("toPtr of %T", v)
	return nil
}

func (u *Unit) root(st *State, p *Ptr) *Term {
	if p.idx != nil {
		_, h := u.elemHeap(st, p.typ)
		return u.c.Select(u.hsel(h, p.ref), p.idx)
	}
	if p.heap[0] == 'G' {
		return u.heap(st, p.heap, u.c.SortOf(p.typ))
	}
	_, h := u.cellHeap(st, p.typ)
	return u.hsel(h, p.ref)
}

func (u *Unit) getPath(v *Term, path []pstep) *Term {
	for _, s := range path {
		if s.idx == nil {
			v = u.c.Field(v, s.on, s.field)
		} else {
			v = u.arrGet(v, s.on, s.idx)
		}
	}
	return v
}

func (u *Unit) arrGet(v *Term, on types.Type, idx *Term) *Term {
	at := on.Underlying().(*types.Array)
	if at.Len() <= 8 {
		if idx.op == OInt {
			if idx.ival < 0 || idx.ival >= at.Len() {
				u.fail("array index out of range")
			}
			return u.c.Sel(v, int(idx.ival))
		}
		r := u.c.Sel(v, int(at.Len()-1))
		for i := at.Len() - 2; i >= 0; i-- {
			r = u.c.Ite(u.c.Eq(idx, u.c.Int(i)), u.c.Sel(v, int(i)), r)
		}
		return r
	}
	return u.c.Select(v, idx)
}

func (u *Unit) arrSet(v *Term, on types.Type, idx, x *Term) *Term {
	at := on.Underlying().(*types.Array)
	if at.Len() <= 8 {
		if idx.op == OInt {
			return u.c.UpdSel(v, int(idx.ival), x)
		}
		var as []*Term
		for i := int64(0); i < at.Len(); i++ {
			as = append(as, u.c.Ite(u.c.Eq(idx, u.c.Int(i)), x, u.c.Sel(v, int(i))))
		}
		return u.c.Ctor(v.sort, as...)
	}
	return u.c.Store(v, idx, x)
}

func (u *Unit) setPath(v *Term, path []pstep, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	s := path[0]
	if s.idx == nil {
		in := u.c.Field(v, s.on, s.field)
		return u.c.SetField(v, s.on, s.field, u.setPath(in, path[1:], x))
	}
	in := u.arrGet(v, s.on, s.idx)
	return u.arrSet(v, s.on, s.idx, u.setPath(in, path[1:], x))
}

func (u *Unit) load(st *State, p *Ptr) Val {
	c := u.c
	if p.arr {
		at := p.ptyp.Underlying().(*types.Array)
		_, h := u.elemHeap(st, at.Elem())
		arr := u.hsel(h, p.ref)
		if at.Len() <= 8 {
			var as []*Term
			for i := int64(0); i < at.Len(); i++ {
				as = append(as, c.Select(arr, c.Int(i)))
			}
			return c.Ctor(c.SortOf(p.ptyp), as...)
		}
		return arr
	}
	// Go-side values (closures, interior pointers) kept in local cells
	if len(p.path) == 0 {
		if v, ok := st.notes[u.noteKey(p)]; ok {
			return v
		}
	}
	v := u.getPath(u.root(st, p), p.path)
	u.refFacts(st, v, p.ptyp)
	return v
}

func (u *Unit) noteKey(p *Ptr) string {
	k := fmt.Sprintf("%s@%d", p.heap, p.ref.id)
	if p.idx != nil {
		k += fmt.Sprintf("[%d]", p.idx.id)
	}
	for _, s := range p.path {
		k += fmt.Sprintf(".%d", s.field)
		if s.idx != nil {
			k += fmt.Sprintf("[%d]", s.idx.id)
		}
	}
	return k
}

func (u *Unit) store(st *State, p *Ptr, v Val) {
	c := u.c
	if p.arr {
		at := p.ptyp.Underlying().(*types.Array)
		k, h := u.elemHeap(st, at.Elem())
		t := u.term(st, v, p.ptyp)
		var arr *Term
		if at.Len() <= 8 {
			arr = u.hsel(h, p.ref)
			for i := int64(0); i < at.Len(); i++ {
				arr = c.Store(arr, c.Int(i), c.Sel(t, int(i)))
			}
		} else {
			arr = t
		}
		st.heaps[k] = c.Store(h, p.ref, arr)
		return
	}
	goSide := false
	switch x := v.(type) {
	case *Clo, *BoundMethod, *MapIter:
		goSide = true
	case *Ptr:
		if len(x.path) > 0 || x.idx != nil || x.arr || x.heap[0] == 'G' {
			goSide = true
		}
	case *IfaceV:
		// keep concrete dynamic type when stored in local memory
		if isAlloc(p.ref) || p.idx != nil {
			goSide = true
		}
	}
	nk := ""
	if st.notes != nil || goSide {
		nk = u.noteKey(p)
	}
	if goSide {
		if st.notes == nil {
			st.notes = map[string]Val{}
		}
		st.notes[nk] = v
	} else if st.notes != nil {
		delete(st.notes, nk)
	}
	t := u.term(st, v, p.ptyp)
	nv := u.setPath(u.root(st, p), p.path, t)
	if p.idx != nil {
		k, h := u.elemHeap(st, p.typ)
		st.heaps[k] = c.Store(h, p.ref, c.Store(u.hsel(h, p.ref), p.idx, nv))
		return
	}
	if p.heap[0] == 'G' {
		st.heaps[p.heap] = nv
		return
	}
	k, h := u.cellHeap(st, p.typ)
	st.heaps[k] = c.Store(h, p.ref, nv)
}

// convert a value to an SMT term
func (u *Unit) term(st *State, v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Ptr:
		if x.heap != "" && x.heap[0] != 'G' && len(x.path) == 0 && x.idx == nil && !x.arr {
			return x.ref
		}
		// interior pointer: opaque non-nil address
		nm := "addr." + x.heap
		args := []*Term{x.ref}
		if x.ref == nil {
			args = []*Term{u.c.Int(0)}
		}
		if x.idx != nil {
			args = append(args, x.idx)
		}
		for _, s := range x.path {
			nm += fmt.Sprintf(".%d", s.field)
			if s.idx != nil {
				args = append(args, s.idx)
			}
		}
		r := u.c.App(nm, SInt, args...)
		st.assume(u.c.Ne(r, u.c.Int(0)))
		return r
	case *IfaceV:
		return u.c.Box(x.typ, u.term(st, x.v, x.typ))
	case *Clo:
		r := u.c.Const("fn."+fnName(x.fn), SInt)
		u.c.axiom(u.c.Ne(r, u.c.Int(0)))
		return r
	case *BoundMethod:
		return u.c.Const("fn."+x.name, SInt)
	case nil:
		return u.c.Zero(t)
	}
	u.fail("term of %T", v)
	return nil
}

// ---------- byte strings ----------

func (u *Unit) bytesContent(st *State, s *Term) *Term {
	c := u.c
	_, h := u.elemHeap(st, types.Typ[types.Byte])
	// a choice between two byte slices: the content is the choice of the contents
	if r0 := c.Sel(s, 0); r0.op == OIte {
		pick := func(k int) *Term {
			var as []*Term
			for i := 0; i < 4; i++ {
				x := c.Sel(s, i)
				if x.op == OIte && x.args[0] == r0.args[0] {
					x = x.args[k]
				}
				as = append(as, x)
			}
			return c.Ctor(SSlice, as...)
		}
		return c.Ite(r0.args[0], u.bytesContent(st, pick(1)), u.bytesContent(st, pick(2)))
	}
	arr := u.hsel(h, c.Sel(s, 0))
	return u.b2s(arr, c.Sel(s, 1), c.Sel(s, 2))
}

func (u *Unit) b2s(arr, off, l *Term) *Term {
	c := u.c
	if arr.op == OApp && arr.name == "s2a" && off.op == OInt && off.ival == 0 && (l == c.StrLen(arr.args[0]) || l.op == OInt && l.ival == hashLen(arr.args[0])) {
		return arr.args[0]
	}
	if l.op == OInt && l.ival == 0 {
		return c.Lit("")
	}
	r := c.App("b2s", SStr, arr, off, l)
	if !r.hasB {
		c.axiom(c.Implies(c.Eq(l, c.Int(0)), c.Eq(r, c.Lit(""))))
		c.axiom(c.Implies(c.Le(c.Int(0), l), c.Eq(c.StrLen(r), l)))
		if arr.op == OSelect || arr.op == OVar || arr.op == OApp {
			// content of a converted string
		}
	}
	return r
}

// digest length of a hash term (0: not a hash of known size)
func hashLen(t *Term) int64 {
	if t.op == OApp && t.name == "hash" && t.args[0].op == OInt {
		switch t.args[0].ival {
		case 5:
			return 32
		case 6:
			return 48
		case 7:
			return 64
		}
	}
	return 0
}

func (u *Unit) newBytes(st *State, content *Term) *Term {
	c := u.c
	a := u.alloc(st)
	k, h := u.elemHeap(st, types.Typ[types.Byte])
	arr := c.App("s2a", ArrSort(SInt, SInt), content)
	st.heaps[k] = c.Store(h, a, arr)
	l := c.StrLen(content)
	// b2s(s2a(s),0,len s) = s for SMT-level use
	if !content.hasB {
		c.axiom(c.mkEqRaw(c.App("b2s", SStr, arr, c.Int(0), l), content))
	}
	return c.Ctor(SSlice, a, c.Int(0), l, l)
}

// ---------- execution ----------

func (u *Unit) execFunc(fn *ssa.Function, args []Val, binds []Val, st *State, depth int) []Outcome {
	if len(fn.Blocks) == 0 {
		u.fail("no body for %s", fnName(fn))
	}
	if depth > 60 {
		u.fail("inline depth exceeded at %s", fnName(fn))
	}
	n := 0
	for _, s := range u.stack {
		if s == fnName(fn) {
			n++
		}
	}
	if n > 5 {
		u.fail("recursion without contract: %s", fnName(fn))
	}
	u.stack = append(u.stack, fnName(fn))
	defer func() { u.stack = u.stack[:len(u.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, depth: depth}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = binds[i]
	}
	return u.enter(fr, fn.Blocks[0], nil, st)
}

func (u *Unit) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := u.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := res[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					res[h] = body
				}
				// collect
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	u.loops[fn] = res
	return res
}

// enter a block along an edge
func (u *Unit) enter(fr *Frame, b, pred *ssa.BasicBlock, st *State) []Outcome {
	u.steps++
	if u.steps > 400000 {
		u.fail("step budget exceeded")
	}
	if !u.deadline.IsZero() && time.Now().After(u.deadline) {
		u.fail("time budget exceeded")
	}
	// leaving analysed loops?
	for fr.loop != nil && !fr.loop.blocks[b] {
		if fr.loop.dry {
			return nil
		}
		fr.loop = fr.loop.parent
	}
	if fr.loop != nil && fr.loop.header == b && pred != nil && fr.loop.blocks[pred] {
		u.evalPhis(fr, b, pred, st)
		return []Outcome{{kind: KBack, st: st, fr: fr, pred: pred, hdr: b}}
	}
	lm := u.loopsOf(fr.fn)
	if body, ok := lm[b]; ok {
		u.evalPhis(fr, b, pred, st)
		return u.handleLoop(fr, b, body, st)
	}
	u.evalPhis(fr, b, pred, st)
	return u.run(fr, b, u.firstNonPhi(b), st)
}

func (u *Unit) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (u *Unit) evalPhis(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, u.eval(fr, st, ph.Edges[idx]))
	}
	for i, ph := range phis {
		fr.env[ph] = vals[i]
	}
}

func (u *Unit) eval(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return u.constVal(x)
	case *ssa.Global:
		t := deref(x.Type())
		return &Ptr{heap: "G:" + x.RelString(nil), ref: u.c.Int(1), typ: t, ptyp: t}
	case *ssa.Function:
		return &Clo{fn: x}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		u.fail("undefined value %s in %s", v.Name(), fnName(fr.fn))
	}
	return r
}

func (u *Unit) constVal(x *ssa.Const) Val {
	c := u.c
	t := x.Type()
	if x.Value == nil {
		return c.Zero(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return c.Bool(constant.BoolVal(x.Value))
	case constant.String:
		return c.Lit(constant.StringVal(x.Value))
	case constant.Int:
		if c.SortOf(t) == SFlt {
			return c.Const("flt_"+x.Value.ExactString(), SFlt)
		}
		if n, ok := constant.Int64Val(x.Value); ok {
			return c.Int(n)
		}
		return c.Const("bigint_"+x.Value.ExactString(), SInt)
	case constant.Float:
		if c.SortOf(t) == SInt {
			n, _ := constant.Int64Val(constant.ToInt(x.Value))
			return c.Int(n)
		}
		return c.Const("flt_"+x.Value.ExactString(), SFlt)
	}
	u.fail("const %s", x)
	return nil
}

func (u *Unit) panicOut(st *State, msg string) Outcome {
	return Outcome{kind: KPanic, st: st, msg: msg}
}

// require cond; returns outcomes for the panic side, and whether the ok side is feasible (st is constrained)
func (u *Unit) guard(st *State, cond *Term, msg string, outs *[]Outcome) bool {
	if cond.op == OTrue {
		return true
	}
	neg := u.c.Not(cond)
	if cond.op != OFalse && u.valid(st, cond, 1000) {
		st.assume(cond)
		return true
	}
	ps := st.clone()
	ps.assume(neg)
	*outs = append(*outs, u.panicOut(ps, msg))
	if cond.op == OFalse {
		return false
	}
	st.assume(cond)
	return u.feasible(st, nil)
}

func (u *Unit) nonNil(st *State, ref *Term, what string, outs *[]Outcome) bool {
	if st.nonnil[ref.id] || isAlloc(ref) {
		return true
	}
	ok := u.guard(st, u.c.Ne(ref, u.c.Int(0)), "nil dereference: "+what, outs)
	if ok {
		st.nonnil[ref.id] = true
	}
	return ok
}

func (u *Unit) pos(fr *Frame, in ssa.Instruction) string {
	p := u.P.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		return fnName(fr.fn)
	}
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// run instructions from i
func (u *Unit) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) []Outcome {
	var outs []Outcome
	c := u.c
	for ; i < len(b.Instrs); i++ {
		u.steps++
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			t := deref(x.Type())
			if at, ok := t.Underlying().(*types.Array); ok {
				a := u.alloc(st)
				k, h := u.elemHeap(st, at.Elem())
				st.heaps[k] = c.Store(h, a, c.ConstArr(SInt, c.Zero(at.Elem())))
				fr.env[x] = &Ptr{heap: k, ref: a, typ: at.Elem(), ptyp: t, arr: true}
				break
			}
			a := u.alloc(st)
			p := &Ptr{heap: cellKey(t), ref: a, typ: t, ptyp: t}
			k, h := u.cellHeap(st, t)
			st.heaps[k] = c.Store(h, a, c.Zero(t))
			fr.env[x] = p
		case *ssa.Store:
			p := u.toPtr(u.eval(fr, st, x.Addr), x.Addr.Type())
			if p.ref != nil && !u.nonNil(st, p.ref, u.pos(fr, in), &outs) {
				return outs
			}
			u.checkGuard(st, p, true, u.pos(fr, in))
			u.store(st, p, u.eval(fr, st, x.Val))
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				p := u.toPtr(u.eval(fr, st, x.X), x.X.Type())
				if p.ref != nil && !u.nonNil(st, p.ref, u.pos(fr, in), &outs) {
					return outs
				}
				u.checkGuard(st, p, false, u.pos(fr, in))
				fr.env[x] = u.load(st, p)
			case token.NOT:
				fr.env[x] = c.Not(u.term(st, u.eval(fr, st, x.X), x.X.Type()))
			case token.SUB:
				t := u.term(st, u.eval(fr, st, x.X), x.X.Type())
				if t.sort == SInt {
					fr.env[x] = c.Neg(t)
				} else {
					fr.env[x] = c.App("fneg", t.sort, t)
				}
			case token.XOR:
				t := u.term(st, u.eval(fr, st, x.X), x.X.Type())
				fr.env[x] = c.App("bitnot", t.sort, t)
			case token.ARROW:
				t := x.Type()
				if x.CommaOk {
					tt := t.(*types.Tuple)
					fr.env[x] = Tuple{u.freshVal(st, "recv", tt.At(0).Type()), c.Fresh("ok", SBool)}
				} else {
					fr.env[x] = u.freshVal(st, "recv", t)
				}
			default:
				u.fail("unop %s", x)
			}
		case *ssa.BinOp:
			fr.env[x] = u.binop(fr, st, x, &outs)
			if fr.env[x] == nil {
				return outs
			}
		case *ssa.FieldAddr:
			v := u.eval(fr, st, x.X)
			p := u.toPtr(v, x.X.Type())
			if p.ref != nil && len(p.path) == 0 && p.idx == nil {
				if !u.nonNil(st, p.ref, u.pos(fr, in), &outs) {
					return outs
				}
			}
			stt := deref(x.X.Type())
			ft := stt.Underlying().(*types.Struct).Field(x.Field).Type()
			np := *p
			np.path = append(p.path[:len(p.path):len(p.path)], pstep{field: x.Field, on: stt})
			np.ptyp = ft
			fr.env[x] = &np
		case *ssa.Field:
			v := u.term(st, u.eval(fr, st, x.X), x.X.Type())
			r := c.Field(v, x.X.Type(), x.Field)
			u.refFacts(st, r, x.Type())
			fr.env[x] = r
		case *ssa.IndexAddr:
			idx := u.term(st, u.eval(fr, st, x.Index), x.Index.Type())
			v := u.eval(fr, st, x.X)
			switch xt := x.X.Type().Underlying().(type) {
			case *types.Slice:
				s := u.term(st, v, x.X.Type())
				u.refFacts(st, s, x.X.Type())
				if !u.guard(st, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Sel(s, 2))), "index out of range "+u.pos(fr, in), &outs) {
					return outs
				}
				fr.env[x] = &Ptr{heap: elemKey(xt.Elem()), ref: c.Sel(s, 0), idx: c.Add(c.Sel(s, 1), idx), typ: xt.Elem(), ptyp: xt.Elem()}
				st.nonnil[c.Sel(s, 0).id] = true
			case *types.Pointer:
				at := xt.Elem().Underlying().(*types.Array)
				p := u.toPtr(v, x.X.Type())
				if !u.guard(st, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(at.Len()))), "index out of range "+u.pos(fr, in), &outs) {
					return outs
				}
				if p.arr {
					fr.env[x] = &Ptr{heap: p.heap, ref: p.ref, idx: idx, typ: at.Elem(), ptyp: at.Elem()}
				} else {
					np := *p
					np.path = append(p.path[:len(p.path):len(p.path)], pstep{idx: idx, on: xt.Elem()})
					np.ptyp = at.Elem()
					fr.env[x] = &np
				}
			default:
				u.fail("indexaddr %s", x.X.Type())
			}
		case *ssa.Index:
			idx := u.term(st, u.eval(fr, st, x.Index), x.Index.Type())
			v := u.term(st, u.eval(fr, st, x.X), x.X.Type())
			if at, ok := x.X.Type().Underlying().(*types.Array); ok {
				if !u.guard(st, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(at.Len()))), "index out of range "+u.pos(fr, in), &outs) {
					return outs
				}
				fr.env[x] = u.arrGet(v, x.X.Type(), idx)
			} else if isString(x.X.Type()) {
				if !u.guard(st, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.StrLen(v))), "index out of range "+u.pos(fr, in), &outs) {
					return outs
				}
				fr.env[x] = c.App("strat", SInt, v, idx)
			} else {
				u.fail("index %s", x.X.Type())
			}
		case *ssa.Lookup:
			if isString(x.X.Type()) {
				v := u.term(st, u.eval(fr, st, x.X), x.X.Type())
				idx := u.term(st, u.eval(fr, st, x.Index), x.Index.Type())
				if !u.guard(st, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.StrLen(v))), "index out of range "+u.pos(fr, in), &outs) {
					return outs
				}
				fr.env[x] = c.App("strat", SInt, v, idx)
				break
			}
			mt := x.X.Type().Underlying().(*types.Map)
			ref := u.term(st, u.eval(fr, st, x.X), x.X.Type())
			k := u.term(st, u.eval(fr, st, x.Index), mt.Key())
			u.checkMapGuard(st, mt, ref, false, u.pos(fr, in))
			val, ok := u.mapLookup(st, mt, ref, k)
			if x.CommaOk {
				fr.env[x] = Tuple{val, ok}
			} else {
				fr.env[x] = val
			}
		case *ssa.MapUpdate:
			mt := x.Map.Type().Underlying().(*types.Map)
			ref := u.term(st, u.eval(fr, st, x.Map), x.Map.Type())
			k := u.term(st, u.eval(fr, st, x.Key), mt.Key())
			v := u.term(st, u.eval(fr, st, x.Value), mt.Elem())
			if !u.nonNil(st, ref, "assignment to nil map "+u.pos(fr, in), &outs) {
				return outs
			}
			u.checkMapGuard(st, mt, ref, true, u.pos(fr, in))
			u.mapStore(st, mt, ref, k, v)
		case *ssa.MakeMap:
			mt := x.Type().Underlying().(*types.Map)
			a := u.alloc(st)
			u.mapInit(st, mt, a)
			fr.env[x] = a
		case *ssa.MakeSlice:
			et := x.Type().Underlying().(*types.Slice).Elem()
			l := u.term(st, u.eval(fr, st, x.Len), x.Len.Type())
			cp := u.term(st, u.eval(fr, st, x.Cap), x.Cap.Type())
			if !u.guard(st, c.And(c.Le(c.Int(0), l), c.Le(l, cp)), "makeslice: len out of range "+u.pos(fr, in), &outs) {
				return outs
			}
			a := u.alloc(st)
			k, h := u.elemHeap(st, et)
			st.heaps[k] = c.Store(h, a, c.ConstArr(SInt, c.Zero(et)))
			fr.env[x] = c.Ctor(SSlice, a, c.Int(0), l, cp)
		case *ssa.MakeChan:
			fr.env[x] = u.alloc(st)
		case *ssa.MakeClosure:
			var bs []Val
			for _, bv := range x.Bindings {
				bs = append(bs, u.eval(fr, st, bv))
			}
			fr.env[x] = &Clo{fn: x.Fn.(*ssa.Function), binds: bs}
		case *ssa.MakeInterface:
			v := u.eval(fr, st, x.X)
			fr.env[x] = &IfaceV{typ: x.X.Type(), v: v}
		case *ssa.ChangeInterface:
			fr.env[x] = u.eval(fr, st, x.X)
		case *ssa.ChangeType:
			fr.env[x] = u.eval(fr, st, x.X)
		case *ssa.Convert:
			fr.env[x] = u.convert(fr, st, x)
		case *ssa.Slice:
			r, ok := u.slice(fr, st, x, &outs)
			if !ok {
				return outs
			}
			fr.env[x] = r
		case *ssa.TypeAssert:
			r, ok := u.typeAssert(fr, st, x, &outs)
			if !ok {
				return outs
			}
			fr.env[x] = r
		case *ssa.Extract:
			tv := u.eval(fr, st, x.Tuple)
			t, ok := tv.(Tuple)
			if !ok {
				u.fail("extract from %T", tv)
			}
			fr.env[x] = t[x.Index]
		case *ssa.Range:
			if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
				ref := u.term(st, u.eval(fr, st, x.X), x.X.Type())
				u.checkMapGuard(st, mt, ref, false, u.pos(fr, in))
				u.pushN++
				k := fmt.Sprintf("IT:%s#%d", x.Name(), u.pushN)
				st.heaps[k] = c.ConstArr(c.SortOf(mt.Key()), c.False)
				u.mapNilFact(st, mt, ref)
				fr.env[x] = &MapIter{key: k, ref: ref, mt: mt, dom0: u.mapDom(st, mt, ref)}
			} else {
				fr.env[x] = &MapIter{}
			}
		case *ssa.Next:
			it := u.eval(fr, st, x.Iter).(*MapIter)
			if it.mt == nil {
				tt := x.Type().(*types.Tuple)
				fr.env[x] = Tuple{c.Fresh("rok", SBool), u.freshVal(st, "ri", tt.At(1).Type()), u.freshVal(st, "rr", tt.At(2).Type())}
				break
			}
			// fork: more / done
			V := st.heaps[it.key]
			dom := u.mapDom(st, it.mt, it.ref)
			ks := c.SortOf(it.mt.Key())
			// done
			ds := st.clone()
			bv := c.BVar("k", ks)
			ds.assume(c.Forall([]*Term{bv}, c.Implies(c.And(c.Select(it.dom0, bv), c.Select(dom, bv)), c.Select(V, bv))))
			dfr := fr.clone()
			dfr.env[x] = Tuple{c.False, c.Zero(it.mt.Key()), c.Zero(it.mt.Elem())}
			// more
			k := c.Fresh("rk", ks)
			st.assume(c.Select(dom, k))
			st.assume(c.Not(c.Select(V, k)))
			if u.feasible(ds, nil) {
				outs = append(outs, u.run(dfr, b, i+1, ds)...)
			}
			if !u.feasible(st, nil) {
				return outs
			}
			st.heaps[it.key] = c.Store(V, k, c.True)
			v := c.Select(u.mapVal(st, it.mt, it.ref), k)
			u.refFacts(st, v, it.mt.Elem())
			fr.env[x] = Tuple{c.True, k, v}
		case *ssa.Call:
			res := u.call(fr, st, &x.Call, x)
			if len(res) == 1 && res[0].kind == KReturn {
				st = res[0].st
				fr.env[x] = u.packRets(x.Type(), res[0].rets)
				break
			}
			for j, o := range res {
				if o.kind != KReturn {
					outs = append(outs, u.unwind(fr, o)...)
					continue
				}
				f2 := fr
				if j < len(res)-1 {
					f2 = fr.clone()
				} else {
					f2 = fr.clone()
				}
				f2.env[x] = u.packRets(x.Type(), o.rets)
				outs = append(outs, u.run(f2, b, i+1, o.st)...)
			}
			return outs
		case *ssa.Go:
			st = u.goCall(fr, st, &x.Call, x, &outs)
			if st == nil {
				return outs
			}
		case *ssa.Defer:
			if x.Call.IsInvoke() && x.Call.Method.Name() == "Close" && shortType(x.Call.Value.Type()) == "io.ReadCloser" {
				break // closing a response body has no effect here (and may be deferred in a loop)
			}
			d := deferred{call: &x.Call, instr: x}
			d.fn = u.calleeVal(fr, st, &x.Call)
			for _, a := range x.Call.Args {
				d.args = append(d.args, u.eval(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			states := u.runDefers(fr, st)
			if len(states) == 1 && states[0].kind == KReturn {
				st = states[0].st
				break
			}
			for _, o := range states {
				if o.kind != KReturn {
					outs = append(outs, o)
					continue
				}
				outs = append(outs, u.run(fr.clone(), b, i+1, o.st)...)
			}
			return outs
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, u.eval(fr, st, r))
			}
			return append(outs, Outcome{kind: KReturn, st: st, rets: rs})
		case *ssa.Panic:
			return append(outs, u.unwind(fr, u.panicOut(st, "explicit panic "+u.pos(fr, in)))...)
		case *ssa.Jump:
			return append(outs, u.enter(fr, b.Succs[0], b, st)...)
		case *ssa.If:
			cond := u.term(st, u.eval(fr, st, x.Cond), types.Typ[types.Bool])
			if u.stopAtIf == b {
				return []Outcome{{kind: KBack, st: st, fr: fr, cond: cond}}
			}
			if cond.op == OTrue {
				return append(outs, u.enter(fr, b.Succs[0], b, st)...)
			}
			if cond.op == OFalse {
				return append(outs, u.enter(fr, b.Succs[1], b, st)...)
			}
			// a branch that only prints joins the other one unchanged
			if printOnly(b.Succs[0], b, b.Succs[1]) {
				return append(outs, u.enter(fr, b.Succs[1], b, st)...)
			}
			if printOnly(b.Succs[1], b, b.Succs[0]) {
				return append(outs, u.enter(fr, b.Succs[0], b, st)...)
			}
			f1 := u.feasible(st, cond)
			f2 := true
			if f1 {
				f2 = u.feasible(st, c.Not(cond))
			}
			if f1 && f2 {
				st2 := st.clone()
				fr2 := fr.clone()
				st.assume(cond)
				p := u.pos(fr, in)
				if p == fnName(fr.fn) {
					p = fmt.Sprintf("%s#%d", fnName(fr.fn), b.Index)
				}
				st.trace = append(st.trace, p+":T")
				outs = append(outs, u.enter(fr, b.Succs[0], b, st)...)
				st2.assume(c.Not(cond))
				st2.trace = append(st2.trace, p+":F")
				outs = append(outs, u.enter(fr2, b.Succs[1], b, st2)...)
				return outs
			}
			if f1 {
				st.assume(cond)
				return append(outs, u.enter(fr, b.Succs[0], b, st)...)
			}
			st.assume(c.Not(cond))
			return append(outs, u.enter(fr, b.Succs[1], b, st)...)
		case *ssa.Send:
		case *ssa.Select:
			u.fail("select statement in %s", fnName(fr.fn))
		default:
			u.fail("instruction %T in %s", in, fnName(fr.fn))
		}
	}
	u.fail("fell off block in %s", fnName(fr.fn))
	return outs
}

func (u *Unit) packRets(t types.Type, rets []Val) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 1 {
			return rets[0]
		}
		return Tuple(rets)
	}
	if len(rets) == 0 {
		return nil
	}
	return rets[0]
}

// a panic unwinds through this frame: run deferred calls (lock releases matter)
func (u *Unit) unwind(fr *Frame, o Outcome) []Outcome {
	if o.kind != KPanic || len(fr.defers) == 0 {
		return []Outcome{o}
	}
	var outs []Outcome
	for _, r := range u.runDefers(fr.clone(), o.st) {
		r.kind = KPanic
		r.msg = o.msg
		outs = append(outs, r)
	}
	return outs
}

func (u *Unit) runDefers(fr *Frame, st *State) []Outcome {
	cur := []Outcome{{kind: KReturn, st: st}}
	ds := fr.defers
	fr.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []Outcome
		for _, o := range cur {
			if o.kind != KReturn {
				next = append(next, o)
				continue
			}
			res := u.callVal(fr, o.st, d.call, d.fn, d.args, d.instr)
			next = append(next, res...)
		}
		cur = next
	}
	return cur
}

func (u *Unit) freshVal(st *State, hint string, t types.Type) *Term {
	v := u.c.Fresh(hint, u.c.SortOf(t))
	u.refFacts(st, v, t)
	return v
}

func (u *Unit) mapLookup(st *State, mt *types.Map, ref, k *Term) (*Term, *Term) {
	c := u.c
	u.mapNilFact(st, mt, ref)
	ok := c.Select(u.mapDom(st, mt, ref), k)
	var val *Term
	if ok.op == OFalse {
		val = c.Zero(mt.Elem())
	} else {
		val = c.Ite(ok, c.Select(u.mapVal(st, mt, ref), k), c.Zero(mt.Elem()))
	}
	u.refFacts(st, val, mt.Elem())
	return val, ok
}

func (u *Unit) mapStore(st *State, mt *types.Map, ref, k, v *Term) {
	c := u.c
	ck, ch := u.mapCardH(st, mt)
	old := c.Select(u.mapDom(st, mt, ref), k)
	st.heaps[ck] = c.Store(ch, ref, c.Add(u.hsel(ch, ref), c.Ite(old, c.Int(0), c.Int(1))))
	dk, dh := u.mapDomH(st, mt)
	st.heaps[dk] = c.Store(dh, ref, c.Store(u.hsel(dh, ref), k, c.True))
	vk, vh := u.mapValH(st, mt)
	st.heaps[vk] = c.Store(vh, ref, c.Store(u.hsel(vh, ref), k, v))
}

func (u *Unit) mapDelete(st *State, mt *types.Map, ref, k *Term) {
	c := u.c
	ck, ch := u.mapCardH(st, mt)
	old := c.Select(u.mapDom(st, mt, ref), k)
	st.heaps[ck] = c.Store(ch, ref, c.Sub(u.hsel(ch, ref), c.Ite(old, c.Int(1), c.Int(0))))
	dk, dh := u.mapDomH(st, mt)
	st.heaps[dk] = c.Store(dh, ref, c.Store(u.hsel(dh, ref), k, c.False))
}

func (u *Unit) mapInit(st *State, mt *types.Map, a *Term) {
	c := u.c
	dk, dh := u.mapDomH(st, mt)
	st.heaps[dk] = c.Store(dh, a, c.ConstArr(c.SortOf(mt.Key()), c.False))
	vk, vh := u.mapValH(st, mt)
	st.heaps[vk] = c.Store(vh, a, c.ConstArr(c.SortOf(mt.Key()), c.Zero(mt.Elem())))
	ck, ch := u.mapCardH(st, mt)
	st.heaps[ck] = c.Store(ch, a, c.Int(0))
}

func (u *Unit) mapLen(st *State, mt *types.Map, ref *Term) *Term {
	c := u.c
	if ref.op == OInt && ref.ival == 0 {
		return c.Int(0)
	}
	_, ch := u.mapCardH(st, mt)
	n := u.hsel(ch, ref)
	if n.op != OInt {
		st.assume(c.Le(c.Int(0), n))
		u.mapNilFact(st, mt, ref)
		d := u.mapDom(st, mt, ref)
		if !d.hasB {
			st.assume(c.Eq(c.Eq(n, c.Int(0)), c.Eq(d, c.ConstArr(c.SortOf(mt.Key()), c.False))))
		}
		st.assume(c.Implies(c.Eq(ref, c.Int(0)), c.Eq(n, c.Int(0))))
	}
	return n
}

func (u *Unit) valEq(st *State, a, b Val, ta, tb types.Type) *Term {
	c := u.c
	ia, oka := a.(*IfaceV)
	ib, okb := b.(*IfaceV)
	if oka && okb {
		if !types.Identical(ia.typ, ib.typ) {
			return c.False
		}
		return c.Eq(u.term(st, ia.v, ia.typ), u.term(st, ib.v, ib.typ))
	}
	if oka && u.term(st, b, tb) == c.nilAny() || okb && u.term(st, a, ta) == c.nilAny() {
		return c.False
	}
	if _, ok := a.(*Clo); ok {
		return c.False
	}
	if _, ok := b.(*Clo); ok {
		return c.False
	}
	if p, ok := a.(*Ptr); ok && (len(p.path) > 0 || p.idx != nil || p.arr) {
		if t, ok := b.(*Term); ok && t.op == OInt {
			return c.False
		}
	}
	if p, ok := b.(*Ptr); ok && (len(p.path) > 0 || p.idx != nil || p.arr) {
		if t, ok := a.(*Term); ok && t.op == OInt {
			return c.False
		}
	}
	x, y := u.term(st, a, ta), u.term(st, b, tb)
	if _, ok := ta.Underlying().(*types.Slice); ok {
		// comparison with nil only
		if y == c.nilSlice() {
			return c.Eq(c.Sel(x, 0), c.Int(0))
		}
		if x == c.nilSlice() {
			return c.Eq(c.Sel(y, 0), c.Int(0))
		}
	}
	if x.sort != y.sort { // interface vs concrete
		if x.sort == SAny {
			y = c.Box(tb, y)
		} else if y.sort == SAny {
			x = c.Box(ta, x)
		}
	}
	return c.Eq(x, y)
}

func (u *Unit) binop(fr *Frame, st *State, x *ssa.BinOp, outs *[]Outcome) Val {
	c := u.c
	va, vb := u.eval(fr, st, x.X), u.eval(fr, st, x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		e := u.valEq(st, va, vb, x.X.Type(), x.Y.Type())
		if x.Op == token.NEQ {
			return c.Not(e)
		}
		return e
	}
	a, b := u.term(st, va, x.X.Type()), u.term(st, vb, x.Y.Type())
	switch x.Op {
	case token.ADD:
		if a.sort == SStr {
			return c.Cat(a, b)
		}
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.LSS:
		if a.sort == SStr {
			return c.App("strlt", SBool, a, b)
		}
		return c.Lt(a, b)
	case token.LEQ:
		if a.sort == SStr {
			return c.Not(c.App("strlt", SBool, b, a))
		}
		return c.Le(a, b)
	case token.GTR:
		if a.sort == SStr {
			return c.App("strlt", SBool, b, a)
		}
		return c.Lt(b, a)
	case token.GEQ:
		if a.sort == SStr {
			return c.Not(c.App("strlt", SBool, a, b))
		}
		return c.Le(b, a)
	case token.QUO, token.REM:
		if a.sort == SInt {
			if !u.guard(st, c.Ne(b, c.Int(0)), "integer divide by zero "+u.pos(fr, x), outs) {
				return nil
			}
			if a.op == OInt && b.op == OInt {
				if x.Op == token.QUO {
					return c.Int(a.ival / b.ival)
				}
				return c.Int(a.ival % b.ival)
			}
		}
	}
	return c.App("op"+opName(x.Op), c.SortOf(x.Type()), a, b)
}

func opName(t token.Token) string {
	switch t {
	case token.QUO:
		return "div"
	case token.REM:
		return "rem"
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND_NOT:
		return "andnot"
	}
	return t.String()
}

func (u *Unit) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	c := u.c
	v := u.eval(fr, st, x.X)
	from, to := x.X.Type(), x.Type()
	t := u.term(st, v, from)
	switch {
	case isString(from) && isByteSlice(to):
		return u.newBytes(st, t)
	case isByteSlice(from) && isString(to):
		return u.bytesContent(st, t)
	case c.SortOf(from) == c.SortOf(to):
		return t
	}
	return c.App("conv."+shortType(from)+"."+shortType(to), c.SortOf(to), t)
}

func (u *Unit) slice(fr *Frame, st *State, x *ssa.Slice, outs *[]Outcome) (Val, bool) {
	c := u.c
	v := u.eval(fr, st, x.X)
	get := func(w ssa.Value, d *Term) *Term {
		if w == nil {
			return d
		}
		return u.term(st, u.eval(fr, st, w), w.Type())
	}
	switch xt := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := u.term(st, v, x.X.Type())
		n := c.StrLen(s)
		lo := get(x.Low, c.Int(0))
		hi := get(x.High, n)
		if !u.guard(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), "slice bounds "+u.pos(fr, x), outs) {
			return nil, false
		}
		if x.Low == nil && x.High == nil {
			return s, true
		}
		r := c.App("substr", SStr, s, lo, hi)
		c.axiom(c.Implies(c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), c.Eq(c.StrLen(r), c.Sub(hi, lo))))
		c.axiom(c.Implies(c.And(c.Eq(lo, c.Int(0)), c.Eq(hi, n)), c.Eq(r, s)))
		return r, true
	case *types.Slice:
		s := u.term(st, v, x.X.Type())
		u.refFacts(st, s, x.X.Type())
		lo := get(x.Low, c.Int(0))
		hi := get(x.High, c.Sel(s, 2))
		mx := get(x.Max, c.Sel(s, 3))
		if !u.guard(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, c.Sel(s, 3))), "slice bounds "+u.pos(fr, x), outs) {
			return nil, false
		}
		return c.Ctor(SSlice, c.Sel(s, 0), c.Add(c.Sel(s, 1), lo), c.Sub(hi, lo), c.Sub(mx, lo)), true
	case *types.Pointer:
		p := u.toPtr(v, x.X.Type())
		at := xt.Elem().Underlying().(*types.Array)
		if !p.arr {
			u.fail("slice of interior array")
		}
		lo := get(x.Low, c.Int(0))
		hi := get(x.High, c.Int(at.Len()))
		if !u.guard(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Int(at.Len()))), "slice bounds "+u.pos(fr, x), outs) {
			return nil, false
		}
		return c.Ctor(SSlice, p.ref, lo, c.Sub(hi, lo), c.Sub(c.Int(at.Len()), lo)), true
	}
	u.fail("slice of %s", x.X.Type())
	return nil, false
}

func (u *Unit) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert, outs *[]Outcome) (Val, bool) {
	c := u.c
	v := u.eval(fr, st, x.X)
	if iv, ok := v.(*IfaceV); ok {
		match := false
		if types.IsInterface(x.AssertedType) {
			match = types.Implements(iv.typ, x.AssertedType.Underlying().(*types.Interface))
			if match {
				if x.CommaOk {
					return Tuple{iv, c.True}, true
				}
				return iv, true
			}
		} else {
			match = types.Identical(types.Unalias(iv.typ), types.Unalias(x.AssertedType))
		}
		if x.CommaOk {
			if match {
				return Tuple{iv.v, c.True}, true
			}
			return Tuple{c.Zero(x.AssertedType), c.False}, true
		}
		if !match {
			*outs = append(*outs, u.panicOut(st, "type assertion "+u.pos(fr, x)))
			return nil, false
		}
		return iv.v, true
	}
	t := v.(*Term)
	if types.IsInterface(x.AssertedType) {
		okv := c.App("implements."+shortType(x.AssertedType), SBool, t)
		if x.CommaOk {
			return Tuple{c.Ite(okv, t, c.nilAny()), okv}, true
		}
		return t, u.guard(st, okv, "type assertion "+u.pos(fr, x), outs)
	}
	okv := c.Eq(c.App("tagof", SInt, t), c.Tag(x.AssertedType))
	c.axiom(c.Eq(c.App("tagof", SInt, c.nilAny()), c.Int(0)))
	r := c.Unbox(x.AssertedType, t)
	if x.CommaOk {
		return Tuple{c.Ite(okv, r, c.Zero(x.AssertedType)), okv}, true
	}
	if !u.guard(st, okv, "type assertion "+u.pos(fr, x), outs) {
		return nil, false
	}
	return r, true
}

// ---------- calls ----------

func (u *Unit) calleeVal(fr *Frame, st *State, cc *ssa.CallCommon) Val {
	if cc.IsInvoke() {
		return u.eval(fr, st, cc.Value)
	}
	return u.eval(fr, st, cc.Value)
}

func (u *Unit) call(fr *Frame, st *State, cc *ssa.CallCommon, in ssa.Instruction) []Outcome {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, u.eval(fr, st, a))
	}
	return u.callVal(fr, st, cc, u.calleeVal(fr, st, cc), args, in)
}

func (u *Unit) callVal(fr *Frame, st *State, cc *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) []Outcome {
	var ts []types.Type
	for _, a := range cc.Args {
		ts = append(ts, a.Type())
	}
	if cc.IsInvoke() {
		return u.invoke(fr, st, cc, fv, args, in)
	}
	switch f := fv.(type) {
	case *ssa.Builtin:
		return u.builtin(fr, st, f.Name(), args, ts, cc, in)
	case *Clo:
		return u.callFn(fr, st, f.fn, args, ts, f.binds, in)
	case *BoundMethod:
		u.fail("bound method call %s", f.name)
	case *Term:
		// unknown function value: havoc nothing, fresh results
		u.note("call of unknown function value at %s", u.pos(fr, in))
		u.unsupportedObl("call-target", "call of an unknown function value at "+u.pos(fr, in))
		sig := cc.Signature()
		return []Outcome{{kind: KReturn, st: st, rets: u.freshRets(st, sig)}}
	}
	u.fail("call of %T", fv)
	return nil
}

func (u *Unit) freshRets(st *State, sig *types.Signature) []Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, u.freshVal(st, "ret", sig.Results().At(i).Type()))
	}
	return rs
}

func (u *Unit) callFn(fr *Frame, st *State, fn *ssa.Function, args []Val, ts []types.Type, binds []Val, in ssa.Instruction) []Outcome {
	name := fnName(fn)
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && !strings.HasPrefix(name, "(") && strings.Contains(fn.Synthetic, "bound method") {
		return u.execFunc(fn, args, binds, st, fr.depth+1)
	}
	if con := u.sp.contracts[name]; con != nil && !con.unitOnly && !u.inlineHere(name) {
		return u.applyContract(fr, st, con, fn, args, in)
	}
	if m, ok := extModels[name]; ok {
		u.c.extsUsed[name] = true
		return m(&ECall{u: u, fr: fr, st: st, name: name, args: args, ts: ts, sig: fn.Signature, in: in})
	}
	if fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg) || fn.Parent() != nil && fn.Parent().Pkg != nil && isRepoPkg(fn.Parent().Pkg.Pkg) || (fn.Pkg == nil && len(fn.Blocks) > 0) {
		if len(fn.Blocks) > 0 {
			u.inlined[name] = true
			return u.execFunc(fn, args, binds, st, fr.depth+1)
		}
	}
	u.c.extsUsed[name] = true
	return u.generic(&ECall{u: u, fr: fr, st: st, name: name, args: args, ts: ts, sig: fn.Signature, in: in})
}

// inlineHere: the contract of the function being verified is not used for itself
// at the top level, but recursive calls use it.
func (u *Unit) inlineHere(name string) bool {
	if u.con != nil && u.con.inline[name] != nil && u.con.inline[name].applies(u.prop) {
		return true
	}
	return false
}

func (u *Unit) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv Val, args []Val, in ssa.Instruction) []Outcome {
	m := cc.Method
	if iv, ok := recv.(*IfaceV); ok {
		// static dispatch
		ms := u.P.prog.MethodSets.MethodSet(iv.typ)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel != nil {
			fn := u.P.prog.MethodValue(sel)
			if fn != nil {
				ts := []types.Type{iv.typ}
				for _, a := range cc.Args {
					ts = append(ts, a.Type())
				}
				return u.callFn(fr, st, fn, append([]Val{iv.v}, args...), ts, nil, in)
			}
		}
	}
	// a value whose dynamic type is known from what holds here
	if t, ok := recv.(*Term); ok {
		if _, md := extModels["iface."+m.Name()]; !md {
			if T := u.dynType(st, t, cc.Value.Type()); T != nil {
				return u.invoke(fr, st, cc, &IfaceV{v: u.c.Unbox(T, t), typ: T}, args, in)
			}
		}
	}
	ts := []types.Type{cc.Value.Type()}
	for _, a := range cc.Args {
		ts = append(ts, a.Type())
	}
	name := "iface." + shortType(cc.Value.Type()) + "." + m.Name()
	u.c.extsUsed[name] = true
	e := &ECall{u: u, fr: fr, st: st, name: name, args: append([]Val{recv}, args...), ts: ts, sig: m.Type().(*types.Signature), in: in}
	if md, ok := extModels["iface."+m.Name()]; ok {
		return md(e)
	}
	return u.generic(e)
}

// the one type of the repository that an interface value is known to hold
func (u *Unit) dynType(st *State, t *Term, it types.Type) types.Type {
	in, ok := it.Underlying().(*types.Interface)
	if !ok || in.NumMethods() == 0 {
		return nil
	}
	for _, p := range u.P.pkgs {
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, T := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(T, in) {
					if ok, _ := u.entails(st.pc, u.c.Eq(u.c.App("tagof", SInt, t), u.c.Tag(T)), u.idxTerms, true); ok {
						return T
					}
				}
			}
		}
	}
	return nil
}

func (u *Unit) builtin(fr *Frame, st *State, name string, args []Val, ts []types.Type, cc *ssa.CallCommon, in ssa.Instruction) []Outcome {
	c := u.c
	ret := func(v ...Val) []Outcome { return []Outcome{{kind: KReturn, st: st, rets: v}} }
	switch name {
	case "len", "cap":
		t := u.term(st, args[0], ts[0])
		switch x := ts[0].Underlying().(type) {
		case *types.Slice:
			u.refFacts(st, t, ts[0])
			if name == "cap" {
				return ret(c.Sel(t, 3))
			}
			return ret(c.Sel(t, 2))
		case *types.Map:
			u.checkMapGuard(st, x, t, false, u.pos(fr, in))
			return ret(u.mapLen(st, x, t))
		case *types.Basic:
			return ret(c.StrLen(t))
		case *types.Array:
			return ret(c.Int(x.Len()))
		case *types.Pointer:
			return ret(c.Int(x.Elem().Underlying().(*types.Array).Len()))
		case *types.Chan:
			return ret(c.Fresh("chanlen", SInt))
		}
	case "append":
		if isByteSlice(ts[0]) && (len(args) == 2) {
			a := u.term(st, args[0], ts[0])
			var bc *Term
			if isString(ts[1]) {
				bc = u.term(st, args[1], ts[1])
			} else {
				bc = u.bytesContent(st, u.term(st, args[1], ts[1]))
			}
			return ret(u.newBytes(st, c.Cat(u.bytesContent(st, a), bc)))
		}
		et := ts[0].Underlying().(*types.Slice).Elem()
		a := u.term(st, args[0], ts[0])
		b := u.term(st, args[1], ts[1])
		u.refFacts(st, a, ts[0])
		u.refFacts(st, b, ts[1])
		k, h := u.elemHeap(st, et)
		arrA := u.hsel(h, c.Sel(a, 0))
		arrB := u.hsel(h, c.Sel(b, 0))
		la, lb := c.Sel(a, 2), c.Sel(b, 2)
		oa, ob := c.Sel(a, 1), c.Sel(b, 1)
		na := u.alloc(st)
		var arr *Term
		if lb.op == OInt && lb.ival <= 16 {
			arr = arrA
			for j := int64(0); j < lb.ival; j++ {
				arr = c.Store(arr, c.Add(c.Add(oa, la), c.Int(j)), c.Select(arrB, c.Add(ob, c.Int(j))))
				// keep Go-side notes of appended elements
			}
		} else {
			arr = c.Fresh("app", arrA.sort)
			j := c.BVar("j", SInt)
			st.assume(c.Forall([]*Term{j}, c.Implies(c.And(c.Le(oa, j), c.Lt(j, c.Add(oa, la))), c.Eq(c.Select(arr, j), c.Select(arrA, j))), c.Select(arr, j)))
			j2 := c.BVar("j", SInt)
			st.assume(c.Forall([]*Term{j2}, c.Implies(c.And(c.Le(c.Int(0), j2), c.Lt(j2, lb)), c.Eq(c.Select(arr, c.Add(c.Add(oa, la), j2)), c.Select(arrB, c.Add(ob, j2)))), c.Select(arrB, c.Add(ob, j2))))
		}
		st.heaps[k] = c.Store(h, na, arr)
		nl := c.Add(la, lb)
		ncap := c.Fresh("cap", SInt)
		st.assume(c.Le(nl, ncap))
		// append(nil, nothing) stays nil
		ref := na
		if !(lb.op == OInt && lb.ival > 0) {
			ref = c.Ite(c.Eq(nl, c.Int(0)), c.Sel(a, 0), na)
		}
		return ret(c.Ctor(SSlice, ref, oa, nl, ncap))
	case "copy":
		d := u.term(st, args[0], ts[0])
		et := ts[0].Underlying().(*types.Slice).Elem()
		u.refFacts(st, d, ts[0])
		k, h := u.elemHeap(st, et)
		n := c.Fresh("copied", SInt)
		var srcArr, so, sl *Term
		if isString(ts[1]) {
			s := u.term(st, args[1], ts[1])
			srcArr, so, sl = c.App("s2a", ArrSort(SInt, SInt), s), c.Int(0), c.StrLen(s)
		} else {
			s := u.term(st, args[1], ts[1])
			u.refFacts(st, s, ts[1])
			srcArr, so, sl = u.hsel(h, c.Sel(s, 0)), c.Sel(s, 1), c.Sel(s, 2)
		}
		st.assume(c.Eq(n, c.Ite(c.Le(sl, c.Sel(d, 2)), sl, c.Sel(d, 2))))
		oldArr := u.hsel(h, c.Sel(d, 0))
		arr := c.Fresh("cpy", oldArr.sort)
		do := c.Sel(d, 1)
		j := c.BVar("j", SInt)
		st.assume(c.Forall([]*Term{j}, c.Eq(c.Select(arr, j), c.Ite(c.And(c.Le(do, j), c.Lt(j, c.Add(do, n))), c.Select(srcArr, c.Add(so, c.Sub(j, do))), c.Select(oldArr, j))), c.Select(arr, j)))
		st.heaps[k] = c.Store(h, c.Sel(d, 0), arr)
		return ret(n)
	case "delete":
		mt := ts[0].Underlying().(*types.Map)
		ref := u.term(st, args[0], ts[0])
		k := u.term(st, args[1], mt.Key())
		u.checkMapGuard(st, mt, ref, true, u.pos(fr, in))
		u.mapNilFact(st, mt, ref)
		u.mapDelete(st, mt, ref, k)
		return ret()
	case "panic":
		return []Outcome{u.panicOut(st, "panic "+u.pos(fr, in))}
	case "print", "println", "close":
		return ret()
	case "min", "max":
		a, b := u.term(st, args[0], ts[0]), u.term(st, args[1], ts[1])
		if name == "min" {
			return ret(c.Ite(c.Le(a, b), a, b))
		}
		return ret(c.Ite(c.Le(a, b), b, a))
	case "clear":
		if mt, ok := ts[0].Underlying().(*types.Map); ok {
			ref := u.term(st, args[0], ts[0])
			u.checkMapGuard(st, mt, ref, true, u.pos(fr, in))
			u.mapInit(st, mt, ref)
			return ret()
		}
	case "recover":
		return ret(c.nilAny())
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	u.fail("builtin %s", name)
	return nil
}

func (u *Unit) goCall(fr *Frame, st *State, cc *ssa.CallCommon, in ssa.Instruction, outs *[]Outcome) *State {
	// A spawned goroutine holds no lock of its creator.
	fv := u.calleeVal(fr, st, cc)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, u.eval(fr, st, a))
	}
	if u.con != nil && u.con.goInline {
		sub := st.clone()
		saved := sub.locks
		sub.locks = map[string]int{}
		res := u.callVal(fr, sub, cc, fv, args, in)
		// fold: the spawner continues with the effects of any terminating run
		var ok []*State
		for _, o := range res {
			if o.kind == KReturn {
				u.lockBalance(o.st, map[string]int{}, "goroutine spawned at "+u.pos(fr, in))
				o.st.locks = saved
				ok = append(ok, o.st)
			} else if o.kind == KPanic {
				u.panicObl(o)
			}
		}
		if len(ok) == 0 {
			return nil
		}
		for _, s := range ok[1:] {
			*outs = append(*outs, u.contAfter(fr, in, s)...)
		}
		return ok[0]
	}
	var vals []SVal
	for i, a := range args {
		vals = append(vals, SVal{a, cc.Args[i].Type()})
	}
	if cl, ok := fv.(*Clo); ok {
		vals = append(vals, u.captured(cl)...)
	}
	u.detach(fr, st, "go "+u.pos(fr, in), vals, func(s *State) []Outcome { return u.callVal(fr, s, cc, fv, args, in) })
	return st
}

func (u *Unit) contAfter(fr *Frame, in ssa.Instruction, st *State) []Outcome {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return u.run(fr.clone(), b, i+1, st)
		}
	}
	return nil
}

// run code that will execute later / concurrently: arbitrary shared state, no locks held
func (u *Unit) detach(fr *Frame, st *State, what string, vals []SVal, f func(s *State) []Outcome) {
	// "later": something is armed; "later2": at least two things are
	if h := u.heap(st, "GC:later", ArrSort(SInt, SBool)); true {
		st.heaps["GC:later2"] = u.c.Store(u.heap(st, "GC:later2", ArrSort(SInt, SBool)), u.c.App("call.later2", SInt), u.c.Or(u.c.Select(h, u.c.App("call.later", SInt)), u.c.Select(u.heap(st, "GC:later2", ArrSort(SInt, SBool)), u.c.App("call.later2", SInt))))
	}
	u.track(st, "later", nil, nil)
	if u.dry > 0 || u.detached > 1 {
		return
	}
	if u.con != nil && u.con.noDetach {
		return
	}
	u.detached++
	defer func() { u.detached-- }()
	s := st.clone()
	s.locks = map[string]int{}
	u.havocShared(s, "later")
	if u.con != nil {
		for _, cl := range u.con.laterAssume {
			s.assume(u.evalBool(&SEnv{u: u, st: s, old: u.entry, vars: u.con.bind(u, u.rootArgs)}, cl.expr))
		}
	}
	pre := s.clone()
	for _, o := range f(s) {
		switch o.kind {
		case KReturn:
			u.lockBalance(o.st, map[string]int{}, what)
			if u.con == nil || u.detached > 1 {
				continue
			}
			for _, cl := range u.con.of("later", u.prop) {
				vars := u.con.bind(u, u.rootArgs)
				n := 0
				for _, v := range vals {
					if pt, ok := v.ty.Underlying().(*types.Pointer); ok {
						if b, ok := pt.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
							continue
						}
						v = SVal{u.load(pre, u.toPtr(v.v, v.ty)), pt.Elem()}
					}
					if b, ok := v.ty.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						vars[fmt.Sprintf("arg%d", n)] = v
						n++
					}
				}
				u.oblige(o.st, "later "+cl.name, u.evalBool(&SEnv{u: u, st: o.st, old: pre, vars: vars}, cl.expr), "code run later: "+what)
			}
		case KPanic:
			u.panicObl(o)
		}
	}
}

// the variables a closure captures (by reference: what they hold now)
func (u *Unit) captured(f *Clo) []SVal {
	var r []SVal
	for i, b := range f.binds {
		if i < len(f.fn.FreeVars) {
			r = append(r, SVal{b, f.fn.FreeVars[i].Type()})
		}
	}
	return r
}

func (u *Unit) panicObl(o Outcome) {
	if u.con != nil && u.con.noPanic(u.prop) {
		u.oblige(o.st, "no-panic", u.c.False, o.msg)
	}
}

// havoc everything except purely local allocations
func (u *Unit) havocShared(st *State, why string) {
	for _, k := range []string{"NET", "FS", "REPLY", "STATUS"} {
		h := u.heap(st, k, u.ghostSort(k))
		if why == "call" {
			// history only grows
			nh := u.c.Fresh("hv."+k, h.sort)
			ks, _ := arrSorts(h.sort)
			m := u.c.BVar("m", ks)
			st.assume(u.c.Forall([]*Term{m}, u.c.Implies(u.c.Select(h, m), u.c.Select(nh, m))))
			st.heaps[k] = nh
		}
	}
	keys := make([]string, 0, len(st.heaps))
	for k := range st.heaps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	nt := u.c.Fresh("top", SInt)
	st.assume(u.c.Le(st.top, nt))
	for _, k := range keys {
		h := st.heaps[k]
		if k[0] == 'I' || k[0] == 'G' {
			continue
		}
		if k == "NET" || k == "FS" || k == "REPLY" || k == "STATUS" {
			continue
		}
		nh := u.c.Fresh("hv."+k, h.sort)
		// keep local allocations made since entry (they are captured variables or private)
		t := h
		type kv struct{ r, v *Term }
		var keep []kv
		seen := map[*Term]bool{}
		for t.op == OStore {
			if isAlloc(t.args[1]) && !seen[t.args[1]] {
				seen[t.args[1]] = true
				keep = append(keep, kv{t.args[1], t.args[2]})
			}
			t = t.args[0]
		}
		r := nh
		for i := len(keep) - 1; i >= 0; i-- {
			r = u.c.Store(r, keep[i].r, keep[i].v)
		}
		// configuration structures never change after start-up
		st.heaps[k] = r
	}
	st.top = nt
	u.epochs++
	st.epoch = u.epochs
	// immutable roots: context struct fields that are only written at start-up
	u.keepImmutable(st)
}

// printOnly: block p, entered only from its branch, does nothing but print values
// that are at hand and goes on to join (which has no phis to tell the ways apart)
func printOnly(p, from, join *ssa.BasicBlock) bool {
	if len(p.Preds) != 1 || len(p.Succs) != 1 || p.Succs[0] != join {
		return false
	}
	for _, in := range join.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			return false
		}
	}
	var local func(v ssa.Value) bool
	local = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.Global:
			return true
		case *ssa.FieldAddr:
			return local(x.X)
		case *ssa.IndexAddr:
			if _, ok := x.Index.(*ssa.Const); ok {
				if al, ok := x.X.(*ssa.Alloc); ok && al.Block() == p {
					return true
				}
			}
		}
		return false
	}
	prints := false
	for _, in := range p.Instrs {
		switch x := in.(type) {
		case *ssa.Alloc, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Field, *ssa.Extract, *ssa.ChangeType, *ssa.DebugRef, *ssa.Jump:
		case *ssa.IndexAddr:
			if !local(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !local(x.X) {
				return false
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); !ok || al.Block() != p || x.Low != nil || x.High != nil {
				return false
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || !local(ia) {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL || !local(x.X) {
				return false
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			switch fnName(f) {
			case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print":
				prints = true
			default:
				return false
			}
		default:
			return false
		}
	}
	return prints
}
