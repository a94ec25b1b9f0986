package main

// Terms: hash-consed SMT terms with a light simplifier.  One Ctx per
// verification unit (no sharing between goroutines).

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SAny   Sort = "Any"
	SSlice Sort = "Slice"
	SFlt   Sort = "Flt"
)

type Op int

const (
	OInt Op = iota
	OTrue
	OFalse
	OVar   // free constant (declared)
	OBound // bound variable
	OLit   // string literal
	OApp   // uninterpreted / declared function application
	OCtor
	OSel
	OEq
	ONot
	OAnd
	OOr
	OIte
	OAdd
	OMul
	OLe
	OLt
	OSelect
	OStore
	OConstArr
	OForall
	OExists
	OCat
	ODistinct
	OUpd // opaque struct field update
	OFld // opaque struct field get
)

type Term struct {
	id    int
	op    Op
	args  []*Term
	sort  Sort
	name  string
	ival  int64
	bnd   []*Term
	hasB  bool // contains a bound variable that may be free
	size  int
	maxts int // largest creation stamp of free constants inside
	pat   []*Term
}

type Ctx struct {
	tab      map[string]*Term
	nid      int
	nfresh   int
	funs     map[string][]Sort // declared functions: arg sorts..., result
	funOrd   []string
	lits     map[string]*Term
	litOrd   []string
	dts      map[Sort]*DT
	dtOrd    []Sort
	opq      []Sort
	opqSet   map[Sort]bool
	axSyms   [][]*Term // per axiom: the constants it speaks about
	axioms   []*Term   // global axioms (ground or quantified), asserted permanently
	axSeen   map[int]bool
	varOrd   []*Term
	solver   *Solver
	True     *Term
	False    *Term
	structs  map[Sort]*structInfo
	tags     map[string]int
	tagOrd   []string
	extsUsed map[string]bool
	immut    map[*Term]*immutHeap
}

type DT struct {
	sort   Sort
	ctor   string
	fields []string
	fsorts []Sort
}

func NewCtx() *Ctx {
	c := &Ctx{nfresh: 1, tab: map[string]*Term{}, funs: map[string][]Sort{}, lits: map[string]*Term{}, dts: map[Sort]*DT{}, opqSet: map[Sort]bool{}, axSeen: map[int]bool{}, structs: map[Sort]*structInfo{}, tags: map[string]int{}, extsUsed: map[string]bool{}}
	c.True = c.mk(&Term{op: OTrue, sort: SBool})
	c.False = c.mk(&Term{op: OFalse, sort: SBool})
	c.declDT(&DT{SSlice, "mkslice", []string{"s_ref", "s_off", "s_len", "s_cap"}, []Sort{SInt, SInt, SInt, SInt}})
	return c
}

func (c *Ctx) declDT(d *DT) {
	if _, ok := c.dts[d.sort]; ok {
		return
	}
	c.dts[d.sort] = d
	c.dtOrd = append(c.dtOrd, d.sort)
}

func (c *Ctx) opaqueSort(s Sort) {
	if !c.opqSet[s] {
		c.opqSet[s] = true
		c.opq = append(c.opq, s)
	}
}

func key(t *Term) string {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.ival, 10))
	b.WriteByte('|')
	b.WriteString(string(t.sort))
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if len(t.bnd) > 0 {
		b.WriteByte('#')
		for _, a := range t.bnd {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
		b.WriteByte('#')
		for _, a := range t.pat {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	return b.String()
}

func (c *Ctx) mk(t *Term) *Term {
	k := key(t)
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.nid++
	t.id = c.nid
	t.size = 1
	if t.op == OBound {
		t.hasB = true
	}
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.hasB {
			t.hasB = true
		}
		if a.maxts > t.maxts {
			t.maxts = a.maxts
		}
	}
	if t.op == OForall || t.op == OExists {
		// free bound vars of body minus bnd
		t.hasB = c.freeBound(t.args[0], t.bnd)
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) freeBound(t *Term, bnd []*Term) bool {
	seen := map[int]bool{}
	var f func(t *Term, bnd map[int]bool) bool
	f = func(t *Term, bm map[int]bool) bool {
		if !t.hasB {
			return false
		}
		if t.op == OBound {
			return !bm[t.id]
		}
		if t.op == OForall || t.op == OExists {
			nb := map[int]bool{}
			for k := range bm {
				nb[k] = true
			}
			for _, b := range t.bnd {
				nb[b.id] = true
			}
			return f(t.args[0], nb)
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if f(a, bm) {
				return true
			}
		}
		return false
	}
	bm := map[int]bool{}
	for _, b := range bnd {
		bm[b.id] = true
	}
	return f(t, bm)
}

func (c *Ctx) Int(n int64) *Term { return c.mk(&Term{op: OInt, sort: SInt, ival: n}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Lit(s string) *Term {
	if t, ok := c.lits[s]; ok {
		return t
	}
	t := c.mk(&Term{op: OLit, sort: SStr, name: s})
	c.lits[s] = t
	c.litOrd = append(c.litOrd, s)
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '_' || r == '.' || r == '!' || r == '$' || (r >= '0' && r <= '9') || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') {
			b.WriteRune(r)
		} else {
			b.WriteString(fmt.Sprintf("_%x_", r))
		}
	}
	return b.String()
}

// Fresh constant.
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.nfresh++
	t := c.mk(&Term{op: OVar, sort: s, name: fmt.Sprintf("%s!%d", sanitize(hint), c.nfresh)})
	if t.maxts == 0 {
		t.maxts = c.nfresh
		c.varOrd = append(c.varOrd, t)
	}
	return t
}

// Named constant (stable).
func (c *Ctx) Const(name string, s Sort) *Term {
	t := c.mk(&Term{op: OVar, sort: s, name: sanitize(name)})
	if t.maxts == 0 {
		t.maxts = 1
		c.varOrd = append(c.varOrd, t)
	}
	return t
}

func (c *Ctx) BVar(hint string, s Sort) *Term {
	c.nfresh++
	return c.mk(&Term{op: OBound, sort: s, name: fmt.Sprintf("%s?%d", sanitize(hint), c.nfresh)})
}

func (c *Ctx) App(f string, res Sort, args ...*Term) *Term {
	f = sanitize(f)
	if len(args) == 0 {
		return c.Const(f, res)
	}
	if old, ok := c.funs[f]; !ok {
		var ss []Sort
		for _, a := range args {
			ss = append(ss, a.sort)
		}
		ss = append(ss, res)
		c.funs[f] = ss
		c.funOrd = append(c.funOrd, f)
	} else {
		bad := len(old) != len(args)+1 || old[len(old)-1] != res
		if !bad {
			for i, a := range args {
				if a.sort != old[i] {
					bad = true
				}
			}
		}
		if bad {
			// overload: mangle by sorts
			var b strings.Builder
			b.WriteString(f)
			for _, a := range args {
				b.WriteString("$" + string(a.sort))
			}
			b.WriteString("$$" + string(res))
			return c.App(b.String(), res, args...)
		}
	}
	return c.mk(&Term{op: OApp, name: f, args: args, sort: res})
}

func (c *Ctx) Ctor(s Sort, args ...*Term) *Term {
	// eta: ctor(sel0(x), sel1(x), ...) -> x
	d := c.dts[s]
	if len(args) > 0 && len(args) == len(d.fields) && args[0].op == OSel && args[0].ival == 0 && args[0].args[0].sort == s {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if !(a.op == OSel && a.ival == int64(i) && a.args[0] == x) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	for i, a := range args {
		if a.sort != d.fsorts[i] {
			panic(fmt.Sprintf("ctor %s field %s: sort %s want %s", s, d.fields[i], a.sort, d.fsorts[i]))
		}
	}
	return c.mk(&Term{op: OCtor, sort: s, name: d.ctor, args: args})
}

func (c *Ctx) Sel(x *Term, i int) *Term {
	d := c.dts[x.sort]
	if d == nil {
		panic("Sel on non datatype " + string(x.sort))
	}
	if x.op == OCtor {
		return x.args[i]
	}
	if x.op == OIte {
		return c.Ite(x.args[0], c.Sel(x.args[1], i), c.Sel(x.args[2], i))
	}
	x = c.immutBase(x, "", i)
	return c.mk(&Term{op: OSel, sort: d.fsorts[i], name: d.fields[i], ival: int64(i), args: []*Term{x}})
}

// functional update of a datatype field
func (c *Ctx) UpdSel(x *Term, i int, v *Term) *Term {
	d := c.dts[x.sort]
	args := make([]*Term, len(d.fields))
	for j := range d.fields {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Sel(x, j)
		}
	}
	return c.Ctor(x.sort, args...)
}

// opaque struct fields
func (c *Ctx) Fld(x *Term, f string, s Sort) *Term {
	for {
		if x.op == OUpd {
			if x.name == f {
				return x.args[1]
			}
			x = x.args[0]
			continue
		}
		break
	}
	if x.op == OIte {
		return c.Ite(x.args[0], c.Fld(x.args[1], f, s), c.Fld(x.args[2], f, s))
	}
	x = c.immutBase(x, f, -1)
	return c.App("fld."+string(x.sort)+"."+f, s, x)
}
func (c *Ctx) Upd(x *Term, f string, v *Term) *Term {
	if v.op == OApp && len(v.args) == 1 && v.args[0] == x && v.name == sanitize("fld."+string(x.sort)+"."+f) {
		return x // storing what is there
	}
	if x.op == OUpd && x.name == f {
		x = x.args[0]
	}
	t := c.mk(&Term{op: OUpd, name: f, sort: x.sort, args: []*Term{x, v}})
	// axiom: fld(upd(x,v)) = v
	if !t.hasB {
		fn := "fld." + string(x.sort) + "." + f
		c.axiom(c.mkEqRaw(c.App(fn, v.sort, t), v))
		c.axiom(c.Implies(c.Eq(c.App(fn, v.sort, x), v), c.mkEqRaw(t, x)))
	}
	return t
}

func (c *Ctx) axiom(t *Term) {
	if t == c.True || c.axSeen[t.id] {
		return
	}
	c.axSeen[t.id] = true
	c.axioms = append(c.axioms, t)
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.args[0]
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (c *Ctx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x == nil {
			continue
		}
		if x.op == OAnd {
			for _, y := range x.args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		if x.op == OFalse {
			return c.False
		}
		if x.op == OTrue || seen[x.id] {
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range out {
		if x.op == ONot && seen[x.args[0].id] {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OAnd, sort: SBool, args: out})
}

func (c *Ctx) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.op == OOr {
			for _, y := range x.args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		if x.op == OTrue {
			return c.True
		}
		if x.op == OFalse || seen[x.id] {
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range out {
		if x.op == ONot && seen[x.args[0].id] {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OOr, sort: SBool, args: out})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(a, b, d *Term) *Term {
	if a.op == OTrue {
		return b
	}
	if a.op == OFalse {
		return d
	}
	if b == d {
		return b
	}
	if b.sort != d.sort {
		panic(fmt.Sprintf("ite sorts %s %s", b.sort, d.sort))
	}
	if b.sort == SBool {
		if b.op == OTrue && d.op == OFalse {
			return a
		}
		if b.op == OFalse && d.op == OTrue {
			return c.Not(a)
		}
		if b.op == OTrue {
			return c.Or(a, d)
		}
		if b.op == OFalse {
			return c.And(c.Not(a), d)
		}
		if d.op == OTrue {
			return c.Or(c.Not(a), b)
		}
		if d.op == OFalse {
			return c.And(a, b)
		}
	}
	return c.mk(&Term{op: OIte, sort: b.sort, args: []*Term{a, b, d}})
}

// linear view: constant + sum coef*term
func (c *Ctx) linear(t *Term) (int64, map[*Term]int64) {
	k := int64(0)
	m := map[*Term]int64{}
	var f func(t *Term, s int64)
	f = func(t *Term, s int64) {
		switch t.op {
		case OInt:
			k += s * t.ival
		case OAdd:
			for _, a := range t.args {
				f(a, s)
			}
		case OMul:
			if t.args[0].op == OInt {
				f(t.args[1], s*t.args[0].ival)
				return
			}
			m[t] += s
		default:
			m[t] += s
		}
	}
	f(t, 1)
	return k, m
}

func (c *Ctx) fromLinear(k int64, m map[*Term]int64) *Term {
	var ts []*Term
	for t, s := range m {
		if s != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		s := m[t]
		if s == 1 {
			args = append(args, t)
		} else {
			args = append(args, c.mk(&Term{op: OMul, sort: SInt, args: []*Term{c.Int(s), t}}))
		}
	}
	if k != 0 || len(args) == 0 {
		args = append(args, c.Int(k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk(&Term{op: OAdd, sort: SInt, args: args})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.sort != SInt || b.sort != SInt {
		return c.App("fadd", a.sort, a, b)
	}
	k1, m1 := c.linear(a)
	k2, m2 := c.linear(b)
	for t, s := range m2 {
		m1[t] += s
	}
	return c.fromLinear(k1+k2, m1)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Mul(c.Int(-1), a) }
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.sort != SInt {
		return c.App("fsub", a.sort, a, b)
	}
	return c.Add(a, c.Neg(b))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.sort != SInt || b.sort != SInt {
		return c.App("fmul", a.sort, a, b)
	}
	if a.op == OInt && b.op == OInt {
		return c.Int(a.ival * b.ival)
	}
	if b.op == OInt {
		a, b = b, a
	}
	if a.op == OInt {
		k, m := c.linear(b)
		for t := range m {
			m[t] *= a.ival
		}
		return c.fromLinear(k*a.ival, m)
	}
	return c.mk(&Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}

func (c *Ctx) Le(a, b *Term) *Term {
	if a.sort != SInt {
		return c.App("fle", SBool, a, b)
	}
	d := c.Sub(b, a)
	if d.op == OInt {
		return c.Bool(d.ival >= 0)
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a.sort != SInt {
		return c.App("flt", SBool, a, b)
	}
	return c.Not(c.Le(b, a))
}

func (c *Ctx) mkEqRaw(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func isLitTerm(t *Term) bool { return t.op == OLit || t.op == OInt || t.op == OTrue || t.op == OFalse }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s : %s / %s", a.sort, b.sort, c.Show(a), c.Show(b)))
	}
	if isLitTerm(a) && isLitTerm(b) {
		return c.False
	}
	switch a.sort {
	case SBool:
		if a.op == OTrue {
			return b
		}
		if b.op == OTrue {
			return a
		}
		if a.op == OFalse {
			return c.Not(b)
		}
		if b.op == OFalse {
			return c.Not(a)
		}
	case SInt:
		d := c.Sub(a, b)
		if d.op == OInt {
			return c.Bool(d.ival == 0)
		}
	case SStr:
		if b.op == OLit {
			a, b = b, a
		}
		if a.op == OLit && a.name == "" && b.op == OCat {
			var cs []*Term
			for _, x := range b.args {
				cs = append(cs, c.Eq(x, a))
			}
			return c.And(cs...)
		}
		if a.op == OCat && b.op == OCat {
			// strip equal prefix/suffix (sound: cancellation both ways)
			x, y := a.args, b.args
			for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
				x, y = x[1:], y[1:]
			}
			for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
				x, y = x[:len(x)-1], y[:len(y)-1]
			}
			if len(x) != len(a.args) {
				return c.Eq(c.Cat(x...), c.Cat(y...))
			}
		}
	}
	if a.op == OCtor && b.op == OCtor && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	if a.op == OIte && isLitTerm(b) && isLitTerm(a.args[1]) && isLitTerm(a.args[2]) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == OIte && isLitTerm(a) && isLitTerm(b.args[1]) && isLitTerm(b.args[2]) {
		return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
	}
	return c.mkEqRaw(a, b)
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Cat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		var parts []*Term
		if x.op == OCat {
			parts = x.args
		} else {
			parts = []*Term{x}
		}
		for _, p := range parts {
			if p.op == OLit && p.name == "" {
				continue
			}
			if p.op == OLit && len(out) > 0 && out[len(out)-1].op == OLit {
				out[len(out)-1] = c.Lit(out[len(out)-1].name + p.name)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return c.Lit("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OCat, sort: SStr, args: out})
}

func (c *Ctx) StrLen(s *Term) *Term {
	switch s.op {
	case OLit:
		return c.Int(int64(len(s.name)))
	case OCat:
		r := c.Int(0)
		for _, a := range s.args {
			r = c.Add(r, c.StrLen(a))
		}
		return r
	case OIte:
		return c.Ite(s.args[0], c.StrLen(s.args[1]), c.StrLen(s.args[2]))
	}
	if n := hashLen(s); n > 0 {
		return c.Int(n)
	}
	l := c.App("strlen", SInt, s)
	if !s.hasB {
		c.axiom(c.Le(c.Int(0), l))
		c.axiom(c.mkEqRaw(c.mkEqRaw(l, c.Int(0)), c.mkEqRaw(s, c.Lit(""))))
	}
	return l
}

func arrSorts(s Sort) (Sort, Sort) {
	// "(Array K V)"
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not array sort: " + str)
	}
	in := str[7 : len(str)-1]
	// split at depth 0
	d := 0
	for i, ch := range in {
		switch ch {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}
func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// definitely distinct?
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.sort == SInt {
		d := c.Sub(a, b)
		if d.op == OInt {
			return d.ival != 0
		}
		return false
	}
	e := c.Eq(a, b)
	return e.op == OFalse
}

func (c *Ctx) Select(a, i *Term) *Term {
	k, v := arrSorts(a.sort)
	if i.sort != k {
		panic(fmt.Sprintf("select idx sort %s want %s in %s", i.sort, k, c.Show(a)))
	}
	t := a
	for {
		if t.op == OStore {
			if t.args[1] == i {
				return t.args[2]
			}
			if c.distinct(t.args[1], i) || c.freshVs(t.args[1], i) || i.sort == SInt && isAlloc(t.args[1]) && c.entryRef(i) {
				t = t.args[0]
				continue
			}
		}
		break
	}
	if t.op == OConstArr {
		return t.args[0]
	}
	if t.op == OIte {
		return c.Ite(t.args[0], c.Select(t.args[1], i), c.Select(t.args[2], i))
	}
	return c.mk(&Term{op: OSelect, sort: v, args: []*Term{t, i}})
}

// freshVs: one of the two is an allocation address newer than everything in the other.
func (c *Ctx) freshVs(a, b *Term) bool {
	if a.sort != SInt {
		return false
	}
	if isAlloc(a) && !isAlloc(b) && !b.hasB && b.maxts < a.maxts {
		return true
	}
	if isAlloc(b) && !isAlloc(a) && !a.hasB && a.maxts < b.maxts {
		return true
	}
	if isAlloc(a) && isAlloc(b) && a != b {
		return true
	}
	return false
}
func isAlloc(t *Term) bool { return t.op == OVar && strings.HasPrefix(t.name, "alloc!") }

func (c *Ctx) Store(a, i, v *Term) *Term {
	k, vs := arrSorts(a.sort)
	if i.sort != k || v.sort != vs {
		panic(fmt.Sprintf("store sorts: arr %s idx %s val %s", a.sort, i.sort, v.sort))
	}
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	// store(a,i,select(a,i)) = a
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}
func (c *Ctx) ConstArr(k Sort, v *Term) *Term {
	return c.mk(&Term{op: OConstArr, sort: ArrSort(k, v.sort), args: []*Term{v}})
}

func (c *Ctx) Forall(bs []*Term, body *Term, pats ...*Term) *Term {
	if body.op == OTrue || body.op == OFalse {
		return body
	}
	if len(bs) == 0 {
		return body
	}
	return c.mk(&Term{op: OForall, sort: SBool, args: []*Term{body}, bnd: bs, pat: pats})
}
func (c *Ctx) Exists(bs []*Term, body *Term) *Term {
	if body.op == OTrue || body.op == OFalse {
		return body
	}
	if len(bs) == 0 {
		return body
	}
	return c.mk(&Term{op: OExists, sort: SBool, args: []*Term{body}, bnd: bs})
}

// Subst replaces terms (by id) by others, rebuilding with simplification.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return c.subst(t, m, memo)
}
func (c *Ctx) subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = c.subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	var r *Term
	if !ch {
		r = t
	} else {
		r = c.rebuild(t, na)
	}
	memo[t] = r
	return r
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		if t.name == "strlen" {
			return c.StrLen(a[0])
		}
		return c.appSimp(t.name, t.sort, a)
	case OCtor:
		return c.Ctor(t.sort, a...)
	case OSel:
		return c.Sel(a[0], int(t.ival))
	case OEq:
		return c.Eq(a[0], a[1])
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OAdd:
		r := c.Int(0)
		for _, x := range a {
			r = c.Add(r, x)
		}
		return r
	case OMul:
		return c.Mul(a[0], a[1])
	case OLe:
		return c.Le(a[0], a[1])
	case OSelect:
		return c.Select(a[0], a[1])
	case OStore:
		return c.Store(a[0], a[1], a[2])
	case OConstArr:
		k, _ := arrSorts(t.sort)
		return c.ConstArr(k, a[0])
	case OForall:
		return c.Forall(t.bnd, a[0])
	case OExists:
		return c.Exists(t.bnd, a[0])
	case OCat:
		return c.Cat(a...)
	case OUpd:
		return c.Upd(a[0], t.name, a[1])
	case OFld:
		return c.Fld(a[0], t.name, t.sort)
	}
	n := *t
	n.args = a
	n.id = 0
	return c.mk(&n)
}

func (c *Ctx) appSimp(name string, s Sort, a []*Term) *Term {
	return c.App(name, s, a...)
}

// does t mention any term of set
func (c *Ctx) mentions(t *Term, pred func(*Term) bool) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if pred(t) {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (c *Ctx) Show(t *Term) string {
	s := c.print(t, nil)
	if len(s) > 1500 && !showAll {
		return s[:1500] + "..."
	}
	return s
}

var showAll = os.Getenv("GOVER_SHOWALL") != ""

// print as SMT-LIB, named: term ids with a global definition
func (c *Ctx) print(t *Term, named map[int]bool) string {
	var b strings.Builder
	c.pr(&b, t, named, true)
	return b.String()
}

func smtSym(s string) string { return "|" + s + "|" }

func (c *Ctx) pr(b *strings.Builder, t *Term, named map[int]bool, top bool) {
	if b.Len() > 4000 && named == nil && !showAll {
		b.WriteString("…")
		return
	}
	if !top && named != nil && named[t.id] {
		b.WriteString("t" + strconv.Itoa(t.id))
		return
	}
	list := func(op string, args []*Term) {
		b.WriteString("(" + op)
		for _, a := range args {
			b.WriteByte(' ')
			c.pr(b, a, named, false)
		}
		b.WriteByte(')')
	}
	switch t.op {
	case OInt:
		if t.ival < 0 {
			fmt.Fprintf(b, "(- %d)", -t.ival)
		} else {
			fmt.Fprintf(b, "%d", t.ival)
		}
	case OTrue:
		b.WriteString("true")
	case OFalse:
		b.WriteString("false")
	case OVar, OBound:
		b.WriteString(smtSym(t.name))
	case OLit:
		if named == nil {
			b.WriteString(strconv.Quote(t.name))
		} else {
			b.WriteString("lit" + strconv.Itoa(t.id))
		}
	case OApp:
		list(smtSym(t.name), t.args)
	case OCtor:
		if len(t.args) == 0 {
			b.WriteString(smtSym(t.name))
		} else {
			list(smtSym(t.name), t.args)
		}
	case OSel:
		list(smtSym(t.name), t.args)
	case OEq:
		list("=", t.args)
	case ONot:
		list("not", t.args)
	case OAnd:
		list("and", t.args)
	case OOr:
		list("or", t.args)
	case OIte:
		list("ite", t.args)
	case OAdd:
		list("+", t.args)
	case OMul:
		list("*", t.args)
	case OLe:
		list("<=", t.args)
	case OSelect:
		list("select", t.args)
	case OStore:
		list("store", t.args)
	case OConstArr:
		b.WriteString("((as const " + string(t.sort) + ") ")
		c.pr(b, t.args[0], named, false)
		b.WriteByte(')')
	case OCat:
		// right nested
		n := len(t.args)
		for i := 0; i < n-1; i++ {
			b.WriteString("(cat ")
			c.pr(b, t.args[i], named, false)
			b.WriteByte(' ')
		}
		c.pr(b, t.args[n-1], named, false)
		b.WriteString(strings.Repeat(")", n-1))
	case OUpd:
		list(smtSym("upd."+string(t.sort)+"."+t.name), t.args)
	case OForall, OExists:
		q := "forall"
		if t.op == OExists {
			q = "exists"
		}
		b.WriteString("(" + q + " (")
		for _, v := range t.bnd {
			fmt.Fprintf(b, "(%s %s)", smtSym(v.name), v.sort)
		}
		b.WriteString(") ")
		if len(t.pat) > 0 {
			b.WriteString("(! ")
		}
		c.pr(b, t.args[0], named, false)
		if len(t.pat) > 0 {
			b.WriteString(" :pattern (")
			for i, p := range t.pat {
				if i > 0 {
					b.WriteByte(' ')
				}
				c.pr(b, p, named, false)
			}
			b.WriteString("))")
		}
		b.WriteByte(')')
	default:
		panic("print op")
	}
}
