package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- models of dependencies (assumed contracts) ----------

type ECall struct {
	u    *Unit
	fr   *Frame
	st   *State
	name string
	args []Val
	ts   []types.Type
	sig  *types.Signature
	in   ssa.Instruction
}

func (e *ECall) t(i int) *Term { return e.u.term(e.st, e.args[i], e.ts[i]) }
func (e *ECall) ret(vs ...Val) []Outcome {
	return []Outcome{{kind: KReturn, st: e.st, rets: vs}}
}
func (e *ECall) str(i int) *Term { // content of a []byte or string argument
	if isString(e.ts[i]) {
		return e.t(i)
	}
	return e.u.bytesContent(e.st, e.t(i))
}
func (e *ECall) ptr(i int) *Ptr { return e.u.toPtr(e.args[i], e.ts[i]) }
func (e *ECall) nilGuard(i int, what string, outs *[]Outcome) bool {
	p := e.ptr(i)
	if p.ref == nil || len(p.path) > 0 || p.idx != nil || p.heap[0] == 'G' {
		return true
	}
	return e.u.nonNil(e.st, p.ref, what+" "+e.u.pos(e.fr, e.in), outs)
}
func (e *ECall) val(i int) *Term { // pointee of pointer argument
	p := e.ptr(i)
	v := e.u.load(e.st, p)
	return e.u.term(e.st, v, p.ptyp)
}

var errT = types.Universe.Lookup("error").Type()

func (u *Unit) newErr(name string, args ...*Term) *Term {
	c := u.c
	var r *Term
	if len(args) == 0 {
		r = c.Fresh("err."+name, SAny)
	} else {
		r = c.App("err."+name, SAny, args...)
	}
	c.axiom(c.Ne(r, c.nilAny()))
	return r
}

// errIff: an error value that is nil exactly when ok
func (u *Unit) errIff(name string, ok *Term, args ...*Term) *Term {
	c := u.c
	r := c.App("err."+name, SAny, args...)
	if !r.hasB {
		c.axiom(c.Eq(c.Eq(r, c.nilAny()), ok))
	}
	return r
}

func (u *Unit) netSort() Sort {
	s := Sort("NetMsg")
	if _, ok := u.c.dts[s]; !ok {
		u.c.declDT(&DT{s, "mkNetMsg", []string{"nm_url", "nm_body"}, []Sort{SStr, SStr}})
	}
	return s
}

var netMsgT types.Type

func (u *Unit) netMsgType() types.Type {
	if netMsgT == nil {
		u.fail("NetMsg type not available")
	}
	return netMsgT
}

// ---------- sequences ----------

func (u *Unit) seq(arr, off, l *Term, elem Sort) *Term {
	c := u.c
	s := Sort("Seq_" + sortName(elem))
	c.opaqueSort(s)
	r := c.App("seq."+sortName(elem), s, arr, off, l)
	if r.hasB || u.seqSeen[r] {
		return r
	}
	if u.seqSeen == nil {
		u.seqSeen = map[*Term]bool{}
		u.seqs = map[Sort][]*Term{}
	}
	u.seqSeen[r] = true
	for _, o := range u.seqs[s] {
		w := c.Fresh("sw", SInt)
		l2 := o.args[2]
		c.axiom(c.Or(c.Ne(l, l2),
			c.And(c.Le(c.Int(0), w), c.Lt(w, l), c.Ne(c.Select(arr, c.Add(off, w)), c.Select(o.args[0], c.Add(o.args[1], w)))),
			c.Eq(r, o)))
	}
	if len(u.seqs[s]) < 12 {
		u.seqs[s] = append(u.seqs[s], r)
	}
	return r
}

func (u *Unit) sliceSeq(st *State, sl *Term, et types.Type) *Term {
	c := u.c
	_, h := u.elemHeap(st, et)
	return u.seq(u.hsel(h, c.Sel(sl, 0)), c.Sel(sl, 1), c.Sel(sl, 2), c.SortOf(et))
}

// ---------- JSON ----------

func jsonKey(f *types.Var, tag string) (string, bool) {
	t := reflect.StructTag(tag).Get("json")
	if t == "-" {
		return "", false
	}
	n := strings.Split(t, ",")[0]
	if n == "" {
		n = f.Name()
	}
	return strings.ToLower(n), true
}

// jsonShape names a type up to what JSON decoding sees of it
func jsonShape(t types.Type) string {
	return jsonShapeD(t, 0)
}

func jsonShapeD(t types.Type, d int) string {
	t = types.Unalias(t)
	if ms := types.NewMethodSet(types.NewPointer(t)); ms.Lookup(nil, "UnmarshalJSON") != nil || ms.Lookup(nil, "UnmarshalText") != nil || d > 5 {
		return shortType(t)
	}
	switch x := t.Underlying().(type) {
	case *types.Struct:
		var fs []string
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			k, ok := jsonKey(f, x.Tag(i))
			if !ok || !f.Exported() {
				continue
			}
			if f.Embedded() {
				return shortType(t)
			}
			fs = append(fs, k+":"+jsonShapeD(f.Type(), d+1))
		}
		sort.Strings(fs)
		return "{" + strings.Join(fs, ";") + "}"
	case *types.Slice:
		if isByteSlice(t) {
			return "bytes"
		}
		return "[]" + jsonShapeD(x.Elem(), d+1)
	case *types.Array:
		return fmt.Sprintf("[%d]", x.Len()) + jsonShapeD(x.Elem(), d+1)
	case *types.Map:
		return "map[" + jsonShapeD(x.Key(), d+1) + "]" + jsonShapeD(x.Elem(), d+1)
	case *types.Pointer:
		return "*" + jsonShapeD(x.Elem(), d+1)
	case *types.Basic:
		return x.Name()
	}
	return shortType(t)
}

// decoded value of document doc at type t
func (u *Unit) jsonDec(st *State, t types.Type, doc *Term, depth int) *Term {
	c := u.c
	t = types.Unalias(t)
	if isBitSet(t) {
		return c.App("json.bits", c.SortOf(t), doc)
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch c.SortOf(t) {
		case SStr:
			return c.App("json.str", SStr, doc)
		case SInt:
			return c.App("json.int", SInt, doc)
		case SBool:
			return c.App("json.bool", SBool, doc)
		}
		return c.App("json.val."+shortType(t), c.SortOf(t), doc)
	case *types.Struct:
		s := c.SortOf(t)
		if si := c.structs[s]; si != nil && !si.opaque && depth < 6 {
			var as []*Term
			for i := 0; i < x.NumFields(); i++ {
				k, ok := jsonKey(x.Field(i), x.Tag(i))
				if !ok || !x.Field(i).Exported() {
					as = append(as, c.Zero(x.Field(i).Type()))
					continue
				}
				as = append(as, u.jsonDec(st, x.Field(i).Type(), c.App("json.sub", SStr, doc, c.Lit(k)), depth+1))
			}
			return c.Ctor(s, as...)
		}
		return c.App("json.val."+shortType(t), s, doc)
	case *types.Array:
		s := c.SortOf(t)
		if x.Len() <= 8 {
			var as []*Term
			for i := int64(0); i < x.Len(); i++ {
				as = append(as, u.jsonDec(st, x.Elem(), c.App("json.at", SStr, doc, c.Int(i)), depth+1))
			}
			return c.Ctor(s, as...)
		}
		return c.App("json.val."+shortType(t), s, doc)
	case *types.Slice:
		if isByteSlice(t) {
			b := c.App("json.b64", SStr, doc)
			if doc.hasB {
				return c.App("json.slice.byte", SSlice, doc)
			}
			return u.newBytes(st, b)
		}
		l := c.App("json.len", SInt, doc)
		if doc.hasB || depth > 2 {
			return c.App("json.slice."+shortType(x.Elem()), SSlice, doc)
		}
		a := u.alloc(st)
		k, h := u.elemHeap(st, x.Elem())
		arr := c.App("json.arr."+shortType(x.Elem()), ArrSort(SInt, c.SortOf(x.Elem())), doc)
		st.heaps[k] = c.Store(h, a, arr)
		c.axiom(c.Le(c.Int(0), l))
		q := c.BVar("q", SInt)
		if u.refFree(x.Elem()) {
			c.axiom(c.Forall([]*Term{q}, c.Eq(c.Select(arr, q), u.jsonDec(st, x.Elem(), c.App("json.at", SStr, doc, q), depth+1)), c.Select(arr, q)))
		} else if !u.flat(x.Elem()) {
			u.elemFields(c.Select(arr, q), x.Elem(), c.App("json.at", SStr, doc, q), func(f *Term, ft types.Type, d *Term) {
				c.axiom(c.Forall([]*Term{q}, c.Eq(f, u.jsonDec(st, ft, d, depth+2)), c.Select(arr, q)))
			})
		}
		return c.Ctor(SSlice, c.Ite(c.Eq(l, c.Int(0)), c.Int(0), a), c.Int(0), l, l)
	case *types.Map:
		a := u.alloc(st)
		u.mapInit(st, x, a)
		u.jsonMapFill(st, x, a, doc, c.True)
		return a
	case *types.Pointer:
		a := u.alloc(st)
		p := &Ptr{heap: cellKey(x.Elem()), ref: a, typ: x.Elem(), ptyp: x.Elem()}
		if depth < 3 && !doc.hasB {
			u.store(st, p, u.jsonDec(st, x.Elem(), doc, depth+1))
		} else {
			u.store(st, p, c.App("json.val."+shortType(x.Elem()), c.SortOf(x.Elem()), doc))
		}
		return c.Ite(c.App("json.null", SBool, doc), c.Int(0), a)
	}
	return c.App("json.val."+shortType(t), c.SortOf(t), doc)
}

// an absent key decodes to the zero value
func (u *Unit) jsonMissing() {
	c := u.c
	m := c.Lit("\x00missing")
	c.axiom(c.mkEqRaw(c.App("json.str", SStr, m), c.Lit("")))
	c.axiom(c.mkEqRaw(c.App("json.int", SInt, m), c.Int(0)))
	c.axiom(c.mkEqRaw(c.App("json.len", SInt, m), c.Int(0)))
	c.axiom(c.mkEqRaw(c.App("json.b64", SStr, m), c.Lit("")))
	c.axiom(c.Not(c.App("json.bool", SBool, m)))
}

func (u *Unit) refFree(t types.Type) bool {
	switch x := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if !u.refFree(x.Field(i).Type()) {
				return false
			}
		}
		return u.c.structs[u.c.SortOf(t)] != nil && !u.c.structs[u.c.SortOf(t)].opaque
	case *types.Array:
		return u.refFree(x.Elem())
	}
	return false
}

func (u *Unit) jsonMapFill(st *State, mt *types.Map, ref, doc, ok *Term) {
	c := u.c
	ks := c.SortOf(mt.Key())
	u.jsonMissing()
	dom := c.App("json.mdom."+sortName(ks), ArrSort(ks, SBool), doc)
	val := c.App("json.mval."+shortType(mt.Elem()), ArrSort(ks, c.SortOf(mt.Elem())), doc)
	if u.refFree(mt.Elem()) && ks == SStr {
		q := c.BVar("k", ks)
		c.axiom(c.Forall([]*Term{q}, c.Eq(c.Select(val, q), u.jsonDec(st, mt.Elem(), c.App("json.sub", SStr, doc, q), 3)), c.Select(val, q)))
		q2 := c.BVar("k", ks)
		c.axiom(c.Forall([]*Term{q2}, c.Or(c.Select(dom, q2), c.Eq(c.App("json.sub", SStr, doc, q2), c.Lit("\x00missing"))), c.Select(dom, q2)))
	}
	dk, dh := u.mapDomH(st, mt)
	vk, vh := u.mapValH(st, mt)
	ck, ch := u.mapCardH(st, mt)
	d0, v0, c0 := u.hsel(dh, ref), u.hsel(vh, ref), u.hsel(ch, ref)
	card := c.App("json.mcard", SInt, doc)
	c.axiom(c.Le(c.Int(0), card))
	_ = d0
	_ = v0
	_ = c0
	fd := c.Fresh("jd", dom.sort)
	fv := c.Fresh("jv", val.sort)
	fc := c.Fresh("jc", SInt)
	st.assume(c.Le(c.Int(0), fc))
	st.heaps[dk] = c.Store(dh, ref, c.Ite(ok, dom, fd))
	st.heaps[vk] = c.Store(vh, ref, c.Ite(ok, val, fv))
	st.heaps[ck] = c.Store(ch, ref, c.Ite(ok, card, fc))
	c.axiom(c.Eq(c.Eq(card, c.Int(0)), c.Eq(dom, c.ConstArr(ks, c.False))))
}

// the binary form of a bit set decodes to it
func (c *Ctx) binFacts(bin, v *Term) {
	c.axiom(c.Eq(c.App("bits.unbin", v.sort, bin), v))
	c.axiom(c.Eq(c.App("err.bitsunbin", SAny, bin), c.nilAny()))
}

// what a raw ASN.1 value encodes decodes to it
func (c *Ctx) asn1Facts(r *Term) {
	c.axiom(c.Eq(c.App("asn1.bytes", SStr, r), r.args[1]))
	c.axiom(c.Eq(c.App("err.asn1", SAny, r), c.nilAny()))
}

// the library's default hash function is one shared digest: two calls at once corrupt each other
func (u *Unit) merkleHash(e *ECall, cfg int) {
	p := e.ptr(cfg)
	st, ok := p.ptyp.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "HashFunc" {
			np := *p
			np.path = append(p.path[:len(p.path):len(p.path)], pstep{field: i, on: p.ptyp})
			np.ptyp = st.Field(i).Type()
			f := u.c.False
			if p.ref != nil {
				v := u.load(e.st, &np)
				if _, isF := v.(*Clo); isF {
					return
				}
				t := u.term(e.st, v, np.ptyp)
				f = u.c.And(u.c.Ne(u.ptrVal(e, cfg), u.c.Int(0)), u.c.Ne(t, u.c.Zero(np.ptyp)))
			}
			u.oblige(e.st, "merkle hash function safe for concurrent use", f, "merkletree configuration at "+u.pos(e.fr, e.in))
		}
	}
}

// no references, or only lists of plain values: such a list is not changed once it is in a struct
func (u *Unit) flat(t types.Type) bool {
	if u.refFree(t) {
		return true
	}
	x, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < x.NumFields(); i++ {
		ft := x.Field(i).Type()
		if sl, ok := ft.Underlying().(*types.Slice); ok {
			if _, basic := sl.Elem().Underlying().(*types.Basic); basic && u.refFree(sl.Elem()) {
				continue
			}
		}
		if !u.flat(ft) {
			return false
		}
	}
	return true
}

// the encoded fields of a struct, at any depth, that hold no references
func (u *Unit) elemFields(v *Term, t types.Type, doc *Term, f func(v *Term, ft types.Type, doc *Term)) {
	c := u.c
	x, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		return
	}
	if si := c.structs[c.SortOf(t)]; si == nil || si.opaque {
		return
	}
	for i := 0; i < x.NumFields(); i++ {
		k, ok := jsonKey(x.Field(i), x.Tag(i))
		if !ok || !x.Field(i).Exported() {
			continue
		}
		ft, fv, fd := x.Field(i).Type(), c.Field(v, t, i), c.App("json.sub", SStr, doc, c.Lit(k))
		if u.refFree(ft) {
			f(fv, ft, fd)
		} else {
			u.elemFields(fv, ft, fd, f)
		}
	}
}

// encoded document of a value
func (u *Unit) jsonEncT(st *State, v *Term, t types.Type, depth int) *Term {
	c := u.c
	t = types.Unalias(t)
	if isBitSet(t) {
		return c.App("json.encbits", SStr, v)
	}
	ax := func(t *Term) {
		if !t.hasB {
			c.axiom(t)
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch v.sort {
		case SStr:
			r := c.App("json.encstr", SStr, v)
			ax(c.Eq(c.App("json.str", SStr, r), v))
			return r
		case SInt:
			r := c.App("json.encint", SStr, v)
			ax(c.Eq(c.App("json.int", SInt, r), v))
			return r
		case SBool:
			r := c.App("json.encbool", SStr, v)
			ax(c.Eq(c.App("json.bool", SBool, r), v))
			return r
		}
		return c.App("json.enc."+shortType(t), SStr, v)
	case *types.Struct:
		si := c.structs[c.SortOf(t)]
		r := c.App("json.enc."+shortType(t), SStr, v)
		if si == nil || si.opaque || depth > 4 {
			ax(c.Eq(c.App("json.val."+shortType(t), v.sort, r), v))
			return r
		}
		if !u.flat(t) { // the document depends on what the references lead to
			var ds []*Term
			for i := 0; i < x.NumFields(); i++ {
				if _, ok := jsonKey(x.Field(i), x.Tag(i)); ok && x.Field(i).Exported() {
					ds = append(ds, u.jsonEncT(st, c.Field(v, t, i), x.Field(i).Type(), depth+1))
				}
			}
			if len(ds) > 0 {
				r = c.App("json.encref."+shortType(t), SStr, ds...)
			}
		}
		for i := 0; i < x.NumFields(); i++ {
			k, ok := jsonKey(x.Field(i), x.Tag(i))
			if !ok || !x.Field(i).Exported() {
				continue
			}
			ax(c.Eq(c.App("json.sub", SStr, r, c.Lit(k)), u.jsonEncT(st, c.Field(v, t, i), x.Field(i).Type(), depth+1)))
		}
		ax(c.Eq(c.App("json.err."+jsonShape(t), SAny, r), c.nilAny()))
		return r
	case *types.Array:
		r := c.App("json.enc."+shortType(t), SStr, v)
		if x.Len() <= 8 {
			for i := int64(0); i < x.Len(); i++ {
				ax(c.Eq(c.App("json.at", SStr, r, c.Int(i)), u.jsonEncT(st, c.Sel(v, int(i)), x.Elem(), depth+1)))
			}
		}
		return r
	case *types.Slice:
		if isByteSlice(t) {
			b := u.bytesContent(st, v)
			r := c.App("json.encb64", SStr, b)
			ax(c.Eq(c.App("json.b64", SStr, r), b))
			return r
		}
		q := u.sliceSeq(st, v, x.Elem())
		r := c.App("json.encseq."+sortName(q.sort), SStr, q)
		ax(c.Eq(c.App("json.len", SInt, r), c.Sel(v, 2)))
		if u.refFree(x.Elem()) && !r.hasB {
			_, h := u.elemHeap(st, x.Elem())
			arr := u.hsel(h, c.Sel(v, 0))
			qv := c.BVar("q", SInt)
			es := c.SortOf(x.Elem())
			ja := c.App("json.arr."+shortType(x.Elem()), ArrSort(SInt, es), r)
			c.axiom(c.Forall([]*Term{qv}, c.Implies(c.And(c.Le(c.Int(0), qv), c.Lt(qv, c.Sel(v, 2))), c.Eq(c.Select(ja, qv), c.Select(arr, c.Add(c.Sel(v, 1), qv)))), c.Select(ja, qv)))
			if es == SStr {
				qw := c.BVar("q", SInt)
				at := c.App("json.at", SStr, r, qw)
				c.axiom(c.Forall([]*Term{qw}, c.Implies(c.And(c.Le(c.Int(0), qw), c.Lt(qw, c.Sel(v, 2))), c.Eq(c.App("json.str", SStr, at), c.Select(arr, c.Add(c.Sel(v, 1), qw)))), at))
			}
		}
		if !u.flat(x.Elem()) && !r.hasB {
			_, h := u.elemHeap(st, x.Elem())
			arr := u.hsel(h, c.Sel(v, 0))
			qv := c.BVar("q", SInt)
			at := c.App("json.at", SStr, r, qv)
			u.elemFields(c.Select(arr, c.Add(c.Sel(v, 1), qv)), x.Elem(), at, func(f *Term, ft types.Type, d *Term) {
				c.axiom(c.Forall([]*Term{qv}, c.Implies(c.And(c.Le(c.Int(0), qv), c.Lt(qv, c.Sel(v, 2))), c.Eq(u.jsonDec(st, ft, d, depth+2), f)), at))
			})
		}
		ax(c.Eq(c.App("json.err."+jsonShape(t), SAny, r), c.nilAny()))
		return r
	case *types.Map:
		d, m := u.mapDom(st, x, v), u.mapVal(st, x, v)
		return c.App("json.encmap."+shortType(t), SStr, d, m)
	case *types.Pointer:
		if depth > 3 {
			return c.App("json.encptr."+shortType(t), SStr, v)
		}
		p := u.toPtr(v, t)
		return u.jsonEncT(st, u.term(st, u.load(st, p), p.ptyp), x.Elem(), depth+1)
	}
	return c.App("json.enc."+shortType(t), SStr, v)
}

func (u *Unit) jsonEnc(st *State, v Val, t types.Type) *Term {
	if iv, ok := v.(*IfaceV); ok {
		return u.jsonEnc(st, iv.v, iv.typ)
	}
	if p, ok := v.(*Ptr); ok {
		x := u.load(st, p)
		return u.jsonEnc(st, x, p.ptyp)
	}
	return u.jsonEncT(st, u.term(st, v, t), t, 0)
}

// decode content into the target of an `any` argument holding a pointer
func (e *ECall) jsonInto(i int, content *Term) *Term {
	u, c := e.u, e.u.c
	iv, ok := e.args[i].(*IfaceV)
	if !ok {
		u.fail("json decode into unknown target at %s", u.pos(e.fr, e.in))
	}
	pt, ok := iv.typ.Underlying().(*types.Pointer)
	if !ok {
		u.fail("json decode into non-pointer")
	}
	T := pt.Elem()
	p := u.toPtr(iv.v, iv.typ)
	err := c.App("json.err."+jsonShape(T), SAny, content)
	okv := c.Eq(err, c.nilAny())
	if mt, isM := T.Underlying().(*types.Map); isM {
		cur := u.term(e.st, u.load(e.st, p), T)
		if cur.op == OInt && cur.ival == 0 {
			a := u.alloc(e.st)
			u.mapInit(e.st, mt, a)
			u.jsonMapFill(e.st, mt, a, content, okv)
			u.store(e.st, p, a)
			return err
		}
		if isAlloc(cur) {
			u.jsonMapFill(e.st, mt, cur, content, okv)
			return err
		}
		a := u.alloc(e.st)
		u.mapInit(e.st, mt, a)
		u.jsonMapFill(e.st, mt, a, content, okv)
		u.store(e.st, p, a)
		return err
	}
	if isBitSet(T) {
		v := u.jsonDec(e.st, T, content, 0)
		u.store(e.st, p, c.Ite(okv, v, c.Fresh("undec", v.sort)))
		return err
	}
	v := u.jsonDec(e.st, T, content, 0)
	bad := c.Fresh("undec", v.sort)
	if !u.refFree(T) {
		u.deepFacts(e.st, bad, T)
	}
	if sT, isS := T.Underlying().(*types.Struct); isS && v.op == OCtor && len(v.args) == sT.NumFields() {
		cur := u.term(e.st, u.load(e.st, p), T)
		blank := cur == c.Zero(T)
		// fieldwise ite keeps selectors simple
		var as []*Term
		for k, a := range v.args {
			f := sT.Field(k)
			b := c.Sel(bad, k)
			if key, ok := jsonKey(f, sT.Tag(k)); ok && f.Exported() && blank {
				// what a failed decoding leaves in a blank target depends on the input only
				if u.refFree(f.Type()) {
					b = c.App("json.undec."+key+"."+string(a.sort), a.sort, content)
				} else if isByteSlice(f.Type()) {
					b = u.newBytes(e.st, c.App("json.undec64."+key, SStr, content))
				}
			} else if ok && f.Exported() {
				// a key that is absent leaves the field as it was
				a = c.Ite(c.App("json.has", SBool, content, c.Lit(key)), a, c.Sel(cur, k))
			} else {
				a, b = c.Sel(cur, k), c.Sel(cur, k)
			}
			as = append(as, c.Ite(okv, a, b))
		}
		v = c.Ctor(v.sort, as...)
	} else {
		v = c.Ite(okv, v, bad)
	}
	u.store(e.st, p, v)
	return err
}

func (u *Unit) deepFacts(st *State, v *Term, t types.Type) {
	switch x := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		if si := u.c.structs[v.sort]; si != nil && !si.opaque {
			for i := 0; i < x.NumFields(); i++ {
				u.deepFacts(st, u.c.Sel(v, i), x.Field(i).Type())
			}
		}
	case *types.Slice, *types.Map, *types.Pointer:
		u.refFacts(st, v, t)
	}
}

// JSON facts about a string built from a literal template
func (u *Unit) jsonTemplate(format string, args []*Term, s *Term) {
	c := u.c
	if !strings.HasPrefix(strings.TrimSpace(format), "{") || s.hasB {
		return
	}
	n := 0
	probe := format
	for strings.Contains(probe, "%s") {
		i := strings.Index(probe, "%s")
		quoted := strings.Count(probe[:i], "\"")%2 == 1
		tok := fmt.Sprintf("ARG%d", n)
		if !quoted {
			tok = "\"RAW" + fmt.Sprint(n) + "\""
		}
		probe = probe[:i] + tok + probe[i+2:]
		n++
	}
	var m map[string]interface{}
	if n != len(args) || json.Unmarshal([]byte(probe), &m) != nil {
		return
	}
	safe := c.True
	allStr, shape := true, []string{}
	for k, v := range m {
		str, ok := v.(string)
		if !ok {
			allStr, shape = false, nil
			continue
		}
		if strings.HasPrefix(str, "RAW") {
			allStr = false
			var j int
			fmt.Sscanf(str, "RAW%d", &j)
			if shape != nil && args[j].op == OApp && args[j].name == "json.encseq."+"Seq_"+sortName(SStr) {
				shape = append(shape, strings.ToLower(k)+":[]string")
			} else {
				shape = nil
			}
		} else if shape != nil {
			shape = append(shape, strings.ToLower(k)+":string")
		}
		sub := c.App("json.sub", SStr, s, c.Lit(strings.ToLower(k)))
		if strings.HasPrefix(str, "ARG") {
			var j int
			fmt.Sscanf(str, "ARG%d", &j)
			sf := u.jsonSafe(args[j])
			safe = c.And(safe, sf)
			c.axiom(c.Implies(sf, c.Eq(c.App("json.str", SStr, sub), args[j])))
		} else if strings.HasPrefix(str, "RAW") {
			var j int
			fmt.Sscanf(str, "RAW%d", &j)
			c.axiom(c.Eq(sub, args[j]))
		} else {
			c.axiom(c.Eq(c.App("json.str", SStr, sub), c.Lit(str)))
		}
		dom := c.App("json.mdom.Str", ArrSort(SStr, SBool), s)
		c.axiom(c.Select(dom, c.Lit(k)))
	}
	if shape != nil {
		sort.Strings(shape)
		c.axiom(c.Implies(safe, c.Eq(c.App("json.err.{"+strings.Join(shape, ";")+"}", SAny, s), c.nilAny())))
	}
	if !allStr {
		return
	}
	c.axiom(c.Implies(safe, c.Eq(c.App("json.err."+jsonShape(types.NewMap(types.Typ[types.String], types.Typ[types.String])), SAny, s), c.nilAny())))
	u.jsonTmpl = append(u.jsonTmpl, [2]*Term{s, safe})
}

func (u *Unit) jsonSafe(t *Term) *Term {
	c := u.c
	if t.op == OApp && (strings.HasPrefix(t.name, "hex.") || strings.HasPrefix(t.name, "bls.hex")) {
		return c.True
	}
	if t.op == OLit {
		b, _ := json.Marshal(t.name)
		return c.Bool(string(b) == "\""+t.name+"\"")
	}
	return c.App("jsonsafe", SBool, t)
}

// ---------- formatting ----------

// variadic ...any argument: the Go-side values
func (e *ECall) variadic(i int) ([]Val, []types.Type, bool) {
	u, c := e.u, e.u.c
	s := e.t(i)
	l := c.Sel(s, 2)
	if l.op != OInt {
		return nil, nil, false
	}
	var vs []Val
	var ts []types.Type
	for j := int64(0); j < l.ival; j++ {
		p := &Ptr{heap: elemKey(types.NewInterfaceType(nil, nil)), ref: c.Sel(s, 0), idx: c.Add(c.Sel(s, 1), c.Int(j)), typ: types.NewInterfaceType(nil, nil), ptyp: types.NewInterfaceType(nil, nil)}
		et := e.ts[i].Underlying().(*types.Slice).Elem()
		p.typ, p.ptyp, p.heap = et, et, elemKey(et)
		v := u.load(e.st, p)
		if iv, ok := v.(*IfaceV); ok {
			vs = append(vs, iv.v)
			ts = append(ts, iv.typ)
		} else {
			vs = append(vs, v)
			ts = append(ts, et)
		}
	}
	return vs, ts, true
}

func (e *ECall) fmtArg(v Val, t types.Type) *Term {
	u, c := e.u, e.u.c
	if iv, ok := v.(*IfaceV); ok {
		v, t = iv.v, iv.typ
	}
	// String / Error methods are not modelled except plain strings
	x := u.term(e.st, v, t)
	switch {
	case isString(t) && !hasStringMethod(t):
		return x
	case isString(t):
		return c.App("fmt.string."+shortType(t), SStr, x)
	case isByteSlice(t):
		return u.bytesContent(e.st, x)
	case x.sort == SInt && !hasStringMethod(t):
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return u.itoaT(x)
		}
	}
	return c.App("fmt.v."+shortType(t), SStr, x)
}

func hasStringMethod(t types.Type) bool {
	for _, T := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(T)
		if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
			return true
		}
	}
	return false
}

func (u *Unit) itoaT(x *Term) *Term {
	c := u.c
	if x.op == OInt {
		return c.Lit(fmt.Sprint(x.ival))
	}
	r := c.App("itoa", SStr, x)
	if !r.hasB {
		c.axiom(c.Eq(c.App("atoi", SInt, r), x))
		c.axiom(c.Ne(r, c.Lit("")))
	}
	return r
}

func (e *ECall) sprintf(fi, ai int) *Term {
	u, c := e.u, e.u.c
	f := e.t(fi)
	vs, ts, ok := e.variadic(ai)
	if f.op != OLit || !ok {
		return c.Fresh("sprintf", SStr)
	}
	var parts []*Term
	var sargs []*Term
	onlyS := true
	s := f.name
	n := 0
	for {
		i := strings.Index(s, "%")
		if i < 0 {
			parts = append(parts, c.Lit(s))
			break
		}
		parts = append(parts, c.Lit(s[:i]))
		s = s[i+1:]
		if s == "" {
			break
		}
		switch s[0] {
		case '%':
			parts = append(parts, c.Lit("%"))
			s = s[1:]
			continue
		case 's', 'v', 'd', 'w', 'q', 'x', 't', 'f', 'T', '+':
			verb := s[0]
			if n >= len(vs) {
				return c.Fresh("sprintf", SStr)
			}
			a := e.fmtArg(vs[n], ts[n])
			if verb != 's' {
				onlyS = false
			}
			if verb != 's' && verb != 'v' && verb != 'd' {
				a = c.App("fmt."+string(verb), SStr, a)
			}
			parts = append(parts, a)
			sargs = append(sargs, a)
			n++
			s = s[1:]
		case '0':
			// %02d: at least two digits
			if !strings.HasPrefix(s, "02d") || n >= len(vs) {
				return c.Fresh("sprintf", SStr)
			}
			av, at := vs[n], ts[n]
			if w, ok := av.(*IfaceV); ok {
				av, at = w.v, w.typ
			}
			iv, isI := at.Underlying().(*types.Basic)
			if !isI || iv.Info()&types.IsInteger == 0 {
				return c.Fresh("sprintf", SStr)
			}
			x := u.term(e.st, av, at)
			d := u.itoaT(x)
			onlyS = false
			parts = append(parts, c.Ite(c.And(c.Le(c.Int(0), x), c.Lt(x, c.Int(10))), c.Cat(c.Lit("0"), d), c.Ite(c.Lt(c.Int(9), x), d, c.App("fmt.02d", SStr, x))))
			n++
			s = s[3:]
		default:
			return c.Fresh("sprintf", SStr)
		}
	}
	r := c.Cat(parts...)
	if onlyS {
		u.jsonTemplate(f.name, sargs, r)
	}
	return r
}

// ---------- generic external ----------

func (u *Unit) generic(e *ECall) []Outcome {
	c := u.c
	rs := e.sig.Results()
	var rets []Val
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		v := u.freshVal(e.st, "x."+e.name, t)
		rets = append(rets, v)
	}
	n := rs.Len()
	if n > 0 && types.Identical(rs.At(n-1).Type(), errT) {
		err := rets[n-1].(*Term)
		for i := 0; i < n-1; i++ {
			switch rs.At(i).Type().Underlying().(type) {
			case *types.Pointer:
				e.st.assume(c.Eq(c.Eq(err, c.nilAny()), c.Ne(rets[i].(*Term), c.Int(0))))
			}
		}
	} else if n == 1 {
		if _, ok := rs.At(0).Type().Underlying().(*types.Pointer); ok {
			e.st.assume(c.Ne(rets[0].(*Term), c.Int(0)))
			e.st.nonnil[rets[0].(*Term).id] = true
		}
	}
	u.c.extsUsed["(generic) "+e.name] = true
	return e.ret(rets...)
}

type model func(e *ECall) []Outcome

func noop(e *ECall) []Outcome {
	var rs []Val
	for i := 0; i < e.sig.Results().Len(); i++ {
		rs = append(rs, e.u.freshVal(e.st, "n", e.sig.Results().At(i).Type()))
	}
	return e.ret(rs...)
}

func exitModel(e *ECall) []Outcome {
	return []Outcome{{kind: KExit, st: e.st, msg: e.name + " " + e.u.pos(e.fr, e.in)}}
}

// deterministic function of contents
func ufModel(name string, results ...interface{}) model { return nil }

const bsPkg = "(*github.com/bits-and-blooms/bitset.BitSet)."
const blsPkg = "(*github.com/herumi/bls-go-binary/bls."

func nowModel(e *ECall) []Outcome {
	return e.ret(e.u.nowPeriod)
}

// pointwise set operation as an uninterpreted function with its defining axiom
func (u *Unit) setOp(name string, a, b *Term) *Term {
	c := u.c
	r := c.App("bits."+name, a.sort, a, b)
	if !r.hasB && !u.setSeen[r] {
		if u.setSeen == nil {
			u.setSeen = map[*Term]bool{}
		}
		u.setSeen[r] = true
		i := c.BVar("i", SInt)
		x, y := c.Select(a, i), c.Select(b, i)
		var body *Term
		switch name {
		case "union":
			body = c.Or(x, y)
		case "inter":
			body = c.And(x, y)
		case "diff":
			body = c.And(x, c.Not(y))
		case "sym":
			body = c.Not(c.Eq(x, y))
		}
		c.axiom(c.Forall([]*Term{i}, c.Eq(c.Select(r, i), body), c.Select(r, i)))
	}
	return r
}

func (e *ECall) newBits(v *Term) *Ptr {
	u := e.u
	T := deref(e.ts[0])
	a := u.alloc(e.st)
	p := &Ptr{heap: cellKey(T), ref: a, typ: T, ptyp: T}
	u.store(e.st, p, v)
	return p
}

func setModel(name string, inplace bool) model {
	return func(e *ECall) []Outcome {
		var outs []Outcome
		if !e.nilGuard(0, "bitset", &outs) || !e.nilGuard(1, "bitset", &outs) {
			return outs
		}
		r := e.u.setOp(name, e.val(0), e.val(1))
		if inplace {
			e.u.store(e.st, e.ptr(0), r)
			return append(outs, e.ret()...)
		}
		return append(outs, e.ret(e.newBits(r))...)
	}
}

func hashModel(e *ECall) []Outcome { return nil }

func (e *ECall) setGhost(key string, x *Term) {
	u := e.u
	s := u.ghostSort(key)
	h := u.heap(e.st, key, s)
	e.st.heaps[key] = u.c.Store(h, x, u.c.True)
}

func httpResp(e *ECall, msg *Term) []Outcome {
	u, c := e.u, e.u.c
	if msg != nil {
		e.setGhost("NET", msg)
	}
	rt := e.sig.Results().At(0).Type()
	// failure
	fs := e.st.clone()
	ferr := u.newErr("http")
	ok := e.st
	a := u.alloc(ok)
	T := deref(rt)
	p := &Ptr{heap: cellKey(T), ref: a, typ: T, ptyp: T}
	v := c.Fresh("resp", c.SortOf(T))
	u.store(ok, p, v)
	// Body is never nil on success
	c.axiom(c.Ne(c.Fld(v, "Body", SAny), c.nilAny()))
	return []Outcome{{kind: KReturn, st: fs, rets: []Val{c.Int(0), ferr}}, {kind: KReturn, st: ok, rets: []Val{p, c.nilAny()}}}
}

func (e *ECall) readerContent(i int) *Term {
	u, c := e.u, e.u.c
	v := e.args[i]
	if iv, ok := v.(*IfaceV); ok {
		t := u.term(e.st, iv.v, iv.typ)
		if p := u.fileOf[t]; p != nil {
			return c.App("filecontent", SStr, p)
		}
		if strings.Contains(shortType(iv.typ), "bytes.Buffer") || strings.Contains(shortType(iv.typ), "bytes.Reader") || strings.Contains(shortType(iv.typ), "strings.Reader") {
			return c.App("bufcontent", SStr, t)
		}
	}
	return c.App("readall", SStr, u.term(e.st, v, e.ts[i]))
}

func (u *Unit) permSort(e *ECall) []Outcome {
	c := u.c
	iv, ok := e.args[0].(*IfaceV)
	if !ok {
		return noop(e)
	}
	sl, ok := iv.typ.Underlying().(*types.Slice)
	if !ok {
		return noop(e)
	}
	s := u.term(e.st, iv.v, iv.typ)
	k, h := u.elemHeap(e.st, sl.Elem())
	arr := u.hsel(h, c.Sel(s, 0))
	na := c.Fresh("sorted", arr.sort)
	off, l := c.Sel(s, 1), c.Sel(s, 2)
	p := c.Fresh("perm", ArrSort(SInt, SInt))
	pi := c.Fresh("pinv", ArrSort(SInt, SInt))
	i := c.BVar("i", SInt)
	in := func(x *Term) *Term { return c.And(c.Le(c.Int(0), x), c.Lt(x, l)) }
	e.st.assume(c.Forall([]*Term{i}, c.Implies(in(i), c.And(in(c.Select(p, i)), c.Eq(c.Select(na, c.Add(off, i)), c.Select(arr, c.Add(off, c.Select(p, i)))), c.Eq(c.Select(pi, c.Select(p, i)), i)))))
	j := c.BVar("j", SInt)
	e.st.assume(c.Forall([]*Term{j}, c.Implies(in(j), c.And(in(c.Select(pi, j)), c.Eq(c.Select(p, c.Select(pi, j)), j), c.Eq(c.Select(na, c.Add(off, c.Select(pi, j))), c.Select(arr, c.Add(off, j)))))))
	e.st.heaps[k] = c.Store(h, c.Sel(s, 0), na)
	return e.ret()
}

var extModels map[string]model

func init() {
	extModels = map[string]model{
		"fmt.Println": noop, "fmt.Printf": noop, "fmt.Print": noop, "log.Println": noop, "log.Printf": noop, "log.Print": noop,
		"log.Fatal": exitModel, "log.Fatalf": exitModel, "log.Fatalln": exitModel, "os.Exit": exitModel,
		"log.Panic":   func(e *ECall) []Outcome { return []Outcome{e.u.panicOut(e.st, "log.Panic")} },
		"time.Sleep":  noop,
		"sort.Sort":   func(e *ECall) []Outcome { return e.u.permSort(e) },
		"errors.New":  func(e *ECall) []Outcome { return e.ret(e.u.newErr("new", e.t(0))) },
		"fmt.Errorf":  func(e *ECall) []Outcome { return e.ret(e.u.newErr("fmt", e.sprintf(0, 1))) },
		"fmt.Sprintf": func(e *ECall) []Outcome { return e.ret(e.sprintf(0, 1)) },
		"fmt.Sprint": func(e *ECall) []Outcome {
			vs, ts, ok := e.variadic(0)
			if !ok || len(vs) != 1 {
				return e.ret(e.u.c.Fresh("sprint", SStr))
			}
			return e.ret(e.fmtArg(vs[0], ts[0]))
		},
		"strconv.Itoa": func(e *ECall) []Outcome { return e.ret(e.u.itoaT(e.t(0))) },
		"strconv.Atoi": func(e *ECall) []Outcome {
			c := e.u.c
			s := e.t(0)
			return e.ret(c.App("atoi", SInt, s), c.App("err.atoi", SAny, s))
		},
		"strings.Contains": func(e *ECall) []Outcome { return e.ret(e.u.c.App("strings.Contains", SBool, e.t(0), e.t(1))) },
		"bytes.Equal":      func(e *ECall) []Outcome { return e.ret(e.u.c.Eq(e.str(0), e.str(1))) },
		"reflect.DeepEqual": func(e *ECall) []Outcome {
			u := e.u
			a, oka := e.args[0].(*IfaceV)
			b, okb := e.args[1].(*IfaceV)
			if oka && okb {
				if !types.Identical(a.typ, b.typ) {
					return e.ret(u.c.False)
				}
				if isByteSlice(a.typ) {
					return e.ret(u.c.Eq(u.bytesContent(e.st, u.term(e.st, a.v, a.typ)), u.bytesContent(e.st, u.term(e.st, b.v, b.typ))))
				}
				if u.refFree(a.typ) {
					return e.ret(u.c.Eq(u.term(e.st, a.v, a.typ), u.term(e.st, b.v, b.typ)))
				}
				x, y := u.term(e.st, a.v, a.typ), u.term(e.st, b.v, b.typ)
				r := u.c.App("deepequal."+shortType(a.typ), SBool, x, y)
				e.st.assume(u.c.Implies(u.c.Eq(x, y), r))
				// equal on every reference-free component
				if st, ok := a.typ.Underlying().(*types.Struct); ok && u.c.dts[x.sort] != nil {
					for i := 0; i < st.NumFields(); i++ {
						if u.refFree(st.Field(i).Type()) {
							e.st.assume(u.c.Implies(r, u.c.Eq(u.c.Sel(x, i), u.c.Sel(y, i))))
						}
					}
				}
				return e.ret(r)
			}
			return e.ret(u.c.Fresh("deq", SBool))
		},
		"encoding/hex.EncodeToString": func(e *ECall) []Outcome {
			return e.ret(e.u.hexEnc(e.str(0)))
		},
		"encoding/hex.DecodeString": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			s := e.t(0)
			d := c.App("unhex", SStr, s)
			c.axiom(c.Eq(c.App("unhex", SStr, c.Lit("")), c.Lit("")))
			return e.ret(u.newBytes(e.st, d), c.App("err.unhex", SAny, s))
		},
		"encoding/hex.DecodedLen": func(e *ECall) []Outcome {
			c := e.u.c
			r := c.App("half", SInt, e.t(0))
			c.axiom(c.Implies(c.Le(c.Int(0), e.t(0)), c.Le(c.Int(0), r)))
			return e.ret(r)
		},
		"encoding/hex.Decode": func(e *ECall) []Outcome {
			// writes half the source length of bytes into dst; dst is exactly that long in this code base
			u, c := e.u, e.u.c
			s := e.str(1)
			d := c.App("unhex", SStr, s)
			dst := e.t(0)
			err := c.App("err.unhex", SAny, s)
			var outs []Outcome
			if !u.guard(e.st, c.Le(c.App("half", SInt, c.StrLen(s)), c.Sel(dst, 2)), "hex.Decode destination too short "+u.pos(e.fr, e.in), &outs) {
				return outs
			}
			k, h := u.elemHeap(e.st, types.Typ[types.Byte])
			na := c.Fresh("hexdst", ArrSort(SInt, SInt))
			e.st.assume(c.Implies(c.And(c.Eq(err, c.nilAny()), c.Eq(c.Sel(dst, 2), c.App("half", SInt, c.StrLen(s)))), c.Eq(u.b2s(na, c.Sel(dst, 1), c.Sel(dst, 2)), d)))
			e.st.heaps[k] = c.Store(h, c.Sel(dst, 0), na)
			return append(outs, e.ret(c.Fresh("n", SInt), err)...)
		},
		"encoding/json.Marshal": func(e *ECall) []Outcome {
			r := e.u.jsonEnc(e.st, e.args[0], e.ts[0])
			e.st.assume(e.u.c.Ne(r, e.u.c.Lit(""))) // no JSON document is empty
			return e.ret(e.u.newBytes(e.st, r), e.u.c.nilAny())
		},
		"encoding/json.MarshalIndent": func(e *ECall) []Outcome {
			u := e.u
			return e.ret(u.newBytes(e.st, u.c.App("json.indent", SStr, u.jsonEnc(e.st, e.args[0], e.ts[0]))), u.c.nilAny())
		},
		"encoding/json.Unmarshal": func(e *ECall) []Outcome {
			return e.ret(e.jsonInto(1, e.str(0)))
		},
		"encoding/json.NewDecoder": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			a := u.alloc(e.st)
			e.st.assume(c.Eq(c.App("decsrc", SStr, a), e.readerContent(0)))
			return e.ret(a)
		},
		"(*encoding/json.Decoder).Decode": func(e *ECall) []Outcome {
			c := e.u.c
			return e.ret(e.jsonInto(1, c.App("decsrc", SStr, e.t(0))))
		},
		"encoding/json.NewEncoder": func(e *ECall) []Outcome { return e.ret(e.u.alloc(e.st)) },
		"(*encoding/json.Encoder).Encode": func(e *ECall) []Outcome {
			e.setGhost("REPLY", e.u.jsonEnc(e.st, e.args[1], e.ts[1]))
			return e.ret(e.u.c.Fresh("encerr", SAny))
		},
		"bytes.NewBuffer": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			a := u.alloc(e.st)
			e.st.assume(c.Eq(c.App("bufcontent", SStr, a), e.str(0)))
			return e.ret(a)
		},
		"bytes.NewReader": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			a := u.alloc(e.st)
			e.st.assume(c.Eq(c.App("bufcontent", SStr, a), e.str(0)))
			return e.ret(a)
		},
		// --- gzip: decompression is a function of the compressed bytes, and undoes compression ---
		"compress/gzip.NewReader": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			src := e.readerContent(0)
			a := u.alloc(e.st)
			err := c.App("err.gzip", SAny, src)
			e.st.assume(c.Eq(c.App("gzsrc", SStr, a), src))
			return e.ret(c.Ite(c.Eq(err, c.nilAny()), a, c.Int(0)), err)
		},
		"compress/gzip.NewWriter": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			iv, ok := e.args[0].(*IfaceV)
			if !ok || !strings.Contains(shortType(iv.typ), "bytes.Buffer") {
				return noop(e)
			}
			a := u.alloc(e.st)
			if u.gzdst == nil {
				u.gzdst = map[*Term]*Term{}
			}
			u.gzdst[a] = u.term(e.st, iv.v, iv.typ)
			h := u.heap(e.st, "X:gzin", ArrSort(SInt, SStr))
			e.st.heaps["X:gzin"] = c.Store(h, a, c.Lit(""))
			return e.ret(a)
		},
		"(*compress/gzip.Writer).Write": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			w := e.t(0)
			h := u.heap(e.st, "X:gzin", ArrSort(SInt, SStr))
			e.st.heaps["X:gzin"] = c.Store(h, w, c.Cat(c.Select(h, w), e.str(1)))
			err := c.Fresh("err.gzw", SAny)
			if u.gzdst[w] != nil {
				err = c.nilAny() // a bytes.Buffer takes every write
			}
			return e.ret(c.Fresh("n", SInt), err)
		},
		"(*compress/gzip.Writer).Close": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			w := e.t(0)
			in := c.Select(u.heap(e.st, "X:gzin", ArrSort(SInt, SStr)), w)
			z := c.App("gz", SStr, in)
			c.axiom(c.Eq(c.App("gunzip", SStr, z), in))
			c.axiom(c.Eq(c.App("err.gzip", SAny, z), c.nilAny()))
			c.axiom(c.Eq(c.App("err.gunzip", SAny, z), c.nilAny()))
			h := u.heap(e.st, "X:buf", ArrSort(SInt, SStr))
			dst := u.gzdst[w]
			if dst == nil {
				dst = c.App("gzdst", SInt, w)
			}
			e.st.heaps["X:buf"] = c.Store(h, dst, z)
			return e.ret(c.nilAny())
		},
		"(*bytes.Buffer).Bytes": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			return e.ret(u.newBytes(e.st, c.Select(u.heap(e.st, "X:buf", ArrSort(SInt, SStr)), u.ptrVal(e, 0))))
		},
		"io.ReadAll": readAll, "io/ioutil.ReadAll": readAll,
		"(*net/http.Client).Post": func(e *ECall) []Outcome {
			c := e.u.c
			return httpResp(e, c.Ctor(e.u.netSort(), e.t(1), e.readerContent(3)))
		},
		"net/http.Post": func(e *ECall) []Outcome {
			c := e.u.c
			return httpResp(e, c.Ctor(e.u.netSort(), e.t(0), e.readerContent(2)))
		},
		"net/http.Get": func(e *ECall) []Outcome { return httpResp(e, e.u.c.Ctor(e.u.netSort(), e.t(0), e.u.c.Lit("GET"))) },
		"(*net/http.Client).Get": func(e *ECall) []Outcome {
			return httpResp(e, e.u.c.Ctor(e.u.netSort(), e.t(1), e.u.c.Lit("GET")))
		},
		"net/http.Error": func(e *ECall) []Outcome {
			e.setGhost("STATUS", e.t(2))
			return e.ret()
		},
		"iface.WriteHeader": func(e *ECall) []Outcome {
			e.setGhost("STATUS", e.t(1))
			return e.ret()
		},
		"iface.Error": func(e *ECall) []Outcome {
			var outs []Outcome
			if !e.u.guard(e.st, e.u.c.Ne(e.t(0), e.u.c.nilAny()), "nil error dereference "+e.u.pos(e.fr, e.in), &outs) {
				return outs
			}
			return append(outs, e.ret(e.u.c.App("errtext", SStr, e.t(0)))...)
		},
		"iface.Close": noop,
		"iface.Write": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			t := e.t(0)
			k := fmt.Sprintf("hash:%d", t.id)
			if h, ok := e.st.notes[k].([2]*Term); ok {
				e.st.notes[k] = [2]*Term{h[0], c.Cat(h[1], e.str(1))}
				return e.ret(c.Sel(e.t(1), 2), c.nilAny())
			}
			if strings.Contains(e.name, "http.ResponseWriter") {
				e.setGhost("REPLY", e.str(1))
			}
			_ = u
			return noop(e)
		},
		"iface.Sum": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			t := e.t(0)
			k := fmt.Sprintf("hash:%d", t.id)
			if h, ok := e.st.notes[k].([2]*Term); ok {
				return e.ret(u.newBytes(e.st, c.Cat(e.str(1), c.hashOf(h[0], h[1]))))
			}
			return u.generic(e)
		},
		"(crypto.Hash).New": func(e *ECall) []Outcome {
			c := e.u.c
			a := c.Fresh("hasher", SAny)
			c.axiom(c.Ne(a, c.nilAny()))
			if e.st.notes == nil {
				e.st.notes = map[string]Val{}
			}
			e.st.notes[fmt.Sprintf("hash:%d", a.id)] = [2]*Term{e.t(0), c.Lit("")}
			return e.ret(a)
		},
		"crypto/sha256.Sum256": func(e *ECall) []Outcome {
			c := e.u.c
			h := c.hashOf(c.Int(5), e.str(0))
			return e.ret(c.App("s2a", ArrSort(SInt, SInt), h))
		},
		"crypto/rsa.VerifyPKCS1v15": func(e *ECall) []Outcome {
			var outs []Outcome
			if !e.nilGuard(0, "nil RSA key", &outs) {
				return outs
			}
			c := e.u.c
			ok := c.App("rsa.ok", SBool, e.val(0), e.t(1), e.str(2), e.str(3))
			// the library rejects a key without modulus
			c.axiom(c.Implies(c.Eq(e.val(0), c.Zero(deref(e.ts[0]))), c.Not(ok)))
			return append(outs, e.ret(e.u.errIff("rsa", ok, e.val(0), e.t(1), e.str(2), e.str(3)))...)
		},
		"crypto/rsa.SignPKCS1v15": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			var outs []Outcome
			if !e.nilGuard(1, "nil RSA key", &outs) {
				return outs
			}
			k := e.val(1)
			s := c.App("rsa.sig", SStr, k, e.t(2), e.str(3))
			err := c.App("err.rsasign", SAny, k, e.t(2), e.str(3))
			// a signature verifies under the public half of the key
			pt := deref(e.ts[1]).Underlying().(*types.Struct)
			for i := 0; i < pt.NumFields(); i++ {
				if pt.Field(i).Name() == "PublicKey" {
					pub := c.Field(k, deref(e.ts[1]), i)
					c.axiom(c.Implies(c.Eq(err, c.nilAny()), c.App("rsa.ok", SBool, pub, e.t(2), e.str(3), s)))
				}
			}
			return append(outs, e.ret(u.newBytes(e.st, s), err)...)
		},
		// --- BLS ---
		blsPkg + "Sign).DeserializeHexStr": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			var outs []Outcome
			if !e.nilGuard(0, "nil BLS signature", &outs) {
				return outs
			}
			s := e.t(1)
			old := e.val(0)
			v := c.App("bls.unhex", old.sort, s)
			err := c.App("err.blsunhex", SAny, s)
			u.store(e.st, e.ptr(0), c.Ite(c.Eq(err, c.nilAny()), v, c.Fresh("badsig", old.sort)))
			return append(outs, e.ret(err)...)
		},
		blsPkg + "Sign).SerializeToHexStr": func(e *ECall) []Outcome {
			c := e.u.c
			var outs []Outcome
			if !e.nilGuard(0, "nil BLS signature", &outs) {
				return outs
			}
			v := e.val(0)
			r := c.App("bls.hex", SStr, v)
			c.axiom(c.Eq(c.App("bls.unhex", v.sort, r), v))
			c.axiom(c.Eq(c.App("err.blsunhex", SAny, r), c.nilAny()))
			return append(outs, e.ret(r)...)
		},
		blsPkg + "Sign).Verify": func(e *ECall) []Outcome {
			var outs []Outcome
			if !e.nilGuard(0, "nil BLS signature", &outs) || !e.nilGuard(1, "nil BLS key", &outs) {
				return outs
			}
			c := e.u.c
			ok := c.App("bls.ok", SBool, e.val(0), e.val(1), e.t(2))
			// the library rejects the zero public key
			c.axiom(c.Implies(c.Eq(e.val(1), c.Zero(deref(e.ts[1]))), c.Not(ok)))
			return append(outs, e.ret(ok)...)
		},
		blsPkg + "Sign).FastAggregateVerify": func(e *ECall) []Outcome {
			var outs []Outcome
			if !e.nilGuard(0, "nil BLS signature", &outs) {
				return outs
			}
			u := e.u
			et := e.ts[1].Underlying().(*types.Slice).Elem()
			// the library indexes the first key: an empty list is rejected (returns false)
			r := u.c.App("bls.aggok", SBool, e.val(0), u.sliceSeq(e.st, e.t(1), et), e.str(2))
			u.c.axiom(u.c.Implies(r, u.c.Lt(u.c.Int(0), u.c.Sel(e.t(1), 2))))
			// the library rejects a list containing the zero public key
			{
				c := u.c
				_, h := u.elemHeap(e.st, et)
				arr := u.hsel(h, c.Sel(e.t(1), 0))
				q := c.BVar("q", SInt)
				el := c.Select(arr, c.Add(c.Sel(e.t(1), 1), q))
				e.st.assume(c.Implies(r, c.Forall([]*Term{q}, c.Implies(c.And(c.Le(c.Int(0), q), c.Lt(q, c.Sel(e.t(1), 2))), c.Ne(el, c.Zero(et))))))
			}
			return append(outs, e.ret(r)...)
		},
		blsPkg + "Sign).Aggregate": func(e *ECall) []Outcome {
			u := e.u
			var outs []Outcome
			if !e.nilGuard(0, "nil BLS signature", &outs) {
				return outs
			}
			et := e.ts[1].Underlying().(*types.Slice).Elem()
			u.store(e.st, e.ptr(0), u.c.App("bls.agg", u.c.SortOf(et), u.sliceSeq(e.st, e.t(1), et)))
			return append(outs, e.ret()...)
		},
		blsPkg + "SecretKey).Sign": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			var outs []Outcome
			if !e.nilGuard(0, "nil BLS key", &outs) {
				return outs
			}
			T := deref(e.sig.Results().At(0).Type())
			a := u.alloc(e.st)
			p := &Ptr{heap: cellKey(T), ref: a, typ: T, ptyp: T}
			sg := c.App("bls.sign", c.SortOf(T), e.val(0), e.t(1))
			u.store(e.st, p, sg)
			// a signature verifies under the public half of the key
			if pk := u.P.tpkg["bls"]; pk != nil && !sg.hasB {
				if o := pk.Scope().Lookup("PublicKey"); o != nil {
					pub := c.App("bls.pub", c.SortOf(o.Type()), e.val(0))
					c.axiom(c.App("bls.ok", SBool, sg, pub, e.t(1)))
				}
			}
			return append(outs, e.ret(p)...)
		},
		blsPkg + "SecretKey).GetPublicKey": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			T := deref(e.sig.Results().At(0).Type())
			a := u.alloc(e.st)
			p := &Ptr{heap: cellKey(T), ref: a, typ: T, ptyp: T}
			u.store(e.st, p, c.App("bls.pub", c.SortOf(T), e.val(0)))
			return e.ret(p)
		},
		blsPkg + "SecretKey).SetByCSPRNG": func(e *ECall) []Outcome {
			e.u.store(e.st, e.ptr(0), e.u.c.Fresh("blssk", e.val(0).sort))
			return e.ret()
		},
		blsPkg + "SecretKey).Set": func(e *ECall) []Outcome {
			u := e.u
			et := e.ts[1].Underlying().(*types.Slice).Elem()
			u.store(e.st, e.ptr(0), u.c.App("bls.share", e.val(0).sort, u.sliceSeq(e.st, e.t(1), et), e.val(2)))
			return e.ret(u.c.Fresh("err", SAny))
		},
		blsPkg + "SecretKey).Serialize":   blsSer("sk"),
		blsPkg + "PublicKey).Serialize":   blsSer("pk"),
		blsPkg + "SecretKey).Deserialize": blsDeser("sk"),
		blsPkg + "PublicKey).Deserialize": blsDeser("pk"),
		blsPkg + "ID).SetHexString": func(e *ECall) []Outcome {
			c := e.u.c
			v := e.val(0)
			e.u.store(e.st, e.ptr(0), c.App("bls.id", v.sort, e.t(1)))
			return e.ret(c.Fresh("err", SAny))
		},
		// --- bit sets ---
		"github.com/bits-and-blooms/bitset.New": func(e *ECall) []Outcome {
			u := e.u
			T := deref(e.sig.Results().At(0).Type())
			a := u.alloc(e.st)
			p := &Ptr{heap: cellKey(T), ref: a, typ: T, ptyp: T}
			u.store(e.st, p, u.c.ConstArr(SInt, u.c.False))
			return e.ret(p)
		},
		bsPkg + "Set": func(e *ECall) []Outcome {
			var outs []Outcome
			if !e.nilGuard(0, "nil bitset", &outs) {
				return outs
			}
			e.u.store(e.st, e.ptr(0), e.u.c.Store(e.val(0), e.t(1), e.u.c.True))
			return append(outs, e.ret(e.args[0])...)
		},
		bsPkg + "Clear": func(e *ECall) []Outcome {
			var outs []Outcome
			if !e.nilGuard(0, "nil bitset", &outs) {
				return outs
			}
			e.u.store(e.st, e.ptr(0), e.u.c.Store(e.val(0), e.t(1), e.u.c.False))
			return append(outs, e.ret(e.args[0])...)
		},
		bsPkg + "Test": func(e *ECall) []Outcome {
			var outs []Outcome
			if !e.nilGuard(0, "nil bitset", &outs) {
				return outs
			}
			return append(outs, e.ret(e.u.c.Select(e.val(0), e.t(1)))...)
		},
		bsPkg + "Clone": func(e *ECall) []Outcome {
			var outs []Outcome
			if !e.nilGuard(0, "nil bitset", &outs) {
				return outs
			}
			return append(outs, e.ret(e.newBits(e.val(0)))...)
		},
		bsPkg + "Union":                      setModel("union", false),
		bsPkg + "Intersection":               setModel("inter", false),
		bsPkg + "Difference":                 setModel("diff", false),
		bsPkg + "SymmetricDifference":        setModel("sym", false),
		bsPkg + "InPlaceUnion":               setModel("union", true),
		bsPkg + "InPlaceIntersection":        setModel("inter", true),
		bsPkg + "InPlaceDifference":          setModel("diff", true),
		bsPkg + "InPlaceSymmetricDifference": setModel("sym", true),
		bsPkg + "MarshalBinary": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			var outs []Outcome
			if !e.nilGuard(0, "nil bitset", &outs) {
				return outs
			}
			v := e.val(0)
			r := c.App("bits.bin", SStr, v)
			c.binFacts(r, v)
			return append(outs, e.ret(u.newBytes(e.st, r), c.nilAny())...)
		},
		bsPkg + "UnmarshalBinary": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			var outs []Outcome
			if !e.nilGuard(0, "nil bitset", &outs) {
				return outs
			}
			s := e.str(1)
			err := c.App("err.bitsunbin", SAny, s)
			v := e.val(0)
			u.store(e.st, e.ptr(0), c.Ite(c.Eq(err, c.nilAny()), c.App("bits.unbin", v.sort, s), c.App("bits.partial", v.sort, v, s)))
			return append(outs, e.ret(err)...)
		},
		// --- time ---
		"util.GetCurrentPeriod": nowModel, "CA.GetCurrentPeriod": nowModel, "Logger.GetCurrentPeriod": nowModel,
		"util.GetCurrentSecond": noop, "CA.GerCurrentSecond": noop, "Logger.GerCurrentSecond": noop, "util.Getwaitingtime": noop, "util.GetRandomLatency": noop,
		"util.GetCurrentTimestamp": noop,
		"time.AfterFunc": func(e *ECall) []Outcome {
			u := e.u
			switch f := e.args[1].(type) {
			case *Clo:
				u.detach(e.fr, e.st, "timer "+u.pos(e.fr, e.in), u.captured(f), func(s *State) []Outcome {
					return u.callFn(e.fr, s, f.fn, nil, nil, f.binds, e.in)
				})
			default:
				u.unsupportedObl("call-target", "time.AfterFunc of unknown function at "+u.pos(e.fr, e.in))
			}
			return e.ret(u.alloc(e.st))
		},
		// --- ASN.1 raw values and object identifiers ---
		"encoding/asn1.Marshal": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			iv, ok := e.args[0].(*IfaceV)
			if !ok || shortType(iv.typ) != "encoding/asn1.RawValue" {
				return noop(e)
			}
			v := u.term(e.st, iv.v, iv.typ)
			r := c.App("asn1.raw", SStr, c.Fld(v, "Tag", SInt), u.bytesContent(e.st, c.Fld(v, "Bytes", SSlice)))
			c.asn1Facts(r)
			return e.ret(u.newBytes(e.st, r), c.nilAny())
		},
		"encoding/asn1.Unmarshal": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			iv, ok := e.args[1].(*IfaceV)
			if !ok || !strings.Contains(shortType(iv.typ), "asn1.RawValue") {
				return noop(e)
			}
			s := e.str(0)
			p := u.toPtr(iv.v, iv.typ)
			T := deref(iv.typ)
			err := c.App("err.asn1", SAny, s)
			nv := c.Fresh("asn1", c.SortOf(T))
			u.deepFacts(e.st, nv, T)
			b := c.Fld(nv, "Bytes", SSlice)
			e.st.assume(c.Implies(c.Eq(err, c.nilAny()), c.Eq(u.bytesContent(e.st, b), c.App("asn1.bytes", SStr, s))))
			old := u.term(e.st, u.load(e.st, p), T)
			u.store(e.st, p, c.Ite(c.Eq(err, c.nilAny()), nv, old))
			return e.ret(u.freshVal(e.st, "rest", byteSliceT), err)
		},
		"(encoding/asn1.ObjectIdentifier).Equal": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			it := types.Typ[types.Int]
			return e.ret(c.App("oid.equal", SBool, u.sliceSeq(e.st, e.t(0), it), u.sliceSeq(e.st, e.t(1), it)))
		},
		// --- certificates ---
		"crypto/x509.ParseCertificate": func(e *ECall) []Outcome {
			// a certificate is a function of its bytes
			u, c := e.u, e.u.c
			T := deref(e.sig.Results().At(0).Type())
			body := e.str(0)
			err := c.App("err.x509", SAny, body)
			eb := *e
			eb.st = e.st.clone()
			eb.st.assume(c.Ne(err, c.nilAny()))
			bad := eb.ret(c.Int(0), err)
			e.st.assume(c.Eq(err, c.nilAny()))
			a := u.alloc(e.st)
			v := c.Fresh("x509", c.SortOf(T))
			u.deepFacts(e.st, v, T)
			u.store(e.st, &Ptr{heap: cellKey(T), ref: a, typ: T, ptyp: T}, v)
			st := T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				switch f.Name() {
				case "Raw":
					e.st.assume(c.Eq(u.bytesContent(e.st, c.Fld(v, f.Name(), SSlice)), body))
				case "RawTBSCertificate", "RawSubject", "RawIssuer", "Signature", "SubjectKeyId", "AuthorityKeyId":
					e.st.assume(c.Eq(u.bytesContent(e.st, c.Fld(v, f.Name(), SSlice)), c.App("x509."+f.Name(), SStr, body)))
				case "Issuer", "Subject":
					n := c.Fld(v, f.Name(), c.SortOf(f.Type()))
					e.st.assume(c.Eq(c.Fld(n, "CommonName", SStr), c.App("x509."+f.Name()+".CommonName", SStr, body)))
				}
			}
			return append(bad, e.ret(a, c.nilAny())...)
		},
		// --- merkle tree ---
		"github.com/txaty/go-merkletree.New": func(e *ECall) []Outcome {
			// builds a tree over two or more blocks, with one proof of inclusion per block
			u, c := e.u, e.u.c
			u.merkleHash(e, 0)
			blocks := e.t(1)
			n := c.Sel(blocks, 2)
			T := deref(e.sig.Results().At(0).Type())
			es := *e
			es.st = e.st.clone()
			es.st.assume(c.Lt(n, c.Int(2)))
			small := es.ret(c.Int(0), u.newErr("merkletree"))
			e.st.assume(c.Le(c.Int(2), n))
			a := u.alloc(e.st)
			tv := c.Fresh("mtree", c.SortOf(T))
			u.deepFacts(e.st, tv, T)
			u.store(e.st, &Ptr{heap: cellKey(T), ref: a, typ: T, ptyp: T}, tv)
			proofs := c.Fld(tv, "Proofs", SSlice)
			root := u.bytesContent(e.st, c.Fld(tv, "Root", SSlice))
			e.st.assume(c.Eq(c.Sel(proofs, 2), n))
			e.st.assume(c.Eq(c.Fld(tv, "NumLeaves", SInt), n))
			e.st.assume(c.Ne(root, c.Lit("")))
			bt := e.ts[1].Underlying().(*types.Slice).Elem()
			_, bh := u.elemHeap(e.st, bt)
			pt := T.Underlying().(*types.Struct)
			var proofT types.Type
			for i := 0; i < pt.NumFields(); i++ {
				if pt.Field(i).Name() == "Proofs" {
					proofT = pt.Field(i).Type().Underlying().(*types.Slice).Elem()
				}
			}
			_, ph := u.elemHeap(e.st, proofT)
			q := c.BVar("q", SInt)
			pq := c.Select(u.hsel(ph, c.Sel(proofs, 0)), c.Add(c.Sel(proofs, 1), q))
			in := c.And(c.Le(c.Int(0), q), c.Lt(q, n))
			e.st.assume(c.Forall([]*Term{q}, c.Implies(in, c.And(c.Ne(pq, c.Int(0)), c.Le(pq, e.st.top))), pq))
			if cb := u.P.named("crypto", "Certblock"); cb != nil {
				bq := c.Select(u.hsel(bh, c.Sel(blocks, 0)), c.Add(c.Sel(blocks, 1), q))
				pcb := types.NewPointer(cb)
				cell := u.load(e.st, &Ptr{heap: cellKey(cb), ref: c.Unbox(pcb, bq), typ: cb, ptyp: cb})
				leaf := u.bytesContent(e.st, c.Fld(c.Field(u.term(e.st, cell, cb), cb, 0), "RawSubject", SSlice))
				e.st.assume(c.Forall([]*Term{q}, c.Implies(c.And(in, c.Eq(c.App("tagof", SInt, bq), c.Tag(pcb))), c.App("mt.ok", SBool, leaf, pq, root)), pq))
			}
			return append(small, e.ret(a, c.nilAny())...)
		},
		"github.com/txaty/go-merkletree.Verify": func(e *ECall) []Outcome {
			u, c := e.u, e.u.c
			iv, isI := e.args[0].(*IfaceV)
			if !isI {
				u.unsupportedObl("call-target", "merkletree.Verify of an unknown block at "+u.pos(e.fr, e.in))
				return noop(e)
			}
			u.merkleHash(e, 3)
			// the leaf is what the block's own Serialize returns
			var outs []Outcome
			for _, o := range u.callMethod(e, iv, "Serialize") {
				if o.kind != KReturn {
					outs = append(outs, o)
					continue
				}
				e2 := *e
				e2.st = o.st
				data := u.bytesContent(o.st, u.term(o.st, o.rets[0], byteSliceT))
				serr := u.term(o.st, o.rets[1], errT)
				proof := u.ptrVal(&e2, 1)
				root := e2.str(2)
				// without siblings the root is the hash of the leaf itself
				pp := u.toPtr(e.args[1], e.ts[1])
				sib := c.Fld(u.term(o.st, u.load(o.st, pp), pp.ptyp), "Siblings", SSlice)
				o.st.assume(c.Implies(c.And(c.Ne(proof, c.Int(0)), c.Eq(c.Sel(sib, 2), c.Int(0))), c.Eq(c.App("mt.ok", SBool, data, proof, root), c.Eq(root, c.hashOf(c.Int(5), data)))))
				ok := c.And(c.App("mt.ok", SBool, data, proof, root), c.Eq(serr, c.nilAny()), c.Ne(proof, c.Int(0)), c.Ne(root, c.Lit("")))
				err := c.Ite(ok, c.nilAny(), c.Fresh("err.mt", SAny))
				outs = append(outs, e2.ret(ok, err)...)
			}
			return outs
		},
		// --- locks ---
		"(*sync.RWMutex).Lock":    func(e *ECall) []Outcome { return e.u.lockOp(e, "lock") },
		"(*sync.RWMutex).Unlock":  func(e *ECall) []Outcome { return e.u.lockOp(e, "unlock") },
		"(*sync.RWMutex).RLock":   func(e *ECall) []Outcome { return e.u.lockOp(e, "rlock") },
		"(*sync.RWMutex).RUnlock": func(e *ECall) []Outcome { return e.u.lockOp(e, "runlock") },
		"(*sync.Mutex).Lock":      func(e *ECall) []Outcome { return e.u.lockOp(e, "lock") },
		"(*sync.Mutex).Unlock":    func(e *ECall) []Outcome { return e.u.lockOp(e, "unlock") },
		// --- files ---
		"os.Open": func(e *ECall) []Outcome {
			// a handle reads what the file holds
			u, c := e.u, e.u.c
			err := c.Fresh("err.open", SAny)
			a := u.alloc(e.st)
			if u.fileOf == nil {
				u.fileOf = map[*Term]*Term{}
			}
			f := c.Ite(c.Eq(err, c.nilAny()), a, c.Int(0))
			u.fileOf[f] = e.t(0)
			return e.ret(f, err)
		},
		"os.ReadFile":        func(e *ECall) []Outcome { return e.fileRead(e.t(0)) },
		"io/ioutil.ReadFile": func(e *ECall) []Outcome { return e.fileRead(e.t(0)) },
		"os.WriteFile": func(e *ECall) []Outcome {
			e.setGhost("FS", e.u.c.Ctor(e.u.netSort(), e.t(0), e.str(1)))
			return e.ret(e.u.c.Fresh("err.write", SAny))
		},
		"io/ioutil.WriteFile": func(e *ECall) []Outcome {
			e.setGhost("FS", e.u.c.Ctor(e.u.netSort(), e.t(0), e.str(1)))
			return e.ret(e.u.c.Fresh("err.write", SAny))
		},
	}
}

var byteSliceT = types.NewSlice(types.Typ[types.Byte])

// callMethod: a method of a value whose dynamic type is known
func (u *Unit) callMethod(e *ECall, iv *IfaceV, name string) []Outcome {
	ms := u.P.prog.MethodSets.MethodSet(iv.typ)
	for i := 0; i < ms.Len(); i++ {
		if sel := ms.At(i); sel.Obj().Name() == name {
			if fn := u.P.prog.MethodValue(sel); fn != nil {
				return u.callFn(e.fr, e.st, fn, []Val{iv.v}, []types.Type{iv.typ}, nil, e.in)
			}
		}
	}
	u.fail("no method %s", name)
	return nil
}

func (u *Unit) ptrVal(e *ECall, i int) *Term {
	return u.term(e.st, e.args[i], e.ts[i])
}

func (e *ECall) fileRead(path *Term) []Outcome {
	c := e.u.c
	err := c.Fresh("err.read", SAny)
	b := e.u.newBytes(e.st, c.App("filecontent", SStr, path))
	return e.ret(c.Ite(c.Eq(err, c.nilAny()), b, c.nilSlice()), err)
}

func readAll(e *ECall) []Outcome {
	u, c := e.u, e.u.c
	if iv, ok := e.args[0].(*IfaceV); ok && strings.Contains(shortType(iv.typ), "gzip.Reader") {
		src := c.App("gzsrc", SStr, u.term(e.st, iv.v, iv.typ))
		return e.ret(u.newBytes(e.st, c.App("gunzip", SStr, src)), c.App("err.gunzip", SAny, src))
	}
	s := e.readerContent(0)
	return e.ret(u.newBytes(e.st, s), c.App("err.readall", SAny, s))
}

func (u *Unit) hexEnc(s *Term) *Term {
	c := u.c
	r := c.App("hex.enc", SStr, s)
	if !r.hasB {
		c.axiom(c.Eq(c.App("unhex", SStr, r), s))
		c.axiom(c.Eq(c.App("err.unhex", SAny, r), c.nilAny()))
		c.axiom(c.Eq(c.App("half", SInt, c.StrLen(r)), c.StrLen(s)))
	}
	return r
}

func blsSer(k string) model {
	return func(e *ECall) []Outcome {
		c := e.u.c
		v := e.val(0)
		r := c.App("bls."+k+".bin", SStr, v)
		c.axiom(c.Eq(c.App("bls."+k+".unbin", v.sort, r), v))
		c.axiom(c.Eq(c.App("err.bls."+k, SAny, r), c.nilAny()))
		return e.ret(e.u.newBytes(e.st, r))
	}
}
func blsDeser(k string) model {
	return func(e *ECall) []Outcome {
		c := e.u.c
		v := e.val(0)
		s := e.str(1)
		err := c.App("err.bls."+k, SAny, s)
		e.u.store(e.st, e.ptr(0), c.Ite(c.Eq(err, c.nilAny()), c.App("bls."+k+".unbin", v.sort, s), c.Fresh("bad", v.sort)))
		return e.ret(err)
	}
}

// a named type of a package, by the package's name
func (P *Program) named(pkg, name string) types.Type {
	if p := P.tpkg[pkg]; p != nil {
		if o := p.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return nil
}

// no hash is empty
func (c *Ctx) hashOf(alg, msg *Term) *Term {
	h := c.App("hash", SStr, alg, msg)
	if !h.hasB {
		c.axiom(c.Ne(h, c.Lit("")))
	}
	return h
}
