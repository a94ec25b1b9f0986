package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

const repoMod = "github.com/jik18001/CTngV2"

type structInfo struct {
	t      *types.Struct
	named  string
	opaque bool
}

var byteRe = regexp.MustCompile(`\b(byte|rune|any)\b`)

func shortType(t types.Type) string {
	s := shortType0(t)
	if !strings.Contains(s, "byte") && !strings.Contains(s, "rune") && !strings.Contains(s, "any") {
		return s
	}
	return byteRe.ReplaceAllStringFunc(s, func(m string) string {
		switch m {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	})
}

func shortType0(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == nil {
			return ""
		}
		if strings.HasPrefix(p.Path(), repoMod) {
			s := strings.TrimPrefix(p.Path(), repoMod)
			s = strings.TrimPrefix(s, "/")
			return s
		}
		return p.Path()
	})
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), repoMod)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isNamed(t types.Type, full string) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name() == full
		}
		return o.Pkg().Path()+"."+o.Name() == full
	}
	return false
}

func isBitSet(t types.Type) bool { return isNamed(t, "github.com/bits-and-blooms/bitset.BitSet") }

func isByteSlice(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte || b.Kind() == types.Uint8
		}
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// sort of a Go type
func (c *Ctx) SortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if isBitSet(t) {
			return ArrSort(SInt, SBool)
		}
		if p := n.Obj().Pkg(); p != nil && p.Path() == "sync" {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return SInt
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return SFlt
		case u.Kind() == types.UntypedNil:
			return SInt
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SAny
	case *types.Slice:
		return SSlice
	case *types.Array:
		es := c.SortOf(u.Elem())
		if u.Len() <= 8 {
			s := Sort("A" + fmt.Sprint(u.Len()) + "_" + sortName(es))
			if _, ok := c.dts[s]; !ok {
				d := &DT{sort: s, ctor: "mk" + string(s)}
				for i := int64(0); i < u.Len(); i++ {
					d.fields = append(d.fields, fmt.Sprintf("%s_%d", s, i))
					d.fsorts = append(d.fsorts, es)
				}
				c.declDT(d)
			}
			return s
		}
		return ArrSort(SInt, es)
	case *types.Struct:
		name := shortType(t)
		repo := true
		if n, ok := t.(*types.Named); ok {
			repo = isRepoPkg(n.Obj().Pkg())
		}
		s := Sort("S_" + sortName(Sort(sanitize(name))))
		if _, ok := c.structs[s]; ok {
			return s
		}
		si := &structInfo{t: u, named: name, opaque: !repo}
		c.structs[s] = si
		if !repo {
			c.opaqueSort(s)
			return s
		}
		d := &DT{sort: s, ctor: "mk" + string(s)}
		for i := 0; i < u.NumFields(); i++ {
			d.fields = append(d.fields, string(s)+"."+u.Field(i).Name())
			d.fsorts = append(d.fsorts, c.SortOf(u.Field(i).Type()))
		}
		if u.NumFields() == 0 {
			// unit
		}
		c.declDT(d)
		return s
	case *types.Tuple:
		return SInt
	}
	panic("SortOf: " + t.String())
}

func sortName(s Sort) string {
	r := strings.NewReplacer("(", "_", ")", "_", " ", "_", "/", "_", ".", "_", "-", "_")
	return r.Replace(string(s))
}

func (c *Ctx) nilSlice() *Term { return c.Ctor(SSlice, c.Int(0), c.Int(0), c.Int(0), c.Int(0)) }
func (c *Ctx) nilAny() *Term   { return c.Const("nil_any", SAny) }

// zero value of a type
func (c *Ctx) Zero(t types.Type) *Term {
	t = types.Unalias(t)
	s := c.SortOf(t)
	if isBitSet(t) {
		return c.ConstArr(SInt, c.False)
	}
	switch s {
	case SInt:
		return c.Int(0)
	case SBool:
		return c.False
	case SStr:
		return c.Lit("")
	case SAny:
		return c.nilAny()
	case SSlice:
		return c.nilSlice()
	case SFlt:
		return c.Const("flt_zero", SFlt)
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		z := c.Zero(u.Elem())
		if u.Len() <= 8 {
			var as []*Term
			for i := int64(0); i < u.Len(); i++ {
				as = append(as, z)
			}
			return c.Ctor(s, as...)
		}
		return c.ConstArr(SInt, z)
	case *types.Struct:
		if c.structs[s].opaque {
			z := c.Const("zero_"+string(s), s)
			if u.NumFields() <= 4 {
				for i := 0; i < u.NumFields(); i++ {
					switch fs := c.SortOf(u.Field(i).Type()); fs {
					case SInt, SBool, SStr, SAny, SSlice:
						c.axiom(c.Eq(c.App("fld."+string(s)+"."+u.Field(i).Name(), fs, z), c.Zero(u.Field(i).Type())))
					}
				}
			}
			return z
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, c.Zero(u.Field(i).Type()))
		}
		return c.Ctor(s, as...)
	}
	panic("Zero " + t.String())
}

// read field i of struct value v (of type t)
func (c *Ctx) Field(v *Term, t types.Type, i int) *Term {
	st := t.Underlying().(*types.Struct)
	si := c.structs[c.SortOf(t)]
	f := st.Field(i)
	if si.opaque {
		r := c.Fld(v, f.Name(), c.SortOf(f.Type()))
		if r.op == OApp && r.args[0].op == OVar && strings.HasPrefix(r.args[0].name, "zero_S_") {
			return c.Zero(f.Type())
		}
		return r
	}
	return c.Sel(v, i)
}

func (c *Ctx) SetField(v *Term, t types.Type, i int, x *Term) *Term {
	st := t.Underlying().(*types.Struct)
	si := c.structs[c.SortOf(t)]
	if si.opaque {
		return c.Upd(v, st.Field(i).Name(), x)
	}
	return c.UpdSel(v, i, x)
}

// type tag for interface boxing
func (c *Ctx) Tag(t types.Type) *Term {
	k := shortType(t)
	if _, ok := c.tags[k]; !ok {
		c.tags[k] = len(c.tags) + 1
		c.tagOrd = append(c.tagOrd, k)
	}
	return c.Int(int64(c.tags[k]))
}

func (c *Ctx) Box(t types.Type, v *Term) *Term {
	k := shortType(t)
	b := c.App("box."+k, SAny, v)
	if !b.hasB {
		c.axiom(c.Eq(c.App("unbox."+k, v.sort, b), v))
		c.axiom(c.Eq(c.App("tagof", SInt, b), c.Tag(t)))
		c.axiom(c.Ne(b, c.nilAny()))
		c.axiom(c.Eq(c.App("tagof", SInt, c.nilAny()), c.Int(0)))
	}
	return b
}
func (c *Ctx) Unbox(t types.Type, a *Term) *Term {
	if a.op == OApp && a.name == sanitize("box."+shortType(t)) {
		return a.args[0]
	}
	return c.App("unbox."+shortType(t), c.SortOf(t), a)
}

// a heap that was forgotten: which fields of its cells are declared immutable,
// and the heap on entry
type immutHeap struct {
	h0     *Term
	fields map[string]bool
	idx    map[int]bool
}

func (c *Ctx) immutBase(x *Term, f string, i int) *Term {
	if x.op != OSelect || c.immut == nil {
		return x
	}
	im := c.immut[x.args[0]]
	if im == nil || !(i >= 0 && im.idx[i] || i < 0 && im.fields[f]) || !c.entryRef(x.args[1]) {
		return x
	}
	return c.Select(im.h0, x.args[1])
}

// references that existed on entry (syntactically)
func (c *Ctx) entryRef(r *Term) bool {
	for r.op == OSelect || r.op == OSel || r.op == OApp && len(r.args) == 1 && strings.HasPrefix(r.name, "fld.") {
		r = r.args[0]
	}
	if r.op == OApp && len(r.args) == 0 {
		return true // a ghost constant
	}
	return r.op == OVar && (strings.HasPrefix(r.name, "cfg.") || strings.HasPrefix(r.name, "H0.") || strings.HasPrefix(r.name, "p."))
}
