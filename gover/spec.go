package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- contract files ----------

type Clause struct {
	kind  string
	name  string
	props []string
	src   string
	words []string
	expr  ast.Expr
	file  string
	line  int
}

func (c *Clause) applies(prop string) bool {
	if len(c.props) == 0 {
		return true
	}
	for _, p := range c.props {
		if p == prop {
			return true
		}
	}
	return false
}

type Contract struct {
	fn          string
	params      []string
	results     []string
	clauses     []*Clause
	pure        bool
	inline      map[string]*Clause
	goInline    bool
	swaps       bool
	noDetach    bool
	unitOnly    bool // verified as a unit, but callers inline the body
	noReturn    bool // never returns (server loops)
	optional    bool // a helper: absence of the function is not an error
	laterAssume []*Clause
	file        string
	line        int
}

func (c *Contract) of(kind, prop string) []*Clause {
	var r []*Clause
	for _, cl := range c.clauses {
		if cl.kind == kind && cl.applies(prop) {
			r = append(r, cl)
		}
	}
	return r
}

func (c *Contract) has(kind, prop string) bool { return len(c.of(kind, prop)) > 0 }

func (c *Contract) noPanic(prop string) bool { return c.has("nopanic", prop) }

// directly tagged with the property
func (c *Contract) tagged(prop string) bool {
	for _, cl := range c.clauses {
		for _, p := range cl.props {
			if p == prop {
				return true
			}
		}
	}
	return false
}

type Define struct {
	name   string
	params []string
	expr   ast.Expr
	src    string
}

type Guard struct {
	typ, field, lock string
	swap             bool // the map itself may be replaced under the lock
	inv, guar, obl   []*Clause
}

type Specs struct {
	contracts  map[string]*Contract
	order      []string
	defines    map[string]*Define
	guards     map[string]*Guard // "gossiper.Gossip_object_storage.STH_INIT"
	immut      map[string]bool   // immutable fields "gossiper.GossiperContext.Gossiper_crypto_config"
	concurrent map[string]bool   // property -> rely/guarantee mode
	tracked    map[string]bool   // functions whose calls are recorded
	guardOrder []*Guard
	immutOrder []string
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "shows": true, "modifies": true, "nopanic": true, "pure": true, "swaps": true, "inline": true, "goinline": true, "nodetach": true, "locks": true, "later": true, "laterassume": true, "unitonly": true, "optional": true, "invariant": true, "guarantee": true, "obliges": true, "noexit": true, "onpanic": true, "candidate": true, "noreturn": true, "aux": true, "acquires": true}

func LoadSpecs(dir string) (*Specs, error) {
	sp := &Specs{contracts: map[string]*Contract{}, defines: map[string]*Define{}, guards: map[string]*Guard{}, immut: map[string]bool{}, concurrent: map[string]bool{}, tracked: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.load(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Specs) load(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type logical struct {
		text string
		line int
	}
	var ls []logical
	for i, l := range strings.Split(string(b), "\n") {
		if j := strings.Index(l, "#"); j >= 0 && (j == 0 || l[j-1] == ' ' || l[j-1] == '\t') {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '[' || r == '\t' })[0]
		ind := l[0] == ' ' || l[0] == '\t'
		if !ind || clauseKw[w] {
			ls = append(ls, logical{t, i + 1})
		} else if len(ls) > 0 {
			ls[len(ls)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: stray continuation", file, i+1)
		}
	}
	var cur *Contract
	var curG []*Guard
	for _, l := range ls {
		fail := func(e error) error { return fmt.Errorf("%s:%d: %v in %q", filepath.Base(file), l.line, e, l.text) }
		kw := l.text
		rest := ""
		if i := strings.IndexAny(l.text, " ["); i >= 0 {
			kw, rest = l.text[:i], strings.TrimSpace(l.text[i:])
		}
		switch kw {
		case "define":
			i := strings.Index(rest, "=")
			// first '=' that is not part of == inside the header
			hd := strings.TrimSpace(rest[:i])
			body := strings.TrimSpace(rest[i+1:])
			o := strings.Index(hd, "(")
			d := &Define{name: hd[:o], src: body}
			for _, p := range strings.Split(strings.TrimSuffix(hd[o+1:], ")"), ",") {
				if p = strings.TrimSpace(p); p != "" {
					d.params = append(d.params, p)
				}
			}
			e, err := parser.ParseExpr(body)
			if err != nil {
				return fail(err)
			}
			d.expr = e
			sp.defines[d.name] = d
			cur, curG = nil, nil
		case "func":
			// NAME(params) [(results)]  where NAME may start with "(" receiver ")."
			name := rest
			o := -1
			if strings.HasPrefix(rest, "(") {
				k := strings.Index(rest, ")")
				o = k + strings.Index(rest[k:], "(")
				if k2 := strings.Index(rest[k+1:], "("); k2 >= 0 {
					o = k + 1 + k2
				}
			} else {
				o = strings.Index(rest, "(")
			}
			c := &Contract{inline: map[string]*Clause{}, file: filepath.Base(file), line: l.line}
			name = strings.TrimSpace(rest[:o])
			tail := rest[o:]
			e := strings.Index(tail, ")")
			for _, p := range strings.Split(tail[1:e], ",") {
				if p = strings.TrimSpace(p); p != "" {
					c.params = append(c.params, p)
				}
			}
			tail = strings.TrimSpace(tail[e+1:])
			if strings.HasPrefix(tail, "(") {
				for _, p := range strings.Split(strings.Trim(tail, "()"), ",") {
					c.results = append(c.results, strings.TrimSpace(p))
				}
			}
			c.fn = name
			if sp.contracts[name] != nil {
				return fail(fmt.Errorf("duplicate contract"))
			}
			sp.contracts[name] = c
			sp.order = append(sp.order, name)
			cur, curG = c, nil
		case "guard":
			// guard TYPE: FIELD by LOCK, FIELD by LOCK
			i := strings.Index(rest, ":")
			typ := strings.TrimSpace(rest[:i])
			curG = nil
			cur = nil
			for _, it := range strings.Split(rest[i+1:], ",") {
				w := strings.Fields(it)
				swap := len(w) == 4 && w[3] == "swappable"
				if swap {
					w = w[:3]
				}
				if len(w) != 3 || w[1] != "by" {
					return fail(fmt.Errorf("bad guard"))
				}
				g := &Guard{typ: typ, field: w[0], lock: w[2], swap: swap}
				sp.guards[typ+"."+w[0]] = g
				sp.guardOrder = append(sp.guardOrder, g)
				curG = append(curG, g)
			}
		case "immutable":
			for _, w := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				sp.immut[w] = true
				sp.immutOrder = append(sp.immutOrder, w)
			}
		case "track":
			for _, w := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				sp.tracked[w] = true
			}
		case "concurrent":
			for _, w := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				sp.concurrent[w] = true
			}
		default:
			if !clauseKw[kw] {
				return fail(fmt.Errorf("unknown keyword %s", kw))
			}
			cl := &Clause{kind: kw, file: filepath.Base(file), line: l.line}
			if strings.HasPrefix(rest, "[") {
				j := strings.Index(rest, "]")
				for _, p := range strings.Split(rest[1:j], ",") {
					cl.props = append(cl.props, strings.TrimSpace(p))
				}
				rest = strings.TrimSpace(rest[j+1:])
			}
			if curG != nil {
				if i := strings.Index(rest, ":"); i > 0 && isIdent(rest[:i]) {
					cl.name = rest[:i]
					rest = strings.TrimSpace(rest[i+1:])
				}
				cl.src = rest
				e, err := parser.ParseExpr(rest)
				if err != nil {
					return fail(err)
				}
				cl.expr = e
				for _, g := range curG {
					if kw == "invariant" {
						g.inv = append(g.inv, cl)
					} else if kw == "obliges" {
						g.obl = append(g.obl, cl)
					} else {
						g.guar = append(g.guar, cl)
					}
				}
				continue
			}
			if cur == nil {
				return fail(fmt.Errorf("clause outside func"))
			}
			switch kw {
			case "pure":
				cur.pure = true
				continue
			case "swaps":
				cur.swaps = true
				continue
			case "goinline":
				cur.goInline = true
				continue
			case "nodetach":
				cur.noDetach = true
				continue
			case "unitonly":
				cur.unitOnly = true
				continue
			case "noreturn":
				cur.noReturn = true
				continue
			case "optional":
				cur.optional = true
				continue
			case "inline":
				for _, w := range strings.Split(rest, ",") {
					cur.inline[strings.TrimSpace(w)] = cl
				}
				continue
			case "nopanic", "locks", "noexit", "aux":
				cl.name = kw
				cur.clauses = append(cur.clauses, cl)
				continue
			case "acquires": // the only locks it takes; it may be called with others held
				cl.name = kw
				for _, w := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
					cl.words = append(cl.words, w)
				}
				cur.clauses = append(cur.clauses, cl)
				continue
			case "modifies":
				cl.src = rest
				e, err := parser.ParseExpr("f(" + strings.ReplaceAll(rest, "map(", "dict(") + ")")
				if err != nil {
					return fail(err)
				}
				cl.expr = e
				cur.clauses = append(cur.clauses, cl)
				continue
			}
			if i := strings.Index(rest, ":"); i > 0 && isIdent(rest[:i]) {
				cl.name = rest[:i]
				rest = strings.TrimSpace(rest[i+1:])
			} else {
				cl.name = fmt.Sprintf("%s@%d", kw, l.line)
			}
			cl.src = rest
			e, err := parser.ParseExpr(rest)
			if err != nil {
				return fail(err)
			}
			cl.expr = e
			if kw == "laterassume" {
				cur.laterAssume = append(cur.laterAssume, cl)
			}
			cur.clauses = append(cur.clauses, cl)
		}
	}
	return nil
}

func isIdent(s string) bool {
	for i, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9' || r == '-') {
			return false
		}
	}
	return s != ""
}

// ---------- expression evaluation ----------

type SVal struct {
	v  Val
	ty types.Type
}

type SEnv struct {
	u     *Unit
	st    *State // heaps read from here
	old   *State
	vars  map[string]SVal
	depth int
	done  func(q *Term) *Term // in a loop invariant: the indices the loop has been through
}

func (e *SEnv) with(name string, v SVal) *SEnv {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

type specErr struct{ msg string }

func (e *SEnv) fail(f string, a ...interface{}) {
	panic(unsupported{"spec: " + fmt.Sprintf(f, a...)})
}

// evaluate a boolean clause; facts discovered about loaded references are added to st
func (u *Unit) evalBool(e *SEnv, x ast.Expr) *Term {
	v := e.eval(x)
	t := e.term(v)
	if t.sort != SBool {
		e.fail("not boolean")
	}
	return t
}

func (e *SEnv) term(v SVal) *Term {
	return e.u.term(e.st, v.v, v.ty)
}

var untypedInt = types.Typ[types.Int]

func (e *SEnv) eval(x ast.Expr) SVal {
	u := e.u
	c := u.c
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.Ident:
		if v, ok := e.vars[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "true":
			return SVal{c.True, types.Typ[types.Bool]}
		case "false":
			return SVal{c.False, types.Typ[types.Bool]}
		case "nil":
			return SVal{nil, types.Typ[types.UntypedNil]}
		case "now_period":
			return SVal{u.nowPeriod, types.Typ[types.String]}
		}
		e.fail("unknown identifier %s", n.Name)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			k, _ := strconv.ParseInt(n.Value, 0, 64)
			return SVal{c.Int(k), untypedInt}
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return SVal{c.Lit(s), types.Typ[types.String]}
		}
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if p := u.P.tpkg[id.Name]; p != nil {
					o := p.Scope().Lookup(n.Sel.Name)
					switch o := o.(type) {
					case *types.Const:
						return SVal{u.constVal(ssa.NewConst(o.Val(), o.Type())), o.Type()}
					case *types.Var:
						g := "G:" + o.Pkg().Path() + "." + o.Name()
						return SVal{u.heap(e.st, g, c.SortOf(o.Type())), o.Type()}
					}
					e.fail("no %s.%s", id.Name, n.Sel.Name)
				}
			}
		}
		b := e.eval(n.X)
		return e.field(b, n.Sel.Name)
	case *ast.StarExpr:
		b := e.eval(n.X)
		p := u.toPtr(b.v, b.ty)
		return SVal{e.loadP(p), deref(b.ty)}
	case *ast.UnaryExpr:
		b := e.eval(n.X)
		switch n.Op {
		case token.NOT:
			return SVal{c.Not(e.term(b)), types.Typ[types.Bool]}
		case token.SUB:
			return SVal{c.Neg(e.term(b)), b.ty}
		}
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			a := e.term(e.eval(n.X))
			if a.op == OFalse {
				return SVal{c.False, types.Typ[types.Bool]}
			}
			return SVal{c.And(a, e.term(e.eval(n.Y))), types.Typ[types.Bool]}
		case token.LOR:
			a := e.term(e.eval(n.X))
			if a.op == OTrue {
				return SVal{c.True, types.Typ[types.Bool]}
			}
			return SVal{c.Or(a, e.term(e.eval(n.Y))), types.Typ[types.Bool]}
		}
		a, b := e.eval(n.X), e.eval(n.Y)
		switch n.Op {
		case token.EQL:
			return SVal{e.eq(a, b), types.Typ[types.Bool]}
		case token.NEQ:
			return SVal{c.Not(e.eq(a, b)), types.Typ[types.Bool]}
		}
		s, t := e.term(a), e.term(b)
		switch n.Op {
		case token.ADD:
			if s.sort == SStr {
				return SVal{c.Cat(s, t), a.ty}
			}
			return SVal{c.Add(s, t), a.ty}
		case token.REM:
			return SVal{c.App("oprem", SInt, s, t), a.ty}
		case token.SUB:
			return SVal{c.Sub(s, t), a.ty}
		case token.MUL:
			return SVal{c.Mul(s, t), a.ty}
		case token.LSS:
			return SVal{c.Lt(s, t), types.Typ[types.Bool]}
		case token.LEQ:
			return SVal{c.Le(s, t), types.Typ[types.Bool]}
		case token.GTR:
			return SVal{c.Lt(t, s), types.Typ[types.Bool]}
		case token.GEQ:
			return SVal{c.Le(t, s), types.Typ[types.Bool]}
		}
	case *ast.IndexExpr:
		b := e.eval(n.X)
		switch bt := b.ty.Underlying().(type) {
		case *types.Map:
			k := e.term(e.coerce(e.eval(n.Index), bt.Key()))
			ref := e.term(b)
			d := e.mapDom(bt, ref)
			v := c.Ite(c.Select(d, k), c.Select(u.mapVal(e.st, bt, ref), k), c.Zero(bt.Elem()))
			return SVal{v, bt.Elem()}
		case *types.Slice:
			i := e.term(e.eval(n.Index))
			s := e.term(b)
			_, h := u.elemHeap(e.st, bt.Elem())
			return SVal{c.Select(u.hsel(h, c.Sel(s, 0)), c.Add(c.Sel(s, 1), i)), bt.Elem()}
		case *types.Array:
			i := e.term(e.eval(n.Index))
			if p, ok := b.v.(*Ptr); ok {
				_ = p
			}
			return SVal{u.arrGet(e.term(b), b.ty, i), bt.Elem()}
		}
		e.fail("index of %s", b.ty)
	case *ast.CompositeLit:
		ty := e.typ(n.Type)
		if len(n.Elts) == 0 {
			return SVal{c.Zero(ty), ty}
		}
		st := ty.Underlying().(*types.Struct)
		as := make([]*Term, st.NumFields())
		for i := range as {
			as[i] = c.Zero(st.Field(i).Type())
		}
		for i, el := range n.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						as[j] = e.term(e.coerce(e.eval(kv.Value), st.Field(j).Type()))
					}
				}
			} else {
				as[i] = e.term(e.coerce(e.eval(el), st.Field(i).Type()))
			}
		}
		return SVal{c.Ctor(c.SortOf(ty), as...), ty}
	case *ast.CallExpr:
		return e.call(n)
	}
	e.fail("unsupported expression %T", x)
	return SVal{}
}

func (e *SEnv) mapDom(mt *types.Map, ref *Term) *Term {
	u := e.u
	if !ref.hasB {
		u.mapNilFact(e.st, mt, ref)
	}
	return u.mapDom(e.st, mt, ref)
}

func (e *SEnv) loadP(p *Ptr) Val {
	if len(p.path) == 0 && !p.arr {
		if v, ok := e.st.notes[e.u.noteKey(p)]; ok {
			return v
		}
	}
	return e.u.load(e.st, p)
}

func (e *SEnv) coerce(v SVal, t types.Type) SVal {
	if v.v == nil && v.ty == types.Typ[types.UntypedNil] {
		return SVal{e.u.c.Zero(t), t}
	}
	return v
}

func (e *SEnv) eq(a, b SVal) *Term {
	u := e.u
	if a.ty == types.Typ[types.UntypedNil] {
		a, b = b, a
	}
	if b.ty == types.Typ[types.UntypedNil] {
		return u.valEq(e.st, a.v, u.c.Zero(a.ty), a.ty, a.ty)
	}
	return u.valEq(e.st, a.v, b.v, a.ty, b.ty)
}

func (e *SEnv) field(b SVal, name string) SVal {
	u := e.u
	st, ok := deref(b.ty).Underlying().(*types.Struct)
	if !ok {
		e.fail("field %s of %s", name, b.ty)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			ft := st.Field(i).Type()
			if _, isP := b.ty.Underlying().(*types.Pointer); isP {
				p := u.toPtr(b.v, b.ty)
				np := *p
				np.path = append(p.path[:len(p.path):len(p.path)], pstep{field: i, on: deref(b.ty)})
				np.ptyp = ft
				return SVal{e.loadP(&np), ft}
			}
			return SVal{u.c.Field(e.term(b), b.ty, i), ft}
		}
	}
	// embedded
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			return e.field(e.field(b, st.Field(i).Name()), name)
		}
	}
	e.fail("no field %s in %s", name, b.ty)
	return SVal{}
}

func (e *SEnv) typ(x ast.Expr) types.Type {
	switch n := x.(type) {
	case *ast.Ident:
		switch n.Name {
		case "NetMsg":
			return e.u.netMsgType()
		}
		if o := types.Universe.Lookup(n.Name); o != nil {
			return o.Type()
		}
	case *ast.SelectorExpr:
		p := e.u.P.tpkg[n.X.(*ast.Ident).Name]
		if p != nil {
			if o := p.Scope().Lookup(n.Sel.Name); o != nil {
				return o.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(e.typ(n.X))
	case *ast.ArrayType:
		if n.Len == nil {
			return types.NewSlice(e.typ(n.Elt))
		}
	case *ast.MapType:
		return types.NewMap(e.typ(n.Key), e.typ(n.Value))
	case *ast.StructType:
		var fs []*types.Var
		for _, f := range n.Fields.List {
			for _, nm := range f.Names {
				fs = append(fs, types.NewField(0, nil, nm.Name, e.typ(f.Type), false))
			}
		}
		return types.NewStruct(fs, nil)
	}
	e.fail("bad type expression")
	return nil
}

func (e *SEnv) call(n *ast.CallExpr) SVal {
	u := e.u
	c := u.c
	tb := types.Typ[types.Bool]
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		e.fail("unsupported call in spec")
	}
	arg := func(i int) *Term { return e.term(e.eval(n.Args[i])) }
	switch id.Name {
	case "implies":
		a := arg(0)
		if a.op == OFalse {
			return SVal{c.True, tb}
		}
		return SVal{c.Implies(a, arg(1)), tb}
	case "ite":
		a := arg(0)
		x, y := e.eval(n.Args[1]), e.eval(n.Args[2])
		return SVal{c.Ite(a, e.term(x), e.term(e.coerce(y, x.ty))), x.ty}
	case "forall", "exists":
		ty := e.typ(n.Args[1])
		nm := n.Args[0].(*ast.Ident).Name
		bv := c.BVar(nm, c.SortOf(ty))
		b := e.with(nm, SVal{bv, ty})
		body := b.term(b.eval(n.Args[2]))
		if id.Name == "forall" {
			return SVal{c.Forall([]*Term{bv}, body), tb}
		}
		return SVal{c.Exists([]*Term{bv}, body), tb}
	case "old", "entry":
		if id.Name == "old" && e.old == nil {
			e.fail("old() not available here")
		}
		o := *e
		from := e.old
		if id.Name == "entry" {
			from = u.entry
		}
		s := from.clone()
		n0 := len(s.pc)
		o.st = s
		o.old = nil
		v := o.eval(n.Args[0])
		// fix the value to a term so it is not re-read in the new state
		if _, isT := v.v.(*Term); !isT {
			if p, isP := v.v.(*Ptr); !isP || len(p.path) == 0 && p.idx == nil && !p.arr {
				v.v = o.term(v)
			}
		}
		for _, f := range s.pc[n0:] {
			e.st.assume(f)
		}
		return v
	case "has":
		m := e.eval(n.Args[0])
		mt := m.ty.Underlying().(*types.Map)
		k := e.term(e.coerce(e.eval(n.Args[1]), mt.Key()))
		return SVal{c.Select(e.mapDom(mt, e.term(m)), k), tb}
	case "len":
		v := e.eval(n.Args[0])
		t := e.term(v)
		switch vt := v.ty.Underlying().(type) {
		case *types.Slice:
			if !t.hasB {
				u.refFacts(e.st, t, v.ty)
			}
			return SVal{c.Sel(t, 2), untypedInt}
		case *types.Map:
			return SVal{u.mapLen(e.st, vt, t), untypedInt}
		case *types.Basic:
			return SVal{c.StrLen(t), untypedInt}
		}
		e.fail("len of %s", v.ty)
	case "str": // content of a byte slice
		v := e.eval(n.Args[0])
		return SVal{u.bytesContent(e.st, e.term(v)), types.Typ[types.String]}
	case "bits": // set denoted by a *bitset.BitSet or BitSet value
		v := e.eval(n.Args[0])
		if _, isP := v.ty.Underlying().(*types.Pointer); isP {
			p := u.toPtr(v.v, v.ty)
			return SVal{e.loadP(p), deref(v.ty)}
		}
		return v
	case "union", "inter", "diff", "sym": // set operations
		v := e.eval(n.Args[0])
		return SVal{u.setOp(id.Name, e.term(v), arg(1)), v.ty}
	case "mem":
		return SVal{c.Select(arg(0), arg(1)), tb}
	case "sent": // sent(url, body)
		return SVal{c.Select(u.heap(e.st, "NET", ArrSort(u.netSort(), SBool)), c.Ctor(u.netSort(), arg(0), arg(1))), tb}
	case "wrote": // wrote(path, content)
		return SVal{c.Select(u.heap(e.st, "FS", ArrSort(u.netSort(), SBool)), c.Ctor(u.netSort(), arg(0), arg(1))), tb}
	case "replied": // content written to a response writer
		return SVal{c.Select(u.heap(e.st, "REPLY", ArrSort(SStr, SBool)), arg(0)), tb}
	case "status": // http.Error status sent
		return SVal{c.Select(u.heap(e.st, "STATUS", ArrSort(SInt, SBool)), arg(0)), tb}
	case "pure": // pure("fn", args...) value of result 0 of a pure function
		return e.pureApp(n, 0)
	case "pure1":
		return e.pureApp(n, 1)
	case "uf": // uf("name", "Sort", args...)
		nm, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		so := ""
		var uty types.Type
		if bl, ok := n.Args[1].(*ast.BasicLit); ok {
			so, _ = strconv.Unquote(bl.Value)
		} else {
			uty = e.typ(n.Args[1])
		}
		var as []*Term
		for i := 2; i < len(n.Args); i++ {
			as = append(as, arg(i))
		}
		var ty types.Type = untypedInt
		var s Sort
		if uty != nil {
			return SVal{c.App(nm, c.SortOf(uty), as...), uty}
		}
		switch so {
		case "Bool":
			s, ty = SBool, tb
		case "Int":
			s = SInt
		case "Str":
			s, ty = SStr, types.Typ[types.String]
		case "Any":
			s, ty = SAny, types.NewInterfaceType(nil, nil)
		default:
			s = Sort(so)
		}
		r := c.App(nm, s, as...)
		if nm == "bits.bin" && !r.hasB {
			c.binFacts(r, as[0])
		}
		if nm == "asn1.raw" && !r.hasB {
			c.asn1Facts(r)
		}
		return SVal{r, ty}
	case "dec": // dec(T, content): the value json decoding yields (types without references)
		ty := e.typ(n.Args[0])
		return SVal{u.jsonDec(e.st, ty, arg(1), 0), ty}
	case "done": // done(i): in a candidate invariant, the loop has been through index (or key) i
		if e.done == nil {
			e.fail("done outside a loop")
		}
		return SVal{e.done(arg(0)), types.Typ[types.Bool]}
	case "seq": // the sequence of elements of a slice
		v := e.eval(n.Args[0])
		et := v.ty.Underlying().(*types.Slice).Elem()
		return SVal{u.sliceSeq(e.st, e.term(v), et), untypedInt}
	case "seqof": // seqof(q, n, T, expr(q)): the sequence expr(0..n-1) of elements of type T
		nm := n.Args[0].(*ast.Ident).Name
		ln := arg(1)
		ty := e.typ(n.Args[2])
		if u.seqofVar == nil {
			u.seqofVar = c.BVar("sqv", SInt)
			u.seqofMemo = map[*Term]*Term{}
		}
		bv := u.seqofVar
		b := e.with(nm, SVal{bv, untypedInt})
		body := b.term(b.eval(n.Args[3]))
		if arr := u.seqofMemo[body]; arr != nil {
			return SVal{u.seq(arr, c.Int(0), ln, c.SortOf(ty)), untypedInt}
		}
		arr := c.Fresh("sq", ArrSort(SInt, c.SortOf(ty)))
		u.seqofMemo[body] = arr
		def := c.Forall([]*Term{bv}, c.Eq(c.Select(arr, bv), body), c.Select(arr, bv))
		if !def.hasB {
			c.axiom(def)
		} else {
			u.fail("seqof below a quantifier")
		}
		return SVal{u.seq(arr, c.Int(0), ln, c.SortOf(ty)), untypedInt}
	case "decok":
		ty := e.typ(n.Args[0])
		return SVal{c.Eq(c.App("json.err."+jsonShape(ty), SAny, arg(1)), c.nilAny()), tb}
	case "enc": // json encoding of a value
		v := e.eval(n.Args[0])
		return SVal{u.jsonEnc(e.st, v.v, v.ty), types.Typ[types.String]}
	case "cat":
		var as []*Term
		for i := range n.Args {
			as = append(as, arg(i))
		}
		return SVal{c.Cat(as...), types.Typ[types.String]}
	case "conv": // conv(T, x): same representation, other type
		return SVal{e.eval(n.Args[1]).v, e.typ(n.Args[0])}
	case "unbox": // unbox(T, x): the T inside interface value x
		v := e.eval(n.Args[1])
		ty := e.typ(n.Args[0])
		if iv, ok := v.v.(*IfaceV); ok {
			if !types.Identical(types.Unalias(iv.typ), types.Unalias(ty)) {
				return SVal{c.Fresh("unbox", c.SortOf(ty)), ty}
			}
			return SVal{iv.v, ty}
		}
		return SVal{c.Unbox(ty, e.term(v)), ty}
	case "istype":
		v := e.eval(n.Args[1])
		ty := e.typ(n.Args[0])
		if iv, ok := v.v.(*IfaceV); ok {
			return SVal{c.Bool(types.Identical(types.Unalias(iv.typ), types.Unalias(ty))), tb}
		}
		return SVal{c.Eq(c.App("tagof", SInt, e.term(v)), c.Tag(ty)), tb}
	case "ref": // identity of a slice's array, a map or a pointer
		v := e.eval(n.Args[0])
		t := e.term(v)
		if t.sort == SSlice {
			t = c.Sel(t, 0)
		}
		return SVal{t, untypedInt}
	case "called": // called("fn", args...): fn was called with these arguments (pointers left out)
		nm, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		if nm == "later" && len(n.Args) == 2 { // called("later", 2)
			return SVal{c.Select(u.heap(e.st, "GC:later2", ArrSort(SInt, SBool)), c.App("call.later2", SInt)), tb}
		}
		if nm != "later" && (!u.sp.tracked[nm] || u.sp.contracts[nm] == nil) {
			e.fail("%s is not tracked", nm)
		}
		var as []*Term
		for i := 1; i < len(n.Args); i++ {
			as = append(as, arg(i))
		}
		return SVal{c.Select(u.heap(e.st, "GC:"+nm, ArrSort(SInt, SBool)), c.App("call."+nm, SInt, as...)), tb}
	case "callarg": // callarg("fn", i): argument i of the last call of a tracked function
		nm, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		k, _ := strconv.Atoi(n.Args[1].(*ast.BasicLit).Value)
		f := u.P.fns[nm]
		if !u.sp.tracked[nm] || f == nil || k >= len(f.Params) {
			e.fail("%s is not tracked", nm)
		}
		pt := f.Params[k].Type()
		if v, ok := e.st.notes[fmt.Sprintf("arg:%s:%d", nm, k)].(*Term); ok {
			return SVal{v, pt}
		}
		return SVal{c.Fresh("noarg", c.SortOf(pt)), pt}
	case "samenet": // nothing was sent
		return SVal{c.Eq(u.heap(e.st, "NET", u.ghostSort("NET")), u.heap(e.old, "NET", u.ghostSort("NET"))), tb}
	case "fresh": // object allocated during the call
		v := e.eval(n.Args[0])
		t := e.term(v)
		if t.sort == SSlice {
			t = c.Sel(t, 0)
		}
		o := e.old
		if o == nil {
			e.fail("fresh without old")
		}
		return SVal{c.Lt(o.top, t), tb}
	case "allocated":
		v := e.eval(n.Args[0])
		t := e.term(v)
		if t.sort == SSlice {
			t = c.Sel(t, 0)
		}
		return SVal{c.And(c.Lt(c.Int(0), t), c.Le(t, e.st.top)), tb}
	case "samemap": // same contents as before
		v := e.eval(n.Args[0])
		mt := v.ty.Underlying().(*types.Map)
		t := e.term(v)
		o := *e
		o.st = e.old
		return SVal{c.And(c.Eq(u.mapDom(e.st, mt, t), u.mapDom(e.old, mt, t)), c.Eq(u.mapVal(e.st, mt, t), u.mapVal(e.old, mt, t))), tb}
	case "sameelems":
		v := e.eval(n.Args[0])
		st := v.ty.Underlying().(*types.Slice)
		t := e.term(v)
		_, h1 := u.elemHeap(e.st, st.Elem())
		_, h0 := u.elemHeap(e.old, st.Elem())
		return SVal{c.Eq(u.hsel(h1, c.Sel(t, 0)), u.hsel(h0, c.Sel(t, 0))), tb}
	case "held": // lock held? (typestate, only known locks)
		v := e.eval(n.Args[0])
		p, ok := v.v.(*Ptr)
		if !ok {
			p = u.toPtr(v.v, v.ty)
		}
		return SVal{c.Bool(e.st.locks[u.noteKey(p)] != 0), tb}
	}
	if d, ok := e.u.sp.defines[id.Name]; ok {
		if len(d.params) != len(n.Args) {
			e.fail("%s: %d args", id.Name, len(n.Args))
		}
		ne := *e
		ne.depth++
		if ne.depth > 40 {
			e.fail("recursive define %s", id.Name)
		}
		ne.vars = map[string]SVal{}
		for i, p := range d.params {
			ne.vars[p] = e.eval(n.Args[i])
		}
		return ne.eval(d.expr)
	}
	e.fail("unknown spec function %s", id.Name)
	return SVal{}
}

func (e *SEnv) pureApp(n *ast.CallExpr, res int) SVal {
	nm, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
	fn := e.u.P.fns[nm]
	if fn == nil {
		e.fail("pure: no function %s", nm)
	}
	var as []*Term
	for i := 1; i < len(n.Args); i++ {
		as = append(as, e.term(e.eval(n.Args[i])))
	}
	rt := fn.Signature.Results().At(res).Type()
	e.u.pureAxiom(nm, fn, as)
	return SVal{e.u.c.App(fmt.Sprintf("pure.%s.%d", nm, res), e.u.c.SortOf(rt), as...), rt}
}

// what the contract of a pure function says about all its values: the
// pointers it is given are to configuration that does not change, read on entry
func (u *Unit) pureAxiom(nm string, fn *ssa.Function, as []*Term) {
	con := u.sp.contracts[nm]
	if con == nil || !con.pure || u.con == nil || u.con.fn == nm || u.entry == nil {
		return
	}
	if len(con.of("ensures", u.prop)) == 0 {
		return
	}
	u.used[nm] = true
	c := u.c
	key := nm
	var bs, args []*Term
	vars := map[string]SVal{}
	for i, p := range con.params {
		t := fn.Params[i].Type()
		a := as[i]
		if _, isP := t.Underlying().(*types.Pointer); isP && !a.hasB {
			key += fmt.Sprint(" ", a.id)
		} else {
			a = c.BVar(p, c.SortOf(t))
			bs = append(bs, a)
		}
		args = append(args, a)
		vars[p] = SVal{a, t}
	}
	if u.pureDone[key] {
		return
	}
	u.pureDone[key] = true
	var rets []Val
	var pat []*Term
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		r := c.App(fmt.Sprintf("pure.%s.%d", nm, i), c.SortOf(sig.Results().At(i).Type()), args...)
		rets = append(rets, r)
		pat = append(pat, r)
	}
	con.bindRes(vars, sig, rets)
	st := u.entry.clone()
	env := &SEnv{u: u, st: st, old: st, vars: vars}
	pre, post := c.True, c.True
	for _, cl := range con.of("requires", u.prop) {
		pre = c.And(pre, u.evalBool(env, cl.expr))
	}
	for _, cl := range con.of("ensures", u.prop) {
		post = c.And(post, u.evalBool(env, cl.expr))
	}
	if len(bs) > 0 {
		c.axiom(c.Forall(bs, c.Implies(pre, post), pat[0]))
	} else {
		c.axiom(c.Implies(pre, post))
	}
}

// ---------- contract application ----------

func (con *Contract) bind(u *Unit, args []Val) map[string]SVal {
	m := map[string]SVal{}
	fn := u.P.fns[con.fn]
	for i, p := range con.params {
		if i < len(args) && p != "_" {
			m[p] = SVal{args[i], fn.Params[i].Type()}
		}
	}
	return m
}

func (con *Contract) bindRes(m map[string]SVal, sig *types.Signature, rets []Val) {
	for i := 0; i < sig.Results().Len() && i < len(rets); i++ {
		v := SVal{rets[i], sig.Results().At(i).Type()}
		m[fmt.Sprintf("result%d", i)] = v
		if sig.Results().Len() == 1 {
			m["result"] = v
		}
		if i < len(con.results) {
			m[con.results[i]] = v
		}
	}
}

func (u *Unit) applyContract(fr *Frame, st *State, con *Contract, fn *ssa.Function, args []Val, in ssa.Instruction) []Outcome {
	c := u.c
	u.used[con.fn] = true
	vars := con.bind(u, args)
	old := st.clone()
	env := &SEnv{u: u, st: st, old: old, vars: vars}
	for _, cl := range con.of("requires", u.prop) {
		g := u.evalBool(env, cl.expr)
		if !u.oblige(st, "call "+con.fn+" requires "+cl.name, g, "precondition of "+con.fn+" at "+u.pos(fr, in)) {
			// continue under the assumption, the failure is recorded
		}
		st.assume(g)
	}
	if acq := con.of("acquires", u.prop); u.checkLocks && len(acq) > 0 {
		for _, w := range acq[0].words {
			u.mayAcquire(st, w, "call of "+con.fn+" at "+u.pos(fr, in))
			for k, n := range st.locks {
				if n == 0 {
					continue
				}
				held := lockName(u.lockField(u.lockPtrs[k]))
				u.oblige(st, "locks", c.Bool(held != "" && held != w), "lock "+k+" is held when "+con.fn+" is called at "+u.pos(fr, in))
				u.lockEdges[[2]string{held, w}] = u.pos(fr, in)
			}
		}
	} else if u.checkLocks && con.has("locks", u.prop) {
		u.mayAcquire(st, "", "call of "+con.fn+" at "+u.pos(fr, in))
		for k, n := range st.locks {
			if n != 0 {
				u.oblige(st, "locks", c.False, "lock "+k+" is held when "+con.fn+" is called at "+u.pos(fr, in))
			}
		}
	}
	if u.con != nil && u.con.noPanic(u.prop) && !con.noPanic(u.prop) {
		u.oblige(st, "no-panic", c.False, "callee "+con.fn+" has no no-panic contract")
	}
	if u.sp.tracked[con.fn] {
		u.track(st, con.fn, args, fn.Params)
	}
	old = st.clone()
	u.havocModifies(st, con, vars, old)
	var rets []Val
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if con.pure {
			var as []*Term
			for j, a := range args {
				as = append(as, u.term(st, a, fn.Params[j].Type()))
			}
			r := c.App(fmt.Sprintf("pure.%s.%d", con.fn, i), c.SortOf(rt), as...)
			u.refFacts(st, r, rt)
			rets = append(rets, r)
		} else {
			rets = append(rets, u.freshVal(st, "r."+con.fn, rt))
		}
	}
	con.bindRes(vars, sig, rets)
	env = &SEnv{u: u, st: st, old: old, vars: vars}
	for _, cl := range con.of("ensures", u.prop) {
		st.assume(u.evalBool(env, cl.expr))
	}
	if !con.pure {
		u.afterCall(st)
	}
	return []Outcome{{kind: KReturn, st: st, rets: rets}}
}

// calls of tracked functions are recorded, by the values of the arguments that are data
func (u *Unit) track(st *State, fn string, args []Val, ps []*ssa.Parameter) {
	var as []*Term
	for i, a := range args {
		if _, isP := ps[i].Type().Underlying().(*types.Pointer); !isP {
			as = append(as, u.term(st, a, ps[i].Type()))
		}
	}
	if st.notes == nil {
		st.notes = map[string]Val{}
	}
	for i, a := range args {
		st.notes[fmt.Sprintf("arg:%s:%d", fn, i)] = u.term(st, a, ps[i].Type())
	}
	k := "GC:" + fn
	h := u.heap(st, k, ArrSort(SInt, SBool))
	st.heaps[k] = u.c.Store(h, u.c.App("call."+fn, SInt, as...), u.c.True)
}

// ---------- modifies ----------

type modLoc struct {
	kind string // map, field, elems, net, fs, reply, all
	key  string // heap key
	ref  *Term
	p    *Ptr
	mt   *types.Map
	et   types.Type
}

func (u *Unit) modLocs(con *Contract, vars map[string]SVal, st *State) ([]modLoc, bool) {
	var out []modLoc
	all := false
	for _, cl := range con.of("modifies", u.prop) {
		for _, a := range cl.expr.(*ast.CallExpr).Args {
			env := &SEnv{u: u, st: st, old: st, vars: vars}
			switch n := a.(type) {
			case *ast.Ident:
				switch n.Name {
				case "all":
					all = true
				case "nothing":
				case "net":
					out = append(out, modLoc{kind: "ghost", key: "NET"})
				case "fs":
					out = append(out, modLoc{kind: "ghost", key: "FS"})
				case "reply":
					out = append(out, modLoc{kind: "ghost", key: "REPLY"}, modLoc{kind: "ghost", key: "STATUS"})
				default:
					u.fail("modifies %s", n.Name)
				}
			case *ast.CallExpr:
				switch n.Fun.(*ast.Ident).Name {
				case "dict":
					v := env.eval(n.Args[0])
					mt := v.ty.Underlying().(*types.Map)
					out = append(out, modLoc{kind: "map", ref: env.term(v), mt: mt})
				case "elems":
					v := env.eval(n.Args[0])
					et := v.ty.Underlying().(*types.Slice).Elem()
					out = append(out, modLoc{kind: "elems", ref: u.c.Sel(env.term(v), 0), et: et})
				case "field":
					se := n.Args[0].(*ast.SelectorExpr)
					b := env.eval(se.X)
					p := u.toPtr(b.v, b.ty)
					stt := deref(b.ty).Underlying().(*types.Struct)
					for i := 0; i < stt.NumFields(); i++ {
						if stt.Field(i).Name() == se.Sel.Name {
							np := *p
							np.path = append(p.path[:len(p.path):len(p.path)], pstep{field: i, on: deref(b.ty)})
							np.ptyp = stt.Field(i).Type()
							out = append(out, modLoc{kind: "field", p: &np})
						}
					}
				case "cell":
					b := env.eval(n.Args[0])
					out = append(out, modLoc{kind: "field", p: u.toPtr(b.v, b.ty)})
				default:
					u.fail("modifies form")
				}
			default:
				u.fail("modifies form")
			}
		}
	}
	return out, all
}

func (u *Unit) ghostSort(k string) Sort {
	switch k {
	case "NET", "FS":
		return ArrSort(u.netSort(), SBool)
	case "REPLY":
		return ArrSort(SStr, SBool)
	case "STATUS":
		return ArrSort(SInt, SBool)
	}
	return SInt
}

func (u *Unit) havocModifies(st *State, con *Contract, vars map[string]SVal, old *State) {
	c := u.c
	locs, all := u.modLocs(con, vars, old)
	// the callee may allocate
	nt := c.Fresh("top", SInt)
	st.assume(c.Le(st.top, nt))
	st.top = nt
	if all {
		u.havocShared(st, "call")
		return
	}
	for _, l := range locs {
		switch l.kind {
		case "ghost":
			nh := c.Fresh("hv."+l.key, u.ghostSort(l.key))
			if l.key == "NET" || l.key == "FS" || l.key == "REPLY" || l.key == "STATUS" {
				// history only grows
				k, _ := arrSorts(nh.sort)
				m := c.BVar("m", k)
				st.assume(c.Forall([]*Term{m}, c.Implies(c.Select(u.heap(old, l.key, nh.sort), m), c.Select(nh, m))))
			}
			u.heap(st, l.key, nh.sort)
			st.heaps[l.key] = nh
		case "map":
			u.havocMap(st, l.mt, l.ref)
		case "elems":
			k, h := u.elemHeap(st, l.et)
			st.heaps[k] = c.Store(h, l.ref, c.Fresh("hv", ArrSort(SInt, c.SortOf(l.et))))
		case "field":
			v := c.Fresh("hv", c.SortOf(l.p.ptyp))
			u.store(st, l.p, v)
			u.refFacts(st, v, l.p.ptyp)
		}
	}
}

func (u *Unit) havocMap(st *State, mt *types.Map, ref *Term) {
	c := u.c
	ks := c.SortOf(mt.Key())
	dk, dh := u.mapDomH(st, mt)
	nd := c.Fresh("hv.dom", ArrSort(ks, SBool))
	st.heaps[dk] = c.Store(dh, ref, nd)
	vk, vh := u.mapValH(st, mt)
	nv := c.Fresh("hv.val", ArrSort(ks, c.SortOf(mt.Elem())))
	st.heaps[vk] = c.Store(vh, ref, nv)
	// what the map holds is allocated
	bk := c.BVar("hk", ks)
	e := c.Select(nv, bk)
	switch mt.Elem().Underlying().(type) {
	case *types.Slice:
		st.assume(c.Forall([]*Term{bk}, c.And(u.sliceWF(e), c.Le(c.Sel(e, 0), st.top)), e))
	case *types.Pointer, *types.Map:
		st.assume(c.Forall([]*Term{bk}, c.And(c.Le(c.Int(0), e), c.Le(e, st.top)), e))
	}
	ck, ch := u.mapCardH(st, mt)
	n := c.Fresh("hv.card", SInt)
	st.assume(c.Le(c.Int(0), n))
	st.heaps[ck] = c.Store(ch, ref, n)
}

// frame obligation at a return of the unit
func (u *Unit) checkFrame(st *State, vars map[string]SVal) {
	c := u.c
	if len(u.con.of("modifies", u.prop)) == 0 && !u.con.pure {
		return // no frame stated
	}
	locs, all := u.modLocs(u.con, vars, u.entry)
	if all {
		return
	}
	keys := make([]string, 0, len(st.heaps))
	for k := range st.heaps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h1 := st.heaps[k]
		if strings.HasPrefix(k, "IT:") || strings.HasPrefix(k, "GC:") || k == "CTX" {
			continue
		}
		h0, ok := u.entry.heaps[k]
		if !ok {
			h0 = c.Const("H0."+k, h1.sort)
		}
		if h1 == h0 {
			continue
		}
		ghost := k == "NET" || k == "FS" || k == "REPLY" || k == "STATUS"
		if ghost || k[0] == 'G' {
			okk := false
			for _, l := range locs {
				if l.kind == "ghost" && l.key == k {
					okk = true
				}
			}
			if !okk {
				u.oblige(st, "frame "+k, c.Eq(h1, h0), "modifies "+k)
			}
			continue
		}
		r := c.Fresh("fr", SInt)
		hyp := []*Term{c.Lt(c.Int(0), r), c.Le(r, u.entry.top)}
		want := u.hsel(h1, r)
		var got = u.hsel(h0, r)
		for _, l := range locs {
			switch l.kind {
			case "map":
				mk := mapKey(l.mt)
				if k == "MD:"+mk || k == "MV:"+mk || k == "MC:"+mk {
					hyp = append(hyp, c.Ne(r, l.ref))
				}
			case "elems":
				if k == elemKey(l.et) {
					hyp = append(hyp, c.Ne(r, l.ref))
				}
			case "field":
				if l.p.idx == nil && k == l.p.heap {
					// neutralise that field
					nv := u.setPath(got, l.p.path, u.getPath(want, l.p.path))
					got = c.Ite(c.Eq(r, l.p.ref), nv, got)
				}
			}
		}
		s := st.clone()
		for _, h := range hyp {
			s.assume(h)
		}
		// expand havoc frames
		cur := h1
		for {
			if cur.op == OStore {
				cur = cur.args[0]
				continue
			}
			if hi, ok := u.havocBase[cur]; ok {
				s.assume(c.Eq(c.Select(cur, r), c.Select(hi.base, r)))
				cur = hi.base
				continue
			}
			break
		}
		u.oblige(s, "frame "+k, c.Eq(want, got), "unexpected modification of "+k)
	}
}

var _ = constant.Bool

func mentionsResult(e ast.Expr, con *Contract) bool {
	found := false
	names := map[string]bool{"result": true}
	for i := 0; i < 6; i++ {
		names[fmt.Sprintf("result%d", i)] = true
	}
	for _, r := range con.results {
		names[r] = true
	}
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			found = true
		}
		return true
	})
	return found
}
