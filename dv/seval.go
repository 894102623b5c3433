package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/types"
	"strings"
)

// SType is a specification type: a Go type or a mathematical array.
type SType struct {
	Ref bool
	Go  types.Type
	S   Sort
	K   *SType
	V   *SType
}

var (
	tInt  = &SType{S: SInt}
	tBool = &SType{Go: types.Typ[types.Bool], S: SBool}
	tStr  = &SType{Go: types.Typ[types.String], S: SStr}
)

type SVal struct {
	V   Val
	T   *SType
	F   func(*Term) SVal // pointwise array
	Nil bool
}

func (s SVal) isLam() bool { return s.F != nil }

type Env struct {
	ex      *Exec
	st      *State
	old     *State
	names   map[string]SVal
	vars    map[string]bool // bound logical variables (kept under old())
	inOld   bool
	depth   int
	frame   *Frame
	lemmaOK bool
	pkg     string
}

func (e *Env) with(n string, v SVal) *Env {
	c := *e
	c.names = make(map[string]SVal, len(e.names)+1)
	for k, v := range e.names {
		c.names[k] = v
	}
	c.names[n] = v
	nv := make(map[string]bool, len(e.vars)+1)
	for k := range e.vars {
		nv[k] = true
	}
	nv[n] = true
	c.vars = nv
	return &c
}

type specErr struct{ msg string }

func (e *Env) fail(x *Ex, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s: %s", x.Line, fmt.Sprintf(f, a...))})
}

// stype parses a specification type.
func (w *World) stype(s, pkg string) *SType {
	switch s {
	case "int":
		return tInt
	case "bool":
		return tBool
	case "str", "string":
		return tStr
	case "ref":
		return &SType{S: SInt, Ref: true}
	case "flt":
		return &SType{Go: types.Typ[types.Float64], S: SFlt}
	case "J":
		return &SType{S: SJ}
	}
	for _, b := range types.Typ {
		if b.Name() == s {
			so, _ := scalarSort(b)
			return &SType{Go: b, S: so}
		}
	}
	if strings.HasPrefix(s, "set[") {
		k := w.stype(s[4:len(s)-1], pkg)
		return &SType{S: ArrS(k.S, SBool), K: k, V: tBool}
	}
	if strings.HasPrefix(s, "[]") {
		el := w.stype(s[2:], pkg)
		return &SType{Go: types.NewSlice(el.Go), S: "slice"}
	}
	if strings.HasPrefix(s, "[") {
		d := 0
		for i := range s {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, v := w.stype(s[1:i], pkg), w.stype(s[i+1:], pkg)
					return &SType{S: ArrS(k.S, v.S), K: k, V: v}
				}
			}
		}
	}
	if strings.HasPrefix(s, "*") {
		el := w.stype(s[1:], pkg)
		return &SType{Go: types.NewPointer(el.Go), S: SInt}
	}
	t := w.namedType(s, pkg)
	if t == nil {
		panic(specErr{fmt.Sprintf("unknown type %s", s)})
	}
	so, ok := scalarSort(t)
	if !ok {
		so = "struct"
	}
	return &SType{Go: t, S: so}
}

func goVal(v Val, t types.Type) SVal {
	so, ok := scalarSort(t)
	if !ok {
		so = "struct"
	}
	return SVal{V: v, T: &SType{Go: t, S: so}}
}
func termVal(t *Term, ty *SType) SVal { return SVal{V: TV{t}, T: ty} }
func boolVal(t *Term) SVal            { return termVal(t, tBool) }
func intVal(t *Term) SVal             { return termVal(t, tInt) }
func strVal(t *Term) SVal             { return termVal(t, tStr) }

// term of a scalar or array value.
func (e *Env) term(v SVal) *Term {
	if v.Nil {
		return IntT(0)
	}
	if v.F != nil {
		a := Fresh("lam", v.T.S)
		k := FreshVar("k", v.T.K.S)
		e.st.assume(Forall([]*Term{k}, Eq(Select(a, k), e.term(v.F(k))), []*Term{Select(a, k)}))
		return a
	}
	return e.ex.scalar(v.V)
}

func (e *Env) b(x *Ex) *Term {
	v := e.eval(x)
	t := e.term(v)
	if t.S != SBool {
		e.fail(x, "boolean expected")
	}
	return t
}

func (e *Env) evalTop(x *Ex) *Term {
	q := e.ex.quiet
	e.ex.quiet = true
	e.ex.touchOff++
	defer func() { e.ex.quiet = q; e.ex.touchOff-- }()
	return e.b(x)
}

func (e *Env) evalVal(x *Ex) SVal {
	q := e.ex.quiet
	e.ex.quiet = true
	e.ex.touchOff++
	defer func() { e.ex.quiet = q; e.ex.touchOff-- }()
	return e.eval(x)
}

// inOldState evaluates in the old state.
func (e *Env) oldEnv() *Env {
	c := *e
	if e.old == nil {
		panic(specErr{"old() has no meaning here"})
	}
	c.st = e.old
	c.inOld = true
	return &c
}

func (e *Env) sel(a SVal, k *Term, x *Ex) SVal {
	if a.F != nil {
		return a.F(k)
	}
	t := e.term(a)
	if !t.S.isArr() {
		e.fail(x, "not an array")
	}
	r := Select(t, k)
	if a.T != nil && a.T.V != nil {
		return e.wrapT(r, a.T.V)
	}
	return termVal(r, &SType{S: r.S})
}

func (e *Env) wrapT(r *Term, t *SType) SVal {
	if t.Go != nil && !t.S.isArr() {
		if _, ok := scalarSort(t.Go); ok {
			return SVal{V: e.ex.mkScalar(r, t.Go), T: t}
		}
	}
	return SVal{V: TV{r}, T: t}
}

func (e *Env) equal(a, b SVal, x *Ex) *Term {
	if a.F != nil || b.F != nil {
		ty := a.T
		if a.F == nil {
			ty = b.T
		}
		k := FreshVar("k", ty.K.S)
		l, r := e.term(e.sel(a, k, x)), e.term(e.sel(b, k, x))
		var pats [][]*Term
		for _, v := range []SVal{a, b} {
			if v.F == nil {
				if t := e.term(v); t.Op != "app" || t.Name == "select" {
					pats = append(pats, []*Term{Select(t, k)})
				}
			}
		}
		return Forall([]*Term{k}, Eq(l, r), pats...)
	}
	if a.Nil && b.Nil {
		return True
	}
	if a.Nil || b.Nil {
		if b.Nil {
			a, b = b, a
		}
		switch v := b.V.(type) {
		case IfV:
			return Eq(v.Tag, IntT(0))
		case SliceV:
			return Eq(v.R, IntT(0))
		}
		return Eq(e.ex.scalar(b.V), IntT(0))
	}
	if a.T != nil && a.T.Go != nil && b.T != nil && b.T.Go != nil {
		if isIfaceT(a.T.Go) || isIfaceT(b.T.Go) {
			return e.ex.equal(e.st, a.V, b.V, a.T.Go, b.T.Go)
		}
		if isSliceT(a.T.Go) {
			sa, sb := a.V.(SliceV), b.V.(SliceV)
			return And(Eq(sa.R, sb.R), Eq(sa.O, sb.O), Eq(sa.L, sb.L), Eq(sa.C, sb.C))
		}
		if isStructT(a.T.Go) {
			fa, fb := e.ex.flatten(a.V, a.T.Go), e.ex.flatten(b.V, b.T.Go)
			var cs []*Term
			for i := range fa {
				cs = append(cs, Eq(fa[i], fb[i]))
			}
			return And(cs...)
		}
	}
	return Eq(e.term(a), e.term(b))
}

func (e *Env) eval(x *Ex) SVal {
	switch x.Op {
	case "int":
		return intVal(BigT(x.Int))
	case "str":
		return strVal(StrLit(x.Name))
	case "id":
		return e.ident(x)
	case "un":
		v := e.eval(x.Args[0])
		if x.Name == "!" {
			return boolVal(Not(e.term(v)))
		}
		return intVal(Neg(e.term(v)))
	case "bin":
		return e.bin(x)
	case "let":
		return e.with(x.Name, e.eval(x.Args[0])).eval(x.Args[1])
	case "forall", "exists":
		ne := e
		var vs []*Term
		for _, v := range x.Vars {
			ty := e.ex.w.stype(v.Type, e.pkg)
			t := FreshVar(v.Name, ty.S)
			vs = append(vs, t)
			ne = ne.with(v.Name, e.wrapT(t, ty))
		}
		body := ne.b(x.Args[0])
		if x.Op == "exists" {
			return boolVal(Exists(vs, body))
		}
		var pats [][]*Term
		for _, p := range x.Pats {
			var pt []*Term
			ok := true
			for _, y := range p {
				t := ne.term(ne.eval(y))
				if !goodPat(t) {
					ok = false
				}
				pt = append(pt, t)
			}
			if ok {
				for _, v := range vs {
					in := false
					for _, t := range pt {
						if occurs(v, t) {
							in = true
						}
					}
					if !in && occurs(v, body) {
						ok = false
					}
				}
			}
			if ok {
				pats = append(pats, pt)
			}
		}
		return boolVal(Forall(vs, body, pats...))
	case "field":
		return e.field(x, e.eval(x.Args[0]), x.Name)
	case "index":
		return e.index(x)
	case "upd":
		a := e.eval(x.Args[0])
		k := e.term(e.eval(x.Args[1]))
		v := e.eval(x.Args[2])
		if a.F != nil {
			f := a.F
			vt := a.T.V
			return SVal{T: a.T, F: func(i *Term) SVal {
				return e.wrapT(Ite(Eq(i, k), e.term(v), e.term(f(i))), vt)
			}}
		}
		return termVal(Store(e.term(a), k, e.term(v)), a.T)
	case "call":
		return e.callE(x)
	}
	e.fail(x, "bad expression %s", x.Op)
	return SVal{}
}

// goodPat: patterns may not hold logical connectives or interpreted arithmetic at the top.
func goodPat(t *Term) bool {
	switch t.Op {
	case "forall", "exists", "true", "false", "int", "var":
		return false
	case "app":
		switch t.Name {
		case "and", "or", "not", "=>", "=", "ite", "<", "<=", "+", "-", "*", "div", "mod":
			return false
		}
	}
	ok := true
	var w func(t *Term)
	w = func(t *Term) {
		if t.Op == "app" {
			switch t.Name {
			case "and", "or", "not", "=>", "=", "ite", "<", "<=":
				if t.fv {
					ok = false
				}
			}
			for _, a := range t.Args {
				w(a)
			}
		}
	}
	w(t)
	return ok && t.fv
}

func (e *Env) ident(x *Ex) SVal {
	switch x.Name {
	case "nil":
		return SVal{Nil: true, V: TV{IntT(0)}}
	case "true":
		return boolVal(True)
	case "false":
		return boolVal(False)
	}
	if e.frame != nil && !e.inOld && !e.vars[x.Name] {
		// a parameter changed by a loop
		for i := len(e.frame.loops) - 1; i >= 0; i-- {
			for _, p := range headerPhis(e.frame.loops[i].header) {
				if v, ok := e.frame.regs[p]; ok && p.Comment == nowName(e.frame.fn, x.Name) {
					return goVal(v, p.Type())
				}
			}
		}
	}
	if v, ok := e.names[x.Name]; ok {
		return v
	}
	if ty, ok := e.ex.w.specs.Vars[x.Name]; ok {
		return termVal(e.ex.gvar(e.st, x.Name), e.ex.w.stype(ty, e.pkg))
	}
	if f, ok := specConsts[x.Name]; ok && e.ex.w.global(e.pkg, x.Name) == nil {
		return f(e)
	}
	if e.frame != nil {
		if v, ok := e.local(x.Name); ok {
			return v
		}
	}
	if g := e.ex.w.global(e.pkg, x.Name); g != nil {
		l := e.ex.globalLoc(g).(LocV)
		v := e.ex.load(e.st, l, l.Typ)
		v = e.ex.globalFacts(e.st, l, v)
		return goVal(v, l.Typ)
	}
	e.fail(x, "unknown name %s", x.Name)
	return SVal{}
}

// gvar is a global ghost variable.
func (ex *Exec) gvar(st *State, n string) *Term {
	if t, ok := st.vars[n]; ok {
		return t
	}
	ty := ex.w.stype(ex.w.specs.Vars[n], "queue")
	t := Const("V0:"+n, ty.S)
	st.vars[n] = t
	return t
}

func (e *Env) bin(x *Ex) SVal {
	switch x.Name {
	case "&&":
		a := e.b(x.Args[0])
		if a == False {
			return boolVal(False)
		}
		return boolVal(And(a, e.b(x.Args[1])))
	case "||":
		a := e.b(x.Args[0])
		if a == True {
			return boolVal(True)
		}
		return boolVal(Or(a, e.b(x.Args[1])))
	case "==>":
		a := e.b(x.Args[0])
		if a == False {
			return boolVal(True)
		}
		return boolVal(Imp(a, e.b(x.Args[1])))
	case "<==>":
		return boolVal(Eq(e.b(x.Args[0]), e.b(x.Args[1])))
	}
	a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
	switch x.Name {
	case "==":
		return boolVal(e.equal(a, b, x))
	case "!=":
		return boolVal(Not(e.equal(a, b, x)))
	case "in":
		if b.T != nil && b.T.Go != nil {
			if mt, ok := b.T.Go.Underlying().(*types.Map); ok {
				return boolVal(Select(e.mapDom(b, mt), e.term(a)))
			}
		}
		return boolVal(e.term(e.sel(b, e.term(a), x)))
	}
	s, t := e.term(a), e.term(b)
	if s.S == SStr {
		switch x.Name {
		case "+":
			return strVal(Cat(s, t))
		case "<":
			return boolVal(slt(s, t))
		case ">":
			return boolVal(slt(t, s))
		case "<=":
			return boolVal(Not(slt(t, s)))
		case ">=":
			return boolVal(Not(slt(s, t)))
		}
	}
	if s.S != SInt || t.S != SInt {
		e.fail(x, "integer operands expected for %s (%s %s)", x.Name, s.S, t.S)
	}
	switch x.Name {
	case "+":
		return intVal(Add(s, t))
	case "-":
		return intVal(Sub(s, t))
	case "*":
		return intVal(Mul(s, t))
	case "/":
		return intVal(DivE(s, t))
	case "%":
		return intVal(ModE(s, t))
	case "<":
		return boolVal(Lt(s, t))
	case "<=":
		return boolVal(Le(s, t))
	case ">":
		return boolVal(Lt(t, s))
	case ">=":
		return boolVal(Le(t, s))
	}
	e.fail(x, "operator %s", x.Name)
	return SVal{}
}

func (e *Env) mapDom(m SVal, mt *types.Map) *Term {
	dk, _, _ := e.ex.mapClasses(mt)
	return Select(e.ex.hget(e.st, dk), e.ex.scalar(m.V))
}

func (e *Env) index(x *Ex) SVal {
	a := e.eval(x.Args[0])
	k := e.eval(x.Args[1])
	if a.T != nil && a.T.Go != nil {
		switch u := a.T.Go.Underlying().(type) {
		case *types.Map:
			_, vks, _ := e.ex.mapClasses(u)
			var ts []*Term
			for _, vk := range vks {
				ts = append(ts, Select(Select(e.ex.hget(e.st, vk), e.ex.scalar(a.V)), e.term(k)))
			}
			v, _ := e.ex.unflatten(ts, u.Elem())
			return goVal(v, u.Elem())
		case *types.Slice:
			s := a.V.(SliceV)
			v := e.ex.heapLoad(e.st, elemClass(u.Elem()), []*Term{s.R, Ix(s.O, e.term(k))}, u.Elem())
			return goVal(v, u.Elem())
		}
	}
	return e.sel(a, e.term(k), x)
}

// typeDecl of a value's type.
func (w *World) declOf(t types.Type) *TypeDecl {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = p.Elem()
		}
	}
	return w.types[tkey(t)]
}

func (e *Env) field(x *Ex, a SVal, f string) SVal {
	if a.T == nil || a.T.Go == nil {
		e.fail(x, "field %s of a value without a Go type", f)
	}
	t := a.T.Go
	if td := e.ex.w.declOf(t); td != nil {
		if m, ok := td.Models[f]; ok {
			return e.model(x, a, td, m)
		}
		if g, ok := td.Ghosts[f]; ok {
			ty := e.ex.w.stype(g, td.Pkg)
			k := e.ex.ghostClass(td, f, ty)
			return e.wrapT(Select(e.ex.hget(e.st, k), e.ex.payload(a.V)), ty)
		}
	}
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		e.fail(x, "no field %s in %s", f, t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if fname(st.Field(i)) == f {
			if sv, ok := a.V.(SV); ok {
				return goVal(sv.F[i], st.Field(i).Type())
			}
			if isPtrT(t) {
				v := e.ex.load(e.st, e.ex.fieldAddr(a.V, deref(t), i), st.Field(i).Type())
				return goVal(v, st.Field(i).Type())
			}
		}
	}
	// embedded fields
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if sv, ok := a.V.(SV); ok {
				return e.field(x, goVal(sv.F[i], st.Field(i).Type()), f)
			}
		}
	}
	e.fail(x, "no field %s in %s", f, t)
	return SVal{}
}

func (ex *Exec) payload(v Val) *Term {
	if i, ok := v.(IfV); ok {
		return i.Pay
	}
	return ex.scalar(v)
}

func (ex *Exec) ghostClass(td *TypeDecl, f string, ty *SType) string {
	k := "$" + td.Pkg + "." + td.Name + "." + f
	var lt types.Type
	if !ty.S.isArr() {
		lt = ty.Go
		if ty.Ref {
			lt = types.Typ[types.UnsafePointer]
		}
	}
	ex.class(k, ArrS(SInt, ty.S), lt, "ghost")
	return k
}

func (e *Env) model(x *Ex, a SVal, td *TypeDecl, m *Model) SVal {
	ty := e.ex.w.stype(m.Type, td.Pkg)
	key := td.Pkg + "." + td.Name
	def, impl := m.Def, td
	if td.IsIf {
		// interface model: by the concrete type if it is known and opened
		if i, ok := a.V.(IfV); ok && i.DynT != nil {
			if d := e.ex.w.implDecl(i.DynT, td); d != nil && e.ex.open[d.Pkg+"."+d.Name] {
				return e.model(x, goVal(i.Dyn, i.DynT), d, d.Models[m.Name])
			}
		}
	}
	if td.Iface != "" {
		key = td.Pkg + "." + td.Iface
	}
	if e.ex.open[td.Pkg+"."+td.Name] && def == nil && m.Name == "inv" && len(td.Invs) > 0 {
		ne := &Env{ex: e.ex, st: e.st, names: map[string]SVal{"self": a}, depth: e.depth + 1, pkg: td.Pkg}
		var ts []*Term
		for _, iv := range td.Invs {
			ts = append(ts, ne.b(iv.E))
		}
		return boolVal(And(ts...))
	}
	if !e.ex.open[td.Pkg+"."+td.Name] || def == nil {
		k := "$" + key + "." + m.Name
		e.ex.class(k, ArrS(SInt, ty.S), nil, "model")
		return e.wrapT(Select(e.ex.hget(e.st, k), e.ex.payload(a.V)), ty)
	}
	if e.depth > 20 {
		e.fail(x, "recursive model %s", m.Name)
	}
	_ = impl
	ne := &Env{ex: e.ex, st: e.st, old: nil, names: map[string]SVal{"self": a}, depth: e.depth + 1, pkg: td.Pkg}
	if m.Par != "" {
		return SVal{T: ty, F: func(k *Term) SVal {
			v := ne.with(m.Par, ne.wrapT(k, ty.K)).eval(def)
			return ne.wrapT(ne.term(v), ty.V)
		}}
	}
	v := ne.eval(def)
	if v.T == nil || v.T.Go == nil || v.T.S != ty.S {
		v.T = ty
	}
	return v
}

// locals of the executing function, for loop invariants.
func (e *Env) local(n string) (SVal, bool) {
	return e.ex.localVar(e.st, e.frame, n)
}

func (e *Env) callE(x *Ex) SVal {
	ex := e.ex
	arg := func(i int) SVal {
		if i >= len(x.Args) {
			e.fail(x, "missing argument of %s", x.Name)
		}
		return e.eval(x.Args[i])
	}
	switch x.Name {
	case "old":
		return e.oldEnv().eval(x.Args[0])
	case "ite":
		c := e.b(x.Args[0])
		a, b := arg(1), arg(2)
		ta, tb := e.term(a), e.term(b)
		ty := a.T
		if a.Nil || ty == nil {
			ty = b.T
		}
		return e.wrapT(Ite(c, ta, tb), ty)
	case "len":
		v := arg(0)
		if s, ok := v.V.(SliceV); ok {
			return intVal(s.L)
		}
		if v.T != nil && v.T.Go != nil {
			if mt, ok := v.T.Go.Underlying().(*types.Map); ok {
				return intVal(card(e.mapDom(v, mt)))
			}
		}
		return intVal(slen(e.term(v)))
	case "dom":
		v := arg(0)
		mt, ok := v.T.Go.Underlying().(*types.Map)
		if !ok {
			e.fail(x, "dom of a map")
		}
		d := e.mapDom(v, mt)
		k := ex.w.goST(mt.Key())
		return termVal(d, &SType{S: d.S, K: k, V: tBool})
	case "vals":
		v := arg(0)
		mt := v.T.Go.Underlying().(*types.Map)
		_, vks, _ := ex.mapClasses(mt)
		t := Select(ex.hget(e.st, vks[0]), ex.scalar(v.V))
		return termVal(t, &SType{S: t.S, K: ex.w.goST(mt.Key()), V: ex.w.goST(mt.Elem())})
	case "card":
		return intVal(card(e.term(arg(0))))
	case "arr":
		return intVal(arg(0).V.(SliceV).R)
	case "off":
		return intVal(arg(0).V.(SliceV).O)
	case "row":
		s := arg(0)
		if isBytesT(s.T.Go) {
			return termVal(ex.bget(e.st, s.V.(SliceV).R), tStr)
		}
		et := s.T.Go.Underlying().(*types.Slice).Elem()
		keys, _ := ex.locClasses(elemClass(et), 2, et)
		t := Select(ex.hget(e.st, keys[0]), s.V.(SliceV).R)
		return termVal(t, &SType{S: t.S, K: tInt, V: ex.w.goST(et)})
	case "aowner", "mowner":
		v := arg(0)
		k := "$" + x.Name
		ex.class(k, ArrS(SInt, SInt), nil, "owner")
		return intVal(Select(ex.hget(e.st, k), ex.scalar(v.V)))
	case "ref":
		return intVal(ex.payload(arg(0).V))
	case "fresh":
		v := arg(0)
		if e.old == nil {
			e.fail(x, "fresh() needs an old state")
		}
		var r *Term
		if s, ok := v.V.(SliceV); ok {
			r = s.R
		} else {
			r = ex.payload(v.V)
		}
		return boolVal(And(Le(e.old.front, r), Lt(r, e.st.front)))
	case "allocated":
		r := ex.payload(arg(0).V)
		return boolVal(And(Le(IntT(0), r), Lt(r, e.st.front)))
	case "front":
		return intVal(e.st.front)
	case "is":
		v := arg(0)
		i, ok := v.V.(IfV)
		if !ok {
			e.fail(x, "is() of a non-interface")
		}
		return boolVal(Eq(i.Tag, ex.tagOf(ex.w.stype(x.Args[1].Name, e.pkg).Go)))
	case "as":
		v := arg(0)
		ty := ex.w.stype(x.Args[1].Name, e.pkg)
		i, ok := v.V.(IfV)
		if !ok {
			if v.Nil {
				return e.wrapT(IntT(0), ty)
			}
			return e.wrapT(ex.scalar(v.V), ty)
		}
		if i.DynT != nil && types.Identical(i.DynT, ty.Go) {
			return SVal{V: i.Dyn, T: ty}
		}
		return SVal{V: ex.unbox(i.Pay, ty.Go), T: ty}
	case "tag":
		return intVal(arg(0).V.(IfV).Tag)
	case "iface":
		// iface(x, "T"): the interface value of x
		v := arg(0)
		return goVal(ex.makeIface(v.V, v.T.Go), ex.w.stype(x.Args[1].Name, e.pkg).Go)
	case "none":
		ty := ex.w.stype(x.Args[0].Name, e.pkg)
		return termVal(zeroOf(ty.S), ty)
	case "unchanged":
		a := arg(0)
		b := e.oldEnv().eval(x.Args[0])
		return boolVal(e.equal(a, b, x))
	case "cat":
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, e.term(arg(i)))
		}
		return strVal(Cat(ts...))
	case "be64":
		return strVal(be64(e.term(arg(0))))
	case "unbe64":
		return intVal(unbe64(e.term(arg(0))))
	case "itoa":
		return strVal(itoa(e.term(arg(0))))
	case "hasPrefix":
		return boolVal(sprefix(e.term(arg(0)), e.term(arg(1))))
	case "take":
		return strVal(stake(e.term(arg(0)), e.term(arg(1))))
	case "drop":
		return strVal(sdrop(e.term(arg(0)), e.term(arg(1))))
	case "bytes":
		return strVal(ex.content(e.st, arg(0).V))
	case "wrap":
		ty := ex.w.stype(x.Args[1].Name, e.pkg)
		return SVal{V: TV{wrap(e.term(arg(0)), ty.Go)}, T: ty}
	}
	if f, ok := specFuns[x.Name]; ok {
		var as []SVal
		for i := range x.Args {
			as = append(as, arg(i))
		}
		return f(e, x, as)
	}
	if l := ex.w.lemmas[x.Name]; l != nil && e.lemmaOK {
		ne := &Env{ex: ex, st: e.st, old: e.old, names: map[string]SVal{}, depth: e.depth + 1, pkg: l.Pkg}
		for i, q := range l.Par {
			v := arg(i)
			if q.Type != "" && (v.T == nil || v.T.Go == nil) && v.F == nil {
				v = ne.wrapT(ne.term(v), ex.w.stype(q.Type, l.Pkg))
			}
			ne.names[q.Name] = v
		}
		var rs []*Term
		for _, r := range l.Req {
			rs = append(rs, ne.b(r.E))
		}
		return boolVal(Imp(And(rs...), ne.b(l.Ens)))
	}
	if p := ex.w.pred(e.pkg, x.Name); p != nil {
		if len(p.Par) != len(x.Args) {
			e.fail(x, "arity of %s", x.Name)
		}
		ne := &Env{ex: ex, st: e.st, old: e.old, names: map[string]SVal{}, depth: e.depth + 1, frame: nil, pkg: p.Pkg}
		if e.depth > 30 {
			e.fail(x, "recursive predicate %s", x.Name)
		}
		for i, q := range p.Par {
			v := arg(i)
			if q.Type != "" {
				ty := ex.w.stype(q.Type, p.Pkg)
				if v.Nil || v.T == nil || v.T.Go == nil {
					if v.F == nil {
						v = e.wrapT(e.term(v), ty)
					}
				}
			}
			ne.names[q.Name] = v
		}
		return ne.eval(p.Body)
	}
	e.fail(x, "unknown function %s", x.Name)
	return SVal{}
}

func (w *World) goST(t types.Type) *SType {
	so, ok := scalarSort(t)
	if !ok {
		so = "struct"
	}
	return &SType{Go: t, S: so}
}

// eventsOf: the calls of a function or method, in order. The second result tells whether there
// may be more of them in a loop.
func (e *Env) eventsOf(x *Ex) ([]Event, bool) {
	if len(x.Args) == 0 || x.Args[0].Op != "str" {
		e.fail(x, "name of a call expected")
	}
	n := x.Args[0].Name
	var out []Event
	more := false
	for _, v := range e.st.events {
		if v.Name == n {
			out = append(out, v)
		}
		if v.Names[n] {
			more = true
		}
	}
	return out, more
}

func (e *Env) eventVal(x *Ex, a []SVal, res bool) SVal {
	evs, _ := e.eventsOf(x)
	k, i := e.term(a[1]), e.term(a[2])
	if k.Op != "int" || i.Op != "int" {
		e.fail(x, "number of a call or argument")
	}
	kk, ii := int(k.Int.Int64()), int(i.Int.Int64())
	if kk >= len(evs) {
		panic(specErr{fmt.Sprintf("there is no call %d of %s", kk, x.Args[0].Name)})
	}
	vs, ts := evs[kk].Args, evs[kk].Sig
	if res {
		vs, ts = evs[kk].Res, evs[kk].ResT
	}
	if ii >= len(vs) {
		panic(specErr{fmt.Sprintf("%s has no value %d", x.Args[0].Name, ii)})
	}
	var t types.Type
	if ii < len(ts) {
		t = ts[ii]
	}
	if t == nil {
		return intVal(e.ex.scalar(vs[ii]))
	}
	return goVal(vs[ii], t)
}

func init() {
	// calls("f"): how often f was called
	specFuns["calls"] = func(e *Env, x *Ex, a []SVal) SVal {
		evs, more := e.eventsOf(x)
		if more {
			n := Fresh("calls", SInt)
			return intVal(Add(IntT(int64(len(evs))), Ite(Lt(n, IntT(0)), IntT(0), n)))
		}
		return intVal(IntT(int64(len(evs))))
	}
	// arg("f", k, i), res("f", k, i): argument and result i of call k
	specFuns["arg"] = func(e *Env, x *Ex, a []SVal) SVal { return e.eventVal(x, a, false) }
	specFuns["res"] = func(e *Env, x *Ex, a []SVal) SVal { return e.eventVal(x, a, true) }
	specFuns["closed"] = func(e *Env, x *Ex, a []SVal) SVal { return boolVal(e.ex.chanClosed(e.st, e.term(a[0]))) }
	specFuns["received"] = func(e *Env, x *Ex, a []SVal) SVal {
		ch := e.term(a[0])
		var or []*Term
		for _, v := range e.st.events {
			if v.Name == "recv" {
				or = append(or, Eq(ch, e.ex.scalar(v.Args[0])))
			}
		}
		return boolVal(Or(or...))
	}
	specFuns["spawned"] = func(e *Env, x *Ex, a []SVal) SVal {
		var or []*Term
		for _, v := range e.st.events {
			if v.Name == "go "+e.pkg+"."+x.Args[0].Name && len(v.Args) == len(a)-1 {
				c := True
				for i := range v.Args {
					c = And(c, Eq(e.term(a[i+1]), e.ex.scalar(v.Args[i])))
				}
				or = append(or, c)
			}
		}
		return boolVal(Or(or...))
	}
	specFuns["usum"] = func(e *Env, x *Ex, a []SVal) SVal {
		return intVal(App("usum", SInt, e.term(a[0]), e.term(a[1]), e.term(a[2])))
	}
	specFuns["rate"] = func(e *Env, x *Ex, a []SVal) SVal {
		return termVal(App("fdiv", SFlt, App("i2f", SFlt, e.term(a[0])), App("i2f", SFlt, e.term(a[1]))), &SType{Go: types.Typ[types.Float64], S: SFlt})
	}
}

// registries extended by the models of libraries
var specConsts = map[string]func(*Env) SVal{}
var specFuns = map[string]func(*Env, *Ex, []SVal) SVal{}
