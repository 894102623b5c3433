package main

// Model of encoding/json. A text that is valid JSON denotes a value (sort J); objects map lower-case
// field names to values, a missing field being null. Texts are taken to be valid UTF-8.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	jkNull  = 0
	jkStr   = 1
	jkInt   = 2
	jkBool  = 3
	jkObj   = 4
	jkArr   = 5
	jkFloat = 6
)

var jnull = Const("jnull", SJ)
var jempty = Const("jempty", SJ)

func jis(t *Term, n string) bool { return t.Op == "app" && t.Name == n }

func jset(o *Term, k string, v *Term) *Term { return App("jset", SJ, o, StrLit(k), v) }

func jget(o *Term, k string) *Term {
	key := StrLit(k)
	for {
		switch {
		case o == jempty || o == jnull:
			return jnull
		case jis(o, "jset") && o.Args[1] == key:
			return o.Args[2]
		case jis(o, "jset") && o.Args[1].Op == "strlit":
			o = o.Args[0]
			continue
		}
		return App("jget", SJ, o, key)
	}
}

func jtext(j *Term) *Term {
	return App("jtext", SStr, j)
}

func jparse(s *Term) *Term {
	if jis(s, "jtext") {
		return s.Args[0]
	}
	return App("jparse", SJ, s)
}

func jvalid(s *Term) *Term {
	if jis(s, "jtext") {
		return True
	}
	if s == StrLit("") {
		return False
	}
	return App("jvalid", SBool, s)
}

func jkind(j *Term) *Term {
	switch {
	case j == jnull:
		return IntT(jkNull)
	case j == jempty || jis(j, "jset"):
		return IntT(jkObj)
	case jis(j, "jstr"):
		return IntT(jkStr)
	case jis(j, "jint"):
		return IntT(jkInt)
	case jis(j, "jbool"):
		return IntT(jkBool)
	}
	return App("jkind", SInt, j)
}

func unj(f, g string, s Sort, j *Term) *Term {
	if jis(j, f) {
		return j.Args[0]
	}
	return App(g, s, j)
}

func unjstr(j *Term) *Term  { return unj("jstr", "unjstr", SStr, j) }
func unjint(j *Term) *Term  { return unj("jint", "unjint", SInt, j) }
func unjbool(j *Term) *Term { return unj("jbool", "unjbool", SBool, j) }

type jfield struct {
	name      string
	path      []int
	typ       types.Type
	tagged    bool
	omitempty bool
	str       bool
}

func isRaw(t types.Type) bool {
	k := tkey(t)
	return k == "encoding/json.RawMessage" || k == "encoding/json/jsontext.Value"
}

func embStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// jfields: the fields of a struct as the encoder sees them.
func jfields(t types.Type) []jfield {
	type lv struct {
		t    types.Type
		path []int
	}
	cur := []lv{{t, nil}}
	var out []jfield
	taken := map[string]bool{}
	for len(cur) > 0 {
		var next []lv
		found := map[string][]jfield{}
		var order []string
		for _, l := range cur {
			s, ok := embStruct(l.t)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				tag := reflect.StructTag(s.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				opts := strings.Split(tag, ",")
				p := append(append([]int(nil), l.path...), i)
				if f.Embedded() {
					if _, st := embStruct(f.Type()); st && opts[0] == "" && !opaque(f.Type()) {
						next = append(next, lv{f.Type(), p})
						continue
					}
					if isPtrT(f.Type()) && opts[0] == "" {
						panic(unsup("JSON of an embedded pointer"))
					}
				}
				if !f.Exported() {
					continue
				}
				jf := jfield{name: f.Name(), path: p, typ: f.Type()}
				if opts[0] != "" {
					jf.name, jf.tagged = opts[0], true
				}
				for _, o := range opts[1:] {
					switch o {
					case "omitempty":
						jf.omitempty = true
					case "string":
						jf.str = true
					case "omitzero":
						panic(unsup("JSON option omitzero"))
					}
				}
				jf.name = strings.ToLower(jf.name)
				if found[jf.name] == nil {
					order = append(order, jf.name)
				}
				found[jf.name] = append(found[jf.name], jf)
			}
		}
		for _, n := range order {
			if taken[n] {
				continue
			}
			taken[n] = true
			fs := found[n]
			if len(fs) > 1 {
				var tg []jfield
				for _, f := range fs {
					if f.tagged {
						tg = append(tg, f)
					}
				}
				if len(tg) != 1 {
					continue
				}
				fs = tg
			}
			out = append(out, fs[0])
		}
		cur = next
	}
	return out
}

func (ex *Exec) methodOf(t types.Type, name string) *ssa.Function {
	ms := ex.w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ex.w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func getPath(v Val, p []int) Val {
	for _, i := range p {
		s, ok := v.(SV)
		if !ok {
			panic(unsup("field of %T in JSON", v))
		}
		v = s.F[i]
	}
	return v
}

// toJ: the JSON value of a Go value; j is nil where encoding reports an error.
func (ex *Exec) toJ(c *nativeCtx, st *State, v Val, t types.Type, k func(*State, *Term)) {
	if st.dead {
		return
	}
	if isIfaceT(t) {
		i := ex.asIf(v, t)
		switch {
		case i.Tag == IntT(0):
			k(st, jnull)
		case i.DynT != nil:
			ex.toJ(c, st, i.Dyn, i.DynT, k)
		default:
			k(st, App("jany", SJ, i.Tag, i.Pay))
		}
		return
	}
	if isRaw(t) {
		s := ex.content(st, v)
		r := v.(SliceV)
		if r.R == IntT(0) {
			k(st, jnull)
			return
		}
		ok := jvalid(s)
		if ok != True {
			f := st.clone()
			f.assume(Not(ok))
			if !f.dead && ex.feasible(f) {
				k(f, nil)
			}
			st.assume(ok)
		}
		k(st, jparse(s))
		return
	}
	if m := ex.methodOf(t, "MarshalJSON"); m != nil && m.Blocks != nil && ex.inlinable(m) {
		ex.callFn(st, c.fr, m, []Val{v}, nil, c.ins, func(s *State, r []Val) {
			e := ex.asIf(r[1], m.Signature.Results().At(1).Type())
			ex.fork(s, Eq(e.Tag, IntT(0)), func(s *State) {
				x := ex.content(s, r[0])
				ex.fork(s, jvalid(x), func(s *State) { k(s, jparse(x)) }, func(s *State) { k(s, nil) })
			}, func(s *State) { k(s, nil) })
		})
		return
	}
	if opaque(t) {
		k(st, Fresh("j", SJ))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if tv, ok := v.(TV); ok {
			ex.fork(st, Eq(tv.T, IntT(0)), func(s *State) { k(s, jnull) }, func(s *State) {
				ex.toJ(c, s, ex.load(s, v, u.Elem()), u.Elem(), k)
			})
			return
		}
		ex.toJ(c, st, ex.load(st, v, u.Elem()), u.Elem(), k)
	case *types.Basic:
		x := ex.scalar(v)
		switch {
		case u.Info()&types.IsString != 0:
			k(st, App("jstr", SJ, x))
		case u.Info()&types.IsInteger != 0:
			k(st, App("jint", SJ, x))
		case u.Info()&types.IsBoolean != 0:
			k(st, App("jbool", SJ, x))
		case u.Info()&types.IsFloat != 0:
			k(st, App("jflt", SJ, x))
		default:
			k(st, nil)
		}
	case *types.Struct:
		fs := jfields(t)
		var rec func(st *State, o *Term, i int)
		rec = func(st *State, o *Term, i int) {
			if i == len(fs) {
				k(st, o)
				return
			}
			f := fs[i]
			if f.str {
				panic(unsup("JSON option string"))
			}
			fv := getPath(v, f.path)
			ex.toJ(c, st, fv, f.typ, func(s *State, j *Term) {
				if j == nil {
					k(s, nil)
					return
				}
				n := jset(o, f.name, j)
				if f.omitempty {
					var empty *Term
					switch {
					case isStrT(f.typ):
						empty = Eq(ex.scalar(fv), StrLit(""))
					case isBoolT(f.typ):
						empty = Not(ex.scalar(fv))
					case isIntT(f.typ):
						empty = Eq(ex.scalar(fv), IntT(0))
					case isSliceT(f.typ):
						empty = Eq(fv.(SliceV).L, IntT(0))
					case isPtrT(f.typ):
						empty = Eq(ex.scalar(fv), IntT(0))
					case isIfaceT(f.typ):
						empty = Eq(ex.asIf(fv, f.typ).Tag, IntT(0))
					}
					if empty != nil {
						n = Ite(empty, o, n)
					}
				}
				rec(s, n, i+1)
			})
		}
		rec(st, jempty, 0)
	case *types.Map:
		m := ex.scalar(v)
		if isStrT(u.Key()) {
			if o := ex.mapJ(st, m, u); o != nil {
				k(st, o)
				return
			}
		}
		k(st, Fresh("jmap", SJ))
	case *types.Slice:
		if isBytesT(t) {
			k(st, App("jb64", SJ, ex.content(st, v)))
			return
		}
		k(st, Fresh("jarr", SJ))
	default:
		k(st, Fresh("j", SJ))
	}
}

// mapJ: a map whose entries are all known.
func (ex *Exec) mapJ(st *State, m *Term, mt *types.Map) *Term {
	dk, _, _ := ex.mapClasses(mt)
	d := Select(ex.hget(st, dk), m)
	type e struct{ k, v *Term }
	var es []e
	seen := map[*Term]bool{}
	for d.Op == "app" && d.Name == "store" {
		key := d.Args[1]
		if key.Op != "strlit" {
			return nil
		}
		if !seen[key] {
			seen[key] = true
			if d.Args[2] == True {
				_, v := ex.mapGet(st, m, mt, key)
				var j *Term
				x := func() *Term { return ex.scalar(v) }
				switch {
				case isStrT(mt.Elem()):
					j = App("jstr", SJ, x())
				case isIntT(mt.Elem()):
					j = App("jint", SJ, x())
				case isBoolT(mt.Elem()):
					j = App("jbool", SJ, x())
				case isIfaceT(mt.Elem()):
					i := ex.asIf(v, mt.Elem())
					switch {
					case i.Tag == IntT(0):
						j = jnull
					case i.DynT == nil:
						return nil
					case isStrT(i.DynT):
						j = App("jstr", SJ, ex.scalar(i.Dyn))
					case isIntT(i.DynT):
						j = App("jint", SJ, ex.scalar(i.Dyn))
					case isBoolT(i.DynT):
						j = App("jbool", SJ, ex.scalar(i.Dyn))
					default:
						return nil
					}
				default:
					return nil
				}
				es = append(es, e{key, j})
			}
		}
		d = d.Args[0]
	}
	if !(d.Op == "app" && d.Name == "constarr" && d.Args[0] == False) {
		return nil
	}
	o := jempty
	for i := len(es) - 1; i >= 0; i-- {
		o = App("jset", SJ, o, es[i].k, es[i].v)
	}
	return o
}

// fork continues with the condition and without it, where each is possible.
func (ex *Exec) fork(st *State, c *Term, yes, no func(*State)) {
	switch st.known(c) {
	case True:
		yes(st)
		return
	case False:
		no(st)
		return
	}
	f := st.clone()
	f.assume(Not(c))
	if !f.dead && ex.feasible(f) {
		no(f)
	}
	st.assume(c)
	if !st.dead && ex.feasible(st) {
		yes(st)
	}
}

// jok: the JSON value can be stored in a Go value of the type.
func (ex *Exec) jok(j *Term, t types.Type) *Term {
	kd := jkind(j)
	is := func(n int64) *Term { return Or(Eq(kd, IntT(jkNull)), Eq(kd, IntT(n))) }
	if isRaw(t) || isIfaceT(t) {
		return True
	}
	if opaque(t) {
		return App("jok$"+tkey(t), SBool, j)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return is(jkStr)
		case u.Info()&types.IsBoolean != 0:
			return is(jkBool)
		case u.Info()&types.IsInteger != 0:
			return Or(Eq(kd, IntT(jkNull)), And(Eq(kd, IntT(jkInt)), inBounds(unjint(j), t)))
		case u.Info()&types.IsFloat != 0:
			return Or(is(jkInt), Eq(kd, IntT(jkFloat)))
		}
	case *types.Struct:
		c := []*Term{is(jkObj)}
		for _, f := range jfields(t) {
			c = append(c, ex.jok(jget(j, f.name), f.typ))
		}
		return And(c...)
	}
	return App("jok$"+tkey(t), SBool, j)
}

// decJ: the Go value after decoding j into a variable holding prior.
func (ex *Exec) decJ(st *State, j *Term, t types.Type, prior Val) Val {
	null := st.known(Eq(jkind(j), IntT(jkNull)))
	if isRaw(t) {
		// a missing field leaves the value, null is kept as a text
		s := Fresh("raw", SStr)
		st.assume(And(Eq(jvalid(s), True), Eq(App("jparse", SJ, s), j)))
		if null == False {
			// the text of the value
			s = jtext(j)
		} else {
			st.assume(Imp(Not(null), Eq(s, jtext(j))))
		}
		if null == True {
			s = Fresh("raw", SStr)
			st.assume(And(Eq(jvalid(s), True), Eq(App("jparse", SJ, s), jnull)))
		}
		b := ex.mkBytes(st, s).(SliceV)
		p := prior.(SliceV)
		if null == False {
			return b
		}
		m := st.known(App("jmissing", SBool, j))
		if null == True && m == True {
			return p
		}
		if null == True && m == False {
			return b
		}
		miss := And(null, Fresh("missing", SBool))
		return SliceV{Ite(miss, p.R, b.R), Ite(miss, p.O, b.O), Ite(miss, p.L, b.L), Ite(miss, p.C, b.C)}
	}
	if s, ok := scalarSort(t); ok && !opaque(t) {
		var x *Term
		switch {
		case isStrT(t):
			x = unjstr(j)
		case isBoolT(t):
			x = unjbool(j)
		case isIntT(t):
			x = unjint(j)
		case isFltT(t):
			x = App("unjflt", s, j)
		}
		if x != nil {
			return TV{Ite(null, ex.scalar(prior), x)}
		}
	}
	if _, ok := t.Underlying().(*types.Struct); ok && !opaque(t) {
		v := prior
		for _, f := range jfields(t) {
			v = setPath(v, f.path, ex.decJ(st, jget(j, f.name), f.typ, getPath(prior, f.path)))
		}
		return v
	}
	return ex.freshVal(st, "json", t)
}

// rawForks continues separately where a field kept as a text is null or missing.
func (ex *Exec) rawForks(j *Term, t types.Type, k func(*State)) func(*State) {
	if _, ok := t.Underlying().(*types.Struct); ok && !opaque(t) {
		for _, f := range jfields(t) {
			if isRaw(f.typ) {
				n, next := jget(j, f.name), k
				k = func(s *State) {
					ex.fork(s, Eq(jkind(n), IntT(jkNull)), func(s *State) { ex.fork(s, App("jmissing", SBool, n), next, next) }, next)
				}
			}
		}
	}
	return k
}

// unmarshal a text into what the pointer points to.
func (ex *Exec) unmarshal(c *nativeCtx, st *State, s *Term, data Val, dst Val, k func(*State, []Val)) {
	i := ex.asIf(dst, anyT)
	if i.DynT == nil || !isPtrT(i.DynT) {
		panic(unsup("decoding into a value of unknown type"))
	}
	pt := i.DynT
	t := deref(pt)
	fail := func(s *State) { k(s, []Val{ex.newErr(s)}) }
	if tv, ok := i.Dyn.(TV); ok && tv.T == IntT(0) {
		fail(st)
		return
	}
	ex.fork(st, jvalid(s), func(st *State) {
		if m := ex.methodOf(pt, "UnmarshalJSON"); m != nil && m.Blocks != nil && ex.inlinable(m) {
			ex.callFn(st, c.fr, m, []Val{i.Dyn, data}, nil, c.ins, func(s *State, r []Val) { k(s, r) })
			return
		}
		j := jparse(s)
		ex.fork(st, ex.jok(j, t), ex.rawForks(j, t, func(s *State) {
			v := ex.decJ(s, j, t, ex.load(s, i.Dyn, t))
			ex.store(s, i.Dyn, t, v)
			k(s, []Val{nilErr()})
		}), func(s *State) {
			ex.store(s, i.Dyn, t, ex.freshVal(s, "partial", t))
			fail(s)
		})
	}, fail)
}

func (ex *Exec) marshal(c *nativeCtx, v Val, k func(*State, []Val)) {
	ex.toJ(c, c.st, v, anyT, func(s *State, j *Term) {
		if j == nil {
			k(s, []Val{SliceV{IntT(0), IntT(0), IntT(0), IntT(0)}, ex.newErr(s)})
			return
		}
		k(s, []Val{ex.mkBytes(s, jtext(j)), nilErr()})
	})
}

func init() {
	nat("encoding/json.Marshal encoding/json.MarshalIndent", func(c *nativeCtx, k func(*State, []Val)) {
		c.ex.marshal(c, c.args[0], k)
	})
	nat("encoding/json.Unmarshal", func(c *nativeCtx, k func(*State, []Val)) {
		c.ex.unmarshal(c, c.st, c.ex.content(c.st, c.args[0]), c.args[0], c.args[1], k)
	})
	nat("encoding/json.Valid", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{jvalid(c.ex.content(c.st, c.args[0]))}})
	})
	fieldOf := func(e *Env, x *Ex, a []SVal) *Term {
		n := e.term(a[1])
		if n.Op != "strlit" {
			e.fail(x, "field name")
		}
		return jget(jparse(e.term(a[0])), strings.ToLower(n.Name))
	}
	isNull := func(j *Term) *Term { return Eq(jkind(j), IntT(jkNull)) }
	specFuns["fstr"] = func(e *Env, x *Ex, a []SVal) SVal {
		j := fieldOf(e, x, a)
		return strVal(Ite(isNull(j), StrLit(""), unjstr(j)))
	}
	specFuns["fint"] = func(e *Env, x *Ex, a []SVal) SVal {
		j := fieldOf(e, x, a)
		return intVal(Ite(isNull(j), IntT(0), unjint(j)))
	}
	specFuns["fbool"] = func(e *Env, x *Ex, a []SVal) SVal {
		j := fieldOf(e, x, a)
		return boolVal(And(Not(isNull(j)), unjbool(j)))
	}
	// sub(text, "field"): the text of a field's value
	specFuns["fsub"] = func(e *Env, x *Ex, a []SVal) SVal { return strVal(jtext(fieldOf(e, x, a))) }
	specFuns["fhas"] = func(e *Env, x *Ex, a []SVal) SVal { return boolVal(Not(isNull(fieldOf(e, x, a)))) }
	specFuns["jvalid"] = func(e *Env, x *Ex, a []SVal) SVal { return boolVal(jvalid(e.term(a[0]))) }
	// decodes(text, "type")
	specFuns["decodes"] = func(e *Env, x *Ex, a []SVal) SVal {
		n := e.term(a[1])
		if n.Op != "strlit" {
			e.fail(x, "type name")
		}
		s := e.term(a[0])
		return boolVal(And(jvalid(s), e.ex.jok(jparse(s), e.ex.w.stype(n.Name, e.pkg).Go)))
	}
}
