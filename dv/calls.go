package main

// Calls: builtins, methods through interfaces, contracts, inlining, library models.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nativeCtx is what a library model gets.
type nativeCtx struct {
	ex   *Exec
	st   *State
	fr   *Frame
	key  string
	sig  *types.Signature
	args []Val
	ins  ssa.Instruction
	targ []types.Type // static types of the arguments
}

type nativeFn func(c *nativeCtx, k func(*State, []Val))

var natives = map[string]nativeFn{}

func (ex *Exec) call(st *State, fr *Frame, cc *ssa.CallCommon, ins ssa.Instruction, k func(*State, []Val)) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ex.val(st, fr, a))
	}
	var f Val
	if cc.IsInvoke() {
		f = ex.val(st, fr, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		f = ex.val(st, fr, cc.Value)
	}
	ex.callVal(st, fr, cc, f, args, ins, k)
}

func (ex *Exec) callVal(st *State, fr *Frame, cc *ssa.CallCommon, f Val, args []Val, ins ssa.Instruction, k func(*State, []Val)) {
	if st.dead {
		return
	}
	if cc.IsInvoke() {
		ex.invoke(st, fr, cc.Method, cc.Value.Type(), f, args, ins, k)
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ex.builtin(st, fr, b, cc, args, k)
		return
	}
	ex.callee = fieldOfCall(cc.Value)
	ex.callFnVal(st, fr, f, cc.Signature(), args, ins, k)
}

// fieldOfCall: pkg.Type.field of a function that was read from a field.
func fieldOfCall(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	a, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	t := deref(a.X.Type())
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + fname(t.Underlying().(*types.Struct).Field(a.Field))
}

func (ex *Exec) callFnVal(st *State, fr *Frame, f Val, sig *types.Signature, args []Val, ins ssa.Instruction, k func(*State, []Val)) {
	callee := ex.callee
	ex.callee = ""
	fv, ok := f.(FnV)
	if !ok {
		panic(unsup("call of %T", f))
	}
	switch {
	case fv.Nat != nil:
		fv.Nat(ex, st, args, k)
	case fv.Fn != nil:
		ex.callFn(st, fr, fv.Fn, args, fv.Bind, ins, k)
	default:
		ex.safe(st, "nil-function", Neq(fv.Sym, IntT(0)), ex.lastPos)
		if st.dead {
			return
		}
		ex.externs["(unknown function value)"] = true
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, ex.freshVal(st, "fnres", sig.Results().At(i).Type()))
		}
		ev := Event{Name: "callback", Args: append([]Val{f}, args...), Res: res, Sig: []types.Type{sig}, ResT: resTypes(sig)}
		for i := 0; i < sig.Params().Len(); i++ {
			ev.Sig = append(ev.Sig, sig.Params().At(i).Type())
		}
		ex.event(st, ev)
		if callee != "" {
			ex.eventHook(st, callee, args, ev.Sig[1:], res, ev.ResT)
		}
		k(st, res)
	}
}

// invoke a method through an interface.
func (ex *Exec) invoke(st *State, fr *Frame, m *types.Func, it types.Type, recv Val, args []Val, ins ssa.Instruction, k func(*State, []Val)) {
	iv := ex.asIf(recv, it)
	sig := m.Type().(*types.Signature)
	tn := ""
	if n, ok := types.Unalias(it).(*types.Named); ok {
		p := ""
		if n.Obj().Pkg() != nil {
			p = shortPkg(n.Obj().Pkg().Path()) + "."
		}
		tn = p + n.Obj().Name()
	}
	key := tn + "." + m.Name()
	all := append([]Val{iv}, args...)
	if nv, ok := iv.Dyn.(NatV); ok && iv.DynT == nil {
		if f, ok := useNat("#" + nv.Kind + "." + m.Name()); ok {
			f(&nativeCtx{ex: ex, st: st, fr: fr, key: key, sig: sig, args: append([]Val{nv}, args...), ins: ins}, k)
			return
		}
	}
	c := ex.w.contractFor(key)
	if iv.DynT != nil {
		mf := ex.w.prog.LookupMethod(iv.DynT, m.Pkg(), m.Name())
		if mf != nil {
			// the interface contract is used where the type is not opened
			td := ex.w.declOf(iv.DynT)
			if !(c != nil && td != nil && td.Iface != "" && !ex.open[td.Pkg+"."+td.Name]) {
				ex.callFn(st, fr, mf, append([]Val{iv.Dyn}, args...), nil, ins, k)
				return
			}
		}
	}
	if !ex.safe(st, "nil-interface "+shortKey(key), Neq(iv.Tag, IntT(0)), ex.lastPos) {
		return
	}
	if f, ok := useNat(key); ok {
		f(&nativeCtx{ex: ex, st: st, fr: fr, key: key, sig: sig, args: all, ins: ins}, k)
		return
	}
	if c != nil {
		ex.applyContract(st, fr, c, key, ifaceSig(sig, it), all, k)
		return
	}
	ex.extern(st, fr, key, ifaceSig(sig, it), all, k)
}

// ifaceSig: the signature of an interface method with its receiver.
func ifaceSig(sig *types.Signature, it types.Type) *types.Signature {
	v := types.NewVar(0, nil, "self", it)
	return types.NewSignatureType(v, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
}

func (ex *Exec) bindable(st *State, c *Contract, sig *types.Signature, args []Val) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(needInline); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	ex.bindParams(st, c, sig, args)
	return true
}

func (ex *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, args []Val, binds []Val, ins ssa.Instruction, k func(*State, []Val)) {
	if st.dead {
		return
	}
	key := fnKey(fn)
	if o := fn.Origin(); o != nil && o != fn {
		key = fnKey(o)
	}
	if f, ok := useNat(key); ok {
		f(&nativeCtx{ex: ex, st: st, fr: fr, key: key, sig: fn.Signature, args: args, ins: ins}, k)
		return
	}
	synthetic := fn.Synthetic != "" && fn.Synthetic != "package initializer" && fn.Blocks != nil
	if !synthetic {
		if c := ex.w.contractFor(key); c != nil && !c.Inline && fn.Parent() == nil && !ex.inlineOpen(c) && (c.Trusted || ex.w.fits(key)) {
			if ex.bindable(st, c, fn.Signature, args) {
				ex.applyContract(st, fr, c, key, fn.Signature, args, k)
				return
			}
		}
	}
	if fn.Blocks != nil && (synthetic || ex.inlinable(fn)) {
		n := 0
		for f := fr; f != nil; f = f.caller {
			if f.fn == fn {
				n++
			}
		}
		if n > 2 {
			panic(unsup("recursion of %s without a contract", fn))
		}
		if !synthetic && fn.Parent() == nil {
			ex.used["inline "+key] = true
		}
		lp := ex.lastPos
		var rs []returned
		base := len(st.pc)
		ex.execFn(st, fn, args, binds, fr, func(s *State, r []Val) {
			if !s.dead {
				rs = append(rs, returned{s, r})
			}
		})
		ex.joinReturns(base, rs, fn.Signature.Results(), func(s *State, r []Val) {
			ex.lastPos = lp
			k(s, r)
		})
		return
	}
	ex.extern(st, fr, key, fn.Signature, args, k)
}

// inlineOpen: a small function is read in place where the representation is open.
func (ex *Exec) inlineOpen(c *Contract) bool {
	if _, ok := c.Opts["inlineopen"]; !ok {
		return false
	}
	for _, o := range c.Open {
		if !strings.Contains(o, ".") {
			o = c.Pkg0() + "." + o
		}
		if ex.open[o] {
			return true
		}
	}
	return false
}

func (ex *Exec) inlinable(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			p := f.Pkg.Pkg.Path()
			if strings.HasSuffix(p, "/pkg/proto") {
				return true
			}
			return strings.HasPrefix(p, repoMod) || p == "container/heap"
		}
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), repoMod)
	}
	return false
}

// functions of these packages are taken as pure functions of scalar arguments
var purePkgs = map[string]bool{"strings": true, "strconv": true, "net": true, "math": true, "path": true, "path/filepath": true, "unicode": true, "bytes": true, "math/bits": true, "net/url": true}

func keyPkg(key string) string {
	i := strings.LastIndex(key, "/")
	j := strings.IndexByte(key[i+1:], '.')
	if j < 0 {
		return key
	}
	return key[:i+1+j]
}

// extern: a library function without a model. Its result is unknown; it is taken to
// change nothing but the memory its arguments point to directly.
func (ex *Exec) extern(st *State, fr *Frame, key string, sig *types.Signature, args []Val, k func(*State, []Val)) {
	ex.externs[key] = true
	// a library method needs its receiver; loggers and metrics do without
	if sig.Recv() != nil && isPtrT(sig.Recv().Type()) && len(args) > 0 && !strings.HasPrefix(keyPkg(key), "github.com/rs/zerolog") {
		if tv, ok := args[0].(TV); ok && !ex.safe(st, "nil-receiver "+shortKey(key), Neq(tv.T, IntT(0)), ex.lastPos) {
			return
		}
	}
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	var res []Val
	hasErr := false
	n := sig.Results().Len()
	if n > 0 {
		if nm, ok := sig.Results().At(n - 1).Type().(*types.Named); ok && nm.Obj().Name() == "error" {
			hasErr = true
		}
	}
	pure := purePkgs[keyPkg(key)] && !sig.Variadic()
	var flat []*Term
	if pure {
		for i, a := range args {
			if _, ok := scalarSort(ts[i]); !ok || isPtrT(ts[i]) {
				pure = false
				break
			}
			flat = append(flat, ex.scalar(a))
		}
	}
	if !pure {
		for i, a := range args {
			if i >= len(ts) {
				break
			}
			switch x := a.(type) {
			case LocV:
				if x.Kind == "cell" && isPtrT(ts[i]) {
					v := ex.freshVal(st, "ext", deref(ts[i]))
					st.cells[x.Cell] = setPath(st.cells[x.Cell], x.Path, v)
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		var v Val
		if s, ok := scalarSort(t); ok && pure && !isPtrT(t) {
			a := App(fmt.Sprintf("ext$%s.%d", key, i), s, flat...)
			if len(flat) == 0 {
				a = Const(fmt.Sprintf("ext$%s.%d", key, i), s)
			}
			v = TV{a}
			ex.typeFacts(st, v, t)
		} else {
			v = ex.freshVal(st, "ext", t)
		}
		res = append(res, v)
	}
	// library constructors give usable results unless they report an error
	for i, v := range res {
		t := sig.Results().At(i).Type()
		var nn *Term
		switch x := v.(type) {
		case TV:
			if isPtrT(t) {
				nn = Neq(x.T, IntT(0))
			}
		case IfV:
			if i < n-1 || !hasErr {
				if nm, ok := t.(*types.Named); !ok || nm.Obj().Name() != "error" {
					nn = Neq(x.Tag, IntT(0))
				}
			}
		}
		if nn != nil {
			if hasErr {
				st.assume(Imp(Eq(res[n-1].(IfV).Tag, IntT(0)), nn))
			} else {
				st.assume(nn)
			}
		}
	}
	if ex.w.recordExt(key) && !builder(sig) {
		ex.event(st, Event{Name: key, Args: args, Sig: ts, Res: res, ResT: resTypes(sig)})
	}
	k(st, res)
}

// builder: a method that only makes a value from a value of its type.
func builder(sig *types.Signature) bool {
	return sig.Recv() != nil && !isPtrT(sig.Recv().Type()) && !isIfaceT(sig.Recv().Type()) && sig.Results().Len() == 1 && types.Identical(sig.Recv().Type(), sig.Results().At(0).Type())
}

// recordExt: library calls that are observable effects.
func (w *World) recordExt(key string) bool {
	p := keyPkg(key)
	if key == "time.NewTicker" || key == "time.NewTimer" || key == "time.After" || key == "time.Tick" {
		return true
	}
	switch {
	case strings.HasPrefix(p, "github.com/rs/zerolog"), strings.HasPrefix(p, "github.com/prometheus"), purePkgs[p], p == "fmt", p == "errors", p == "time", p == "sync", p == "sort":
		return false
	}
	return true
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, k func(*State, []Val)) {
	pos := ex.lastPos
	t := func(i int) types.Type { return cc.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		switch u := t(0).Underlying().(type) {
		case *types.Slice:
			s := args[0].(SliceV)
			if b.Name() == "cap" {
				k(st, []Val{TV{s.C}})
			} else {
				st.assume(Le(s.L, BigT(maxLen)))
				k(st, []Val{TV{s.L}})
			}
		case *types.Map:
			m := ex.scalar(args[0])
			dk, _, _ := ex.mapClasses(u)
			ex.touch(st, dk, []*Term{m}, false)
			n := Ite(Eq(m, IntT(0)), IntT(0), card(Select(ex.hget(st, dk), m)))
			st.assume(And(Le(IntT(0), n), Le(n, BigT(maxLen))))
			k(st, []Val{TV{n}})
		case *types.Basic:
			st.assume(Le(slen(ex.scalar(args[0])), BigT(maxLen)))
			k(st, []Val{TV{slen(ex.scalar(args[0]))}})
		case *types.Array:
			k(st, []Val{TV{IntT(u.Len())}})
		case *types.Chan:
			k(st, []Val{ex.freshVal(st, "chanlen", types.Typ[types.Int])})
		default:
			panic(unsup("len of %s", t(0)))
		}
	case "append":
		ex.appendB(st, fr, args, cc, k)
	case "copy":
		ex.copyB(st, args, cc, k)
	case "delete":
		m := ex.scalar(args[0])
		mt := t(0).Underlying().(*types.Map)
		if m == IntT(0) {
			k(st, nil)
			return
		}
		ex.mapDelete(st, m, mt, args[1])
		k(st, nil)
	case "close":
		ch := ex.scalar(args[0])
		ex.safe(st, "close-of-nil-channel", Neq(ch, IntT(0)), pos)
		ex.safe(st, "close-of-closed-channel", Not(ex.chanClosed(st, ch)), pos)
		if st.dead {
			return
		}
		ex.hset(st, "@chan.closed", Store(ex.hget(st, "@chan.closed"), ch, True))
		ex.event(st, Event{Name: "close", Args: []Val{TV{ch}}})
		k(st, nil)
	case "min", "max":
		x, y := ex.scalar(args[0]), ex.scalar(args[1])
		if x.S != SInt {
			panic(unsup("min/max"))
		}
		c := Le(x, y)
		if b.Name() == "max" {
			c = Le(y, x)
		}
		k(st, []Val{TV{Ite(c, x, y)}})
	case "recover":
		k(st, []Val{IfV{Tag: IntT(0), Pay: IntT(0)}})
	case "print", "println":
		k(st, nil)
	case "ssa:wrapnilchk":
		ex.nilCheck(st, args[0], pos)
		k(st, []Val{args[0]})
	case "clear":
		mt, ok := t(0).Underlying().(*types.Map)
		if !ok {
			panic(unsup("clear"))
		}
		m := ex.scalar(args[0])
		dk, _, _ := ex.mapClasses(mt)
		ex.touch(st, dk, []*Term{m}, true)
		d := ex.hget(st, dk)
		ex.hset(st, dk, Store(d, m, zeroOf(Select(d, m).S)))
		k(st, nil)
	default:
		panic(unsup("builtin %s", b.Name()))
	}
}

func (ex *Exec) appendB(st *State, fr *Frame, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) {
	s := args[0].(SliceV)
	rt := cc.Args[0].Type()
	if isBytesT(rt) {
		var c2 *Term
		if isStrT(cc.Args[1].Type()) {
			c2 = ex.scalar(args[1])
		} else {
			c2 = ex.content(st, args[1])
		}
		c := Cat(ex.content(st, s), c2)
		if s.R == IntT(0) && c == StrLit("") {
			k(st, []Val{s})
			return
		}
		// The result is taken not to share memory with the argument: it is a new array, or the argument is
		// the whole of an array of this function's own to which nothing was appended before.
		if s.R != IntT(0) && !ex.feas.proves(ex, st, Or(Eq(s.R, IntT(0)), Eq(s.C, s.L))) {
			row := ex.bget(st, s.R)
			own := ex.isFreshRef(s.R) || ex.entry != nil && ex.feas.proves(ex, st, Le(ex.entry.front, s.R))
			if !own || !ex.feas.proves(ex, st, Eq(Add(s.O, s.L), slen(row))) {
				ex.oblige(st, "memory", "append does not overwrite bytes still in use", nil, False, ex.lastPos)
			}
			ex.bset(st, s.R, Cat(row, c2))
		}
		v := ex.mkBytes(st, c).(SliceV)
		if s.R == IntT(0) && c2.Op != "strlit" {
			// appending nothing to nil gives nil
			v.R = Ite(Eq(slen(c2), IntT(0)), IntT(0), v.R)
		}
		k(st, []Val{v})
		return
	}
	et := rt.Underlying().(*types.Slice).Elem()
	t2 := args[1].(SliceV)
	n := t2.L
	keys, ls := ex.locClasses(elemClass(et), 2, et)
	if n == IntT(0) {
		k(st, []Val{s})
		return
	}
	newL := Add(s.L, n)
	st.assume(Le(newL, BigT(maxLen)))
	small := n.Op == "int" && n.Int.IsInt64() && n.Int.Int64() <= 4
	elem := func(x *State, key string, i *Term) *Term {
		return Select(Select(ex.hget(x, key), t2.R), Add(t2.O, i))
	}
	// in place
	s1 := st.clone()
	s1.assume(And(Neq(s.R, IntT(0)), Le(newL, s.C)))
	if !s1.dead && ex.feasible(s1) {
		ex.touch(s1, elemClass(et), []*Term{s.R, Ix(s.O, s.L)}, true)
		for i, key := range keys {
			row := Select(ex.hget(s1, key), s.R)
			if small {
				for j := int64(0); j < n.Int.Int64(); j++ {
					row = Store(row, Ix(s.O, Add(s.L, IntT(j))), elem(s1, key, IntT(j)))
				}
			} else {
				nr := Fresh("row", row.S)
				q := FreshVar("i", SInt)
				s1.assume(Forall([]*Term{q}, Eq(Select(nr, q), Ite(And(Le(Add(s.O, s.L), q), Lt(q, Add(s.O, newL))), elem(s1, key, Sub(q, Add(s.O, s.L))), Select(row, q))), []*Term{Select(nr, q)}))
				row = nr
			}
			_ = i
			ex.hset(s1, key, Store(ex.hget(s1, key), s.R, row))
		}
		k(s1, []Val{SliceV{s.R, s.O, newL, s.C}})
	}
	// a larger array
	s2 := st.clone()
	s2.assume(Or(Eq(s.R, IntT(0)), Lt(s.C, newL)))
	if !s2.dead && ex.feasible(s2) {
		r := ex.newRef(s2)
		c := Fresh("cap", SInt)
		s2.assume(And(Le(newL, c), Le(c, BigT(maxLen))))
		for i, key := range keys {
			old := Select(ex.hget(s2, key), s.R)
			_, rs := ex.classes[key].s.arrParts()
			var row *Term
			if s.L == IntT(0) {
				row = ConstArr(rs, zeroOf(ls[i].s))
			} else {
				row = Fresh("row", rs)
				q := FreshVar("i", SInt)
				s2.assume(Forall([]*Term{q}, Imp(And(Le(IntT(0), q), Lt(q, s.L)), Eq(Select(row, q), Select(old, Ix(s.O, q)))), []*Term{Select(row, q)}))
			}
			if small {
				for j := int64(0); j < n.Int.Int64(); j++ {
					row = Store(row, Add(s.L, IntT(j)), elem(s2, key, IntT(j)))
				}
			} else {
				nr := Fresh("row", rs)
				q := FreshVar("i", SInt)
				s2.assume(Forall([]*Term{q}, Imp(And(Le(IntT(0), q), Lt(q, newL)), Eq(Select(nr, q), Ite(Lt(q, s.L), Select(row, q), elem(s2, key, Sub(q, s.L))))), []*Term{Select(nr, q)}))
				row = nr
			}
			ex.hset(s2, key, Store(ex.hget(s2, key), r, row))
		}
		k(s2, []Val{SliceV{r, IntT(0), newL, c}})
	}
}

func (ex *Exec) copyB(st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) {
	d := args[0].(SliceV)
	if isBytesT(cc.Args[0].Type()) {
		var c *Term
		if isStrT(cc.Args[1].Type()) {
			c = ex.scalar(args[1])
		} else {
			c = ex.content(st, args[1])
		}
		sl := slen(c)
		n := Ite(Le(sl, d.L), sl, d.L)
		if ex.feas.proves(ex, st, Le(sl, d.L)) {
			n = sl
		}
		row := ex.bget(st, d.R)
		ex.bset(st, d.R, Cat(stake(row, d.O), stake(c, n), sdrop(row, Add(d.O, n))))
		k(st, []Val{TV{n}})
		return
	}
	s := args[1].(SliceV)
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	keys, _ := ex.locClasses(elemClass(et), 2, et)
	n := Ite(Le(s.L, d.L), s.L, d.L)
	ex.touch(st, elemClass(et), []*Term{d.R, d.O}, true)
	for _, key := range keys {
		dst, src := Select(ex.hget(st, key), d.R), Select(ex.hget(st, key), s.R)
		nr := Fresh("row", dst.S)
		q := FreshVar("i", SInt)
		st.assume(Forall([]*Term{q}, Eq(Select(nr, q), Ite(And(Le(d.O, q), Lt(q, Add(d.O, n))), Select(src, Add(s.O, Sub(q, d.O))), Select(dst, q))), []*Term{Select(nr, q)}))
		ex.hset(st, key, Store(ex.hget(st, key), d.R, nr))
	}
	k(st, []Val{TV{n}})
}

// goStmt starts a goroutine: its body is a unit of its own.
// goStmt: a background task of its own contract only starts; the body of any other goroutine is checked here, on the
// state in which it starts. What it does to shared state is at no point of the caller's contract, so it may do nothing
// that a contract speaks of.
func (ex *Exec) goStmt(st *State, fr *Frame, x *ssa.Go) {
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, ex.val(st, fr, a))
	}
	s := st.clone()
	s.front = Fresh("front", SInt)
	s.assume(Le(st.front, s.front))
	s.locks, s.lockN = map[*Term]int{}, map[*Term]int{}
	was, cell, front, pc, parent := ex.goDepth, ex.goCell, ex.goFront, ex.goPC, ex.goParent
	ex.goDepth, ex.goCell, ex.goFront, ex.goPC = was+1, ex.ncel, s.front, s.splits
	if was == 0 {
		ex.goParent = st
	}
	end := func(s *State, _ []Val) {
		for _, v := range s.locks {
			if v != 0 {
				ex.oblige(s, "locks", "all locks released by a goroutine", []string{"C18"}, False, ex.lastPos)
			}
		}
	}
	lp := ex.lastPos
	if x.Call.IsInvoke() {
		ex.invoke(s, fr, x.Call.Method, x.Call.Value.Type(), ex.val(st, fr, x.Call.Value), args, x, end)
	} else if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		ex.builtin(s, fr, b, &x.Call, args, end)
	} else {
		ex.callFnVal(s, fr, ex.val(st, fr, x.Call.Value), x.Call.Signature(), args, x, end)
	}
	ex.lastPos = lp
	ex.goDepth, ex.goCell, ex.goFront, ex.goPC, ex.goParent = was, cell, front, pc, parent
}

// concurrent: an effect that happens at an unknown time.
func (ex *Exec) concurrent(st *State, what string) {
	if ex.goDepth > 0 && ex.silent == 0 && !st.dead {
		ex.oblige(st, "frame", "no goroutine "+what, nil, False, ex.lastPos)
	}
}

func (ex *Exec) event(st *State, e Event) {
	if e.Name != "callback" && !strings.HasPrefix(e.Name, "time.") {
		ex.concurrent(st, "does "+e.Name)
	}
	st.events = append(st.events, e)
}

func frontNo(t *Term) int {
	n, _ := strconv.Atoi(strings.TrimPrefix(t.Name, "front!"))
	return n
}

// ---- globals ----

// globalFacts: what is known of package variables that are never assigned after initialisation.
func (ex *Exec) globalFacts(st *State, l LocV, v Val) Val {
	t := l.Typ
	if nm, ok := types.Unalias(t).(*types.Named); ok && nm.Obj().Name() == "error" && nm.Obj().Pkg() == nil {
		if !ex.w.globalConst(l.Class) {
			return v
		}
		n := ex.w.globIndex(l.Class)
		return IfV{Tag: IntT(errTag), Pay: IntT(-int64(10 + n))}
	}
	if l.Class == "G:badger.DefaultIteratorOptions" {
		return ex.iteratorDefaults(t)
	}
	if isBytesT(t) && ex.w.globalConst(l.Class) {
		if lit, ok := ex.w.globalBytes(l.Class); ok {
			s := v.(SliceV)
			st.assume(And(Eq(s.L, IntT(int64(len(lit)))), Eq(s.C, s.L), Lt(IntT(0), s.R), Lt(s.R, st.front), Eq(s.O, IntT(0)),
				Eq(stake(ex.bget(st, s.R), s.L), StrLit(lit)), Eq(slen(ex.bget(st, s.R)), s.L), Eq(ex.bget(st, s.R), StrLit(lit))))
		}
	}
	return v
}

const errTag = 1 << 21 // dynamic type of errors made by fmt.Errorf and errors.New

func (w *World) globIndex(class string) int {
	h := fnv.New32a()
	h.Write([]byte(class))
	return int(h.Sum32())
}

// globalConst: no function but the package initialiser assigns the variable.
func (w *World) globalConst(class string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.globStored == nil {
		w.globStored = map[string]bool{}
		for _, f := range w.fnByKey {
			if f.Name() == "init" && f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if u, isLoad := ins.(*ssa.UnOp); isLoad && u.X == g {
							continue
						}
						if _, dbg := ins.(*ssa.DebugRef); dbg {
							continue
						}
						w.globStored["G:"+shortPkg(g.Pkg.Pkg.Path())+"."+g.Name()] = true
					}
				}
			}
		}
	}
	return !w.globStored[class]
}

func (w *World) globalBytes(class string) (string, bool) {
	n := class[2:]
	i := strings.LastIndexByte(n, '.')
	p := w.pkgs[n[:i]]
	if p == nil {
		return "", false
	}
	init := p.Func("init")
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			if !ok || g.Name() != n[i+1:] {
				continue
			}
			if c, ok := s.Val.(*ssa.Convert); ok {
				if k, ok := c.X.(*ssa.Const); ok && k.Value != nil {
					return constString(k), true
				}
			}
		}
	}
	return "", false
}

func resTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}
