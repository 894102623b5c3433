package main

// Models of the standard library and of logging and metrics.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func constString(c *ssa.Const) string { return constant.StringVal(c.Value) }

type natState interface {
	eq(o interface{}) bool
	havoc(ex *Exec, st *State) interface{}
}

func natEq(a, b interface{}) bool {
	if x, ok := a.(natState); ok {
		return x.eq(b)
	}
	return false
}

func (ex *Exec) havocNat(st *State, v interface{}) interface{} {
	if x, ok := v.(natState); ok {
		return x.havoc(ex, st)
	}
	panic(unsup("loop changes a library object (%T)", v))
}

func (r rangeSt) eq(o interface{}) bool {
	x, ok := o.(rangeSt)
	return ok && x.m == r.m && x.visited == r.visited && x.dom0 == r.dom0
}

func (r rangeSt) havoc(ex *Exec, st *State) interface{} {
	n := r
	n.visited = Fresh("visited", r.visited.S)
	dk, _, _ := ex.mapClasses(r.mt)
	if r.m == IntT(0) || Select(ex.hget(st, dk), r.m) == r.dom0 {
		ks, _ := r.visited.S.arrParts()
		k := FreshVar("k", ks)
		st.assume(Forall([]*Term{k}, Imp(Select(n.visited, k), Select(r.dom0, k)), []*Term{Select(n.visited, k)}))
	}
	return n
}

func init() {
	specConsts["visited"] = func(e *Env) SVal {
		best := -1
		for id, v := range e.st.nat {
			if _, ok := v.(rangeSt); ok && id > best {
				best = id
			}
		}
		if best < 0 {
			panic(specErr{"visited: no range over a map"})
		}
		r := e.st.nat[best].(rangeSt)
		return termVal(r.visited, &SType{S: r.visited.S, K: e.ex.w.goST(r.mt.Key()), V: tBool})
	}
}

var natParams = map[string]func(ex *Exec, st *State, name string, t types.Type) Val{}

func (ex *Exec) natParam(st *State, name string, t types.Type) (Val, bool) {
	if f, ok := natParams[tkey(t)]; ok {
		return f(ex, st, name, t), true
	}
	return nil, false
}

var natUsed = map[string]bool{}
var natMu sync.Mutex

func useNat(key string) (nativeFn, bool) {
	f, ok := natives[key]
	if ok {
		natMu.Lock()
		natUsed[key] = true
		natMu.Unlock()
	}
	return f, ok
}

func nat(keys string, f nativeFn) {
	for _, k := range strings.Fields(keys) {
		natives[k] = f
	}
}

// newErr: a new non-nil error different from all sentinel errors.
func (ex *Exec) newErr(st *State) IfV {
	p := Fresh("err", SInt)
	st.assume(Le(IntT(0), p))
	return IfV{Tag: IntT(errTag), Pay: p}
}

func nilErr() IfV { return IfV{Tag: IntT(0), Pay: IntT(0)} }

// sentinel error of a library variable.
func (ex *Exec) sentinel(class string) IfV {
	return IfV{Tag: IntT(errTag), Pay: IntT(-int64(10 + ex.w.globIndex(class)))}
}

func lockOf(c *nativeCtx) *Term {
	switch x := c.args[0].(type) {
	case LocV:
		if x.Kind == "heap" && strings.HasPrefix(x.Class, "F:") {
			return lockKey(x.Class[2:], x.Idx[0])
		}
	case TV:
		return lockKey("mutex", x.T)
	}
	return c.ex.scalar(c.args[0])
}

// variadic elements of a slice of known length
func (ex *Exec) elems(st *State, v Val, et types.Type) []Val {
	s, ok := v.(SliceV)
	if !ok || s.L.Op != "int" {
		return nil
	}
	var out []Val
	for i := int64(0); i < s.L.Int.Int64(); i++ {
		ex.touchOff++
		q := ex.quiet
		ex.quiet = true
		out = append(out, ex.heapLoad(st, elemClass(et), []*Term{s.R, Ix(s.O, IntT(i))}, et))
		ex.quiet = q
		ex.touchOff--
	}
	return out
}

// text of a value under %s, %v or %d.
func (ex *Exec) textOf(st *State, v Val) *Term {
	i, ok := v.(IfV)
	if !ok {
		return nil
	}
	if i.DynT == nil {
		return nil
	}
	for _, m := range []string{"Error", "String", "Format"} {
		if ex.methodOf(i.DynT, m) != nil {
			return nil
		}
	}
	switch {
	case isBoolT(i.DynT):
		return Ite(ex.scalar(i.Dyn), StrLit("true"), StrLit("false"))
	case isStrT(i.DynT):
		return ex.scalar(i.Dyn)
	case isBytesT(i.DynT):
		return ex.content(st, i.Dyn)
	case isIntT(i.DynT):
		return itoa(ex.scalar(i.Dyn))
	}
	return nil
}

func (ex *Exec) sprintf(st *State, f *Term, args []Val) *Term {
	if f.Op != "strlit" {
		return Fresh("fmt", SStr)
	}
	var parts []*Term
	s := f.Name
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			parts = append(parts, StrLit(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return Fresh("fmt", SStr)
		}
		if s[i] == '%' {
			parts = append(parts, StrLit("%"))
			continue
		}
		if (s[i] != 's' && s[i] != 'v' && s[i] != 'd' && s[i] != 't') || n >= len(args) {
			return Fresh("fmt", SStr)
		}
		var t *Term
		if iv, ok := args[n].(IfV); ok && iv.DynT != nil {
			num, txt := isIntT(iv.DynT), isStrT(iv.DynT) || isBytesT(iv.DynT)
			if s[i] == 'v' || s[i] == 'd' && num || s[i] == 's' && txt || s[i] == 't' && isBoolT(iv.DynT) {
				t = ex.textOf(st, args[n])
			}
		}
		n++
		if t == nil {
			t = Fresh("fmt", SStr)
		}
		parts = append(parts, t)
	}
	return Cat(parts...)
}

var anyT = types.NewInterfaceType(nil, nil)

func anyOf(sig *types.Signature) types.Type {
	p := sig.Params().At(sig.Params().Len() - 1).Type()
	return p.Underlying().(*types.Slice).Elem()
}

func init() {
	// the end of the process
	nat("github.com/rs/zerolog/log.Fatal github.com/rs/zerolog/log.Panic os.Exit log.Fatal log.Fatalf log.Panic log.Panicf", func(c *nativeCtx, k func(*State, []Val)) {
		if c.ex.con != nil {
			if _, ok := c.ex.con.Opts["mayexit"]; ok {
				return
			}
		}
		c.ex.safe(c.st, "the process goes on", False, c.ex.lastPos)
	})
	// locks
	nat("sync.Mutex.Lock sync.RWMutex.Lock sync.RWMutex.RLock", func(c *nativeCtx, k func(*State, []Val)) {
		l := lockOf(c)
		n := 2
		if strings.HasSuffix(c.key, "RLock") {
			n = 1
		}
		c.ex.oblige(c.st, "locks", "lock not already held", []string{"C18"}, BoolT(c.st.locks[l] == 0), c.ex.lastPos)
		c.st.locks[l] = n
		c.st.lockN[l]++
		c.ex.onLock(c.st, c.fr, l)
		k(c.st, nil)
	})
	nat("sync.Mutex.Unlock sync.RWMutex.Unlock sync.RWMutex.RUnlock", func(c *nativeCtx, k func(*State, []Val)) {
		l := lockOf(c)
		n := 2
		if strings.HasSuffix(c.key, "RUnlock") {
			n = 1
		}
		c.ex.oblige(c.st, "locks", "unlock of a held lock", []string{"C18"}, BoolT(c.st.locks[l] == n), c.ex.lastPos)
		c.st.locks[l] = 0
		k(c.st, nil)
	})
	// time: nanoseconds, read as Unix seconds
	nat("time.Now", func(c *nativeCtx, k func(*State, []Val)) {
		t := Fresh("now", SInt)
		u := unixOf(t)
		c.st.assume(And(Le(c.ex.gvar(c.st, "clock"), u), Le(IntT(0), u), Le(u, IntT(1<<40))))
		c.st.vars["clock"] = u
		k(c.st, []Val{TV{t}})
	})
	nat("time.Time.UTC time.Time.Local", func(c *nativeCtx, k func(*State, []Val)) { k(c.st, []Val{c.args[0]}) })
	nat("time.Time.Unix", func(c *nativeCtx, k func(*State, []Val)) {
		u := unixOf(c.ex.scalar(c.args[0]))
		c.st.assume(inBounds(u, types.Typ[types.Int64]))
		k(c.st, []Val{TV{u}})
	})
	nat("time.Time.Add", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{Add(c.ex.scalar(c.args[0]), c.ex.scalar(c.args[1]))}})
	})
	nat("time.Time.After", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{Lt(c.ex.scalar(c.args[1]), c.ex.scalar(c.args[0]))}})
	})
	nat("time.Time.Before", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{Lt(c.ex.scalar(c.args[0]), c.ex.scalar(c.args[1]))}})
	})
	nat("time.Sleep", func(c *nativeCtx, k func(*State, []Val)) { k(c.st, nil) })
	// formatting
	nat("fmt.Sprintf", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{c.ex.sprintf(c.st, c.ex.scalar(c.args[0]), c.ex.elems(c.st, c.args[1], anyOf(c.sig)))}})
	})
	nat("fmt.Sprint", func(c *nativeCtx, k func(*State, []Val)) {
		a := c.ex.elems(c.st, c.args[0], anyOf(c.sig))
		t := Fresh("fmt", SStr)
		if len(a) == 1 {
			if x := c.ex.textOf(c.st, a[0]); x != nil {
				t = x
			}
		}
		k(c.st, []Val{TV{t}})
	})
	nat("fmt.Errorf errors.New", func(c *nativeCtx, k func(*State, []Val)) {
		e := c.ex.newErr(c.st)
		if c.key == "fmt.Errorf" {
			if f := c.ex.scalar(c.args[0]); f.Op != "strlit" || strings.Contains(f.Name, "%w") {
				for _, a := range c.ex.elems(c.st, c.args[1], anyOf(c.sig)) {
					if i, ok := a.(IfV); ok {
						c.st.assume(Eq(App("wraps", SInt, e.Pay), i.Pay))
					}
				}
			}
		}
		k(c.st, []Val{e})
	})
	nat("errors.Is", func(c *nativeCtx, k func(*State, []Val)) {
		a, b := c.ex.asIf(c.args[0], anyT), c.ex.asIf(c.args[1], anyT)
		same := And(Eq(a.Tag, b.Tag), Eq(a.Pay, b.Pay))
		w := Fresh("errIs", SBool)
		c.st.assume(Imp(Eq(a.Tag, IntT(0)), Not(w)))
		if a.Tag == IntT(errTag) && a.Pay.Op == "int" {
			k(c.st, []Val{TV{same}})
			return
		}
		// sentinel errors wrap nothing
		c.st.assume(Imp(And(Eq(a.Tag, IntT(errTag)), Lt(a.Pay, IntT(0))), Not(w)))
		k(c.st, []Val{TV{Or(same, w)}})
	})
	nat("fmt.Println fmt.Printf fmt.Print", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{Fresh("n", SInt)}, nilErr()})
	})
	// atomics
	addr := func(c *nativeCtx) (Val, types.Type) {
		t := deref(c.sig.Params().At(0).Type())
		return c.args[0], t
	}
	// Between two atomic operations other goroutines may change the value: what a load
	// returns is not known to be the value any more, and a plain store may overwrite a change.
	atomicOf := func(c *nativeCtx, op string, p Val, t, bt types.Type, as []Val, k func(*State, []Val)) {
		c.ex.atomicOp++
		v := c.ex.scalar(c.ex.load(c.st, p, t))
		c.st.assume(inBounds(v, bt))
		shared := true
		if l, ok := p.(LocV); ok && (l.Kind == "cell" || c.ex.isFreshRef(l.Idx[0])) {
			shared = false
		}
		set := func(st *State, x Val) {
			c.ex.atomicOp++
			c.ex.store(st, p, t, x)
			c.ex.atomicOp--
		}
		c.ex.atomicOp--
		switch op {
		case "Add":
			n := wrap(Add(v, c.ex.scalar(as[0])), bt)
			set(c.st, TV{n})
			k(c.st, []Val{TV{n}})
		case "Load":
			if shared {
				v = Fresh("loaded", v.S)
				c.st.assume(inBounds(v, bt))
			}
			k(c.st, []Val{TV{v}})
		case "Store":
			if shared {
				c.ex.oblige(c.st, "guard", "atomic store that may overwrite a concurrent change", []string{"C18", "C22"}, BoolT(false), c.ex.lastPos)
			}
			set(c.st, as[0])
			k(c.st, nil)
		case "Swap":
			set(c.st, as[0])
			k(c.st, []Val{TV{v}})
		case "CompareAndSwap":
			c.ex.fork(c.st, Eq(v, c.ex.scalar(as[0])), func(st *State) {
				set(st, as[1])
				k(st, []Val{TV{BoolT(true)}})
			}, func(st *State) {
				k(st, []Val{TV{BoolT(false)}})
			})
		}
	}
	for _, op := range []string{"Add", "Swap", "Load", "Store", "CompareAndSwap"} {
		op := op
		for _, ty := range []string{"Uint64", "Int64", "Uint32", "Int32"} {
			nat("sync/atomic."+op+ty, func(c *nativeCtx, k func(*State, []Val)) {
				p, t := addr(c)
				atomicOf(c, op, p, t, t, c.args[1:], k)
			})
			bt := map[string]types.Type{"Uint64": types.Typ[types.Uint64], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Int32": types.Typ[types.Int32]}[ty]
			nat("sync/atomic."+ty+"."+op, func(c *nativeCtx, k func(*State, []Val)) {
				atomicOf(c, op, c.args[0], deref(c.sig.Recv().Type()), bt, c.args[1:], k)
			})
		}
	}
	// binary encoding
	nat("encoding/binary.bigEndian.Uint64", func(c *nativeCtx, k func(*State, []Val)) {
		b := c.args[1].(SliceV)
		c.ex.safe(c.st, "index", Le(IntT(8), b.L), c.ex.lastPos)
		if c.st.dead {
			return
		}
		t := unbe64(stake(c.ex.content(c.st, b), IntT(8)))
		c.st.assume(inBounds(t, types.Typ[types.Uint64]))
		k(c.st, []Val{TV{t}})
	})
	nat("encoding/binary.bigEndian.PutUint64", func(c *nativeCtx, k func(*State, []Val)) {
		b := c.args[1].(SliceV)
		c.ex.safe(c.st, "index", Le(IntT(8), b.L), c.ex.lastPos)
		if c.st.dead {
			return
		}
		row := c.ex.bget(c.st, b.R)
		x := be64(c.ex.scalar(c.args[2]))
		if slen(row) == IntT(8) && b.O == IntT(0) {
			c.ex.bset(c.st, b.R, x)
		} else {
			c.ex.bset(c.st, b.R, Cat(stake(row, b.O), x, sdrop(row, Add(b.O, IntT(8)))))
		}
		k(c.st, nil)
	})
	nat("encoding/binary.bigEndian.AppendUint64", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{c.ex.mkBytes(c.st, Cat(c.ex.content(c.st, c.args[1]), be64(c.ex.scalar(c.args[2]))))})
	})
	nat("bytes.Equal", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{Eq(c.ex.content(c.st, c.args[0]), c.ex.content(c.st, c.args[1]))}})
	})
	nat("bytes.HasPrefix", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{sprefix(c.ex.content(c.st, c.args[0]), c.ex.content(c.st, c.args[1]))}})
	})
	nat("bytes.Compare", func(c *nativeCtx, k func(*State, []Val)) {
		a, b := c.ex.content(c.st, c.args[0]), c.ex.content(c.st, c.args[1])
		k(c.st, []Val{TV{Ite(Eq(a, b), IntT(0), Ite(slt(a, b), IntT(-1), IntT(1)))}})
	})
	nat("bytes.Clone", func(c *nativeCtx, k func(*State, []Val)) {
		v := c.ex.mkBytes(c.st, c.ex.content(c.st, c.args[0])).(SliceV)
		v.R = Ite(Eq(c.args[0].(SliceV).R, IntT(0)), IntT(0), v.R)
		k(c.st, []Val{v})
	})
	nat("strings.HasPrefix", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{sprefix(c.ex.scalar(c.args[0]), c.ex.scalar(c.args[1]))}})
	})
	nat("strconv.Itoa", func(c *nativeCtx, k func(*State, []Val)) { k(c.st, []Val{TV{itoa(c.ex.scalar(c.args[0]))}}) })
	nat("strconv.FormatBool", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{TV{Ite(c.ex.scalar(c.args[0]), StrLit("true"), StrLit("false"))}})
	})
	nat("strconv.FormatInt strconv.FormatUint", func(c *nativeCtx, k func(*State, []Val)) {
		if c.ex.scalar(c.args[1]) == IntT(10) {
			k(c.st, []Val{TV{itoa(c.ex.scalar(c.args[0]))}})
			return
		}
		k(c.st, []Val{TV{App("formatInt", SStr, c.ex.scalar(c.args[0]), c.ex.scalar(c.args[1]))}})
	})
	// sorting: a permutation ordered by the comparison
	nat("sort.Slice sort.SliceStable", sortSlice)
}

func unixOf(t *Term) *Term {
	if t.Op == "app" && t.Name == "+" {
		if x := t.Args[1]; x.Op == "app" && x.Name == "*" && x.Args[0].Op == "int" && x.Args[0].Int.Int64() == 1000000000 {
			return Add(unixOf(t.Args[0]), x.Args[1])
		}
		if x := t.Args[1]; x.Op == "int" && x.Int.Int64()%1000000000 == 0 {
			return Add(unixOf(t.Args[0]), IntT(x.Int.Int64()/1000000000))
		}
		if x := t.Args[0]; x.Op == "app" && x.Name == "*" && x.Args[0].Op == "int" && x.Args[0].Int.Int64() == 1000000000 {
			return Add(unixOf(t.Args[1]), x.Args[1])
		}
	}
	return App("unix", SInt, t)
}

// sortSlice: the slice becomes a permutation of itself in which no element is less than an earlier neighbour.
func sortSlice(c *nativeCtx, k func(*State, []Val)) {
	ex, st := c.ex, c.st
	iv := ex.asIf(c.args[0], anyT)
	if iv.DynT == nil || !isSliceT(iv.DynT) {
		panic(unsup("sort.Slice of an unknown type"))
	}
	s := iv.Dyn.(SliceV)
	for _, p := range []**Term{&s.R, &s.O, &s.L} {
		if (*p).Op == "app" {
			n := Fresh("sort", SInt)
			st.assume(Eq(n, *p))
			*p = n
		}
	}
	et := iv.DynT.Underlying().(*types.Slice).Elem()
	keys, _ := ex.locClasses(elemClass(et), 2, et)
	pf := fmt.Sprintf("perm!%d", st.front.id+len(st.pc))
	perm := func(t *Term) *Term { return App(pf, SInt, t) }
	inv := func(t *Term) *Term { return App(pf+"inv", SInt, t) }
	some := st.clone()
	some.assume(Gt(s.L, IntT(0)))
	ex.touch(some, elemClass(et), []*Term{s.R, s.O}, true)
	q := FreshVar("i", SInt)
	in := func(t *Term) *Term { return And(Le(IntT(0), t), Lt(t, s.L)) }
	for _, key := range keys {
		old := Select(ex.hget(st, key), s.R)
		row := Fresh("sorted", old.S)
		st.assume(Imp(Eq(s.L, IntT(0)), Eq(row, old)))
		st.assume(Forall([]*Term{q}, Imp(in(q), And(Eq(Select(row, Ix(s.O, q)), Select(old, Ix(s.O, perm(q)))), in(perm(q)), Eq(inv(perm(q)), q))), []*Term{perm(q)}, []*Term{Select(row, Ix(s.O, q))}))
		st.assume(Forall([]*Term{q}, Imp(in(q), And(in(inv(q)), Eq(perm(inv(q)), q), Eq(Select(old, Ix(s.O, q)), Select(row, Ix(s.O, inv(q)))))), []*Term{inv(q)}, []*Term{Select(old, Ix(s.O, q))}))
		ex.hset(st, key, Store(ex.hget(st, key), s.R, row))
	}
	// adjacent elements are in order: evaluate the comparison on two symbolic indexes
	a, b := Fresh("si", SInt), Fresh("sj", SInt)
	s2 := st.clone()
	s2.assume(And(in(a), in(b)))
	n := len(s2.pc)
	ok := true
	var res *Term
	ex.silent++
	ex.callFnVal(s2, c.fr, c.args[1], types.NewSignatureType(nil, nil, nil, nil, nil, false), []Val{TV{b}, TV{a}}, c.ins, func(x *State, r []Val) {
		if res != nil {
			ok = false
		}
		res = Imp(And(x.pc[n:]...), Not(ex.scalar(r[0])))
		if len(x.pc) > n {
			// only facts about the two elements may be used
			res = Imp(And(x.pc[n:]...), Not(ex.scalar(r[0])))
		}
	})
	ex.silent--
	if ok && res != nil {
		va, vb := FreshVar("a", SInt), FreshVar("b", SInt)
		body := Subst(res, map[*Term]*Term{a: va, b: vb})
		st.assume(Forall([]*Term{va, vb}, Imp(And(Le(IntT(0), va), Lt(va, vb), Lt(vb, s.L)), body)))
	}
	k(st, nil)
}

// onLock is called when a mutex is taken: what other goroutines may have changed is unknown.
func (ex *Exec) onLock(st *State, fr *Frame, l *Term) {}
