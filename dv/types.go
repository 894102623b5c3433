package main

// Values, their flattening into heap leaves, and type naming.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type TV struct{ T *Term }

// SV is a struct value; Origin is the reference it was loaded from, if any.
type SV struct {
	F      []Val
	Origin *Term
	Snap   map[string]*Term // the heap it was loaded from
}
type SliceV struct{ R, O, L, C *Term }

// IfV is an interface value. DynT is the dynamic type when known.
type IfV struct {
	Tag, Pay *Term
	DynT     types.Type
	Dyn      Val
}

// LocV is a pointer that is not a whole heap object.
type LocV struct {
	Kind  string // "cell" or "heap"
	Cell  int
	Path  []int
	Class string  // heap class prefix (without leaf suffix)
	Idx   []*Term // 1 or 2 indexes
	Typ   types.Type
}

// FnV is a function value.
type FnV struct {
	Fn   *ssa.Function
	Bind []Val
	Sym  *Term // unknown function
	Nat  func(ex *Exec, st *State, args []Val, k func(*State, []Val))
}
type TupV []Val

// NatV is a value of a natively modelled library type.
type NatV struct {
	Kind string
	ID   int // state object id
	T    *Term
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFltT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isPtrT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
func isIfaceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
func isBytesT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
func isStructT(t types.Type) bool {
	if opaque(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// opaque struct types of libraries are scalars.
func opaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "time.Time", "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "sync/atomic.Int64", "sync/atomic.Uint64", "sync/atomic.Int32", "sync/atomic.Uint32", "sync/atomic.Bool":
		return true
	}
	return false
}

const repoMod = "github.com/kgantsov/doq"

func qual(p *types.Package) string { return shortPkg(p.Path()) }

func shortPkg(path string) string {
	if strings.HasPrefix(path, repoMod+"/pkg/") {
		return path[len(repoMod)+5:]
	}
	if strings.HasPrefix(path, repoMod+"/cmd/") {
		return path[len(repoMod)+1:]
	}
	if path == "github.com/hashicorp/raft" {
		return "hraft"
	}
	if path == "github.com/dgraph-io/badger/v4" {
		return "badger"
	}
	return path
}

func tkey(t types.Type) string { return types.TypeString(types.Unalias(t), qual) }

// tint returns bounds of an integer type.
func intBounds(t types.Type) (lo, hi *big.Int) {
	b := t.Underlying().(*types.Basic)
	one := big.NewInt(1)
	sh := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	sg := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(sh(n - 1)), new(big.Int).Sub(sh(n-1), one)
	}
	us := func(n uint) (*big.Int, *big.Int) { return big.NewInt(0), new(big.Int).Sub(sh(n), one) }
	switch b.Kind() {
	case types.Int8:
		return sg(8)
	case types.Int16:
		return sg(16)
	case types.Int32, types.UntypedRune:
		return sg(32)
	case types.Uint8:
		return us(8)
	case types.Uint16:
		return us(16)
	case types.Uint32:
		return us(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return us(64)
	}
	return sg(64)
}

func inBounds(t *Term, ty types.Type) *Term {
	lo, hi := intBounds(ty)
	return And(Le(BigT(lo), t), Le(t, BigT(hi)))
}

// wrap reduces a mathematical result into the integer type.
func wrap(t *Term, ty types.Type) *Term {
	lo, hi := intBounds(ty)
	if t.Op == "int" {
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		v := new(big.Int).Sub(t.Int, lo)
		v.Mod(v, m)
		return BigT(v.Add(v, lo))
	}
	m := BigT(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
	return Ite(inBounds(t, ty), t, Add(ModE(Sub(t, BigT(lo)), m), BigT(lo)))
}

type leaf struct {
	suf string
	s   Sort
	typ types.Type // Go type of the leaf for plain leaves
	k   string     // "", "slice.r" ..., "if.t", "if.p"
}

func scalarSort(t types.Type) (Sort, bool) {
	if opaque(t) {
		if strings.HasSuffix(tkey(t), "atomic.Bool") {
			return SBool, true
		}
		return SInt, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return SFlt, true
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return SInt, true
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt, true
	}
	return "", false
}

func leaves(t types.Type) []leaf {
	if s, ok := scalarSort(t); ok {
		return []leaf{{"", s, t, ""}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []leaf{{".r", SInt, t, "slice.r"}, {".o", SInt, t, "slice.o"}, {".l", SInt, t, "slice.l"}, {".c", SInt, t, "slice.c"}}
	case *types.Interface:
		return []leaf{{".t", SInt, t, "if.t"}, {".p", SInt, t, "if.p"}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + fname(u.Field(i)) + l.suf, l.s, l.typ, l.k})
			}
		}
		return out
	case *types.Array:
		return []leaf{{".arr", SInt, t, ""}}
	case *types.Tuple:
		return nil
	}
	return []leaf{{"", SInt, t, ""}}
}

// flatten gives the leaf terms of a value of type t.
func (ex *Exec) flatten(v Val, t types.Type) []*Term {
	if _, ok := scalarSort(t); ok {
		return []*Term{ex.scalar(v)}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(SliceV)
		return []*Term{s.R, s.O, s.L, s.C}
	case *types.Interface:
		i := ex.asIf(v, t)
		return []*Term{i.Tag, i.Pay}
	case *types.Struct:
		sv, ok := v.(SV)
		if !ok {
			var out []*Term
			for _, l := range leaves(t) {
				out = append(out, Fresh("opq", l.s))
			}
			return out
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, ex.flatten(sv.F[i], u.Field(i).Type())...)
		}
		return out
	}
	return []*Term{ex.scalar(v)}
}

// unflatten rebuilds a value from leaf terms.
func (ex *Exec) unflatten(ts []*Term, t types.Type) (Val, []*Term) {
	if _, ok := scalarSort(t); ok {
		return ex.mkScalar(ts[0], t), ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		return ex.mkIf(ts[0], ts[1]), ts[2:]
	case *types.Struct:
		sv := SV{}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = ex.unflatten(ts, u.Field(i).Type())
			sv.F = append(sv.F, f)
		}
		return sv, ts
	}
	return TV{ts[0]}, ts[1:]
}

func (ex *Exec) mkScalar(t *Term, ty types.Type) Val {
	if _, ok := ty.Underlying().(*types.Signature); ok {
		if f, ok := ex.fnByTerm[t]; ok {
			return f
		}
		return FnV{Sym: t}
	}
	if f, ok := ex.natByTerm[t]; ok {
		return f
	}
	return TV{t}
}

// scalar gives the term of a scalar value.
func (ex *Exec) scalar(v Val) *Term {
	switch x := v.(type) {
	case TV:
		return x.T
	case FnV:
		if x.Sym != nil {
			return x.Sym
		}
		n := "fn!nat"
		if x.Fn != nil {
			n = "fn!" + x.Fn.String()
		}
		if len(x.Bind) > 0 || x.Fn == nil {
			ex.nfn++
			n += fmt.Sprintf("#%d", ex.nfn)
		}
		t := Const(n, SInt)
		ex.fnByTerm[t] = x
		return t
	case NatV:
		if x.T != nil {
			ex.natByTerm[x.T] = x
			return x.T
		}
		t := Const(fmt.Sprintf("nat!%s!%d", x.Kind, x.ID), SInt)
		ex.natByTerm[t] = x
		return t
	case LocV:
		n := "loc!" + x.Kind + x.Class
		for _, p := range x.Path {
			n += fmt.Sprintf(".%d", p)
		}
		var t *Term
		if x.Kind == "cell" {
			t = Const(fmt.Sprintf("%s#%d", n, x.Cell), SInt)
		} else {
			t = App(n, SInt, x.Idx...)
		}
		ex.locByTerm[t] = x
		return t
	case IfV:
		return x.Pay
	case SliceV:
		return x.R
	case nil:
		return IntT(0)
	}
	panic(unsup("scalar of %T", v))
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

// zero value of a type
func (ex *Exec) zero(t types.Type) Val {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, zeroOf(l.s))
	}
	if tt, ok := t.(*types.Tuple); ok {
		var tv TupV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, ex.zero(tt.At(i).Type()))
		}
		return tv
	}
	v, _ := ex.unflatten(ts, t)
	return v
}

// fresh symbolic value of a type with its type facts assumed.
func (ex *Exec) freshVal(st *State, name string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		var tv TupV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, ex.freshVal(st, fmt.Sprintf("%s.%d", name, i), tt.At(i).Type()))
		}
		return tv
	}
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, Fresh(name+l.suf, l.s))
	}
	v, _ := ex.unflatten(ts, t)
	ex.typeFacts(st, v, t)
	return v
}

// typeFacts assumes what the type system and memory model guarantee.
func (ex *Exec) typeFacts(st *State, v Val, t types.Type) {
	if opaque(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			st.assume(inBounds(ex.scalar(v), t))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if tv, ok := v.(TV); ok {
			st.assume(And(Le(IntT(0), tv.T), Lt(tv.T, st.front)))
		}
	case *types.Slice:
		s := v.(SliceV)
		st.assume(And(Le(IntT(0), s.R), Lt(s.R, st.front), Le(IntT(0), s.O), Le(IntT(0), s.L), Le(s.L, s.C), Le(s.C, BigT(maxLen)),
			Imp(Eq(s.R, IntT(0)), Eq(s.C, IntT(0)))))
		if isBytesT(t) {
			st.assume(Le(Add(s.O, s.L), slen(ex.bget(st, s.R))))
		}
	case *types.Interface:
		i, ok := v.(IfV)
		if ok && i.DynT == nil {
			st.assume(And(Le(IntT(0), i.Tag), Imp(Eq(i.Tag, IntT(0)), Eq(i.Pay, IntT(0)))))
		}
	case *types.Struct:
		sv, ok := v.(SV)
		if ok {
			for i := 0; i < u.NumFields(); i++ {
				ex.typeFacts(st, sv.F[i], u.Field(i).Type())
			}
		}
	}
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 40)

// interface tags
func (ex *Exec) tagOf(t types.Type) *Term {
	k := tkey(t)
	if n, ok := ex.tags[k]; ok {
		return IntT(int64(n))
	}
	n := len(ex.tags) + 1
	ex.tags[k] = n
	ex.tagType[n] = t
	return IntT(int64(n))
}

func (ex *Exec) mkIf(tag, pay *Term) Val {
	i := IfV{Tag: tag, Pay: pay}
	if tag.Op == "int" {
		n := int(tag.Int.Int64())
		if t, ok := ex.tagType[n]; ok {
			i.DynT = t
			i.Dyn = ex.unbox(pay, t)
		}
	}
	return i
}

func (ex *Exec) box(v Val, t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return ex.scalar(v)
	}
	ts := ex.flatten(v, t)
	if len(ts) == 0 {
		return IntT(1)
	}
	return App("box$"+tkey(t), SInt, ts...)
}

func (ex *Exec) unbox(p *Term, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer:
		if l, ok := ex.locByTerm[p]; ok {
			return l
		}
		return ex.mkScalar(p, t)
	case *types.Map, *types.Chan, *types.Signature:
		return ex.mkScalar(p, t)
	}
	ls := leaves(t)
	var ts []*Term
	if p.Op == "app" && p.Name == "box$"+tkey(t) {
		ts = p.Args
	} else {
		for i, l := range ls {
			ts = append(ts, App(fmt.Sprintf("unbox$%s.%d", tkey(t), i), l.s, p))
		}
	}
	v, _ := ex.unflatten(ts, t)
	return v
}

func (ex *Exec) makeIface(v Val, t types.Type) IfV {
	if isIfaceT(t) {
		return ex.asIf(v, t)
	}
	return IfV{Tag: ex.tagOf(t), Pay: ex.box(v, t), DynT: t, Dyn: v}
}

func (ex *Exec) asIf(v Val, t types.Type) IfV {
	switch x := v.(type) {
	case IfV:
		return x
	case NatV:
		return IfV{Tag: IntT(1 << 20), Pay: ex.scalar(x), Dyn: x}
	case TV:
		if x.T.Op == "int" && x.T.Int.Sign() == 0 {
			return IfV{Tag: IntT(0), Pay: IntT(0)}
		}
	case nil:
		return IfV{Tag: IntT(0), Pay: IntT(0)}
	}
	panic(unsup("interface value %T", v))
}
