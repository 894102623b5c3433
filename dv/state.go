package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Name string
	Args []Val
	Sig  []types.Type
	Res  []Val
	ResT []types.Type
	// events in the iterations of a loop
	Names map[string]bool
}

type State struct {
	heap   map[string]*Term
	cells  map[int]Val
	nat    map[int]interface{}
	pc     []*Term
	pcset  map[*Term]bool
	front  *Term
	locks  map[*Term]int // mutex identity -> 0 none, 1 read, 2 write (path-concrete)
	lockN  map[*Term]int // number of acquisitions
	events []Event
	dead   bool
	splits int              // branches taken
	vars   map[string]*Term // scalar ghost variables (storage, clock...)
	iter   map[*ssa.BasicBlock]*loopCtx
}

func newState() *State {
	return &State{heap: map[string]*Term{}, cells: map[int]Val{}, nat: map[int]interface{}{}, pcset: map[*Term]bool{},
		locks: map[*Term]int{}, lockN: map[*Term]int{}, vars: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{front: s.front, dead: s.dead, splits: s.splits}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.nat = make(map[int]interface{}, len(s.nat))
	for k, v := range s.nat {
		n.nat[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = make(map[*Term]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.locks = make(map[*Term]int, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.lockN = make(map[*Term]int, len(s.lockN))
	for k, v := range s.lockN {
		n.lockN[k] = v
	}
	n.events = s.events[:len(s.events):len(s.events)]
	n.vars = make(map[string]*Term, len(s.vars))
	for k, v := range s.vars {
		n.vars[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True || s.pcset[t] {
		return
	}
	if t.Op == "app" && t.Name == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if t == False || s.pcset[Not(t)] {
		s.dead = true
	}
	s.pcset[t] = true
	s.pc = append(s.pc, t)
}

// known evaluates a condition syntactically under the path condition.
func (s *State) known(t *Term) *Term {
	if t == True || t == False {
		return t
	}
	if s.pcset[t] {
		return True
	}
	if s.pcset[Not(t)] {
		return False
	}
	return t
}

func (ex *Exec) newRef(st *State) *Term {
	r := st.front
	st.front = Add(r, IntT(1))
	return r
}

// ---- heap classes ----

type classInfo struct {
	s      Sort // sort of the class array
	leafT  types.Type
	leafK  string
	twoLvl bool
}

func (ex *Exec) class(key string, s Sort, lt types.Type, lk string) {
	if ci, ok := ex.classes[key]; ok {
		if ci.s != s {
			panic(unsup("class %s sort %s vs %s", key, ci.s, s))
		}
		return
	}
	ex.classes[key] = &classInfo{s: s, leafT: lt, leafK: lk}
}

// hget returns the current array of a heap class.
func (ex *Exec) hget(st *State, key string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	ci := ex.classes[key]
	if ci == nil {
		panic(unsup("unknown heap class %s", key))
	}
	t := Const("H0:"+key, ci.s)
	ex.baseFront[t] = ex.front0
	ex.baseKey[t] = key
	st.heap[key] = t
	return t
}

func (ex *Exec) freshBase(st *State, key string) *Term {
	ci := ex.classes[key]
	t := Fresh("H:"+key, ci.s)
	ex.baseFront[t] = st.front
	ex.baseKey[t] = key
	return t
}

func (ex *Exec) hset(st *State, key string, v *Term) {
	st.heap[key] = v
}

// class keys of a location: struct field F:T.f..., element M:T..., etc.
func fieldClass(st types.Type, f string) string { return "F:" + tkey(st) + "." + f }

// locLeaves enumerates the (class, leaf) pairs of a heap location.
func (ex *Exec) locClasses(prefix string, nidx int, t types.Type) ([]string, []leaf) {
	ls := leaves(t)
	var keys []string
	for _, l := range ls {
		k := prefix + l.suf
		s := l.s
		for i := 0; i < nidx; i++ {
			s = ArrS(SInt, s)
		}
		ex.class(k, s, l.typ, l.k)
		keys = append(keys, k)
	}
	return keys, ls
}

func selIdx(a *Term, idx []*Term) *Term {
	for _, i := range idx {
		a = Select(a, i)
	}
	return a
}
func storeIdx(a *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 1 {
		return Store(a, idx[0], v)
	}
	return Store(a, idx[0], storeIdx(Select(a, idx[0]), idx[1:], v))
}

func (ex *Exec) heapLoad(st *State, prefix string, idx []*Term, t types.Type) Val {
	ex.touch(st, prefix, idx, false)
	keys, _ := ex.locClasses(prefix, len(idx), t)
	var ts []*Term
	for _, k := range keys {
		ts = append(ts, selIdx(ex.hget(st, k), idx))
	}
	v, _ := ex.unflatten(ts, t)
	if !ex.quiet {
		ex.typeFacts(st, v, t)
	}
	return v
}

func (ex *Exec) heapStore(st *State, prefix string, idx []*Term, t types.Type, v Val) {
	ex.touch(st, prefix, idx, true)
	keys, _ := ex.locClasses(prefix, len(idx), t)
	ts := ex.flatten(v, t)
	for i, k := range keys {
		ex.hset(st, k, storeIdx(ex.hget(st, k), idx, ts[i]))
	}
}

// structure pointer: base class prefix for *T objects
func objClass(t types.Type) string { return "F:" + tkey(t) }

// load through a pointer value of type *t
func (ex *Exec) load(st *State, p Val, t types.Type) Val {
	switch x := p.(type) {
	case TV:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			_ = u
			v := ex.heapLoad(st, objClass(t), []*Term{x.T}, t)
			if sv, ok := v.(SV); ok {
				sv.Origin = x.T
				if td := ex.w.declOf(t); td != nil && len(td.Models) > 0 {
					sv.Snap = st.clone().heap
				}
				return sv
			}
			return v
		case *types.Array:
			return NatV{Kind: "array", T: x.T}
		}
		return ex.heapLoad(st, "P:"+tkey(t), []*Term{x.T}, t)
	case LocV:
		if x.Kind == "cell" {
			v, ok := st.cells[x.Cell]
			if !ok {
				panic(unsup("unknown cell"))
			}
			for _, i := range x.Path {
				v = v.(SV).F[i]
			}
			return v
		}
		return ex.heapLoad(st, x.Class, x.Idx, t)
	case NatV:
		return NatV{Kind: x.Kind, ID: x.ID, T: x.T}
	}
	panic(unsup("load through %T", p))
}

func (ex *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch x := p.(type) {
	case TV:
		if isStructT(t) {
			ex.heapStore(st, objClass(t), []*Term{x.T}, t, v)
			return
		}
		ex.heapStore(st, "P:"+tkey(t), []*Term{x.T}, t, v)
		return
	case LocV:
		if x.Kind == "cell" {
			if x.Cell <= ex.goCell {
				ex.concurrent(st, "assigns a variable of its caller")
			}
			st.cells[x.Cell] = setPath(st.cells[x.Cell], x.Path, v)
			return
		}
		ex.heapStore(st, x.Class, x.Idx, t, v)
		return
	}
	panic(unsup("store through %T", p))
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := v.(SV)
	f := append([]Val(nil), s.F...)
	f[path[0]] = setPath(f[path[0]], path[1:], nv)
	return SV{F: f}
}

// field address of a pointer-to-struct value
func (ex *Exec) fieldAddr(p Val, stT types.Type, i int) Val {
	f := stT.Underlying().(*types.Struct).Field(i)
	switch x := p.(type) {
	case TV:
		return LocV{Kind: "heap", Class: objClass(stT) + "." + f.Name(), Idx: []*Term{x.T}, Typ: f.Type()}
	case LocV:
		if x.Kind == "cell" {
			return LocV{Kind: "cell", Cell: x.Cell, Path: append(append([]int(nil), x.Path...), i), Typ: f.Type()}
		}
		return LocV{Kind: "heap", Class: x.Class + "." + f.Name(), Idx: x.Idx, Typ: f.Type()}
	}
	panic(unsup("field address of %T", p))
}

// elements
func elemClass(t types.Type) string { return "M:" + tkey(t) }

// byte arrays
func (ex *Exec) bget(st *State, r *Term) *Term {
	ex.class("B", ArrS(SInt, SStr), types.Typ[types.String], "")
	return Select(ex.hget(st, "B"), r)
}
func (ex *Exec) bset(st *State, r, v *Term) {
	ex.class("B", ArrS(SInt, SStr), types.Typ[types.String], "")
	ex.touch(st, "B", []*Term{r}, true)
	ex.hset(st, "B", Store(ex.hget(st, "B"), r, v))
}

// bytes content of a byte slice
func (ex *Exec) content(st *State, v Val) *Term {
	s := v.(SliceV)
	if s.R == IntT(0) {
		return StrLit("")
	}
	c := ex.bget(st, s.R)
	return ssub(c, s.O, s.L)
}

// new byte slice with the given content
func (ex *Exec) mkBytes(st *State, c *Term) Val {
	r := ex.newRef(st)
	ex.bset(st, r, c)
	n := slen(c)
	cp := Fresh("cap", SInt)
	st.assume(And(Le(n, cp), Le(cp, BigT(maxLen))))
	return SliceV{r, IntT(0), n, cp}
}

// ---- strings ----

func slen(s *Term) *Term {
	switch {
	case s.Op == "strlit":
		return IntT(int64(len(s.Name)))
	case s.Op == "app" && s.Name == "cat":
		return Add(slen(s.Args[0]), slen(s.Args[1]))
	case s.Op == "app" && s.Name == "be64":
		return IntT(8)
	case s.Op == "app" && s.Name == "ite" && slen(s.Args[1]) == slen(s.Args[2]):
		return slen(s.Args[1])
	}
	return App("slen", SInt, s)
}

func catParts(s *Term) []*Term {
	if s.Op == "app" && s.Name == "cat" {
		return append(catParts(s.Args[0]), s.Args[1])
	}
	if s.Op == "strlit" && s.Name == "" {
		return nil
	}
	return []*Term{s}
}

func Cat(ss ...*Term) *Term {
	var parts []*Term
	for _, s := range ss {
		for _, p := range catParts(s) {
			if n := len(parts); n > 0 && p.Op == "strlit" && parts[n-1].Op == "strlit" {
				parts[n-1] = StrLit(parts[n-1].Name + p.Name)
				continue
			}
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		return StrLit("")
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = App("cat", SStr, r, p)
	}
	return r
}

// ssub(s, off, len)
func ssub(s, o, l *Term) *Term {
	if o.Op == "int" && o.Int.Sign() == 0 {
		return stake(s, l)
	}
	return stake(sdrop(s, o), l)
}

func stake(s, l *Term) *Term {
	if l == slen(s) {
		return s
	}
	if l.Op == "int" && l.Int.Sign() == 0 {
		return StrLit("")
	}
	// a prefix of the concatenation
	ps := catParts(s)
	for i := len(ps) - 1; i > 0; i-- {
		p := Cat(ps[:i]...)
		if slen(p) == l {
			return p
		}
	}
	if s.Op == "strlit" && l.Op == "int" && l.Int.IsInt64() && l.Int.Int64() >= 0 && int(l.Int.Int64()) <= len(s.Name) {
		return StrLit(s.Name[:l.Int.Int64()])
	}
	return App("take", SStr, s, l)
}
func sdrop(s, o *Term) *Term {
	if o.Op == "int" && o.Int.Sign() == 0 {
		return s
	}
	ps := catParts(s)
	for i := 1; i <= len(ps); i++ {
		if slen(Cat(ps[:i]...)) == o {
			return Cat(ps[i:]...)
		}
	}
	if s.Op == "strlit" && o.Op == "int" && o.Int.IsInt64() && int(o.Int.Int64()) <= len(s.Name) && o.Int.Sign() > 0 {
		return StrLit(s.Name[o.Int.Int64():])
	}
	return App("drop", SStr, s, o)
}

func strDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	la, lb := slen(a), slen(b)
	if la.Op == "int" && lb.Op == "int" && la.Int.Cmp(lb.Int) != 0 {
		return true
	}
	if a.Op == "strlit" && b.Op == "strlit" {
		return a.Name != b.Name
	}
	pa, pb := catParts(a), catParts(b)
	if len(pa) > 0 && len(pb) > 0 && pa[0].Op == "strlit" && pb[0].Op == "strlit" {
		x, y := pa[0].Name, pb[0].Name
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if x[:n] != y[:n] {
			return true
		}
	}
	return false
}

func be64(t *Term) *Term {
	if t.Op == "app" && t.Name == "unbe64" && false {
		return t.Args[0]
	}
	return App("be64", SStr, t)
}
func unbe64(t *Term) *Term {
	if t.Op == "app" && t.Name == "be64" {
		return t.Args[0]
	}
	return App("unbe64", SInt, t)
}
func itoa(t *Term) *Term {
	if t.Op == "int" {
		return StrLit(t.Int.String())
	}
	return App("itoa", SStr, t)
}
func sprefix(s, p *Term) *Term {
	if s == p {
		return True
	}
	if s.Op == "strlit" && p.Op == "strlit" {
		return BoolT(strings.HasPrefix(s.Name, p.Name))
	}
	ps := catParts(s)
	for i := 0; i <= len(ps); i++ {
		if Cat(ps[:i]...) == p {
			return True
		}
	}
	if len(ps) > 0 && ps[0].Op == "strlit" && p.Op == "strlit" {
		n := len(ps[0].Name)
		if len(p.Name) <= n {
			return BoolT(strings.HasPrefix(ps[0].Name, p.Name))
		}
		if !strings.HasPrefix(p.Name, ps[0].Name) {
			return False
		}
	}
	return App("prefix", SBool, s, p)
}
func slt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.Op == "strlit" && b.Op == "strlit" {
		return BoolT(a.Name < b.Name)
	}
	return App("slt", SBool, a, b)
}

// card of a set
func card(d *Term) *Term {
	if d.Op == "app" && d.Name == "constarr" && d.Args[0] == False {
		return IntT(0)
	}
	if d.Op == "app" && d.Name == "store" {
		b := d.Args[0]
		c := card(b)
		in := Select(b, d.Args[1])
		if d.Args[2] == True {
			return Add(c, Ite(in, IntT(0), IntT(1)))
		}
		if d.Args[2] == False {
			return Add(c, Ite(in, IntT(-1), IntT(0)))
		}
	}
	k, _ := d.S.arrParts()
	return App("card$"+string(k), SInt, d)
}

func (ex *Exec) pos(i ssa.Instruction) string {
	p := ex.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return i.Parent().String()
	}
	f := p.Filename
	if j := strings.Index(f, "/pkg/"); j >= 0 {
		f = f[j+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}
