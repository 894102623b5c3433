package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Fn    string // function whose contract or body generated it
	Name  string
	Tags  []string
	Pos   string
	PC    []*Term
	Goal  *Term
	Kind  string // "ensures", "safe", "requires", "inv", "frame", ...
	Res   string // "proved", "failed"
	By    string
	Cfg   string
	Time  float64
	Out   string
	Trace string
	// the clause of the contracts that it is part of
	Clause string
}

// Exec verifies one function.
type Exec struct {
	w      *World
	prog   *ssa.Program
	root   *ssa.Function
	rootN  string
	con    *Contract
	open   map[string]bool
	obs    []*Obligation
	silent int
	// in the body of a goroutine: the cells and objects there were when it started, and the state it was started in
	goDepth, goCell, goPC int
	goFront               *Term
	goParent              *State
	quiet                 bool
	front0                *Term
	classes               map[string]*classInfo

	baseFront map[*Term]*Term
	baseKey   map[*Term]string
	fnByTerm  map[*Term]FnV
	natByTerm map[*Term]NatV
	locByTerm map[*Term]LocV
	tags      map[string]int
	tagType   map[int]types.Type
	nfn, ncel int
	entry     *State
	params    []Val
	deadline  time.Time
	paths     int
	steps     int
	used      map[string]bool // contracts used
	externs   map[string]bool
	feas      *Feas
	ghostArgs map[string]*Term
	env0      map[string]SVal
	errs      []string
	cover     map[*ssa.BasicBlock]bool
	iterIn    map[string]bool
	lastPos   string
	callee    string // of a function value: the field it was read from
	trace     []string
	retries   int
	touchOff  int
	covered   map[string]bool
	cellT     map[int]types.Type
	onIter    func(*State, *Frame, *loopInfo)
	perms     []Perm
	noframe   bool
	selfV     SVal
	selfT     *TypeDecl
	rootFn    *ssa.Function
	exits     int
	opens     []string
	rowBase   map[*Term]string
	extraExit func(*Env, *State, *Contract)
	atomicOp  int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	ins  ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	binds  []Val
	defers []deferred
	k      func(*State, []Val)
	depth  int
	loops  []*loopCtx
	stops  []stopPt
	caller *Frame
}

type stopPt struct {
	b *ssa.BasicBlock
	f func(st *State, fr *Frame)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+4)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	n.stops = f.stops[:len(f.stops):len(f.stops)]
	return &n
}

type abortVerif struct{ msg string }

func (ex *Exec) oblige(st *State, kind, name string, tags []string, goal *Term, pos string) {
	if st.dead {
		return
	}
	if ex.silent > 0 {
		st.assume(goal)
		return
	}
	goal = st.known(goal)
	o := &Obligation{Fn: ex.rootN, Name: name, Kind: kind, Tags: tags, Goal: goal, Pos: pos}
	if goal == True {
		o.Res, o.By = "proved", "simplifier"
	} else {
		o.PC = st.pc[:len(st.pc):len(st.pc)]
	}
	ex.obs = append(ex.obs, o)
}

// obligeClause: an obligation of a part of a clause of a contract.
func (ex *Exec) obligeClause(st *State, kind, name string, p part, pos string) {
	n := len(ex.obs)
	ex.oblige(st, kind, name, p.Tags, p.T, pos)
	if len(ex.obs) > n {
		ex.obs[n].Clause = p.Line
	}
}

// safe is an obligation of kind safe after which the goal is assumed.
func (ex *Exec) safe(st *State, name string, goal *Term, pos string) bool {
	ex.oblige(st, "safe", name, []string{"C19"}, goal, pos)
	st.assume(goal)
	return !st.dead
}

func (ex *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	return ex.feas.check(ex, st)
}

// ---- running ----

func (ex *Exec) execFn(st *State, fn *ssa.Function, args []Val, binds []Val, caller *Frame, k func(*State, []Val)) {
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 40 {
		panic(unsup("call depth exceeded in %s", fn))
	}
	if fn.Blocks == nil {
		panic(unsup("no body for %s", fn))
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, binds: binds, k: k, depth: depth, caller: caller}
	for i, p := range fn.Params {
		if i >= len(args) {
			panic(unsup("arity %s", fn))
		}
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = binds[i]
	}
	ex.runBlock(st, fr, fn.Blocks[0], 0)
}

func (ex *Exec) transfer(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	if st.dead {
		return
	}
	// phis
	var vals []Val
	var phis []*ssa.Phi
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			if _, dbg := ins.(*ssa.DebugRef); dbg {
				continue
			}
			break
		}
		phis = append(phis, p)
		vals = append(vals, ex.val(st, fr, p.Edges[pi]))
	}
	fr = fr.clone()
	for i, p := range phis {
		fr.regs[p] = vals[i]
	}
	// leaving loops
	for len(fr.loops) > 0 {
		lc := fr.loops[len(fr.loops)-1]
		if lc.body[to] {
			break
		}
		if lc.discover {
			return
		}
		if lc.onExit != nil {
			lc.onExit(st, fr)
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if n := len(fr.loops); n > 0 && fr.loops[n-1].header == to {
		fr.loops[n-1].onBack(st, fr)
		return
	}
	if n := len(fr.stops); n > 0 && fr.stops[n-1].b == to {
		s := fr.stops[n-1]
		fr.stops = fr.stops[:n-1]
		s.f(st, fr)
		return
	}
	if lp := ex.w.loopAt(to); lp != nil {
		ex.enterLoop(st, fr, lp)
		return
	}
	ex.runBlock(st, fr, to, 0)
}

func (ex *Exec) runBlock(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		ex.steps++
		if ex.steps%256 == 0 && time.Now().After(ex.deadline) {
			panic(abortVerif{"time limit of the symbolic execution"})
		}
		ins := b.Instrs[i]
		if ins.Pos().IsValid() {
			ex.lastPos = ex.pos(ins)
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			ex.coverEnd(st, fr, b)
			ex.branch(st, fr, b, x)
			return
		case *ssa.Jump:
			ex.coverEnd(st, fr, b)
			ex.transfer(st, fr, b, b.Succs[0])
			return
		case *ssa.Return:
			ex.coverEnd(st, fr, b)
			for _, lc := range fr.loops {
				if lc.discover {
					return
				}
			}
			var res []Val
			for _, r := range x.Results {
				res = append(res, ex.val(st, fr, r))
			}
			fr.k(st, res)
			return
		case *ssa.Panic:
			ex.safe(st, "no-panic", False, ex.pos(x))
			return
		case *ssa.RunDefers:
			ex.runDefers(st, fr, b, i+1)
			return
		case *ssa.Call:
			fr0, i0 := fr, i
			ex.call(st, fr, &x.Call, x, func(st2 *State, res []Val) {
				if st2.dead {
					return
				}
				fr2 := fr0.clone()
				fr2.regs[x] = tupleOf(res, x.Type())
				ex.runBlock(st2, fr2, b, i0+1)
			})
			return
		case *ssa.Select:
			ex.selectStmt(st, fr, b, i, x)
			return
		case *ssa.Next:
			ex.nextStmt(st, fr, b, i, x)
			return
		case *ssa.TypeAssert:
			if ex.typeAssert(st, fr, b, i, x) {
				return
			}
		default:
			ex.step(st, fr, ins)
		}
	}
}

func tupleOf(res []Val, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return TupV{}
		}
		return TupV(res)
	}
	if len(res) == 0 {
		return nil
	}
	return res[0]
}

// coverEnd notes (for DVCOVER) the blocks whose end some feasible path reaches.
func (ex *Exec) coverEnd(st *State, fr *Frame, b *ssa.BasicBlock) {
	if ex.cover == nil || ex.cover[b] {
		return
	}
	for _, lc := range fr.loops {
		if lc.discover {
			return
		}
	}
	if ex.feasible(st) {
		ex.cover[b] = true
	}
}

// uncoveredBlocks lists the blocks of the executed functions no feasible path goes through.
func (ex *Exec) uncoveredBlocks() (out []string) {
	fns := map[*ssa.Function]bool{}
	for b := range ex.cover {
		fns[b.Parent()] = true
	}
	for f := range fns {
		for _, b := range f.Blocks {
			if ex.cover[b] || b == f.Recover || len(b.Preds) == 0 && b.Index > 0 {
				continue
			}
			pos := ""
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					pos = ex.pos(i)
					break
				}
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				continue
			}
			out = append(out, fmt.Sprintf("%s block %d (%s) %s", f, b.Index, b.Comment, pos))
		}
	}
	sort.Strings(out)
	return
}

func (ex *Exec) runDefers(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	if len(fr.defers) == 0 {
		ex.runBlock(st, fr, b, i)
		return
	}
	fr2 := fr.clone()
	d := fr2.defers[len(fr2.defers)-1]
	fr2.defers = fr2.defers[:len(fr2.defers)-1]
	ex.callVal(st, fr2, d.call, d.fn, d.args, d.ins, func(st2 *State, _ []Val) {
		ex.runDefers(st2, fr2, b, i)
	})
}

func (ex *Exec) branch(st *State, fr *Frame, b *ssa.BasicBlock, x *ssa.If) {
	c := st.known(ex.scalar(ex.val(st, fr, x.Cond)))
	if c == True {
		ex.transfer(st, fr, b, b.Succs[0])
		return
	}
	if c == False {
		ex.transfer(st, fr, b, b.Succs[1])
		return
	}
	s1, s2 := st.clone(), st.clone()
	s1.assume(c)
	s2.assume(Not(c))
	f1, f2 := ex.feasible(s1), ex.feasible(s2)
	if !f1 && !f2 {
		st.dead = true
		return
	}
	if !f2 {
		ex.transfer(s1, fr, b, b.Succs[0])
		return
	}
	if !f1 {
		ex.transfer(s2, fr, b, b.Succs[1])
		return
	}
	s1.splits++
	s2.splits++
	// join both sides when they have the same effect
	j := ex.w.ipdom(b)
	if j == nil || ex.loopBlocks(fr, j) {
		ex.transfer(s1, fr, b, b.Succs[0])
		ex.transfer(s2, fr, b, b.Succs[1])
		return
	}
	type arr struct {
		st *State
		fr *Frame
	}
	var as []arr
	fr1 := fr.clone()
	fr1.stops = append(fr1.stops, stopPt{j, func(st *State, fr *Frame) { as = append(as, arr{st, fr}) }})
	ex.transfer(s1, fr1, b, b.Succs[0])
	ex.transfer(s2, fr1, b, b.Succs[1])
	done := make([]bool, len(as))
	base := len(st.pc)
	for i := range as {
		if done[i] {
			continue
		}
		g := []int{i}
		for k := i + 1; k < len(as); k++ {
			if !done[k] && ex.sameState(as[i].st, as[k].st, as[i].fr, as[k].fr, j) {
				g = append(g, k)
				done[k] = true
			}
		}
		m, f := as[i].st, as[i].fr
		if len(g) > 1 {
			m, f = ex.mergeStates(base, j, as[i].st, as[i].fr, func(n int) (*State, *Frame) { return as[g[n]].st, as[g[n]].fr }, len(g))
		}
		// continue at j
		if lp := ex.w.loopAt(j); lp != nil {
			ex.enterLoop(m, f, lp)
		} else if n := len(f.stops); n > 0 && f.stops[n-1].b == j {
			s := f.stops[n-1]
			f.stops = f.stops[:n-1]
			s.f(m, f)
		} else {
			ex.runBlock(m, f, j, 0)
		}
	}
}

// loopBlocks: the join point must lie in the same innermost loop.
func (ex *Exec) loopBlocks(fr *Frame, j *ssa.BasicBlock) bool {
	if n := len(fr.loops); n > 0 {
		return !fr.loops[n-1].body[j] || fr.loops[n-1].header == j
	}
	return false
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case TV:
		y, ok := b.(TV)
		return ok && x.T == y.T
	case SV:
		y, ok := b.(SV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case IfV:
		y, ok := b.(IfV)
		return ok && x.Tag == y.Tag && x.Pay == y.Pay
	case TupV:
		y, ok := b.(TupV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case LocV:
		y, ok := b.(LocV)
		if !ok || x.Kind != y.Kind || x.Cell != y.Cell || x.Class != y.Class || len(x.Idx) != len(y.Idx) || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Idx {
			if x.Idx[i] != y.Idx[i] {
				return false
			}
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case NatV:
		y, ok := b.(NatV)
		return ok && x == y
	case FnV:
		y, ok := b.(FnV)
		if !ok || x.Fn != y.Fn || x.Sym != y.Sym || len(x.Bind) != len(y.Bind) || (x.Nat == nil) != (y.Nat == nil) {
			return false
		}
		if x.Nat != nil {
			return false
		}
		for i := range x.Bind {
			if !sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

func (ex *Exec) sameEffect(a, b *State) bool {
	if a.front != b.front || len(a.events) != len(b.events) {
		return false
	}
	for k, v := range a.heap {
		if bv, ok := b.heap[k]; ok && bv != v {
			return false
		} else if !ok && v.Op != "const" {
			return false
		}
	}
	for k, v := range b.heap {
		if _, ok := a.heap[k]; !ok && v.Op != "const" {
			return false
		}
	}
	for k, v := range a.cells {
		if bv, ok := b.cells[k]; ok && !sameVal(v, bv) && !ex.vague(k) {
			return false
		}
	}
	for k, v := range a.nat {
		if bv, ok := b.nat[k]; ok && !natEq(v, bv) {
			return false
		}
	}
	for k, v := range a.vars {
		if bv, ok := b.vars[k]; !ok || bv != v {
			return false
		}
	}
	if len(a.vars) != len(b.vars) {
		return false
	}
	for k, v := range a.locks {
		if b.locks[k] != v {
			return false
		}
	}
	for k, v := range b.locks {
		if a.locks[k] != v {
			return false
		}
	}
	for k, v := range a.lockN {
		if b.lockN[k] != v {
			return false
		}
	}
	for i := range a.events {
		if !sameEvent(a.events[i], b.events[i]) {
			return false
		}
	}
	return true
}

// vague: a variable whose type the repository does not declare, and of which nothing is known once paths join.
func (ex *Exec) vague(cell int) bool {
	if ex.cellT[cell] == nil {
		return false
	}
	n, ok := types.Unalias(ex.cellT[cell]).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), repoMod) {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

// mergeable: values that may be joined into a fresh constant.
func mergeable(t types.Type) bool { return isBoolT(t) || isIntT(t) && !isPtrT(t) }

func (ex *Exec) sameState(a, b *State, fa, fb *Frame, j *ssa.BasicBlock) bool {
	if len(fa.defers) != len(fb.defers) || !ex.sameEffect(a, b) {
		return false
	}
	for _, ins := range j.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			if _, dbg := ins.(*ssa.DebugRef); dbg {
				continue
			}
			break
		}
		if mergeable(p.Type()) {
			continue
		}
		if !sameVal(fa.regs[p], fb.regs[p]) {
			return false
		}
	}
	return true
}

// returned collects the results of an inlined call and joins those with the same effect.
type returned struct {
	st  *State
	res []Val
}

func (ex *Exec) joinReturns(base int, rs []returned, ts *types.Tuple, k func(*State, []Val)) {
	done := make([]bool, len(rs))
	for i := range rs {
		if done[i] {
			continue
		}
		g := []int{i}
		for j := i + 1; j < len(rs); j++ {
			if done[j] || !ex.sameEffect(rs[i].st, rs[j].st) {
				continue
			}
			ok := true
			for n := range rs[i].res {
				if !mergeable(ts.At(n).Type()) && !sameVal(rs[i].res[n], rs[j].res[n]) {
					ok = false
				}
			}
			if ok {
				g = append(g, j)
				done[j] = true
			}
		}
		if len(g) == 1 {
			k(rs[i].st, rs[i].res)
			continue
		}
		m, conds := ex.joinPC(base, func(n int) *State { return rs[g[n]].st }, len(g))
		res := append([]Val(nil), rs[i].res...)
		for n := range res {
			if mergeable(ts.At(n).Type()) {
				res[n] = ex.joinVals(m, conds, func(i int) Val { return rs[g[i]].res[n] })
			}
		}
		k(m, res)
	}
}

// joinVals: one of the values, according to the path.
func (ex *Exec) joinVals(m *State, conds []*Term, get func(int) Val) Val {
	first := ex.scalar(get(0))
	same := true
	for i := range conds {
		if ex.scalar(get(i)) != first {
			same = false
		}
	}
	if same {
		return TV{first}
	}
	if first.S == SBool && len(conds) == 2 && first == True && ex.scalar(get(1)) == False && simpleT(conds[0]) {
		return TV{conds[0]}
	}
	b := Fresh("join", first.S)
	for i, c := range conds {
		m.assume(Imp(c, Eq(b, ex.scalar(get(i)))))
	}
	return TV{b}
}

func simpleT(t *Term) bool {
	switch t.Op {
	case "const", "int", "var":
		return true
	case "app":
		for _, a := range t.Args {
			if a.S == SBool {
				return false
			}
		}
		return true
	}
	return false
}

func sameEvent(a, b Event) bool {
	if a.Name != b.Name || len(a.Args) != len(b.Args) || len(a.Res) != len(b.Res) {
		return false
	}
	for i := range a.Args {
		if !sameVal(a.Args[i], b.Args[i]) {
			return false
		}
	}
	for i := range a.Res {
		if !sameVal(a.Res[i], b.Res[i]) {
			return false
		}
	}
	return true
}

func (ex *Exec) joinPC(base int, get func(int) *State, n int) (*State, []*Term) {
	m := get(0).clone()
	m.pc = append([]*Term(nil), m.pc[:base]...)
	m.pcset = map[*Term]bool{}
	for _, t := range m.pc {
		m.pcset[t] = true
	}
	for k, v := range m.cells {
		if !ex.vague(k) {
			continue
		}
		for i := 1; i < n; i++ {
			if o, ok := get(i).cells[k]; ok && !sameVal(v, o) {
				m.cells[k] = ex.freshVal(m, "cell", ex.cellT[k])
				break
			}
		}
	}
	common := map[*Term]bool{}
	for _, t := range get(0).pc[base:] {
		all := true
		for k := 1; k < n; k++ {
			if !get(k).pcset[t] {
				all = false
			}
		}
		if all {
			common[t] = true
			m.assume(t)
		}
	}
	var conds []*Term
	for i := 0; i < n; i++ {
		var cs []*Term
		for _, t := range get(i).pc[base:] {
			if !common[t] {
				cs = append(cs, t)
			}
		}
		conds = append(conds, And(cs...))
	}
	m.assume(Or(conds...))
	for i := 1; i < n; i++ {
		s := get(i)
		for k, v := range s.heap {
			if _, ok := m.heap[k]; !ok {
				m.heap[k] = v
			}
		}
		for k, v := range s.cells {
			if _, ok := m.cells[k]; !ok {
				m.cells[k] = v
			}
		}
		for k, v := range s.nat {
			if _, ok := m.nat[k]; !ok {
				m.nat[k] = v
			}
		}
	}
	return m, conds
}

func (ex *Exec) mergeStates(base int, j *ssa.BasicBlock, st *State, fr *Frame, get func(int) (*State, *Frame), n int) (*State, *Frame) {
	m, conds := ex.joinPC(base, func(i int) *State { s, _ := get(i); return s }, n)
	f := fr.clone()
	for _, ins := range j.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			if _, dbg := ins.(*ssa.DebugRef); dbg {
				continue
			}
			break
		}
		if !mergeable(p.Type()) {
			continue
		}
		f.regs[p] = ex.joinVals(m, conds, func(i int) Val { _, fi := get(i); return fi.regs[p] })
	}
	return m, f
}

// ---- values ----

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return FnV{Fn: x}
	case *ssa.Global:
		return ex.globalLoc(x)
	case *ssa.Builtin:
		return FnV{}
	}
	if r, ok := fr.regs[v]; ok {
		return r
	}
	panic(unsup("value %s of %s not available", v.Name(), fr.fn))
}

func (ex *Exec) globalLoc(g *ssa.Global) Val {
	t := deref(g.Type())
	return LocV{Kind: "heap", Class: "G:" + shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name(), Idx: []*Term{IntT(0)}, Typ: t}
}

func bigOf(v constant.Value) *big.Int {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return big.NewInt(i)
	}
	b, _ := new(big.Int).SetString(v.ExactString(), 10)
	return b
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return ex.zero(t)
	}
	switch {
	case isBoolT(t):
		return TV{BoolT(constant.BoolVal(c.Value))}
	case isStrT(t):
		return TV{StrLit(constant.StringVal(c.Value))}
	case isIntT(t):
		return TV{wrap(BigT(bigOf(c.Value)), t)}
	case isFltT(t):
		if constant.Sign(c.Value) == 0 {
			return TV{Const("flt_zero", SFlt)}
		}
		return TV{Const("flt!"+c.Value.ExactString(), SFlt)}
	}
	panic(unsup("constant of type %s", t))
}

func (ex *Exec) step(st *State, fr *Frame, ins ssa.Instruction) {
	pos := ex.lastPos
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		fr.regs[x] = ex.alloc(st, t, x.Heap)
	case *ssa.Store:
		p := ex.val(st, fr, x.Addr)
		ex.nilCheck(st, p, pos)
		ex.store(st, p, deref(x.Addr.Type()), ex.val(st, fr, x.Val))
	case *ssa.UnOp:
		fr.regs[x] = ex.unop(st, fr, x)
	case *ssa.BinOp:
		fr.regs[x] = ex.binop(st, x.Op, ex.val(st, fr, x.X), ex.val(st, fr, x.Y), x.X.Type(), x.Y.Type(), pos)
	case *ssa.FieldAddr:
		p := ex.val(st, fr, x.X)
		ex.nilCheck(st, p, pos)
		if n, ok := p.(NatV); ok {
			fr.regs[x] = NatV{Kind: n.Kind + "." + fieldName(deref(x.X.Type()), x.Field), ID: n.ID, T: n.T}
			return
		}
		fr.regs[x] = ex.fieldAddr(p, deref(x.X.Type()), x.Field)
	case *ssa.Field:
		v := ex.val(st, fr, x.X)
		if sv, ok := v.(SV); ok {
			fr.regs[x] = sv.F[x.Field]
		} else {
			fr.regs[x] = ex.freshVal(st, "opqf", x.Type())
		}
	case *ssa.IndexAddr:
		fr.regs[x] = ex.indexAddr(st, fr, x, pos)
	case *ssa.Index:
		i := ex.scalar(ex.val(st, fr, x.Index))
		switch x.X.Type().Underlying().(type) {
		case *types.Basic:
			s := ex.scalar(ex.val(st, fr, x.X))
			ex.safe(st, "index", And(Le(IntT(0), i), Lt(i, slen(s))), pos)
			fr.regs[x] = TV{App("schar", SInt, s, i)}
			st.assume(inBounds(App("schar", SInt, s, i), types.Typ[types.Uint8]))
		default:
			panic(unsup("index of array value"))
		}
	case *ssa.Lookup:
		ex.lookup(st, fr, x, pos)
	case *ssa.MapUpdate:
		m := ex.scalar(ex.val(st, fr, x.Map))
		ex.safe(st, "map-not-nil", Neq(m, IntT(0)), pos)
		mt := x.Map.Type().Underlying().(*types.Map)
		ex.mapUpdate(st, m, mt, ex.val(st, fr, x.Key), ex.val(st, fr, x.Value))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		r := ex.newRef(st)
		dk, vks, vls := ex.mapClasses(mt)
		ds := ex.classes[dk].s
		_, row := ds.arrParts()
		ex.hset(st, dk, Store(ex.hget(st, dk), r, ConstArr(row, False)))
		_ = vks
		_ = vls
		fr.regs[x] = TV{r}
	case *ssa.MakeSlice:
		n := ex.scalar(ex.val(st, fr, x.Len))
		c := ex.scalar(ex.val(st, fr, x.Cap))
		ex.safe(st, "make-len", And(Le(IntT(0), n), Le(n, c)), pos)
		st.assume(Le(c, BigT(maxLen)))
		et := x.Type().Underlying().(*types.Slice).Elem()
		r := ex.newRef(st)
		if isBytesT(x.Type()) {
			z := App("zeros", SStr, c)
			st.assume(Eq(slen(z), c))
			ex.bset(st, r, z)
		} else {
			ex.newArray(st, r, et)
		}
		fr.regs[x] = SliceV{r, IntT(0), n, c}
	case *ssa.MakeChan:
		r := ex.newRef(st)
		ex.class("@chan.closed", ArrS(SInt, SBool), types.Typ[types.Bool], "")
		ex.hset(st, "@chan.closed", Store(ex.hget(st, "@chan.closed"), r, False))
		fr.regs[x] = TV{r}
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, ex.val(st, fr, v))
		}
		fr.regs[x] = FnV{Fn: x.Fn.(*ssa.Function), Bind: b}
	case *ssa.MakeInterface:
		fr.regs[x] = ex.makeIface(ex.val(st, fr, x.X), x.X.Type())
	case *ssa.ChangeInterface:
		fr.regs[x] = ex.val(st, fr, x.X)
	case *ssa.ChangeType:
		fr.regs[x] = ex.val(st, fr, x.X)
	case *ssa.Convert:
		fr.regs[x] = ex.convert(st, ex.val(st, fr, x.X), x.X.Type(), x.Type())
	case *ssa.Slice:
		fr.regs[x] = ex.slice(st, fr, x, pos)
	case *ssa.Extract:
		v := ex.val(st, fr, x.Tuple)
		fr.regs[x] = v.(TupV)[x.Index]
	case *ssa.Range:
		fr.regs[x] = ex.rangeStart(st, ex.val(st, fr, x.X), x.X.Type())
	case *ssa.Defer:
		var args []Val
		for _, a := range x.Call.Args {
			args = append(args, ex.val(st, fr, a))
		}
		var f Val
		if x.Call.IsInvoke() {
			f = ex.val(st, fr, x.Call.Value)
		} else if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			f = ex.val(st, fr, x.Call.Value)
		}
		fr.defers = append(fr.defers, deferred{&x.Call, f, args, x})
	case *ssa.Go:
		ex.goStmt(st, fr, x)
	case *ssa.Send:
		ch := ex.scalar(ex.val(st, fr, x.Chan))
		ex.safe(st, "send-open", Not(ex.chanClosed(st, ch)), pos)
		ex.event(st, Event{Name: "send", Args: []Val{TV{ch}, ex.val(st, fr, x.X)}})
	default:
		panic(unsup("instruction %T", ins))
	}
}

func fieldName(t types.Type, i int) string {
	return fname(t.Underlying().(*types.Struct).Field(i))
}

func (ex *Exec) chanClosed(st *State, ch *Term) *Term {
	ex.class("@chan.closed", ArrS(SInt, SBool), types.Typ[types.Bool], "")
	return Select(ex.hget(st, "@chan.closed"), ch)
}

func (ex *Exec) newCell(st *State, v Val) LocV {
	ex.ncel++
	st.cells[ex.ncel] = v
	return LocV{Kind: "cell", Cell: ex.ncel}
}

func (ex *Exec) alloc(st *State, t types.Type, heap bool) Val {
	if a, ok := t.Underlying().(*types.Array); ok {
		r := ex.newRef(st)
		if isBytesT(types.NewSlice(a.Elem())) {
			z := App("zeros", SStr, IntT(a.Len()))
			st.assume(Eq(slen(z), IntT(a.Len())))
			ex.bset(st, r, z)
		} else {
			ex.newArray(st, r, a.Elem())
		}
		return TV{r}
	}
	if isStructT(t) && heap {
		r := ex.newRef(st)
		ex.touchOff++
		ex.heapStore(st, objClass(t), []*Term{r}, t, ex.zero(t))
		ex.touchOff--
		return TV{r}
	}
	ex.ncel++
	ex.cellT[ex.ncel] = t
	st.cells[ex.ncel] = ex.zero(t)
	return LocV{Kind: "cell", Cell: ex.ncel, Typ: t}
}

// newArray zero-initialises a backing array.
func (ex *Exec) newArray(st *State, r *Term, et types.Type) {
	keys, ls := ex.locClasses(elemClass(et), 2, et)
	for i, k := range keys {
		ex.hset(st, k, Store(ex.hget(st, k), r, ConstArr(ArrS(SInt, ls[i].s), zeroOf(ls[i].s))))
	}
}

func (ex *Exec) nilCheck(st *State, p Val, pos string) {
	if t, ok := p.(TV); ok {
		ex.safe(st, "nil-dereference", Neq(t.T, IntT(0)), pos)
	}
}

func (ex *Exec) indexAddr(st *State, fr *Frame, x *ssa.IndexAddr, pos string) Val {
	i := ex.scalar(ex.val(st, fr, x.Index))
	b := ex.val(st, fr, x.X)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := b.(SliceV)
		ex.safe(st, "index", And(Le(IntT(0), i), Lt(i, s.L)), pos)
		if isBytesT(x.X.Type()) {
			return LocV{Kind: "byte", Class: "B", Idx: []*Term{s.R, Add(s.O, i)}, Typ: u.Elem()}
		}
		return LocV{Kind: "heap", Class: elemClass(u.Elem()), Idx: []*Term{s.R, Ix(s.O, i)}, Typ: u.Elem()}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		ex.safe(st, "index", And(Le(IntT(0), i), Lt(i, IntT(a.Len()))), pos)
		return LocV{Kind: "heap", Class: elemClass(a.Elem()), Idx: []*Term{b.(TV).T, i}, Typ: a.Elem()}
	}
	panic(unsup("index address"))
}

func (ex *Exec) unop(st *State, fr *Frame, x *ssa.UnOp) Val {
	v := ex.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		ex.nilCheck(st, v, ex.lastPos)
		if l, ok := v.(LocV); ok && l.Kind == "byte" {
			t := App("schar", SInt, ex.bget(st, l.Idx[0]), l.Idx[1])
			st.assume(inBounds(t, types.Typ[types.Uint8]))
			return TV{t}
		}
		r := ex.load(st, v, deref(x.X.Type()))
		if l, ok := v.(LocV); ok && strings.HasPrefix(l.Class, "G:") {
			r = ex.globalFacts(st, l, r)
		}
		return r
	case token.NOT:
		return TV{Not(ex.scalar(v))}
	case token.SUB:
		if isFltT(x.Type()) {
			return TV{App("fneg", SFlt, ex.scalar(v))}
		}
		return TV{wrap(Neg(ex.scalar(v)), x.Type())}
	case token.XOR:
		if _, hi := intBounds(x.Type()); hi != nil {
			lo, _ := intBounds(x.Type())
			if lo.Sign() == 0 {
				return TV{Sub(BigT(hi), ex.scalar(v))}
			}
			return TV{Sub(IntT(-1), ex.scalar(v))}
		}
	case token.ARROW:
		ch := ex.scalar(v)
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		st.events = append(st.events, Event{Name: "recv", Args: []Val{TV{ch}}})
		ex.ticked(st, et)
		r := ex.freshVal(st, "recv", et)
		if x.CommaOk {
			return TupV{r, TV{Fresh("recvok", SBool)}}
		}
		return r
	}
	panic(unsup("unary %s", x.Op))
}

func (ex *Exec) arith(st *State, raw *Term, t types.Type) *Term {
	if raw.Op == "int" {
		return wrap(raw, t)
	}
	ib := inBounds(raw, t)
	if st.known(ib) == True || ex.feas.proves(ex, st, ib) {
		st.assume(ib)
		return raw
	}
	return wrap(raw, t)
}

func (ex *Exec) binop(st *State, op token.Token, a, b Val, t, tb types.Type, pos string) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := ex.equal(st, a, b, t, tb)
		if op == token.NEQ {
			e = Not(e)
		}
		return TV{e}
	}
	x, y := ex.scalar(a), ex.scalar(b)
	switch {
	case isStrT(t):
		switch op {
		case token.ADD:
			return TV{Cat(x, y)}
		case token.LSS:
			return TV{slt(x, y)}
		case token.GTR:
			return TV{slt(y, x)}
		case token.LEQ:
			return TV{Not(slt(y, x))}
		case token.GEQ:
			return TV{Not(slt(x, y))}
		}
	case isFltT(t):
		switch op {
		case token.ADD:
			return TV{App("fadd", SFlt, x, y)}
		case token.SUB:
			return TV{App("fsub", SFlt, x, y)}
		case token.MUL:
			return TV{App("fmul", SFlt, x, y)}
		case token.QUO:
			return TV{App("fdiv", SFlt, x, y)}
		case token.LSS:
			return TV{App("flt", SBool, x, y)}
		case token.GTR:
			return TV{App("flt", SBool, y, x)}
		case token.LEQ:
			return TV{App("fle", SBool, x, y)}
		case token.GEQ:
			return TV{App("fle", SBool, y, x)}
		}
	case isIntT(t):
		switch op {
		case token.ADD:
			return TV{ex.arith(st, Add(x, y), t)}
		case token.SUB:
			return TV{ex.arith(st, Sub(x, y), t)}
		case token.MUL:
			return TV{ex.arith(st, Mul(x, y), t)}
		case token.QUO, token.REM:
			ex.safe(st, "division-by-zero", Neq(y, IntT(0)), pos)
			lo, _ := intBounds(t)
			var q, r *Term
			if lo.Sign() == 0 {
				q, r = DivE(x, y), ModE(x, y)
			} else if y.Op == "int" && y.Int.Sign() > 0 {
				// truncated division
				q = Ite(Ge(x, IntT(0)), DivE(x, y), Neg(DivE(Neg(x), y)))
				r = Ite(Ge(x, IntT(0)), ModE(x, y), Neg(ModE(Neg(x), y)))
				if ex.feas.proves(ex, st, Ge(x, IntT(0))) {
					q, r = DivE(x, y), ModE(x, y)
				}
			} else {
				q, r = App("tdiv", SInt, x, y), App("trem", SInt, x, y)
				st.assume(And(inBounds(q, t), inBounds(r, t)))
			}
			if op == token.QUO {
				return TV{q}
			}
			return TV{r}
		case token.LSS:
			return TV{Lt(x, y)}
		case token.GTR:
			return TV{Lt(y, x)}
		case token.LEQ:
			return TV{Le(x, y)}
		case token.GEQ:
			return TV{Le(y, x)}
		case token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
			if op == token.SHL && y.Op == "int" && y.Int.IsInt64() && y.Int.Int64() < 64 {
				return TV{ex.arith(st, Mul(x, BigT(new(big.Int).Lsh(big.NewInt(1), uint(y.Int.Int64())))), t)}
			}
			if op == token.SHR && y.Op == "int" && y.Int.IsInt64() && y.Int.Int64() < 64 {
				return TV{DivE(x, BigT(new(big.Int).Lsh(big.NewInt(1), uint(y.Int.Int64()))))}
			}
			r := App("bit"+op.String(), SInt, x, y)
			st.assume(inBounds(r, t))
			return TV{r}
		}
	case isBoolT(t):
		switch op {
		case token.AND, token.LAND:
			return TV{And(x, y)}
		case token.OR, token.LOR:
			return TV{Or(x, y)}
		}
	}
	panic(unsup("binary %s on %s", op, t))
}

func (ex *Exec) equal(st *State, a, b Val, t, tb types.Type) *Term {
	if isIfaceT(t) || isIfaceT(tb) {
		var ia, ib IfV
		if isIfaceT(t) {
			ia = ex.asIf(a, t)
		} else {
			ia = ex.makeIface(a, t)
		}
		if isIfaceT(tb) {
			ib = ex.asIf(b, tb)
		} else {
			ib = ex.makeIface(b, tb)
		}
		if ib.Tag == IntT(0) {
			return Eq(ia.Tag, IntT(0))
		}
		if ia.Tag == IntT(0) {
			return Eq(ib.Tag, IntT(0))
		}
		return And(Eq(ia.Tag, ib.Tag), Eq(ia.Pay, ib.Pay))
	}
	if isFltT(t) {
		return App("feq", SBool, ex.scalar(a), ex.scalar(b))
	}
	if isSliceT(t) {
		return Eq(ex.scalar(a), ex.scalar(b))
	}
	fa, fb := ex.flatten(a, t), ex.flatten(b, t)
	var cs []*Term
	for i := range fa {
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	switch {
	case isIntT(from) && isIntT(to):
		x := ex.scalar(v)
		flo, fhi := intBounds(from)
		tlo, thi := intBounds(to)
		if tlo.Cmp(flo) <= 0 && fhi.Cmp(thi) <= 0 {
			return TV{x}
		}
		if x.Op == "int" {
			return TV{wrap(x, to)}
		}
		if ib := inBounds(x, to); st.known(ib) == True || ex.feas.proves(ex, st, ib) {
			return TV{x}
		}
		// 64-bit reinterpretations without modulo
		two64 := BigT(new(big.Int).Lsh(big.NewInt(1), 64))
		if flo.Sign() < 0 && tlo.Sign() == 0 && thi.BitLen() == 64 {
			return TV{Ite(Ge(x, IntT(0)), x, Add(x, two64))}
		}
		if flo.Sign() == 0 && tlo.Sign() < 0 && fhi.BitLen() == 64 && thi.BitLen() == 63 {
			return TV{Ite(Le(x, BigT(thi)), x, Sub(x, two64))}
		}
		return TV{wrap(x, to)}
	case isIntT(from) && isFltT(to):
		return TV{App("i2f", SFlt, ex.scalar(v))}
	case isFltT(from) && isFltT(to):
		return v
	case isFltT(from) && isIntT(to):
		r := App("f2i", SInt, ex.scalar(v))
		st.assume(inBounds(r, to))
		return TV{r}
	case isStrT(from) && isBytesT(to):
		return ex.mkBytes(st, ex.scalar(v))
	case isBytesT(from) && isStrT(to):
		return TV{ex.content(st, v)}
	case isStrT(from) && isStrT(to):
		return v
	case isPtrT(from) && isPtrT(to):
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsup("conversion %s to %s", from, to))
}

func (ex *Exec) slice(st *State, fr *Frame, x *ssa.Slice, pos string) Val {
	b := ex.val(st, fr, x.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.scalar(ex.val(st, fr, v))
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = IntT(0)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := ex.scalar(b)
		if hi == nil {
			hi = slen(s)
		}
		ex.safe(st, "slice-bounds", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, slen(s))), pos)
		return TV{ssub(s, lo, Sub(hi, lo))}
	case *types.Slice:
		s := b.(SliceV)
		if hi == nil {
			hi = s.L
		}
		cp := s.C
		if mx != nil {
			cp = mx
		}
		ex.safe(st, "slice-bounds", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, cp), Le(cp, s.C)), pos)
		return SliceV{s.R, Add(s.O, lo), Sub(hi, lo), Sub(cp, lo)}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		n := IntT(a.Len())
		if hi == nil {
			hi = n
		}
		ex.safe(st, "slice-bounds", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)), pos)
		var r *Term
		switch y := b.(type) {
		case TV:
			r = y.T
		case NatV:
			r = y.T
		default:
			panic(unsup("slice of array %T", b))
		}
		return SliceV{r, lo, Sub(hi, lo), Sub(n, lo)}
	}
	panic(unsup("slice"))
}

// ---- maps ----

func (ex *Exec) mapClasses(mt *types.Map) (string, []string, []leaf) {
	ks, ok := scalarSort(mt.Key())
	if !ok {
		if isIfaceT(mt.Key()) {
			panic(unsup("map with interface keys"))
		}
		panic(unsup("map key %s", mt.Key()))
	}
	p := "MAP:" + tkey(mt.Key()) + ":" + tkey(mt.Elem())
	dk := p + ".dom"
	ex.class(dk, ArrS(SInt, ArrS(ks, SBool)), types.Typ[types.Bool], "")
	var vks []string
	ls := leaves(mt.Elem())
	for _, l := range ls {
		k := p + ".val" + l.suf
		ex.class(k, ArrS(SInt, ArrS(ks, l.s)), l.typ, l.k)
		vks = append(vks, k)
	}
	return dk, vks, ls
}

func (ex *Exec) mapUpdate(st *State, m *Term, mt *types.Map, k, v Val) {
	dk, vks, _ := ex.mapClasses(mt)
	ex.touch(st, dk, []*Term{m}, true)
	kt := ex.scalar(k)
	d := ex.hget(st, dk)
	ex.hset(st, dk, Store(d, m, Store(Select(d, m), kt, True)))
	ts := ex.flatten(v, mt.Elem())
	for i, vk := range vks {
		a := ex.hget(st, vk)
		ex.hset(st, vk, Store(a, m, Store(Select(a, m), kt, ts[i])))
	}
}

func (ex *Exec) mapDelete(st *State, m *Term, mt *types.Map, k Val) {
	dk, _, _ := ex.mapClasses(mt)
	ex.touch(st, dk, []*Term{m}, true)
	d := ex.hget(st, dk)
	ex.hset(st, dk, Store(d, m, Store(Select(d, m), ex.scalar(k), False)))
}

func (ex *Exec) mapGet(st *State, m *Term, mt *types.Map, kt *Term) (*Term, Val) {
	dk, vks, ls := ex.mapClasses(mt)
	ex.touch(st, dk, []*Term{m}, false)
	in := And(Neq(m, IntT(0)), Select(Select(ex.hget(st, dk), m), kt))
	in = st.known(in)
	var ts []*Term
	for i, vk := range vks {
		ts = append(ts, Ite(in, Select(Select(ex.hget(st, vk), m), kt), zeroOf(ls[i].s)))
	}
	v, _ := ex.unflatten(ts, mt.Elem())
	if !ex.quiet {
		ex.typeFacts(st, v, mt.Elem())
	}
	return in, v
}

func (ex *Exec) lookup(st *State, fr *Frame, x *ssa.Lookup, pos string) {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		s := ex.scalar(ex.val(st, fr, x.X))
		i := ex.scalar(ex.val(st, fr, x.Index))
		ex.safe(st, "index", And(Le(IntT(0), i), Lt(i, slen(s))), pos)
		fr.regs[x] = ex.freshVal(st, "char", x.Type())
		return
	}
	m := ex.scalar(ex.val(st, fr, x.X))
	if _, ok := m, true; !ok {
		return
	}
	in, v := ex.mapGet(st, m, mt, ex.scalar(ex.val(st, fr, x.Index)))
	if x.CommaOk {
		fr.regs[x] = TupV{v, TV{in}}
	} else {
		fr.regs[x] = v
	}
}

// ---- range over maps and strings ----

type rangeSt struct {
	m       *Term
	mt      *types.Map
	visited *Term // set of visited keys
	dom0    *Term
}

func (ex *Exec) rangeStart(st *State, v Val, t types.Type) Val {
	mt, ok := t.Underlying().(*types.Map)
	if !ok {
		panic(unsup("range over string"))
	}
	m := ex.scalar(v)
	dk, _, _ := ex.mapClasses(mt)
	ex.touch(st, dk, []*Term{m}, false)
	_, row := ex.classes[dk].s.arrParts()
	ex.ncel++
	st.nat[ex.ncel] = rangeSt{m: m, mt: mt, visited: ConstArr(row, False), dom0: Ite(Eq(m, IntT(0)), ConstArr(row, False), Select(ex.hget(st, dk), m))}
	return NatV{Kind: "range", ID: ex.ncel}
}

func (ex *Exec) nextStmt(st *State, fr *Frame, b *ssa.BasicBlock, i int, x *ssa.Next) {
	it := ex.val(st, fr, x.Iter).(NatV)
	rs := st.nat[it.ID].(rangeSt)
	dk, _, _ := ex.mapClasses(rs.mt)
	ex.touch(st, dk, []*Term{rs.m}, false)
	dom := Ite(Eq(rs.m, IntT(0)), zeroOf(ArrS(domKey(ex, dk), SBool)), Select(ex.hget(st, dk), rs.m))
	same := dom == rs.dom0
	if dom.Op == "app" {
		d := Fresh("dom", dom.S)
		st.assume(Eq(d, dom))
		dom = d
	}
	ks, _ := rs.visited.S.arrParts()
	// done: every key still present was visited
	s1 := st.clone()
	kv := FreshVar("k", ks)
	s1.assume(Forall([]*Term{kv}, Imp(Select(dom, kv), Select(rs.visited, kv)), []*Term{Select(dom, kv)}))
	if same {
		s1.assume(Eq(dom, rs.visited))
	}
	fr1 := fr.clone()
	fr1.regs[x] = TupV{TV{False}, ex.zero(rs.mt.Key()), ex.zero(rs.mt.Elem())}
	// one more unvisited key
	s2 := st.clone()
	k := Fresh("rk", ks)
	s2.assume(And(Select(dom, k), Not(Select(rs.visited, k))))
	if same {
		// the number of keys visited stays below the size of the map
		s2.assume(Lt(card(rs.visited), card(dom)))
	}
	kval, _ := ex.unflatten([]*Term{k}, rs.mt.Key())
	ex.typeFacts(s2, kval, rs.mt.Key())
	in, v := ex.mapGet(s2, rs.m, rs.mt, k)
	s2.assume(in)
	n := rs
	n.visited = Store(rs.visited, k, True)
	s2.nat[it.ID] = n
	fr2 := fr.clone()
	fr2.regs[x] = TupV{TV{True}, kval, v}
	if ex.feasible(s1) {
		ex.runBlock(s1, fr1, b, i+1)
	}
	if ex.feasible(s2) {
		ex.runBlock(s2, fr2, b, i+1)
	}
}

func domKey(ex *Exec, dk string) Sort {
	_, row := ex.classes[dk].s.arrParts()
	k, _ := row.arrParts()
	return k
}

// ticked: a tick of a timer was received.
func (ex *Exec) ticked(st *State, et types.Type) {
	if _, ok := ex.w.specs.Vars["due"]; ok && isTimeT(et) {
		ex.gvar(st, "due")
		st.vars["due"] = True
	}
}

func isTimeT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Time" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

func (ex *Exec) selectStmt(st *State, fr *Frame, b *ssa.BasicBlock, i int, x *ssa.Select) {
	n := len(x.States)
	st.splits++
	var recvT []types.Type
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			recvT = append(recvT, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	for c := -1; c < n; c++ {
		if c == -1 && x.Blocking {
			continue
		}
		s := st.clone()
		f := fr.clone()
		tv := TupV{TV{IntT(int64(c))}, TV{Fresh("selok", SBool)}}
		for _, t := range recvT {
			tv = append(tv, ex.freshVal(s, "selrecv", t))
		}
		name := "select:default"
		var args []Val
		if c >= 0 {
			ch := ex.val(s, f, x.States[c].Chan)
			args = []Val{ch}
			if x.States[c].Dir == types.SendOnly {
				name = "send"
				ex.safe(s, "send-open", Not(ex.chanClosed(s, ex.scalar(ch))), ex.lastPos)
				args = append(args, ex.val(s, f, x.States[c].Send))
			} else {
				name = "recv"
				ex.ticked(s, x.States[c].Chan.Type().Underlying().(*types.Chan).Elem())
			}
		}
		s.events = append(s.events, Event{Name: name, Args: args})
		f.regs[x] = tv
		ex.runBlock(s, f, b, i+1)
	}
}

// typeAssert returns true if it continued the execution itself.
func (ex *Exec) typeAssert(st *State, fr *Frame, b *ssa.BasicBlock, i int, x *ssa.TypeAssert) bool {
	v := ex.asIf(ex.val(st, fr, x.X), x.X.Type())
	t := x.AssertedType
	if isIfaceT(t) {
		var ok *Term
		if v.DynT != nil {
			ok = BoolT(types.Implements(v.DynT, t.Underlying().(*types.Interface)))
		} else if types.AssignableTo(x.X.Type(), t) {
			ok = Neq(v.Tag, IntT(0))
		} else {
			ok = Fresh("implements", SBool)
		}
		if x.CommaOk {
			fr.regs[x] = TupV{v, TV{ok}}
		} else {
			ex.safe(st, "type-assertion", ok, ex.lastPos)
			fr.regs[x] = v
		}
		return false
	}
	tag := ex.tagOf(t)
	ok := st.known(Eq(v.Tag, tag))
	var dv Val
	if v.DynT != nil && types.Identical(v.DynT, t) {
		dv = v.Dyn
	} else if nv, isN := v.Dyn.(NatV); isN {
		dv = nv
		if v.DynT == nil {
			ok = True
		}
	} else {
		dv = ex.unbox(v.Pay, t)
	}
	if !x.CommaOk {
		ex.safe(st, "type-assertion", ok, ex.lastPos)
		if !ex.quiet && v.DynT == nil {
			ex.typeFacts(st, dv, t)
		}
		fr.regs[x] = dv
		return false
	}
	if ok == True {
		fr.regs[x] = TupV{dv, TV{True}}
		return false
	}
	if ok == False {
		fr.regs[x] = TupV{ex.zero(t), TV{False}}
		return false
	}
	s1, s2 := st.clone(), st.clone()
	s1.assume(ok)
	s2.assume(Not(ok))
	f1, f2 := fr.clone(), fr.clone()
	ex.typeFacts(s1, dv, t)
	f1.regs[x] = TupV{dv, TV{True}}
	f2.regs[x] = TupV{ex.zero(t), TV{False}}
	if ex.feasible(s1) {
		ex.runBlock(s1, f1, b, i+1)
	}
	if ex.feasible(s2) {
		ex.runBlock(s2, f2, b, i+1)
	}
	return true
}

func (ex *Exec) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, e := range ex.errs {
		if e == s {
			return
		}
	}
	ex.errs = append(ex.errs, s)
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("DVDEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var _ = sort.Strings
