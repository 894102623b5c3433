package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	header   *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	discover bool
	onBack   func(*State, *Frame)
	onExit   func(*State, *Frame)
}

// modSet: what a loop may change.
type modSet struct {
	phis   map[*ssa.Phi]bool
	cells  map[int]bool
	rows   map[string]map[*Term]bool // class -> rows
	fresh  map[string]bool           // class: rows of objects allocated in the loop
	whole  map[string]bool
	nat    map[int]bool
	vars   map[string]bool
	front  bool
	events bool
	locks  bool
	names  map[string]bool // of events in the loop
}

func newModSet() *modSet {
	return &modSet{map[*ssa.Phi]bool{}, map[int]bool{}, map[string]map[*Term]bool{}, map[string]bool{}, map[string]bool{}, map[int]bool{}, map[string]bool{}, false, false, false, map[string]bool{}}
}

func headerPhis(h *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, i := range h.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			ps = append(ps, p)
			continue
		}
		if _, ok := i.(*ssa.DebugRef); ok {
			continue
		}
		break
	}
	return ps
}

// loopInvariant: built only from symbols that existed before the mark.
func builtBefore(t *Term, mark int) bool {
	ok := true
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "const" && t.id > mark && !strings.HasPrefix(t.Name, "H0:") && !strings.HasPrefix(t.Name, "V0:") {
			ok = false
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
	return ok
}

// diff adds to m what changed from a (loop head) to b (back edge).
func (ex *Exec) diff(m *modSet, h *ssa.BasicBlock, a, b *State, fa, fb *Frame, mark int, front *Term) bool {
	ch := false
	set := func(c *bool) {
		if !*c {
			*c = true
			ch = true
		}
	}
	for _, p := range headerPhis(h) {
		if !m.phis[p] && !sameVal(fa.regs[p], fb.regs[p]) {
			m.phis[p] = true
			ch = true
		}
	}
	for k, v := range b.cells {
		if av, ok := a.cells[k]; ok && !m.cells[k] && !sameVal(av, v) {
			m.cells[k] = true
			ch = true
		}
	}
	for k, v := range b.nat {
		if av, ok := a.nat[k]; ok && !m.nat[k] && !natEq(av, v) {
			m.nat[k] = true
			ch = true
		}
	}
	for k, v := range b.vars {
		av, ok := a.vars[k]
		if !ok {
			av = Const("V0:"+k, v.S)
		}
		if !m.vars[k] && av != v {
			m.vars[k] = true
			ch = true
		}
	}
	for k, v := range b.heap {
		av := ex.hget(a, k)
		if av == v || m.whole[k] {
			continue
		}
		t := v
		for t != av {
			if t.Op == "app" && t.Name == "store" {
				r := t.Args[1]
				if builtBefore(r, mark) {
					if m.rows[k] == nil {
						m.rows[k] = map[*Term]bool{}
					}
					if !m.rows[k][r] {
						m.rows[k][r] = true
						ch = true
					}
				} else if bs, _ := baseOff(r); bs != nil && bs.Op == "const" && strings.HasPrefix(bs.Name, "front") {
					if !m.fresh[k] {
						m.fresh[k] = true
						ch = true
					}
				} else {
					m.whole[k] = true
					ch = true
					break
				}
				t = t.Args[0]
				continue
			}
			m.whole[k] = true
			ch = true
			break
		}
	}
	if a.front != b.front {
		set(&m.front)
	}
	if len(a.events) != len(b.events) {
		set(&m.events)
		for i := len(a.events); i < len(b.events); i++ {
			e := b.events[i]
			if !m.names[e.Name] && e.Name != "*loop" {
				m.names[e.Name] = true
				ch = true
			}
			for n := range e.Names {
				if !m.names[n] {
					m.names[n] = true
					ch = true
				}
			}
		}
	}
	return ch
}

func (ex *Exec) havocLoop(st *State, fr *Frame, m *modSet) (*State, *Frame) {
	s, f := st.clone(), fr.clone()
	f.fn = fr.fn
	if m.front {
		nf := Fresh("front", SInt)
		s.assume(Le(st.front, nf))
		s.front = nf
	}
	for _, k := range sortedKeys(m.whole) {
		s.heap[k] = ex.freshBase(s, k)
	}
	for _, k := range sortedKeys(m.fresh) {
		if m.whole[k] {
			continue
		}
		old := ex.hget(s, k)
		n := ex.freshBase(s, k)
		r := FreshVar("r", SInt)
		s.assume(Forall([]*Term{r}, Imp(Lt(r, st.front), Eq(Select(n, r), Select(old, r))), []*Term{Select(n, r)}))
		s.heap[k] = n
	}
	for _, k := range sortedKeys(m.rows) {
		if m.whole[k] {
			continue
		}
		var rs []*Term
		for r := range m.rows[k] {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, r := range rs {
			s.heap[k] = Store(ex.hget(s, k), r, ex.freshRow(s, k))
		}
	}
	var vs []string
	for v := range m.vars {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	for _, v := range vs {
		o := ex.gvarAny(s, v)
		s.vars[v] = Fresh("V:"+v, o.S)
	}
	for _, p := range headerPhis(fr.loopHeader()) {
		if m.phis[p] {
			f.regs[p] = ex.freshVal(s, phiName(p), p.Type())
		}
	}
	var cs []int
	for c := range m.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		if ty, ok := ex.cellT[c]; ok {
			s.cells[c] = ex.freshVal(s, "cell", ty)
		} else {
			s.cells[c] = ex.freshLike(s, s.cells[c])
		}
	}
	var ns []int
	for c := range m.nat {
		ns = append(ns, c)
	}
	sort.Ints(ns)
	for _, c := range ns {
		s.nat[c] = ex.havocNat(s, s.nat[c])
	}
	if m.events {
		s.events = append(s.events, Event{Name: "*loop", Names: m.names})
	}
	return s, f
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" && !strings.ContainsAny(p.Comment, "&|. ") {
		return p.Comment
	}
	return "phi"
}

func (f *Frame) loopHeader() *ssa.BasicBlock { return f.loops[len(f.loops)-1].header }

func (ex *Exec) gvarAny(st *State, v string) *Term {
	if t, ok := st.vars[v]; ok {
		return t
	}
	return ex.gvar(st, v)
}

// freshLike makes a fresh value of the shape of an old one.
func (ex *Exec) freshLike(st *State, v Val) Val {
	switch x := v.(type) {
	case TV:
		return TV{Fresh("cell", x.T.S)}
	case SV:
		n := SV{}
		for _, f := range x.F {
			n.F = append(n.F, ex.freshLike(st, f))
		}
		return n
	case SliceV:
		n := SliceV{Fresh("cell.r", SInt), Fresh("cell.o", SInt), Fresh("cell.l", SInt), Fresh("cell.c", SInt)}
		st.assume(And(Le(IntT(0), n.R), Lt(n.R, st.front), Le(IntT(0), n.O), Le(IntT(0), n.L), Le(n.L, n.C), Le(n.C, BigT(maxLen))))
		return n
	case IfV:
		n := IfV{Tag: Fresh("cell.t", SInt), Pay: Fresh("cell.p", SInt)}
		st.assume(And(Le(IntT(0), n.Tag), Imp(Eq(n.Tag, IntT(0)), Eq(n.Pay, IntT(0)))))
		return n
	}
	panic(unsup("loop changes a value of kind %T", v))
}

func (ex *Exec) freshRow(st *State, k string) *Term {
	ci := ex.classes[k]
	_, rs := ci.s.arrParts()
	t := Fresh("R:"+k, rs)
	ex.rowFacts(st, t, ci)
	return t
}

// rowFacts: typing of a fresh heap row
func (ex *Exec) rowFacts(st *State, t *Term, ci *classInfo) {
	if ci.leafT == nil {
		return
	}
	v := t
	var vars []*Term
	if t.S.isArr() {
		k, vs := t.S.arrParts()
		if vs.isArr() {
			return
		}
		i := FreshVar("i", k)
		vars = append(vars, i)
		v = Select(t, i)
	}
	c := leafTyping(v, ci, st.front)
	if c == nil {
		return
	}
	if len(vars) > 0 {
		st.assume(Forall(vars, c, []*Term{v}))
	} else {
		st.assume(c)
	}
}

// fnInvs collects the user invariants for a loop.
func (ex *Exec) fnInvs(fn *ssa.Function, lp *loopInfo, assumed bool) []Clause {
	var out []Clause
	if ex.con == nil {
		return nil
	}
	k := fnKey(fn)
	for _, l := range ex.con.Loops {
		if l.N >= 0 && l.N != lp.n {
			continue
		}
		if l.Var == "" {
			if k != ex.rootN {
				continue
			}
		} else if l.Var != "any" && !strings.HasSuffix(k, l.Var) {
			continue
		}
		if assumed {
			out = append(out, l.Assumes...)
		} else {
			out = append(out, l.Invs...)
		}
	}
	return out
}

func (ex *Exec) enterLoop(st *State, fr *Frame, lp *loopInfo) {
	if st.dead {
		return
	}
	h := lp.header
	st.splits++
	fr = fr.clone()
	fr.loops = append(fr.loops, nil)
	mkctx := func() *loopCtx { return &loopCtx{header: h, body: lp.body} }
	mark := tcountNow()
	m := newModSet()
	base := mkctx()
	fr.loops[len(fr.loops)-1] = base
	// the loop may be left only by values defined before; stops inside do not apply across the loop
	stops := fr.stops
	run := func(s *State, f *Frame) {
		f.stops = nil
		ex.runBlock(s, f, h, 0)
	}
	invs := ex.fnInvs(fr.fn, lp, false)
	// discovery
	ex.silent++
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsup("loop effects do not stabilise in %s", fr.fn))
		}
		s, f := ex.havocLoop(st, fr, m)
		lc := mkctx()
		lc.discover = true
		grew := false
		s0, f0 := s.clone(), f.clone()
		ex.assumeInvs(s, f, st, invs)
		lc.onBack = func(b *State, fb *Frame) {
			if ex.diff(m, h, s0, b, f0, fb, mark, st.front) {
				grew = true
			}
		}
		f.loops[len(f.loops)-1] = lc
		run(s, f)
		if !grew {
			break
		}
	}
	// automatic candidates for integer variables
	cands := ex.candidates(st, fr, lp, m)
	for len(cands) > 0 {
		s, f := ex.havocLoop(st, fr, m)
		ex.assumeInvs(s, f, st, invs)
		for _, c := range cands {
			s.assume(c.at(f))
		}
		lc := mkctx()
		lc.discover = true
		bad := map[int]bool{}
		lc.onBack = func(b *State, fb *Frame) {
			for i, c := range cands {
				if !bad[i] && !ex.feas.proves(ex, b, c.at(fb)) {
					bad[i] = true
				}
			}
		}
		f.loops[len(f.loops)-1] = lc
		run(s, f)
		if len(bad) == 0 {
			break
		}
		var nc []cand
		for i, c := range cands {
			if !bad[i] {
				nc = append(nc, c)
			}
		}
		cands = nc
	}
	ex.silent--
	// invariants hold on entry
	name := fmt.Sprintf("%s/loop%d", shortKey(fnKey(fr.fn)), lp.n)
	for i, c := range invs {
		for _, p := range ex.splitClause(ex.loopEnv(st, fr, st), c) {
			ex.obligeClause(st, "inv", fmt.Sprintf("%s/inv-%s/entry", name, clauseName(p, i)), p, ex.lastPos)
		}
	}
	s, f := ex.havocLoop(st, fr, m)
	ex.assumeInvs(s, f, st, invs)
	ex.assumeInvs(s, f, st, ex.fnInvs(fr.fn, lp, true))
	for _, c := range cands {
		s.assume(c.at(f))
	}
	lc := mkctx()
	locks0 := s.clone().locks
	lc.onBack = func(b *State, fb *Frame) {
		for i, c := range invs {
			for _, p := range ex.splitClause(ex.loopEnv(b, fb, st), c) {
				ex.obligeClause(b, "inv", fmt.Sprintf("%s/inv-%s/kept", name, clauseName(p, i)), p, ex.lastPos)
			}
		}
		same := true
		for k, v := range b.locks {
			if locks0[k] != v {
				same = false
			}
		}
		ex.oblige(b, "locks", name+"/locks-balanced", []string{"C18"}, BoolT(same), ex.lastPos)
		if ex.onIter != nil {
			ex.onIter(b, fb, lp)
		}
	}
	lc.onExit = func(b *State, fb *Frame) { fb.stops = stops }
	f.loops[len(f.loops)-1] = lc
	f.stops = nil
	ex.runBlock(s, f, h, 0)
}

func (ex *Exec) loopEnv(st *State, fr *Frame, pre *State) *Env {
	e := ex.envFor(st, fr)
	e.old = ex.entry
	e.names["pre!"] = SVal{}
	return e
}

func (ex *Exec) assumeInvs(s *State, f *Frame, pre *State, invs []Clause) {
	for _, c := range invs {
		s.assume(ex.loopEnv(s, f, pre).evalTop(c.E))
	}
}

type cand struct {
	name string
	at   func(*Frame) *Term
}

// candidates: bounds of integer loop variables by their entry value and the loop's comparisons.
func (ex *Exec) candidates(st *State, fr *Frame, lp *loopInfo, m *modSet) []cand {
	var cs []cand
	for _, p := range headerPhis(lp.header) {
		p := p
		if !m.phis[p] || !isIntT(p.Type()) {
			continue
		}
		e := ex.scalar(fr.regs[p])
		cs = append(cs, cand{"lower", func(f *Frame) *Term { return Le(e, ex.scalar(f.regs[p])) }})
		cs = append(cs, cand{"upper", func(f *Frame) *Term { return Le(ex.scalar(f.regs[p]), e) }})
		for b := range lp.body {
			for _, ins := range b.Instrs {
				bo, ok := ins.(*ssa.BinOp)
				if !ok || !isIntT(bo.X.Type()) {
					continue
				}
				var bound ssa.Value
				off := int64(0)
				isP := func(v ssa.Value) bool {
					if v == ssa.Value(p) {
						off = 0
						return true
					}
					if a, ok := v.(*ssa.BinOp); ok && a.Op == token.ADD && a.X == ssa.Value(p) {
						if c, ok := a.Y.(*ssa.Const); ok && c.Value != nil {
							off = c.Int64()
							return true
						}
					}
					return false
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.NEQ, token.GTR, token.GEQ, token.EQL:
					if isP(bo.X) {
						bound = bo.Y
					} else if isP(bo.Y) {
						bound = bo.X
					}
				}
				if bound == nil {
					continue
				}
				if in, ok := bound.(ssa.Instruction); ok && lp.body[in.Block()] {
					continue
				}
				bv := ex.scalar(ex.val(st, fr, bound))
				o := IntT(off)
				cs = append(cs, cand{"lb", func(f *Frame) *Term { return Le(Sub(bv, IntT(1)), Add(ex.scalar(f.regs[p]), o)) }})
				cs = append(cs, cand{"ub", func(f *Frame) *Term { return Le(Add(ex.scalar(f.regs[p]), o), bv) }})
			}
		}
	}
	// the entry state must satisfy them
	var out []cand
	for _, c := range cs {
		if ex.feas.proves(ex, st, c.at(fr)) {
			out = append(out, c)
		}
	}
	return out
}

// localVar finds a local variable by its source name.
func (ex *Exec) localVar(st *State, fr *Frame, n string) (SVal, bool) {
	if n == "iter" {
		return ex.iterations(fr)
	}
	n = nowName(fr.fn, n)
	for i := len(fr.loops) - 1; i >= 0; i-- {
		for _, p := range headerPhis(fr.loops[i].header) {
			if p.Comment == n {
				if v, ok := fr.regs[p]; ok {
					return goVal(v, p.Type()), true
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		if p.Name() == n {
			return goVal(fr.regs[p], p.Type()), true
		}
	}
	for i, p := range fr.fn.FreeVars {
		if p.Name() == n {
			t := deref(p.Type())
			return goVal(ex.load(st, fr.binds[i], t), t), true
		}
	}
	for _, b := range fr.fn.Blocks {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok && a.Comment == n {
				if v, ok := fr.regs[a]; ok {
					t := deref(a.Type())
					if isStructT(t) {
						return goVal(v, a.Type()), true
					}
					return goVal(ex.load(st, v, t), t), true
				}
			}
		}
	}
	var found Val
	var ft types.Type
	for _, b := range fr.fn.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.DebugRef)
			if !ok || d.Object() == nil || d.Object().Name() != n || d.IsAddr {
				continue
			}
			if v, ok := fr.regs[d.X]; ok {
				found, ft = v, d.X.Type()
			}
		}
	}
	if ft != nil {
		return goVal(found, ft), true
	}
	if fr.caller != nil && fr.fn.Parent() != nil {
		return ex.localVar(st, fr.caller, n)
	}
	return SVal{}, false
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		return k[i+1:]
	}
	return k
}

func tcountNow() int {
	tmu.Lock()
	defer tmu.Unlock()
	return tcount
}

// iterations: how often the body of the innermost counting loop has run.
func (ex *Exec) iterations(fr *Frame) (SVal, bool) {
	for f := fr; f != nil; f = f.caller {
		for i := len(f.loops) - 1; i >= 0; i-- {
			h := f.loops[i].header
			for _, p := range headerPhis(h) {
				if !isIntT(p.Type()) {
					continue
				}
				start, ok := int64(0), true
				for k, e := range p.Edges {
					if f.loops[i].body[h.Preds[k]] {
						b, isB := e.(*ssa.BinOp)
						ok = ok && isB && b.Op == token.ADD && b.X == ssa.Value(p) && isOne(b.Y)
					} else if c, isC := e.(*ssa.Const); isC && c.Value != nil {
						start = c.Int64()
					} else {
						ok = false
					}
				}
				if v, has := f.regs[p]; ok && has && (start == 0 || start == -1) {
					return SVal{V: TV{Sub(ex.scalar(v), IntT(start))}, T: intVal(IntT(0)).T}, true
				}
			}
		}
		if f.fn.Parent() == nil {
			break
		}
	}
	return SVal{}, false
}

func isOne(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 1
}
