package main

// Verification of a function against its contract and use of contracts at calls.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Perm is a set of heap rows.
type Perm struct {
	Key  string // class, or prefix when it ends in "*"
	Idx  *Term
	Cond func(*Term) *Term
	Var  string // ghost variable
}

func (p Perm) covers(key string) bool {
	if strings.HasSuffix(p.Key, "*") {
		return strings.HasPrefix(key, p.Key[:len(p.Key)-1])
	}
	// a write of a whole field is named without the suffixes of its leaves
	return p.Key == key || strings.HasPrefix(p.Key, key+".")
}

type needOpen struct{ t string }

func (w *World) newExec(key string) *Exec {
	ex := &Exec{w: w, prog: w.prog, rootN: key, open: map[string]bool{}, classes: map[string]*classInfo{}, baseFront: map[*Term]*Term{}, baseKey: map[*Term]string{},
		fnByTerm: map[*Term]FnV{}, natByTerm: map[*Term]NatV{}, locByTerm: map[*Term]LocV{}, tags: map[string]int{}, tagType: map[int]types.Type{},
		used: map[string]bool{}, externs: map[string]bool{}, ghostArgs: map[string]*Term{}, cellT: map[int]types.Type{}, covered: map[string]bool{}}
	ex.front0 = Const("front0", SInt)
	return ex
}

func (ex *Exec) envFor(st *State, fr *Frame) *Env {
	names := map[string]SVal{}
	for k, v := range ex.env0 {
		names[k] = v
	}
	pkg := ""
	if ex.con != nil {
		pkg = ex.con.Pkg
	}
	return &Env{ex: ex, st: st, old: ex.entry, names: names, frame: fr, pkg: pkg}
}

type part struct {
	Name string
	Tags []string
	T    *Term
	Line string // of the clause that is dropped when it does not hold
}

func clauseName(p part, i int) string {
	if p.Name != "" {
		return p.Name
	}
	return fmt.Sprint(i)
}

// splitClause evaluates a clause, one part per invariant of an opened type.
func (ex *Exec) splitClause(e *Env, c Clause) []part {
	x := c.E
	if x.Op == "field" && x.Name == "inv" {
		v := e.evalVal(x.Args[0])
		if v.T != nil && v.T.Go != nil {
			td := ex.w.declOf(v.T.Go)
			if td != nil && td.IsIf {
				if i, ok := v.V.(IfV); ok && i.DynT != nil {
					if d := ex.w.implDecl(i.DynT, td); d != nil {
						td = d
						v = goVal(i.Dyn, i.DynT)
					}
				}
			}
			if td != nil && ex.open[td.Pkg+"."+td.Name] && len(td.Invs) > 0 {
				ne := &Env{ex: ex, st: e.st, names: map[string]SVal{"self": v}, depth: e.depth + 1, pkg: td.Pkg}
				var ps []part
				for i, iv := range td.Invs {
					n := iv.Name
					if n == "" {
						n = fmt.Sprint(i)
					}
					tags := append(append([]string(nil), c.Tags...), iv.Tags...)
					line := c.Line
					if len(iv.Tags) > 0 {
						line = iv.Line
					}
					ps = append(ps, part{strings.TrimPrefix(c.Name+"."+n, "."), tags, ne.evalTop(iv.E), line})
				}
				return ps
			}
		}
	}
	if x.Op == "bin" && x.Name == "&&" {
		var ps []part
		for _, a := range x.Args {
			ps = append(ps, ex.splitClause(e, Clause{c.Name, c.Tags, a, c.Line})...)
			if len(ps) > 0 && ps[len(ps)-1].T == False {
				break
			}
		}
		return ps
	}
	if x.Op == "bin" && x.Name == "==>" {
		g := e.evalTop(x.Args[0])
		if g == False {
			return nil
		}
		ps := ex.splitClause(e, Clause{c.Name, c.Tags, x.Args[1], c.Line})
		for i := range ps {
			ps[i].T = Imp(g, ps[i].T)
		}
		return ps
	}
	if x.Op == "call" {
		if p := ex.w.pred(e.pkg, x.Name); p != nil && p.Body.Op == "bin" && p.Body.Name == "&&" && e.depth < 20 {
			ne := &Env{ex: ex, st: e.st, old: e.old, names: map[string]SVal{}, depth: e.depth + 1, pkg: p.Pkg}
			for i, q := range p.Par {
				v := e.evalVal(x.Args[i])
				if q.Type != "" {
					ty := ex.w.stype(q.Type, p.Pkg)
					if v.F == nil && (v.Nil || v.T == nil || v.T.Go == nil) {
						v = e.wrapT(e.term(v), ty)
					}
				}
				ne.names[q.Name] = v
			}
			return ex.splitClause(ne, Clause{c.Name, c.Tags, p.Body, c.Line})
		}
	}
	return []part{{c.Name, c.Tags, e.evalTop(x), c.Line}}
}

// ---- modifies clauses ----

func (e *Env) perms(xs []*Ex) []Perm {
	q := e.ex.quiet
	e.ex.quiet = true
	e.ex.touchOff++
	defer func() { e.ex.quiet = q; e.ex.touchOff-- }()
	var out []Perm
	for _, x := range xs {
		out = append(out, e.perm(x)...)
	}
	return out
}

func (e *Env) perm(x *Ex) []Perm {
	ex := e.ex
	switch x.Op {
	case "id":
		if _, ok := ex.w.specs.Vars[x.Name]; ok {
			return []Perm{{Var: x.Name}}
		}
	case "call":
		switch x.Name {
		case "all":
			n := x.Args[0].Name
			return []Perm{{Key: ex.className(n, e.pkg)}}
		case "owned":
			// owned("Item.Priority", "Item.owner", who): rows whose owner is who
			key := ex.className(x.Args[0].Name, e.pkg)
			ok := ex.ghostName(x.Args[1].Name, e.pkg)
			who := ex.payload(e.eval(x.Args[2]).V)
			arr := ex.hget(e.st, ok)
			return []Perm{{Key: key, Cond: func(r *Term) *Term { return Eq(Select(arr, r), who) }}}
		case "ownedall":
			// ownedall("PriorityQueue", "PriorityQueue.top", who): the ghost fields and models of its objects owned by who
			td := ex.w.types[e.pkg+"."+x.Args[0].Name]
			if td == nil {
				e.fail(x, "no declaration for %s", x.Args[0].Name)
			}
			arr := ex.hget(e.st, ex.ghostName(x.Args[1].Name, e.pkg))
			who := ex.payload(e.eval(x.Args[2]).V)
			cond := func(r *Term) *Term { return Eq(Select(arr, r), who) }
			var out []Perm
			for _, g := range sortedKeys(td.Ghosts) {
				out = append(out, Perm{Key: ex.ghostClass(td, g, ex.w.stype(td.Ghosts[g], td.Pkg)), Cond: cond})
			}
			for _, m := range sortedKeys(td.Models) {
				out = append(out, Perm{Key: ex.ghostName(td.Name+"."+m, e.pkg), Cond: cond})
			}
			return out
		case "owned2":
			// rows whose owner's owner is who
			key := ex.className(x.Args[0].Name, e.pkg)
			ok := ex.ghostName(x.Args[1].Name, e.pkg)
			ok2 := ex.ghostName(x.Args[2].Name, e.pkg)
			who := ex.payload(e.eval(x.Args[3]).V)
			arr, arr2 := ex.hget(e.st, ok), ex.hget(e.st, ok2)
			return []Perm{{Key: key, Cond: func(r *Term) *Term { return And(Neq(Select(arr, r), IntT(0)), Eq(Select(arr2, Select(arr, r)), who)) }}}
		case "where":
			// where("class", r, cond): rows r with cond
			key := ex.className(x.Args[0].Name, e.pkg)
			body := x.Args[2]
			ne := *e
			ne.st = e.st.clone()
			return []Perm{{Key: key, Cond: func(r *Term) *Term {
				q := ex.quiet
				ex.quiet = true
				ex.touchOff++
				defer func() { ex.quiet = q; ex.touchOff-- }()
				return (&ne).with(x.Args[1].Name, intVal(r)).b(body)
			}}}
		case "mapkeys":
			// mapkeys(m): domain and values of a map
			v := e.eval(x.Args[0])
			mt := v.T.Go.Underlying().(*types.Map)
			dk, vks, _ := ex.mapClasses(mt)
			out := []Perm{{Key: dk, Idx: ex.scalar(v.V)}}
			for _, k := range vks {
				out = append(out, Perm{Key: k, Idx: ex.scalar(v.V)})
			}
			return out
		case "aowner", "mowner":
			ex.class("$"+x.Name, ArrS(SInt, SInt), nil, "owner")
			return []Perm{{Key: "$" + x.Name, Idx: ex.scalar(e.eval(x.Args[0]).V)}}
		case "closed":
			ex.chanClosed(e.st, IntT(0))
			return []Perm{{Key: "@chan.closed", Idx: ex.scalar(e.eval(x.Args[0]).V)}}
		}
	case "index":
		if x.Name == "*" {
			v := e.eval(x.Args[0])
			switch u := v.T.Go.Underlying().(type) {
			case *types.Map:
				dk, vks, _ := ex.mapClasses(u)
				out := []Perm{{Key: dk, Idx: ex.scalar(v.V)}}
				for _, k := range vks {
					out = append(out, Perm{Key: k, Idx: ex.scalar(v.V)})
				}
				return out
			case *types.Slice:
				if isBytesT(v.T.Go) {
					return []Perm{{Key: "B", Idx: v.V.(SliceV).R}}
				}
				keys, _ := ex.locClasses(elemClass(u.Elem()), 2, u.Elem())
				var out []Perm
				for _, k := range keys {
					out = append(out, Perm{Key: k, Idx: v.V.(SliceV).R})
				}
				return out
			}
		}
	case "field":
		a := e.eval(x.Args[0])
		t := a.T.Go
		td := ex.w.declOf(t)
		idx := ex.payload(a.V)
		if x.Name == "*" {
			if st, ok := deref(t).Underlying().(*types.Struct); ok && td == nil {
				var out []Perm
				for i := 0; i < st.NumFields(); i++ {
					out = append(out, e.perm(&Ex{Op: "field", Name: fname(st.Field(i)), Args: x.Args})...)
				}
				return out
			}
			if td == nil {
				e.fail(x, "no declaration for %s", t)
			}
			if i, ok := a.V.(IfV); ok && td.IsIf && i.DynT != nil {
				if d := ex.w.implDecl(i.DynT, td); d != nil && ex.open[d.Pkg+"."+d.Name] {
					a = goVal(i.Dyn, i.DynT)
					td = d
				}
			}
			var out []Perm
			for _, g := range sortedKeys(td.Ghosts) {
				out = append(out, Perm{Key: ex.ghostClass(td, g, ex.w.stype(td.Ghosts[g], td.Pkg)), Idx: idx})
			}
			if ex.open[td.Pkg+"."+td.Name] {
				ne := &Env{ex: ex, st: e.st, old: e.old, names: map[string]SVal{"self": a}, pkg: td.Pkg}
				for _, r := range td.Rep {
					out = append(out, ne.perm(r)...)
				}
				return out
			}
			key := td.Pkg + "." + td.Name
			mods := td.Models
			if td.Iface != "" {
				key = td.Pkg + "." + td.Iface
				mods = ex.w.types[key].Models
			}
			for _, m := range sortedKeys(mods) {
				ty := ex.w.stype(mods[m].Type, td.Pkg)
				k := "$" + key + "." + m
				ex.class(k, ArrS(SInt, ty.S), nil, "model")
				out = append(out, Perm{Key: k, Idx: idx})
			}
			return out
		}
		if td != nil {
			if g, ok := td.Ghosts[x.Name]; ok {
				return []Perm{{Key: ex.ghostClass(td, x.Name, ex.w.stype(g, td.Pkg)), Idx: idx}}
			}
			if m, ok := td.Models[x.Name]; ok {
				if ex.open[td.Pkg+"."+td.Name] {
					return nil
				}
				key := td.Pkg + "." + td.Name
				if td.Iface != "" {
					key = td.Pkg + "." + td.Iface
				}
				k := "$" + key + "." + x.Name
				ty := ex.w.stype(m.Type, td.Pkg)
				ex.class(k, ArrS(SInt, ty.S), nil, "model")
				return []Perm{{Key: k, Idx: idx}}
			}
		}
		st, ok := deref(t).Underlying().(*types.Struct)
		if ok {
			for i := 0; i < st.NumFields(); i++ {
				if fname(st.Field(i)) == x.Name {
					l := ex.fieldAddr(a.V, deref(t), i).(LocV)
					keys, _ := ex.locClasses(l.Class, 1, st.Field(i).Type())
					var out []Perm
					for _, k := range keys {
						out = append(out, Perm{Key: k, Idx: l.Idx[0]})
					}
					return out
				}
			}
		}
	}
	e.fail(x, "cannot be modified")
	return nil
}

func (ex *Exec) ghostName(n, pkg string) string {
	i := strings.LastIndex(n, ".")
	td := ex.w.types[pkg+"."+n[:i]]
	if td == nil {
		td = ex.w.types[n[:i]]
	}
	if td == nil {
		panic(specErr{"no type for ghost field " + n})
	}
	f := n[i+1:]
	if g, ok := td.Ghosts[f]; ok {
		return ex.ghostClass(td, f, ex.w.stype(g, td.Pkg))
	}
	if m, ok := td.Models[f]; ok {
		k := "$" + td.Pkg + "." + td.Name + "." + f
		ex.class(k, ArrS(SInt, ex.w.stype(m.Type, td.Pkg).S), nil, "model")
		return k
	}
	panic(specErr{"no ghost field " + n})
}

// className: "T.f" of a Go struct field, a ghost field or model, or a raw class name.
func (ex *Exec) className(n, pkg string) string {
	if strings.HasPrefix(n, "$") || strings.HasSuffix(n, "*") || n == "B" {
		if n[0] == '$' && !strings.HasSuffix(n, "*") {
			ex.class(n, ArrS(SInt, SInt), nil, "owner")
		}
		return n
	}
	i := strings.LastIndex(n, ".")
	ty := ex.w.namedType(n[:i], pkg)
	if ty == nil {
		panic(specErr{"unknown type in " + n})
	}
	f := n[i+1:]
	if td := ex.w.declOf(ty); td != nil {
		if _, ok := td.Ghosts[f]; ok {
			return ex.ghostName(td.Pkg+"."+td.Name+"."+f, pkg)
		}
		if _, ok := td.Models[f]; ok {
			return ex.ghostName(td.Pkg+"."+td.Name+"."+f, pkg)
		}
	}
	st := ty.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if fname(st.Field(i)) == f {
			keys, _ := ex.locClasses(objClass(ty)+"."+f, 1, st.Field(i).Type())
			if len(keys) != 1 {
				panic(specErr{"all() needs a scalar field: " + n})
			}
			return keys[0]
		}
	}
	panic(specErr{"no field " + n})
}

// ghostClasses: the scalar ghost fields of all declared types.
func (ex *Exec) ghostClasses() []string {
	var ks []string
	for _, t := range sortedKeys(ex.w.types) {
		td := ex.w.types[t]
		for _, g := range sortedKeys(td.Ghosts) {
			ty := ex.w.stype(td.Ghosts[g], td.Pkg)
			if ty.S == SInt || ty.S == SBool {
				ks = append(ks, ex.ghostClass(td, g, ty))
			}
		}
	}
	return ks
}

// isFreshRef: syntactically an object allocated by this function.
func (ex *Exec) isFreshRef(r *Term) bool {
	b, _ := baseOff(r)
	return b != nil && b.Op == "const" && strings.HasPrefix(b.Name, "front") && (ex.goDepth == 0 || frontNo(b) >= frontNo(ex.goFront))
}

func (ex *Exec) checkWrite(st *State, key string, idx *Term, pos string) {
	if (ex.noframe && ex.goDepth == 0) || ex.con == nil || ex.silent > 0 {
		return
	}
	if idx != nil && ex.isFreshRef(idx) {
		return
	}
	if strings.HasPrefix(key, "$lk.") || strings.HasPrefix(key, "@") {
		return
	}
	if ex.goDepth > 0 {
		if idx == nil {
			idx = IntT(0)
		}
		ex.oblige(st, "frame", "no goroutine modifies "+key, nil, Ge(idx, ex.goFront), pos)
		return
	}
	var ds []*Term
	for _, p := range ex.perms {
		if p.Var != "" || !p.covers(key) {
			continue
		}
		switch {
		case p.Idx == nil && p.Cond == nil:
			return
		case idx == nil:
		case p.Idx != nil:
			ds = append(ds, Eq(idx, p.Idx))
		case p.Cond != nil:
			ds = append(ds, p.Cond(idx))
		}
	}
	if idx == nil {
		ex.oblige(st, "frame", "modifies "+key, nil, False, pos)
		return
	}
	for _, d := range ds {
		if d == True {
			return
		}
	}
	ds = append(ds, Ge(idx, ex.front0))
	ex.oblige(st, "frame", "modifies "+key, nil, Or(ds...), pos)
}

// touch is called before every heap access.
func (ex *Exec) touch(st *State, class string, idx []*Term, write bool) {
	if ex.touchOff > 0 {
		return
	}
	if strings.HasPrefix(class, "F:") {
		tn := class[2:]
		// struct type name: F:pkg.T[.field]
		if td, f := ex.w.declOfClass(tn); td != nil {
			key := td.Pkg + "." + td.Name
			if len(td.Rep) > 0 && !ex.open[key] && !ex.isFreshRef(idx[0]) && f != "" && !strings.HasPrefix(f, "mu") {
				panic(needOpen{key})
			}
			ex.guard(st, td, f, idx[0], write)
			if write && td.OwnF != "" && f != "" && ex.con != nil && ex.silent == 0 && !ex.open[td.Pkg+"."+td.OwnT] {
				k := ex.ghostClass(td, td.OwnF, ex.w.stype(td.Ghosts[td.OwnF], td.Pkg))
				ex.oblige(st, "frame", "write "+td.Name+"."+f+" of an object owned by no "+td.OwnT, nil, Eq(Select(ex.hget(st, k), idx[0]), IntT(0)), ex.lastPos)
			}
		}
		if write {
			keys := []string{class}
			if td, f := ex.w.declOfClass(tn); f == "" && td != nil {
				keys = nil
			}
			for _, k := range keys {
				ex.checkWrite(st, k, idx[0], ex.lastPos)
			}
		}
		return
	}
	if strings.HasPrefix(class, "MAP:") {
		ex.guardMap(st, class, idx[0], write)
	}
	if write && (strings.HasPrefix(class, "M:") || strings.HasPrefix(class, "MAP:") || class == "B" || strings.HasPrefix(class, "P:") || strings.HasPrefix(class, "G:")) {
		ex.checkWrite(st, class, idx[0], ex.lastPos)
	}
}

// declOfClass splits "queue.T.f.g" into the declaration of T and the field path.
func (w *World) declOfClass(n string) (*TypeDecl, string) {
	for i := 0; i < len(n); i++ {
		if n[i] == '.' && i > 0 {
			j := strings.IndexByte(n[i+1:], '.')
			var t, f string
			if j < 0 {
				t = n
			} else {
				t, f = n[:i+1+j], n[i+2+j:]
			}
			if td, ok := w.types[t]; ok {
				return td, f
			}
			return nil, f
		}
	}
	return nil, ""
}

// guard: fields protected by a mutex.
func (ex *Exec) guard(st *State, td *TypeDecl, f string, idx *Term, write bool) {
	if ex.silent > 0 || ex.con == nil || ex.isFreshRef(idx) || f == "" {
		return
	}
	if i := strings.IndexByte(f, '.'); i >= 0 {
		f = f[:i]
	}
	for _, g := range td.Guards {
		for _, gf := range g.Fields {
			if gf == f && g.Mutex == "atomic" {
				ex.oblige(st, "guard", "atomic access to "+td.Name+"."+f, []string{"C18", "C22"}, BoolT(ex.atomicOp > 0), ex.lastPos)
			} else if gf == f {
				ex.heldObl(st, td, idx, g.Mutex, write, td.Name+"."+f)
			}
		}
	}
	// objects guarded by the mutex of the receiver
	if ex.selfT != nil {
		for _, g := range ex.selfT.Guards {
			for _, gf := range g.Fields {
				if gf == "type."+td.Name {
					ex.heldObl(st, ex.selfT, ex.payload(ex.selfV.V), g.Mutex, write, td.Name+"."+f)
				}
			}
		}
	}
}

// guardMap: the contents of a map are protected by the mutex of the field that holds it (or holds a map of such maps).
func (ex *Exec) guardMap(st *State, class string, m *Term, write bool) {
	if ex.silent > 0 || ex.con == nil || ex.selfT == nil || ex.isFreshRef(m) {
		return
	}
	t := ex.w.stype("*"+ex.selfT.Name, ex.selfT.Pkg)
	if t == nil || t.Go == nil {
		return
	}
	s, ok := deref(t.Go).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for _, g := range ex.selfT.Guards {
		for _, gf := range g.Fields {
			for i := 0; i < s.NumFields(); i++ {
				if fname(s.Field(i)) != gf || g.Mutex == "atomic" {
					continue
				}
				mt, ok := s.Field(i).Type().Underlying().(*types.Map)
				for ok {
					if strings.HasPrefix(class, "MAP:"+tkey(mt.Key())+":"+tkey(mt.Elem())+".") {
						ex.heldObl(st, ex.selfT, ex.payload(ex.selfV.V), g.Mutex, write, "the map "+ex.selfT.Name+"."+gf)
					}
					mt, ok = mt.Elem().Underlying().(*types.Map)
				}
			}
		}
	}
}

// guardModel: a model of td at idx is read or changed through a contract.
func (ex *Exec) guardModel(st *State, td *TypeDecl, idx *Term, write bool, what string) {
	if ex.silent > 0 || ex.selfT == nil || ex.isFreshRef(idx) {
		return
	}
	for _, g := range ex.selfT.Guards {
		for _, gf := range g.Fields {
			if gf == "type."+td.Name {
				ex.heldObl(st, ex.selfT, ex.payload(ex.selfV.V), g.Mutex, write, what)
			}
		}
	}
}

func (ex *Exec) heldObl(st *State, td *TypeDecl, idx *Term, mu string, write bool, what string) {
	k := lockKey(td.Pkg+"."+td.Name+"."+mu, idx)
	l := st.locks[k]
	ok := l == 2 || (!write && l == 1)
	op := "read"
	if write {
		op = "write"
	}
	ex.oblige(st, "guard", fmt.Sprintf("%s %s under %s", op, what, mu), []string{"C18"}, BoolT(ok), ex.lastPos)
}

func lockKey(class string, idx *Term) *Term { return App("lock:"+class, SInt, idx) }

// ---- calls by contract ----

func (ex *Exec) bindParams(st *State, c *Contract, sig *types.Signature, args []Val) map[string]SVal {
	names := map[string]SVal{}
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(c.Params) != len(args) || len(ts) != len(args) {
		panic(specErr{fmt.Sprintf("%s: %s has %d parameters, the contract %d", c.Line, c.Key, len(args), len(c.Params))})
	}
	for i, p := range c.Params {
		t := ts[i]
		v := args[i]
		if p.Type != "" {
			pt := ex.w.stype(p.Type, c.Pkg0()).Go
			if pt == nil {
				pt = t
			}
			if isIfaceT(t) && !isIfaceT(pt) {
				iv := ex.asIf(v, t)
				if iv.DynT == nil || !types.Identical(iv.DynT, pt) {
					panic(needInline{})
				}
				v = iv.Dyn
			}
			t = pt
		}
		if sv, ok := v.(SV); ok && i == 0 && sig.Recv() != nil {
			// a receiver passed by value stands for the object it was just read from
			if td := ex.w.declOf(t); td != nil && len(td.Models) > 0 {
				same := sv.Origin != nil && sv.Snap != nil
				if same {
					for k, h := range st.heap {
						if o, ok := sv.Snap[k]; ok && o != h {
							same = false
						}
					}
				}
				if !same {
					panic(needInline{})
				}
				v, t = TV{sv.Origin}, types.NewPointer(t)
			}
		}
		names[p.Name] = goVal(v, t)
	}
	return names
}

// Pkg0 is the package in which a contract's type names are read.
func (c *Contract) Pkg0() string {
	if c.Pkg == "container/heap" {
		return "queue"
	}
	return c.Pkg
}

type needInline struct{}

func resNames(c *Contract, n int) []string {
	if len(c.Results) > 0 {
		return c.Results
	}
	if n == 1 {
		return []string{"result"}
	}
	var ns []string
	for i := 0; i < n; i++ {
		ns = append(ns, fmt.Sprintf("r%d", i))
	}
	return ns
}

func (ex *Exec) havocPerms(st *State, pre *State, ps []Perm, pos string) {
	for _, p := range ps {
		if p.Var != "" {
			ok := ex.noframe || ex.con == nil
			for _, q := range ex.perms {
				if q.Var == p.Var {
					ok = true
				}
			}
			if !ok {
				ex.oblige(st, "frame", "modifies "+p.Var, nil, False, pos)
			}
			if p.Var != "clock" && p.Var != "dbfail" && p.Var != "due" {
				ex.concurrent(st, "changes "+p.Var)
			}
			old := ex.gvar(st, p.Var)
			st.vars[p.Var] = Fresh("V:"+p.Var, old.S)
			continue
		}
		var keys []string
		if strings.HasSuffix(p.Key, "*") {
			for k := range ex.classes {
				if p.covers(k) {
					keys = append(keys, k)
				}
			}
		} else {
			keys = []string{p.Key}
		}
		for _, k := range keys {
			switch {
			case p.Idx != nil:
				ex.checkWrite(st, k, p.Idx, pos)
				st.heap[k] = Store(ex.hget(st, k), p.Idx, ex.freshRow(st, k))
			case p.Cond != nil:
				ex.concurrent(st, "modifies "+k)
				if !ex.noframe && ex.con != nil && ex.silent == 0 {
					r := FreshVar("r", SInt)
					ds := []*Term{Ge(r, ex.front0)}
					for _, q := range ex.perms {
						if q.Var == "" && q.covers(k) {
							if q.Idx == nil && q.Cond == nil {
								ds = append(ds, True)
							} else if q.Cond != nil {
								ds = append(ds, q.Cond(r))
							} else {
								ds = append(ds, Eq(r, q.Idx))
							}
						}
					}
					ex.oblige(st, "frame", "modifies "+k, nil, Forall([]*Term{r}, Imp(p.Cond(r), Or(ds...))), pos)
				}
				old := ex.hget(st, k)
				n := ex.freshBase(st, k)
				r := FreshVar("r", SInt)
				st.assume(Forall([]*Term{r}, Or(p.Cond(r), Eq(Select(n, r), Select(old, r))), []*Term{Select(n, r)}))
				st.heap[k] = n
			default:
				ex.checkWrite(st, k, nil, pos)
				st.heap[k] = ex.freshBase(st, k)
			}
		}
	}
}

func (ex *Exec) applyContract(st *State, fr *Frame, c *Contract, key string, sig *types.Signature, args []Val, k func(*State, []Val)) {
	if st.dead {
		return
	}
	if _, ok := c.Opts["background"]; ok && ex.goDepth > 0 {
		ex.used[key] = true
		if st.splits == ex.goPC {
			ex.goParent.events = append(ex.goParent.events, Event{Name: "go " + key, Args: args})
		}
		return
	}
	pos := ex.lastPos
	if _, ok := c.Opts["noframe"]; ok && !c.Trusted {
		panic(specErr{c.Line + ": " + key + " is called, and its contract does not say what it modifies"})
	}
	names := ex.bindParams(st, c, sig, args)
	ex.used[key] = true
	if ex.con != nil {
		for _, b := range ex.con.Before {
			if strings.HasSuffix(key, "."+b.Callee) {
				// the parameters of the callee may be named too
				ge := ex.envFor(st, fr)
				for n, v := range names {
					if _, ok := ge.names[n]; !ok {
						ge = ge.with(n, v)
					}
				}
				ex.ghostAssign(ge, st, b.G)
			}
		}
	}
	for _, g := range c.GhostPar {
		ty := ex.w.stype(g.Type, c.Pkg0())
		if ex.con != nil {
			found := false
			for _, gc := range ex.con.GCalls {
				if strings.HasSuffix(key, gc.Callee) && gc.Name == g.Name {
					names[g.Name] = ex.envFor(st, fr).evalVal(gc.E)
					found = true
				}
			}
			if found {
				continue
			}
		}
		names[g.Name] = termVal(Fresh("ghost", ty.S), ty)
	}
	e := &Env{ex: ex, st: st, names: names, pkg: c.Pkg0()}
	short := shortKey(key)
	// receiver
	if sig.Recv() != nil && isPtrT(sig.Recv().Type()) {
		if tv, ok := args[0].(TV); ok {
			ex.safe(st, "nil-receiver "+short, Neq(tv.T, IntT(0)), pos)
		}
	}
	for i, r := range c.Requires {
		for _, p := range ex.splitClause(e, r) {
			ex.obligeClause(st, "requires", fmt.Sprintf("call %s/requires-%s", short, clauseName(p, i)), p, pos)
			st.assume(p.T)
		}
	}
	if l, ok := c.Opts["locks"]; ok {
		td := ex.w.declOf(names[c.Params[0].Name].T.Go)
		k := lockKey(td.Pkg+"."+td.Name+"."+l, ex.payload(names[c.Params[0].Name].V))
		ex.oblige(st, "locks", "call "+short+" does not hold "+l, []string{"C18"}, BoolT(st.locks[k] == 0), pos)
	}
	if sig.Recv() != nil || len(args) > 0 {
		if td := ex.w.declOf(names[c.Params[0].Name].T.Go); td != nil {
			write := false
			for _, m := range c.Modifies {
				if m.Op == "field" && m.Args[0].Op == "id" && m.Args[0].Name == c.Params[0].Name {
					write = true
				}
			}
			if !ex.open[td.Pkg+"."+td.Name] || td.IsIf {
				ex.guardModel(st, td, ex.payload(names[c.Params[0].Name].V), write, td.Name)
			}
		}
	}
	old := st.clone()
	ps := e.perms(c.Modifies)
	if _, ok := c.Opts["pure"]; !ok {
		nf := Fresh("front", SInt)
		st.assume(Le(st.front, nf))
		st.front = nf
	}
	ex.havocPerms(st, old, ps, pos)
	if _, ok := c.Opts["allocs"]; ok {
		for _, k := range ex.ghostClasses() {
			prev := ex.hget(st, k)
			n := ex.freshBase(st, k)
			r := FreshVar("r", SInt)
			st.assume(Forall([]*Term{r}, Imp(Lt(r, old.front), Eq(Select(n, r), Select(prev, r))), []*Term{Select(n, r)}))
			st.heap[k] = n
		}
	}
	var res []Val
	rn := resNames(c, sig.Results().Len())
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := ex.freshVal(st, "r", t)
		if ty, ok := c.Opts["result"]; ok && i == 0 {
			gt := ex.w.stype("*"+ty, c.Pkg0()).Go
			inner := ex.freshVal(st, "r", gt)
			v = ex.makeIface(inner, gt)
		}
		res = append(res, v)
		names[rn[i]] = goVal(v, t)
	}
	e.old = old
	e.st = st
	for _, en := range c.Ensures {
		// what the callee did is not what this function did
		if !ex.w.ofEvents(en.E, c.Pkg0(), 0) {
			st.assume(e.evalTop(en.E))
		}
	}
	if ev, ok := c.Opts["event"]; ok {
		ex.addEvent(st, ev, args, sig, res)
	}
	k(st, res)
}

// ofEvents: the expression speaks of the calls made and the goroutines started.
func (w *World) ofEvents(x *Ex, pkg string, depth int) bool {
	if x == nil || depth > 20 {
		return false
	}
	if x.Op == "call" {
		switch x.Name {
		case "calls", "arg", "res", "routed", "received", "spawned":
			return true
		}
	}
	if x.Op == "call" || x.Op == "id" {
		if p := w.pred(pkg, x.Name); p != nil && w.ofEvents(p.Body, p.Pkg, depth+1) {
			return true
		}
	}
	for _, a := range x.Args {
		if w.ofEvents(a, pkg, depth) {
			return true
		}
	}
	return false
}

func (ex *Exec) addEvent(st *State, name string, args []Val, sig *types.Signature, res []Val) {
	var ts, rts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rts = append(rts, sig.Results().At(i).Type())
	}
	ex.event(st, Event{Name: name, Args: args, Sig: ts, Res: res, ResT: rts})
}

// ---- verification ----

type UnitResult struct {
	Key      string
	Obs      []*Obligation
	Err      string
	Used     []string
	Externs  []string
	Opens    []string
	Exits    int
	Paths    int
	Sec      float64
	Vacuous  bool
	NoReturn bool
	ex       *Exec
}

func (w *World) verify(key string, limit time.Duration) (r *UnitResult) {
	extra := []string{}
	for {
		r = w.verify1(key, extra, limit)
		if strings.HasPrefix(r.Err, "needs open ") && len(extra) < 4 {
			extra = append(extra, strings.TrimPrefix(r.Err, "needs open "))
			continue
		}
		return r
	}
}

func (w *World) verify1(key string, extra []string, limit time.Duration) (r *UnitResult) {
	t0 := time.Now()
	r = &UnitResult{Key: key}
	ex := w.newExec(key)
	r.ex = ex
	if os.Getenv("DVCOVER") != "" {
		ex.cover = map[*ssa.BasicBlock]bool{}
	}
	ex.deadline = time.Now().Add(limit)
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case unsupported:
				r.Err = "outside the supported subset: " + y.msg + " at " + ex.lastPos
			case specErr:
				r.Err = "contract does not apply: " + y.msg
			case abortVerif:
				r.Err = y.msg
			case needOpen:
				r.Err = "needs open " + y.t
			default:
				r.Err = fmt.Sprintf("internal: %v at %s", x, ex.lastPos)
				if os.Getenv("DVDEBUG") != "" {
					debug.PrintStack()
				}
			}
		}
		if ex.feas != nil {
			ex.feas.close()
		}
		r.Obs = ex.obs
		r.Used = sortedKeys(ex.used)
		r.Externs = sortedKeys(ex.externs)
		r.Opens = sortedKeys(ex.open)
		r.Exits = ex.exits
		r.Sec = time.Since(t0).Seconds()
	}()
	c := w.contractFor(key)
	fn := w.fnByKey[key]
	if fn == nil {
		r.Err = "function " + key + " is gone"
		return
	}
	r.NoReturn = true
	for _, b := range fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != fn.Recover {
			r.NoReturn = false
		}
	}
	ex.con = c
	ex.root = fn
	ex.rootFn = fn
	for _, o := range append(append([]string(nil), c.Open...), extra...) {
		if !strings.Contains(o, ".") {
			o = c.Pkg0() + "." + o
		}
		ex.open[o] = true
	}
	ex.feas = newFeas()
	_, ex.noframe = c.Opts["noframe"]
	st := newState()
	st.front = ex.front0
	st.assume(Lt(IntT(0), ex.front0))
	// parameters
	var args []Val
	names := map[string]SVal{}
	if len(c.Params) != len(fn.Params) {
		r.Err = fmt.Sprintf("contract does not apply: %s has %d parameters, the contract %d", key, len(fn.Params), len(c.Params))
		return
	}
	for i, p := range fn.Params {
		t := p.Type()
		cp := c.Params[i]
		var v Val
		nt := t
		if cp.Type != "" {
			if g := ex.w.stype(cp.Type, c.Pkg0()).Go; g != nil {
				nt = g
			}
		}
		if isIfaceT(t) && !isIfaceT(nt) {
			inner := ex.freshVal(st, cp.Name, nt)
			v = ex.makeIface(inner, nt)
			names[cp.Name] = goVal(inner, nt)
		} else if nv, ok := ex.natParam(st, cp.Name, t); ok {
			v = nv
			names[cp.Name] = goVal(v, t)
		} else if td := w.declOf(t); i == 0 && fn.Signature.Recv() != nil && isStructT(t) && td != nil && len(td.Models) > 0 {
			pt := types.NewPointer(t)
			p := ex.freshVal(st, cp.Name, pt)
			st.assume(Neq(ex.scalar(p), IntT(0)))
			names[cp.Name] = goVal(p, pt)
			v = ex.load(st, p, t)
		} else {
			v = ex.freshVal(st, cp.Name, t)
			names[cp.Name] = goVal(v, t)
		}
		args = append(args, v)
		if i == 0 && fn.Signature.Recv() != nil {
			if isPtrT(t) {
				st.assume(Neq(ex.scalar(v), IntT(0)))
			}
			ex.selfV = names[cp.Name]
			ex.selfT = w.declOf(t)
		}
	}
	for _, g := range c.GhostPar {
		ty := w.stype(g.Type, c.Pkg0())
		names[g.Name] = termVal(Fresh(g.Name, ty.S), ty)
	}
	ex.env0 = names
	ex.params = args
	e := &Env{ex: ex, st: st, names: names, pkg: c.Pkg0()}
	for _, q := range c.Requires {
		st.assume(e.evalTop(q.E))
	}
	for _, q := range c.Assumes {
		st.assume(e.evalTop(q.E))
	}
	for _, u := range c.Uses {
		ex.useLemma(e, st, u)
	}
	ex.entry = st.clone()
	ex.perms = e.perms(c.Modifies)
	if st.dead {
		r.Vacuous = true
	}
	r.Vacuous = r.Vacuous || !ex.feasible(st)
	rn := resNames(c, fn.Signature.Results().Len())
	ex.execFn(st, fn, args, nil, nil, func(s *State, res []Val) {
		if s.dead {
			return
		}
		ex.exits++
		ex.lastPos = ex.rootN
		m := map[string]SVal{}
		for k, v := range names {
			m[k] = v
		}
		for i, v := range res {
			m[rn[i]] = goVal(v, fn.Signature.Results().At(i).Type())
		}
		ee := &Env{ex: ex, st: s, old: ex.entry, names: m, pkg: c.Pkg0()}
		ex.atExit(ee, s, c)
	})
	return
}

func (ex *Exec) atExit(ee *Env, s *State, c *Contract) {
	for _, g := range c.Ghosts {
		ex.ghostAssign(ee, s, g)
	}
	for _, u := range c.UsesEnd {
		ex.useLemma(ee, s, u)
	}
	released := true
	for _, v := range s.locks {
		if v != 0 {
			released = false
		}
	}
	if len(s.lockN) > 0 {
		ex.oblige(s, "locks", "all locks released", []string{"C18"}, BoolT(released), ex.rootN)
		if _, ok := c.Opts["onesection"]; ok {
			one := true
			for k, n := range s.lockN {
				if strings.HasPrefix(k.Name, "lock:"+c.Pkg+"."+strings.SplitN(c.Name, ".", 2)[0]+".") && n > 1 {
					one = false
				}
			}
			ex.oblige(s, "locks", "one critical section", []string{"C18"}, BoolT(one), ex.rootN)
		}
	}
	if ex.extraExit != nil {
		ex.extraExit(ee, s, c)
	}
	if _, ok := c.Opts["allocs"]; !ok && s.front != ex.entry.front {
		for _, k := range ex.ghostClasses() {
			t, ok := s.heap[k]
			if !ok || t == ex.hget(ex.entry, k) {
				continue
			}
			r := FreshVar("r", SInt)
			z := zeroOf(Select(t, r).S)
			ex.oblige(s, "frame", "no ghost fields of new objects: "+k, nil, Forall([]*Term{r}, Imp(Le(ex.front0, r), Eq(Select(t, r), z)), []*Term{Select(t, r)}), c.Line)
		}
	}
	if ty, ok := c.Opts["result"]; ok {
		gt := ex.w.stype("*"+ty, c.Pkg0()).Go
		rn := resNames(c, ex.root.Signature.Results().Len())
		iv := ee.names[rn[0]].V.(IfV)
		ex.oblige(s, "ensures", "ensures-result-type", nil, Eq(iv.Tag, ex.tagOf(gt)), c.Line)
	}
	if !ex.noframe {
		for _, v := range sortedKeys(s.vars) {
			t := s.vars[v]
			o, ok := ex.entry.vars[v]
			if !ok {
				o = Const("V0:"+v, t.S)
			}
			if t == o {
				continue
			}
			may := false
			for _, p := range ex.perms {
				may = may || p.Var == v
			}
			if !may {
				ex.oblige(s, "frame", "modifies "+v, nil, Eq(t, o), c.Line)
			}
		}
	}
	for i, en := range c.Ensures {
		for _, p := range ex.splitClause(ee, en) {
			ex.obligeClause(s, "ensures", "ensures-"+clauseName(p, i), p, en.Line)
			// later clauses may rely on earlier ones
			if p.T.Op != "forall" || true {
				s.assume(p.T)
			}
		}
	}
}

func (ex *Exec) ghostAssign(e *Env, s *State, g GhostAsg) {
	cond := True
	if g.Cond != nil {
		cond = e.evalTop(g.Cond)
	}
	if cond == False {
		return
	}
	v := e.evalVal(g.E)
	t := e.term(v)
	ex.touchOff++
	q := ex.quiet
	ex.quiet = true
	var ps []Perm
	if g.Target.Op == "id" {
		ps = e.perm(g.Target)
	} else {
		ps = e.perm(g.Target)
	}
	ex.quiet = q
	ex.touchOff--
	for _, p := range ps {
		if p.Var != "" {
			s.vars[p.Var] = Ite(cond, t, ex.gvar(s, p.Var))
			continue
		}
		h := ex.hget(s, p.Key)
		if !strings.HasPrefix(p.Key, "$") {
			panic(specErr{g.Line + ": ghost assignment to a program field"})
		}
		chk := s.clone()
		chk.assume(cond)
		if !chk.dead {
			ex.checkWrite(chk, p.Key, p.Idx, g.Line)
		}
		s.heap[p.Key] = Store(h, p.Idx, Ite(cond, t, Select(h, p.Idx)))
	}
}

// useLemma assumes a lemma instance: requires ==> ensures.
func (ex *Exec) useLemma(e *Env, st *State, u *Ex) {
	cond := True
	if u.Op == "bin" && u.Name == "==>" {
		cond = e.evalTop(u.Args[0])
		u = u.Args[1]
	}
	if u.Op == "forall" && u.Args[0].Op == "call" && ex.w.lemmas[u.Args[0].Name] != nil {
		// every instance of a lemma
		l := ex.w.lemmas[u.Args[0].Name]
		if l.Ind == "" {
			ex.used["lemma "+l.Name] = true
			e.lemmaOK = true
			st.assume(Imp(cond, e.evalTop(u)))
			e.lemmaOK = false
			return
		}
	}
	if u.Op != "call" {
		// an assertion to be proved, then used
		t := e.evalTop(u)
		ex.oblige(st, "assert", "hint "+u.Line, nil, Imp(cond, t), u.Line)
		st.assume(Imp(cond, t))
		return
	}
	l := ex.w.lemmas[u.Name]
	if l == nil {
		t := e.evalTop(u)
		ex.oblige(st, "assert", "hint "+u.Line, nil, Imp(cond, t), u.Line)
		st.assume(Imp(cond, t))
		return
	}
	ex.used["lemma "+l.Name] = true
	ne := &Env{ex: ex, st: st, old: e.old, names: map[string]SVal{}, pkg: l.Pkg}
	for i, p := range l.Par {
		v := e.evalVal(u.Args[i])
		if p.Type != "" && (v.T == nil || v.T.Go == nil) && v.F == nil {
			v = ne.wrapT(e.term(v), ex.w.stype(p.Type, l.Pkg))
		}
		ne.names[p.Name] = v
	}
	var rs []*Term
	for _, r := range l.Req {
		rs = append(rs, ne.evalTop(r.E))
	}
	st.assume(Imp(And(append(rs, cond)...), ne.lemmaConcl(l)))
}

func (e *Env) lemmaConcl(l *Lemma) *Term {
	if l.Ind == "" {
		return e.evalTop(l.Ens)
	}
	k := FreshVar(l.Ind, SInt)
	ne := e.with(l.Ind, intVal(k))
	body := Imp(Le(IntT(0), k), ne.evalTop(l.Ens))
	var pt []*Term
	for _, p := range l.Pat {
		pt = append(pt, ne.term(ne.evalVal(p)))
	}
	if len(pt) > 0 {
		return Forall([]*Term{k}, body, pt)
	}
	return Forall([]*Term{k}, body)
}

// verifyLemma proves a lemma, by induction if it says so.
func (w *World) verifyLemma(l *Lemma) (r *UnitResult) {
	t0 := time.Now()
	r = &UnitResult{Key: "lemma " + l.Name}
	ex := w.newExec(r.Key)
	r.ex = ex
	ex.feas = newFeas()
	defer func() {
		if x := recover(); x != nil {
			r.Err = fmt.Sprintf("%v", x)
			if y, ok := x.(specErr); ok {
				r.Err = y.msg
			}
		}
		ex.feas.close()
		r.Obs = ex.obs
		r.Used = sortedKeys(ex.used)
		r.Sec = time.Since(t0).Seconds()
		r.Exits = 1
	}()
	for _, o := range l.Open {
		if !strings.Contains(o, ".") {
			o = l.Pkg + "." + o
		}
		ex.open[o] = true
	}
	st := newState()
	st.front = ex.front0
	names := map[string]SVal{}
	e := &Env{ex: ex, st: st, names: names, pkg: l.Pkg}
	for _, p := range l.Par {
		ty := w.stype(p.Type, l.Pkg)
		if ty.S == "slice" || ty.S == "struct" {
			names[p.Name] = goVal(ex.freshVal(st, p.Name, ty.Go), ty.Go)
		} else {
			names[p.Name] = e.wrapT(Fresh(p.Name, ty.S), ty)
		}
	}
	for _, q := range l.Req {
		st.assume(e.evalTop(q.E))
	}
	for _, u := range l.Uses {
		ex.useLemma(e, st, u)
	}
	if l.Ens == nil {
		panic(specErr{"lemma " + l.Name + " has no conclusion"})
	}
	if l.Ind == "" {
		ex.oblige(st, "lemma", l.Name, l.Tags, e.evalTop(l.Ens), l.Line)
		return
	}
	k := Fresh(l.Ind, SInt)
	ek := e.with(l.Ind, intVal(k))
	j := FreshVar(l.Ind, SInt)
	ej := e.with(l.Ind, intVal(j))
	st.assume(Le(IntT(0), k))
	hyp := ej.evalTop(l.Ens)
	var pt []*Term
	for _, p := range l.Pat {
		pt = append(pt, ej.term(ej.evalVal(p)))
	}
	if len(pt) > 0 {
		st.assume(Forall([]*Term{j}, Imp(And(Le(IntT(0), j), Lt(j, k)), hyp), pt))
	} else {
		st.assume(Forall([]*Term{j}, Imp(And(Le(IntT(0), j), Lt(j, k)), hyp)))
	}
	for _, u := range l.Uses {
		ex.useLemma(ek, st, u)
	}
	goal := ek.evalTop(l.Ens)
	ex.oblige(st, "lemma", l.Name+"/base", l.Tags, Imp(Eq(k, IntT(0)), goal), l.Line)
	ex.oblige(st, "lemma", l.Name+"/step", l.Tags, Imp(Lt(IntT(0), k), goal), l.Line)
	return
}

var _ = ssa.NaiveForm

// eventHook: what a contract says of a recorded event: its demands are obligations, its effect on ghost state is applied.
func (ex *Exec) eventHook(st *State, key string, args []Val, ts []types.Type, res []Val, rts []types.Type) {
	c := ex.w.contractFor(key)
	if c == nil || !c.Trusted || len(c.Params) != len(args) {
		return
	}
	ex.used[key] = true
	names := map[string]SVal{}
	for i, p := range c.Params {
		names[p.Name] = goVal(args[i], ts[i])
	}
	e := &Env{ex: ex, st: st, names: names, pkg: c.Pkg0()}
	for i, r := range c.Requires {
		for _, p := range ex.splitClause(e, r) {
			ex.obligeClause(st, "requires", fmt.Sprintf("call %s/requires-%s", shortKey(key), clauseName(p, i)), p, ex.lastPos)
			st.assume(p.T)
		}
	}
	old := st.clone()
	ex.havocPerms(st, old, e.perms(c.Modifies), ex.lastPos)
	for i, n := range resNames(c, len(res)) {
		names[n] = goVal(res[i], rts[i])
	}
	e.old, e.st = old, st
	for _, en := range c.Ensures {
		st.assume(e.evalTop(en.E))
	}
}
