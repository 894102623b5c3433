package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	dir        string
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package // by short name
	tpkgs      map[string]*types.Package
	specs      *SpecFile
	types      map[string]*TypeDecl
	preds      map[string]*Pred
	lemmas     map[string]*Lemma
	cons       map[string]*Contract // by function key
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	ipd        map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	named      map[string]types.Type
	fnByKey    map[string]*ssa.Function
	merged     map[string]*Contract
	mu         sync.Mutex
	globStored map[string]bool
}

var repoPkgs = []string{"./pkg/...", "./cmd/...", "container/heap"}

func loadWorld(dir, contracts string) (*World, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedExportFile | packages.NeedTypesSizes}
	pkgs, err := packages.Load(cfg, repoPkgs...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			// the server embeds files that are built apart from it
			if strings.Contains(e.Msg, "no matching files found") {
				p.IllTyped = len(p.TypeErrors) > 0
				continue
			}
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w := &World{dir: dir, prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, types: map[string]*TypeDecl{}, preds: map[string]*Pred{},
		lemmas: map[string]*Lemma{}, cons: map[string]*Contract{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		ipd: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, named: map[string]types.Type{}, fnByKey: map[string]*ssa.Function{}, merged: map[string]*Contract{}}
	var addT func(p *types.Package, d int)
	addT = func(p *types.Package, d int) {
		n := shortPkg(p.Path())
		if _, ok := w.tpkgs[n]; ok {
			return
		}
		w.tpkgs[n] = p
		for _, q := range p.Imports() {
			if d < 3 {
				addT(q, d+1)
			}
		}
	}
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		w.pkgs[shortPkg(p.Pkg.Path())] = p
	}
	for _, p := range sp {
		addT(p.Pkg, 0)
	}
	// a package may also be named by the last element of its path
	for _, n := range sortedKeys(w.tpkgs) {
		if i := strings.LastIndex(n, "/"); i >= 0 {
			if _, ok := w.tpkgs[n[i+1:]]; !ok {
				w.tpkgs[n[i+1:]] = w.tpkgs[n]
			}
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		w.fnByKey[fnKey(f)] = f
	}
	for _, p := range sp {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				w.fnByKey[fnKey(x)] = x
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							w.fnByKey[fnKey(f)] = f
						}
					}
				}
			}
		}
	}
	w.specs = loadSpecs(contracts)
	for _, td := range w.specs.Types {
		w.types[td.Pkg+"."+td.Name] = td
	}
	for _, p := range w.specs.Preds {
		if w.preds[p.Pkg+"."+p.Name] != nil {
			panic(specErr{"two definitions of " + p.Name})
		}
		w.preds[p.Pkg+"."+p.Name] = p
		if w.preds[p.Name] == nil {
			w.preds[p.Name] = p
		}
	}
	for _, l := range w.specs.Lemmas {
		w.lemmas[l.Name] = l
	}
	for _, c := range w.specs.Contracts {
		c.Key = c.Pkg + "." + c.Name
		if _, dup := w.cons[c.Key]; dup {
			return nil, fmt.Errorf("%s: two contracts for %s", c.Line, c.Key)
		}
		w.cons[c.Key] = c
	}
	if err := w.readLayout(contracts); err != nil {
		return nil, err
	}
	return w, nil
}

func fnKey(f *ssa.Function) string {
	if f.Parent() != nil {
		n := f.Name()
		return fnKey(f.Parent()) + n[strings.LastIndex(n, "$"):]
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = shortPkg(f.Pkg.Pkg.Path())
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = shortPkg(o.Pkg().Path())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		t = types.Unalias(t)
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pkg = shortPkg(n.Obj().Pkg().Path())
			}
			return pkg + "." + n.Obj().Name() + "." + f.Name()
		}
		return pkg + "." + tkey(t) + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

func (w *World) namedType(s, pkg string) types.Type {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.namedType0(s, pkg)
}

func (w *World) namedType0(s, pkg string) types.Type {
	k := pkg + "!" + s
	if t, ok := w.named[k]; ok {
		return t
	}
	look := func(p *types.Package, n string) types.Type {
		if p == nil {
			return nil
		}
		if o, ok := p.Scope().Lookup(n).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	var t types.Type
	if s == "error" {
		t = types.Universe.Lookup("error").Type()
	} else if i := strings.LastIndex(s, "."); i >= 0 {
		t = look(w.tpkgs[s[:i]], s[i+1:])
	} else {
		t = look(w.tpkgs[pkg], s)
	}
	if t != nil {
		w.named[k] = t
	}
	return t
}

func (w *World) global(pkg, n string) *ssa.Global {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	if g, ok := p.Members[n].(*ssa.Global); ok {
		return g
	}
	return nil
}

// pred: the definition of this package, else the one of another.
func (w *World) pred(pkg, n string) *Pred {
	if p := w.preds[pkg+"."+n]; p != nil {
		return p
	}
	return w.preds[n]
}

// implDecl: the declaration implementing an interface model for a dynamic type.
func (w *World) implDecl(t types.Type, iface *TypeDecl) *TypeDecl {
	d := w.declOf(t)
	if d != nil && d.Iface == iface.Name {
		return d
	}
	return nil
}

// contractFor gives the contract of a function, merging interface contracts.
func (w *World) contractFor(key string) *Contract {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.contractFor0(key)
}

func (w *World) contractFor0(key string) *Contract {
	if c, ok := w.merged[key]; ok {
		return c
	}
	c := w.cons[key]
	i := strings.LastIndex(key, ".")
	if i > 0 {
		if td := w.types[key[:i]]; td != nil && td.Iface != "" {
			ic := w.cons[td.Pkg+"."+td.Iface+key[i:]]
			if ic != nil {
				m := *ic
				m.Key = key
				m.Iface = false
				m.Name = key[len(td.Pkg)+1:]
				m.Open = append(append([]string(nil), ic.Open...), td.Name)
				if c != nil {
					m.Open = append(m.Open, c.Open...)
					m.Requires = append(append([]Clause(nil), ic.Requires...), c.Requires...)
					m.Assumes = append(append([]Clause(nil), ic.Assumes...), c.Assumes...)
					m.Ensures = append(append([]Clause(nil), ic.Ensures...), c.Ensures...)
					m.Modifies = append(append([]*Ex(nil), ic.Modifies...), c.Modifies...)
					m.Uses = append(m.Uses, c.Uses...)
					m.UsesEnd = append(m.UsesEnd, c.UsesEnd...)
					m.Loops = append(m.Loops, c.Loops...)
					m.Ghosts = append(m.Ghosts, c.Ghosts...)
					m.Before = append(m.Before, c.Before...)
					m.GCalls = append(m.GCalls, c.GCalls...)
					m.Tags = append(append([]string(nil), ic.Tags...), c.Tags...)
					for k, v := range c.Opts {
						m.Opts[k] = v
					}
					if len(c.Params) > 0 {
						for j := range c.Params {
							if c.Params[j].Name != m.Params[j].Name {
								panic(specErr{fmt.Sprintf("%s: parameter names differ from the interface contract", c.Line)})
							}
						}
					}
				}
				c = &m
			}
		}
	}
	w.merged[key] = c
	return c
}

// units lists the functions to verify.
func (w *World) units() []string {
	seen := map[string]bool{}
	var ks []string
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	for _, c := range w.specs.Contracts {
		if c.Trusted {
			continue
		}
		if c.Iface {
			i := strings.LastIndex(c.Key, ".")
			for _, td := range w.specs.Types {
				if td.Iface != "" && td.Pkg+"."+td.Iface == c.Key[:i] {
					add(td.Pkg + "." + td.Name + c.Key[i:])
				}
			}
			continue
		}
		add(c.Key)
	}
	sort.Strings(ks)
	return ks
}

// ---- loops and post-dominators ----

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	n      int
}

func (w *World) loopAt(b *ssa.BasicBlock) *loopInfo {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.loopAt0(b)
}

func (w *World) loopAt0(b *ssa.BasicBlock) *loopInfo {
	fn := b.Parent()
	m, ok := w.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loopInfo{}
		for _, x := range fn.Blocks {
			for _, s := range x.Succs {
				if s.Dominates(x) {
					l := m[s]
					if l == nil {
						l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
						m[s] = l
					}
					var add func(b *ssa.BasicBlock)
					add = func(b *ssa.BasicBlock) {
						if l.body[b] {
							return
						}
						l.body[b] = true
						for _, p := range b.Preds {
							add(p)
						}
					}
					add(x)
				}
			}
		}
		var hs []*ssa.BasicBlock
		for h := range m {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
		for i, h := range hs {
			m[h].n = i
		}
		w.loops[fn] = m
	}
	return m[b]
}

func (w *World) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.ipdom0(b)
}

func (w *World) ipdom0(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	m, ok := w.ipd[fn]
	if !ok {
		m = computeIpdom(fn)
		w.ipd[fn] = m
	}
	return m[b]
}

func computeIpdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// post-dominator sets by iteration (functions are small)
	full := make([]map[int]bool, n+1)
	all := map[int]bool{}
	for i := 0; i <= n; i++ {
		all[i] = true
	}
	for i := 0; i < n; i++ {
		full[i] = all
	}
	full[n] = map[int]bool{n: true}
	ch := true
	for ch {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var set map[int]bool
			inter := func(o map[int]bool) {
				if set == nil {
					set = map[int]bool{}
					for k := range o {
						set[k] = true
					}
					return
				}
				for k := range set {
					if !o[k] {
						delete(set, k)
					}
				}
			}
			if len(b.Succs) == 0 {
				inter(full[n])
			}
			for _, s := range b.Succs {
				inter(full[s.Index])
			}
			set[i] = true
			if len(set) != len(full[i]) {
				full[i] = set
				ch = true
			}
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i := 0; i < n; i++ {
		// the immediate one has the largest set among strict post-dominators
		best := -1
		for k := range full[i] {
			if k == i || k == n {
				continue
			}
			if best == -1 || len(full[k]) > len(full[best]) {
				best = k
			}
		}
		if best >= 0 {
			m[fn.Blocks[i]] = fn.Blocks[best]
		}
	}
	return m
}
