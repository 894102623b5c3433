package main

import (
	"encoding/json"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The contracts name fields and loop variables. layout.json records the fields of every struct of the repository, in
// order, and the variables of every function with a loop, as they were when the contracts were written, so that a renamed field or variable is
// still found by its place. The mapping only says what a contract's names stand for; what they stand for is verified.
type layout struct {
	Fields map[string][][2]string `json:"fields"`
	Locals map[string][][2]string `json:"locals"`
}

var fieldAlias = map[*types.Var]string{}
var localAlias = map[*ssa.Function]map[string]string{}

// nowName: what a local variable of the contracts is called now.
func nowName(f *ssa.Function, n string) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if a, ok := localAlias[f][n]; ok {
		return a
	}
	return n
}

func fname(v *types.Var) string {
	if a, ok := fieldAlias[v]; ok {
		return a
	}
	return v.Name()
}

func (w *World) repoStructs(f func(name string, st *types.Struct)) {
	for _, p := range w.pkgs {
		if !strings.HasPrefix(p.Pkg.Path(), repoMod) {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			if tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					f(tkey(tn.Type()), st)
				}
			}
		}
	}
}

func rename(was, now [][2]string) map[int]string {
	if len(was) != len(now) {
		return nil
	}
	old, cur := map[string]bool{}, map[string]bool{}
	for i := range was {
		old[was[i][0]] = true
		cur[now[i][0]] = true
	}
	out := map[int]string{}
	for i := range was {
		if was[i][1] == now[i][1] && !cur[was[i][0]] && !old[now[i][0]] {
			out[i] = was[i][0]
		}
	}
	return out
}

func fieldList(st *types.Struct) [][2]string {
	var out [][2]string
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, [2]string{st.Field(i).Name(), tkey(st.Field(i).Type())})
	}
	return out
}

// locals: the variables declared in a function, in order.
func locals(f *ssa.Function) [][2]string {
	seen := map[types.Object]bool{}
	var objs []types.Object
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if d, ok := ins.(*ssa.DebugRef); ok {
					if v, ok := d.Object().(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() && !seen[v] {
						seen[v] = true
						objs = append(objs, v)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	var out [][2]string
	for _, o := range objs {
		out = append(out, [2]string{o.Name(), tkey(o.Type())})
	}
	return out
}

func (w *World) readLayout(dir string) error {
	fieldAlias, localAlias = map[*types.Var]string{}, map[*ssa.Function]map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "layout.json"))
	if err != nil {
		return nil
	}
	var l layout
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	w.repoStructs(func(n string, st *types.Struct) {
		for i, a := range rename(l.Fields[n], fieldList(st)) {
			fieldAlias[st.Field(i)] = a
		}
	})
	for k, was := range l.Locals {
		f := w.fnByKey[k]
		if f == nil {
			continue
		}
		now := locals(f)
		for i, a := range rename(was, now) {
			if localAlias[f] == nil {
				localAlias[f] = map[string]string{}
			}
			localAlias[f][a] = now[i][0]
		}
	}
	return nil
}

func (w *World) writeLayout(dir string) error {
	l := layout{map[string][][2]string{}, map[string][][2]string{}}
	w.repoStructs(func(n string, st *types.Struct) {
		if st.NumFields() > 0 && !strings.HasPrefix(n, "proto.") {
			l.Fields[n] = fieldList(st)
		}
	})
	for k, c := range w.cons {
		if f := w.fnByKey[k]; f != nil && (len(c.Loops) > 0 || len(c.Before) > 0) && strings.HasPrefix(pkgPath(f), repoMod) {
			if names := locals(f); len(names) > 0 {
				l.Locals[k] = names
			}
		}
	}
	b, err := json.MarshalIndent(l, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "layout.json"), append(b, '\n'), 0644)
}

func pkgPath(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}
