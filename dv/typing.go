package main

import (
	"go/types"
)

// typingAxiom states, for an unknown heap array, that allocated objects hold
// values of the class's type and references to allocated objects.
func typingAxiom(t *Term, ci *classInfo, fr *Term) *Term {
	if ci.leafK == "ghost" && (ci.s == ArrS(SInt, SInt) || ci.s == ArrS(SInt, SBool)) {
		// ghost fields of objects not yet allocated are zero
		r := Var("r?", SInt)
		v := Select(t, r)
		var z *Term = IntT(0)
		if v.S == SBool {
			z = False
		}
		ax := Forall([]*Term{r}, Imp(Le(fr, r), Eq(v, z)), []*Term{v})
		if ci.leafT != nil {
			if c := leafTyping(v, ci, fr); c != nil {
				ax = And(ax, Forall([]*Term{r}, Imp(Lt(r, fr), c), []*Term{v}))
			}
		}
		return ax
	}
	if ci.leafT == nil {
		return nil
	}
	r := Var("r?", SInt)
	vars := []*Term{r}
	v := Select(t, r)
	guard := And(Le(IntT(0), r), Lt(r, fr))
	if v.S.isArr() {
		k, _ := v.S.arrParts()
		i := Var("i?", k)
		vars = append(vars, i)
		v = Select(v, i)
		if v.S.isArr() {
			return nil
		}
	}
	c := leafTyping(v, ci, fr)
	if c == nil {
		return nil
	}
	return Forall(vars, Imp(guard, c), []*Term{v})
}

// leafTyping: a heap leaf holds a value of its type.
func leafTyping(v *Term, ci *classInfo, fr *Term) *Term {
	var c *Term
	switch {
	case ci.leafK == "slice.r":
		c = And(Le(IntT(0), v), Lt(v, fr))
	case ci.leafK == "slice.o", ci.leafK == "slice.l", ci.leafK == "slice.c":
		c = And(Le(IntT(0), v), Le(v, BigT(maxLen)))
	case ci.leafK == "if.t":
		c = Le(IntT(0), v)
	case ci.leafK == "if.p":
		return nil
	default:
		switch u := ci.leafT.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			c = And(Le(IntT(0), v), Lt(v, fr))
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				c = And(Le(IntT(0), v), Lt(v, fr))
			} else if u.Info()&types.IsInteger != 0 {
				c = inBounds(v, ci.leafT)
			}
		}
	}
	return c
}
