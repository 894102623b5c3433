package main

// Selecting the facts that matter for a goal. Dropping facts is always sound: what is proved from
// fewer assumptions is proved from all of them.

func symbolsOf(t *Term) []string {
	sy := newSymtab()
	sy.walk(t)
	out := sortedKeys(sy.consts)
	for _, f := range sortedKeys(sy.funs) {
		if _, ok := funSigs[f]; !ok {
			out = append(out, f)
		}
	}
	return out
}

// prune keeps the facts without quantifiers and those quantified facts that are connected to the
// goal through their rarest symbols.
func prune(pc []*Term, goal *Term, depth int, tol float64) []*Term {
	syms := make([][]string, len(pc))
	occ := map[string]int{}
	for i, t := range pc {
		syms[i] = symbolsOf(t)
		for _, s := range syms[i] {
			occ[s]++
		}
	}
	rel := map[string]bool{}
	for _, s := range symbolsOf(goal) {
		rel[s] = true
	}
	keep := make([]bool, len(pc))
	for d := 0; d < depth; d++ {
		var add []string
		for i := range pc {
			if keep[i] || len(syms[i]) == 0 {
				continue
			}
			min := 1 << 30
			for _, s := range syms[i] {
				if occ[s] < min {
					min = occ[s]
				}
			}
			for _, s := range syms[i] {
				if rel[s] && float64(occ[s]) <= tol*float64(min) {
					keep[i] = true
					add = append(add, syms[i]...)
					break
				}
			}
		}
		for _, s := range add {
			rel[s] = true
		}
	}
	var out []*Term
	for i, t := range pc {
		if keep[i] || !t.quant() {
			out = append(out, t)
		}
	}
	return out
}
