package main

// Hash-consed terms with light simplification, and their SMT-LIB printing.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SFlt  Sort = "Flt"
)

func ArrS(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits an array sort into key and value sorts.
func (s Sort) arrParts() (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}
func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }

type Term struct {
	Op   string // "const" sym, "int", "true","false","strlit","var" (bound), "forall","exists","app" ops by name
	Name string // symbol / literal / function name
	Args []*Term
	S    Sort
	Int  *big.Int
	Vars []*Term   // bound variables
	Pats [][]*Term // triggers
	id   int
	fv   bool // contains bound variable
}

var (
	tmu    sync.Mutex
	tmap   = map[string]*Term{}
	tcount int
)

func key(t *Term) string {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	b.WriteString(string(t.S))
	if t.Int != nil {
		b.WriteByte('#')
		b.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.Vars {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range t.Pats {
		b.WriteByte('!')
		for _, a := range p {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	return b.String()
}

func mk(t *Term) *Term {
	k := key(t)
	tmu.Lock()
	defer tmu.Unlock()
	if o, ok := tmap[k]; ok {
		return o
	}
	tcount++
	t.id = tcount
	t.fv = t.Op == "var"
	for _, a := range t.Args {
		if a.fv {
			t.fv = true
		}
	}
	tmap[k] = t
	return t
}

var (
	True  = mk(&Term{Op: "true", S: SBool})
	False = mk(&Term{Op: "false", S: SBool})
)

func IntT(n int64) *Term           { return mk(&Term{Op: "int", S: SInt, Int: big.NewInt(n)}) }
func BigT(n *big.Int) *Term        { return mk(&Term{Op: "int", S: SInt, Int: n}) }
func Const(n string, s Sort) *Term { return mk(&Term{Op: "const", Name: n, S: s}) }
func StrLit(s string) *Term        { return mk(&Term{Op: "strlit", Name: s, S: SStr}) }
func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

var (
	freshMu sync.Mutex
	freshN  = map[string]int{}
)

func Fresh(prefix string, s Sort) *Term {
	freshMu.Lock()
	freshN[prefix]++
	n := freshN[prefix]
	freshMu.Unlock()
	return Const(fmt.Sprintf("%s!%d", prefix, n), s)
}

func Var(n string, s Sort) *Term { return mk(&Term{Op: "var", Name: n, S: s}) }

func FreshVar(prefix string, s Sort) *Term {
	freshMu.Lock()
	freshN["?"+prefix]++
	n := freshN["?"+prefix]
	freshMu.Unlock()
	return Var(fmt.Sprintf("%s?%d", prefix, n), s)
}

func App(name string, s Sort, args ...*Term) *Term {
	return mk(&Term{Op: "app", Name: name, S: s, Args: args})
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "app" && a.Name == "not":
		return a.Args[0]
	}
	return App("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False || seen[Not(a)] {
			return false
		}
		if a.Op == "app" && a.Name == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		var l []*Term
		if a.Op == "app" && a.Name == "or" {
			l = a.Args
		} else {
			l = []*Term{a}
		}
		for _, x := range l {
			if x == True || seen[Not(x)] {
				return True
			}
			if x == False || seen[x] {
				continue
			}
			seen[x] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("or", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return App("=>", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

// linear form of an Int term: base + offset
func baseOff(t *Term) (*Term, *big.Int) {
	if t.Op == "int" {
		return nil, t.Int
	}
	if t.Op == "app" && t.Name == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].Int
	}
	if t.Op == "app" && t.Name == "ix" && t.Args[1].Op == "int" {
		b, o := baseOff(t.Args[0])
		return b, new(big.Int).Add(o, t.Args[1].Int)
	}
	return t, big.NewInt(0)
}

// Ix is the sum of an offset and an index, kept apart so that it can be matched in patterns.
func Ix(o, i *Term) *Term {
	if o.Op == "int" {
		return Add(o, i)
	}
	return App("ix", SInt, o, i)
}

// distinct reports whether two terms are certainly different.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.S == SInt {
		// a function is not nil
		if b == IntT(0) && strings.HasPrefix(a.Name, "fn!") || a == IntT(0) && strings.HasPrefix(b.Name, "fn!") {
			return true
		}
		ba, oa := baseOff(a)
		bb, ob := baseOff(b)
		if ba == bb && oa.Cmp(ob) != 0 {
			return true
		}
		return false
	}
	if a.S == SBool {
		return (a == True && b == False) || (a == False && b == True)
	}
	if a.S == SStr {
		return strDistinct(a, b)
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.S, b.S, a, b))
	}
	if distinct(a, b) {
		return False
	}
	if a.S == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	}
	if a.S == SInt {
		ba, oa := baseOff(a)
		bb, ob := baseOff(b)
		// x + c = d  -> x = d - c
		if ba != nil && bb == nil && oa.Sign() != 0 {
			return Eq(ba, BigT(new(big.Int).Sub(ob, oa)))
		}
		if bb != nil && ba == nil && ob.Sign() != 0 {
			return Eq(bb, BigT(new(big.Int).Sub(oa, ob)))
		}
	}
	if a.Op == "app" && a.Name == "ite" && (b.Op == "int" || b.Op == "strlit") {
		x, y := a.Args[1], a.Args[2]
		if (x.Op == b.Op) || (y.Op == b.Op) {
			return Ite(a.Args[0], Eq(x, b), Eq(y, b))
		}
	}
	if b.Op == "app" && b.Name == "ite" && (a.Op == "int" || a.Op == "strlit") {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Ite sorts %s %s", a.S, b.S))
	}
	if a.S == SBool {
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return App("ite", a.S, c, a, b)
}

func Add(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return BigT(new(big.Int).Add(a.Int, b.Int))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		if b.Int.Sign() == 0 {
			return a
		}
		ba, oa := baseOff(a)
		if ba != nil && oa.Sign() != 0 {
			return Add(ba, BigT(new(big.Int).Add(oa, b.Int)))
		}
	}
	return App("+", SInt, a, b)
}
func Neg(a *Term) *Term {
	if a.Op == "int" {
		return BigT(new(big.Int).Neg(a.Int))
	}
	return App("*", SInt, IntT(-1), a)
}
func Sub(a, b *Term) *Term {
	if b.Op == "int" {
		return Add(a, BigT(new(big.Int).Neg(b.Int)))
	}
	if a == b {
		return IntT(0)
	}
	ba, oa := baseOff(a)
	bb, ob := baseOff(b)
	if ba != nil && ba == bb {
		return BigT(new(big.Int).Sub(oa, ob))
	}
	return App("-", SInt, a, b)
}
func Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return BigT(new(big.Int).Mul(a.Int, b.Int))
	}
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		if a.Int.Sign() == 0 {
			return a
		}
		if a.Int.IsInt64() && a.Int.Int64() == 1 {
			return b
		}
	}
	return App("*", SInt, a, b)
}

// Euclidean division/modulo as in SMT-LIB.
func DivE(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() > 0 {
		q, m := new(big.Int).DivMod(a.Int, b.Int, new(big.Int))
		_ = m
		return BigT(q)
	}
	return App("div", SInt, a, b)
}
func ModE(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() > 0 {
		_, m := new(big.Int).DivMod(a.Int, b.Int, new(big.Int))
		return BigT(m)
	}
	return App("mod", SInt, a, b)
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	ba, oa := baseOff(a)
	bb, ob := baseOff(b)
	if ba == bb {
		return BoolT(oa.Cmp(ob) <= 0)
	}
	return App("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	ba, oa := baseOff(a)
	bb, ob := baseOff(b)
	if ba == bb {
		return BoolT(oa.Cmp(ob) < 0)
	}
	return App("<", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Select(a, i *Term) *Term {
	_, v := a.S.arrParts()
	for {
		if a.Op == "app" && a.Name == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "app" && a.Name == "constarr" {
			return a.Args[0]
		}
		if a.Op == "app" && a.Name == "ite" {
			// push select into ite of arrays when both sides simplify
			return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
		}
		break
	}
	return App("select", v, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.Op == "app" && a.Name == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "app" && v.Name == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	_, vs := a.S.arrParts()
	if vs != v.S {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.S, v.S))
	}
	return App("store", a.S, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return App("constarr", s, v) }

func zeroOf(s Sort) *Term {
	switch {
	case s == SInt:
		return IntT(0)
	case s == SBool:
		return False
	case s == SStr:
		return StrLit("")
	case s == SFlt:
		return Const("flt_zero", SFlt)
	case s.isArr():
		_, v := s.arrParts()
		return ConstArr(s, zeroOf(v))
	}
	panic("zeroOf " + string(s))
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	var vs []*Term
	for _, v := range vars {
		if occurs(v, body) {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return mk(&Term{Op: "forall", S: SBool, Args: []*Term{body}, Vars: vs, Pats: pats})
}
func Exists(vars []*Term, body *Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	return mk(&Term{Op: "exists", S: SBool, Args: []*Term{body}, Vars: vars})
}

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == v {
			return true
		}
		if !t.fv && t.Op != "forall" && t.Op != "exists" {
			return false
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// Subst replaces terms (constants or variables) by terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = w(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, w)
		}
		memo[t] = r
		return r
	}
	return w(t)
}

func rebuild(t *Term, args []*Term, w func(*Term) *Term) *Term {
	switch t.Op {
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.Pats {
			var np []*Term
			for _, x := range p {
				np = append(np, w(x))
			}
			pats = append(pats, np)
		}
		return mk(&Term{Op: t.Op, S: SBool, Args: args, Vars: t.Vars, Pats: pats})
	}
	switch t.Name {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "div":
		return DivE(args[0], args[1])
	case "mod":
		return ModE(args[0], args[1])
	}
	return mk(&Term{Op: t.Op, Name: t.Name, S: t.S, Args: args})
}

// ---------- printing ----------

func symName(n string) string {
	ok := true
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '@') {
			ok = false
			break
		}
	}
	if ok && n != "" && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
}

func (t *Term) head(lits *litTable) string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		if t.Int.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.Int).String() + ")"
		}
		return t.Int.String()
	case "strlit":
		return lits.name(t.Name)
	case "const", "var":
		return symName(t.Name)
	}
	return ""
}

type litTable struct {
	m map[string]string
	l []string
}

func (lt *litTable) name(s string) string {
	if lt.m == nil {
		lt.m = map[string]string{}
	}
	if n, ok := lt.m[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit%d", len(lt.l))
	lt.m[s] = n
	lt.l = append(lt.l, s)
	return n
}

// printer prints a set of assertions sharing subterms through define-fun.
type printer struct {
	b     strings.Builder
	lits  litTable
	named map[*Term]string
	n     int
	plain bool // no declared constants for shared terms
}

func (p *printer) str(t *Term) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	if h := t.head(&p.lits); h != "" {
		return h
	}
	var b strings.Builder
	switch t.Op {
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			b.WriteString("(" + symName(v.Name) + " " + string(v.S) + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(p.str(t.Args[0]))
		for _, pt := range t.Pats {
			b.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(p.str(x))
			}
			b.WriteString(")")
		}
		if len(t.Pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return b.String()
	}
	if t.Name == "constarr" {
		return "((as const " + string(t.S) + ") " + p.str(t.Args[0]) + ")"
	}
	b.WriteString("(" + opName(t.Name))
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteString(")")
	return b.String()
}

var builtinOps = map[string]bool{"not": true, "and": true, "or": true, "=>": true, "=": true, "ite": true, "+": true, "-": true, "*": true, "div": true, "mod": true, "<=": true, "<": true, "select": true, "store": true, "constarr": true, "distinct": true}

func opName(n string) string {
	if builtinOps[n] {
		return n
	}
	return symName(n)
}

// emit defines shared subterms of t (without bound variables) and returns its name or text.
func (p *printer) share(roots []*Term) {
	force := map[*Term]bool{}
	cnt := map[*Term]int{}
	var order []*Term
	var w func(t *Term)
	w = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		logic := t.Op != "app"
		switch t.Name {
		case "and", "or", "not", "=>", "=", "ite":
			logic = true
		}
		if t.Op == "app" && t.S != SBool && (t.Name == "ite" || t.Name == "div" || t.Name == "mod") {
			force[t] = true
		}
		for _, a := range t.Args {
			if !logic && a.S == SBool && a.Op == "app" && a.Name != "select" {
				force[a] = true
			}
			w(a)
		}
		for _, pt := range t.Pats {
			for _, a := range pt {
				w(a)
			}
		}
		order = append(order, t)
	}
	for _, r := range roots {
		w(r)
	}
	for _, t := range order {
		if force[t] && !t.fv && !p.plain {
			if _, ok := p.named[t]; ok {
				continue
			}
			txt := p.str(t)
			p.n++
			n := fmt.Sprintf("d!%d", p.n)
			p.b.WriteString("(declare-const " + n + " " + string(t.S) + ")\n(assert (= " + n + " " + txt + "))\n")
			p.named[t] = n
			continue
		}
		if cnt[t] > 1 && len(t.Args) > 0 && !t.fv && !hasFV(t) {
			if _, ok := p.named[t]; ok {
				continue
			}
			txt := p.str(t)
			if len(txt) < 24 {
				continue
			}
			p.n++
			n := fmt.Sprintf("d!%d", p.n)
			p.b.WriteString("(define-fun " + n + " () " + string(t.S) + " " + txt + ")\n")
			p.named[t] = n
		}
	}
}

var fvMemo sync.Map

// hasFV: contains a free bound variable (fv is true also for closed quantifiers)
func hasFV(t *Term) bool {
	if !t.fv {
		return false
	}
	if v, ok := fvMemo.Load(t); ok {
		return v.(bool)
	}
	var w func(t *Term, bound map[*Term]bool) bool
	w = func(t *Term, bound map[*Term]bool) bool {
		if !t.fv {
			return false
		}
		if t.Op == "var" {
			return !bound[t]
		}
		if len(t.Vars) > 0 {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.Vars {
				nb[v] = true
			}
			bound = nb
		}
		for _, a := range t.Args {
			if w(a, bound) {
				return true
			}
		}
		return false
	}
	r := w(t, map[*Term]bool{})
	fvMemo.Store(t, r)
	return r
}

func (t *Term) String() string {
	p := &printer{named: map[*Term]string{}}
	s := p.str(t)
	for i, l := range p.lits.l {
		s = strings.ReplaceAll(s, fmt.Sprintf("lit%d", i)+" ", strconv.Quote(l)+" ")
		s = strings.ReplaceAll(s, fmt.Sprintf("lit%d", i)+")", strconv.Quote(l)+")")
		if s == fmt.Sprintf("lit%d", i) {
			s = strconv.Quote(l)
		}
	}
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// symbols collects constants and functions used.
type symtab struct {
	consts map[string]Sort
	funs   map[string][]Sort // args..., result
	sorts  map[Sort]bool
	seen   map[*Term]bool
}

func newSymtab() *symtab {
	return &symtab{map[string]Sort{}, map[string][]Sort{}, map[Sort]bool{}, map[*Term]bool{}}
}

func (s *symtab) walk(t *Term) {
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	switch t.Op {
	case "const":
		s.consts[t.Name] = t.S
	case "app":
		if !builtinOps[t.Name] {
			var sg []Sort
			for _, a := range t.Args {
				sg = append(sg, a.S)
			}
			sg = append(sg, t.S)
			s.funs[t.Name] = sg
		}
	}
	for _, a := range t.Args {
		s.walk(a)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			s.walk(a)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
