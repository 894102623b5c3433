package main

// The contract language: tokens, expressions, declarations.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Ex struct {
	Op   string // id int str bool nil un bin call field index upd forall exists old let
	Name string
	Args []*Ex
	Vars []BVar
	Pats [][]*Ex
	Int  *big.Int
	Line string
}

type BVar struct{ Name, Type string }

type tok struct {
	k    string // id int str op eof
	s    string
	line int
}

type parser struct {
	file string
	toks []tok
	p    int
}

type Clause struct {
	Name string
	Tags []string
	E    *Ex
	Line string
}

type GhostAsg struct {
	Target *Ex
	E      *Ex
	Cond   *Ex
	Line   string
}

type LoopSpec struct {
	N       int    // ordinal, or -1 for every loop
	Var     string // name of the function holding the loop ("" = the function itself)
	Invs    []Clause
	Assumes []Clause
}

type Param struct{ Name, Type string }

// GhostBefore is a ghost assignment just before a call.
type GhostBefore struct {
	Callee string
	G      GhostAsg
}

type GhostCall struct {
	Callee string
	Name   string
	E      *Ex
}

type Contract struct {
	Pkg         string
	Name        string // T.M or F
	Params      []Param
	Results     []string
	Open        []string
	Requires    []Clause
	Assumes     []Clause // taken for granted and reported as such
	Ensures     []Clause
	Modifies    []*Ex
	ModAny      bool
	Loops       []LoopSpec
	Uses        []*Ex
	UsesEnd     []*Ex
	Ghosts      []GhostAsg
	GhostPar    []Param
	GCalls      []GhostCall
	Before      []GhostBefore
	Tags        []string // properties the whole function belongs to
	Iface       bool
	Trusted     bool
	Inline      bool // only verified, never used at calls
	Pure        bool
	Handler     bool
	Opts        map[string]string
	Line        string
	Key         string
	NoGhostInit bool
}

type Model struct {
	Name string
	Type string // spec type
	Par  string // pointwise parameter
	Def  *Ex
	T    string
}

type TypeDecl struct {
	Name   string
	Pkg    string
	Iface  string // implements
	IsIf   bool
	Models map[string]*Model
	Order  []string
	Ghosts map[string]string
	Rep    []*Ex
	Invs   []Clause
	Guards []Guard
	OwnF   string // ghost field naming the owner
	OwnT   string // type of the owner
}

type Guard struct {
	Mutex  string
	Fields []string
	Atomic []string
}

type Pred struct {
	Name string
	Pkg  string
	Par  []Param
	Type string
	Body *Ex
}

type Lemma struct {
	Name string
	Pkg  string
	Par  []Param
	Open []string
	Req  []Clause
	Ind  string // induction variable (int), conclusion forall over it
	Ens  *Ex
	Pat  []*Ex
	Line string
	Uses []*Ex
	Tags []string
}

type SpecFile struct {
	Contracts []*Contract
	Types     []*TypeDecl
	Preds     []*Pred
	Lemmas    []*Lemma
	Vars      map[string]string // global ghost variables: name -> spec type
}

var kw = map[string]bool{"func": true, "type": true, "pred": true, "lemma": true, "iface": true, "impl": true, "model": true, "inv": true, "rep": true,
	"requires": true, "ensures": true, "modifies": true, "loop": true, "use": true, "useEnd": true, "ghost": true, "open": true, "package": true, "at": true,
	"ghostparam": true, "tags": true, "trusted": true, "verifyonly": true, "guard": true, "var": true, "opt": true, "induction": true, "handler": true}

func lex(file string, src string) []tok {
	var ts []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", ":=", "::", "==", "!=", "<=", ">=", "&&", "||", "(", ")", "[", "]", "{", "}", ",", ".", "+", "-", "*", "/", "%", "!", "<", ">", ":", "$", "@", "#", "|", ";", "&"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: %v", file, line, err))
			}
			ts = append(ts, tok{"str", s, line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9') {
				j++
			}
			ts = append(ts, tok{"int", src[i:j], line})
			i = j
		case isIdC(c):
			j := i
			for j < len(src) && (isIdC(src[j]) || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, line})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic(fmt.Sprintf("%s:%d: bad character %q", file, line, c))
			}
		}
	}
	return append(ts, tok{"eof", "", line})
}

func isIdC(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func (p *parser) cur() tok  { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.cur()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.cur().line, fmt.Sprintf(f, a...), p.cur().s))
}
func (p *parser) want(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	if p.cur().k != "id" {
		p.fail("expected a name")
	}
	return p.next().s
}
func (p *parser) line() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.cur().line) }

// types are kept as text
func (p *parser) typ() string {
	var b strings.Builder
	if p.accept("*") {
		return "*" + p.typ()
	}
	if p.accept("[") {
		if p.accept("]") {
			return "[]" + p.typ()
		}
		k := p.typ()
		p.want("]")
		return "[" + k + "]" + p.typ()
	}
	b.WriteString(p.ident())
	if b.String() == "set" && p.accept("[") {
		k := p.typ()
		p.want("]")
		return "set[" + k + "]"
	}
	for p.is(".") {
		p.next()
		b.WriteString("." + p.ident())
	}
	return b.String()
}

func (p *parser) startsType() bool {
	return p.cur().k == "id" && !kw[p.cur().s] || p.is("*") || p.is("[")
}

// ---- expressions ----

func (p *parser) expr() *Ex { return p.iff() }

func (p *parser) node(op, name string, args ...*Ex) *Ex {
	return &Ex{Op: op, Name: name, Args: args, Line: p.line()}
}

func (p *parser) iff() *Ex {
	l := p.imp()
	for p.accept("<==>") {
		l = p.node("bin", "<==>", l, p.imp())
	}
	return l
}
func (p *parser) imp() *Ex {
	l := p.or()
	if p.accept("==>") {
		return p.node("bin", "==>", l, p.imp())
	}
	return l
}
func (p *parser) or() *Ex {
	l := p.and()
	for p.accept("||") {
		l = p.node("bin", "||", l, p.and())
	}
	return l
}
func (p *parser) and() *Ex {
	l := p.cmp()
	for p.accept("&&") {
		l = p.node("bin", "&&", l, p.cmp())
	}
	return l
}
func (p *parser) cmp() *Ex {
	l := p.add()
	var res *Ex
	for {
		t := p.cur()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") || t.k == "id" && t.s == "in" {
			p.next()
			r := p.add()
			c := p.node("bin", t.s, l, r)
			if res == nil {
				res = c
			} else {
				res = p.node("bin", "&&", res, c)
			}
			l = r
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return l
}
func (p *parser) add() *Ex {
	l := p.mul()
	for p.is("+") || p.is("-") {
		o := p.next().s
		l = p.node("bin", o, l, p.mul())
	}
	return l
}
func (p *parser) mul() *Ex {
	l := p.un()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.next().s
		l = p.node("bin", o, l, p.un())
	}
	return l
}
func (p *parser) un() *Ex {
	if p.is("!") || p.is("-") {
		o := p.next().s
		return p.node("un", o, p.un())
	}
	return p.post()
}
func (p *parser) post() *Ex {
	e := p.prim()
	for {
		switch {
		case p.accept("."):
			if p.accept("*") {
				e = p.node("field", "*", e)
				continue
			}
			e = p.node("field", p.ident(), e)
		case p.is("["):
			p.next()
			if p.accept("*") {
				p.want("]")
				e = p.node("index", "*", e)
				continue
			}
			i := p.expr()
			if p.accept(":=") {
				v := p.expr()
				p.want("]")
				e = p.node("upd", "", e, i, v)
			} else {
				p.want("]")
				e = p.node("index", "", e, i)
			}
		case p.is("(") && e.Op == "id":
			p.next()
			c := p.node("call", e.Name)
			for !p.accept(")") {
				c.Args = append(c.Args, p.expr())
				if !p.is(")") {
					p.want(",")
				}
			}
			e = c
		default:
			return e
		}
	}
}
func (p *parser) prim() *Ex {
	t := p.cur()
	switch {
	case t.k == "int":
		p.next()
		n, _ := new(big.Int).SetString(t.s, 10)
		x := p.node("int", "")
		x.Int = n
		return x
	case t.k == "str":
		p.next()
		return p.node("str", t.s)
	case p.accept("("):
		e := p.expr()
		p.want(")")
		return e
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		p.next()
		q := p.node(t.s, "")
		for {
			n := p.ident()
			var names = []string{n}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			ty := p.typ()
			for _, n := range names {
				q.Vars = append(q.Vars, BVar{n, ty})
			}
			if !p.accept(";") {
				break
			}
		}
		for p.accept("{") {
			var pt []*Ex
			for !p.accept("}") {
				pt = append(pt, p.expr())
				if !p.is("}") {
					p.want(",")
				}
			}
			q.Pats = append(q.Pats, pt)
		}
		p.want("::")
		q.Args = []*Ex{p.expr()}
		return q
	case t.k == "id" && t.s == "let":
		p.next()
		n := p.ident()
		p.want(":=")
		v := p.expr()
		p.want("::")
		b := p.expr()
		return p.node("let", n, v, b)
	case t.k == "id":
		p.next()
		return p.node("id", t.s)
	}
	p.fail("expected an expression")
	return nil
}

// ---- declarations ----

func (p *parser) tagList() []string {
	var tags []string
	if p.accept("[") {
		for !p.accept("]") {
			tags = append(tags, p.ident())
			p.accept(",")
		}
	}
	return tags
}

// clause: [tags] name: expr   or  expr
// dropped are the clauses that are left out, because they do not hold and belong to other properties.
var dropped = map[string]bool{}

func (p *parser) addClause(cs []Clause) []Clause {
	c := p.clause()
	if dropped[c.Line] {
		return cs
	}
	return append(cs, c)
}

func (p *parser) clause() Clause {
	c := Clause{Line: p.line()}
	c.Tags = p.tagList()
	if p.cur().k == "id" && p.toks[p.p+1].k == "op" && p.toks[p.p+1].s == ":" {
		c.Name = p.ident()
		p.want(":")
	}
	c.E = p.expr()
	return c
}

func (p *parser) params() []Param {
	var ps []Param
	p.want("(")
	for !p.accept(")") {
		n := p.ident()
		t := ""
		if p.startsType() {
			t = p.typ()
		}
		ps = append(ps, Param{n, t})
		p.accept(",")
	}
	return ps
}

func (p *parser) names() []string {
	var ns []string
	ns = append(ns, p.ident())
	for p.accept(",") {
		ns = append(ns, p.ident())
	}
	return ns
}

func (p *parser) contract(pkg string) *Contract {
	c := &Contract{Pkg: pkg, Line: p.line(), Opts: map[string]string{}}
	if p.cur().k == "str" {
		c.Pkg = p.next().s
		p.want(".")
	}
	c.Name = p.ident()
	for p.accept(".") {
		c.Name += "." + p.ident()
	}
	c.Params = p.params()
	if p.accept("returns") {
		for _, x := range p.params() {
			c.Results = append(c.Results, x.Name)
		}
	}
	for {
		switch {
		case p.accept("open"):
			c.Open = append(c.Open, p.names()...)
		case p.accept("requires"):
			c.Requires = p.addClause(c.Requires)
		case p.accept("assume"):
			c.Assumes = p.addClause(c.Assumes)
		case p.accept("ensures"):
			c.Ensures = p.addClause(c.Ensures)
		case p.accept("tags"):
			c.Tags = append(c.Tags, p.tagList()...)
		case p.accept("trusted"):
			c.Trusted = true
		case p.accept("verifyonly"):
			c.Inline = true
		case p.accept("handler"):
			c.Handler = true
		case p.accept("opt"):
			n := p.ident()
			v := "1"
			if p.accept(":=") {
				v = p.next().s
			}
			c.Opts[n] = v
		case p.accept("modifies"):
			for {
				c.Modifies = append(c.Modifies, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case p.accept("use"):
			c.Uses = append(c.Uses, p.expr())
		case p.accept("useEnd"):
			c.UsesEnd = append(c.UsesEnd, p.expr())
		case p.accept("ghostparam"):
			n := p.ident()
			c.GhostPar = append(c.GhostPar, Param{n, p.typ()})
		case p.accept("at"):
			g := GhostCall{Callee: p.ident()}
			for p.accept(".") || p.accept("/") {
				g.Callee += "." + p.ident()
			}
			g.Name = p.ident()
			p.want(":=")
			g.E = p.expr()
			c.GCalls = append(c.GCalls, g)
		case p.accept("before"):
			b := GhostBefore{Callee: p.ident(), G: GhostAsg{Line: p.line()}}
			for p.accept(".") {
				b.Callee += "." + p.ident()
			}
			b.G.Target = p.post()
			p.want(":=")
			b.G.E = p.expr()
			if p.accept("if") {
				b.G.Cond = p.expr()
			}
			c.Before = append(c.Before, b)
		case p.accept("ghost"):
			g := GhostAsg{Line: p.line()}
			g.Target = p.post()
			p.want(":=")
			g.E = p.expr()
			if p.accept("if") {
				g.Cond = p.expr()
			}
			c.Ghosts = append(c.Ghosts, g)
		case p.accept("loop"):
			l := LoopSpec{}
			if p.cur().k == "id" && p.cur().s != "inv" && p.cur().s != "assume" {
				l.Var = p.ident()
				for p.accept(".") {
					l.Var += "." + p.ident()
				}
			}
			l.N = -1
			if p.cur().k == "int" {
				l.N, _ = strconv.Atoi(p.next().s)
			}
			for {
				if p.accept("inv") {
					l.Invs = p.addClause(l.Invs)
				} else if p.accept("assume") {
					l.Assumes = p.addClause(l.Assumes)
				} else {
					break
				}
			}
			c.Loops = append(c.Loops, l)
		default:
			return c
		}
	}
}

func (p *parser) typeBody(td *TypeDecl) {
	p.want("{")
	for !p.accept("}") {
		switch {
		case p.accept("model"):
			m := &Model{Name: p.ident(), T: td.Name}
			m.Type = p.typ()
			if p.accept("(") {
				m.Par = p.ident()
				p.want(")")
			}
			if p.accept(":=") {
				m.Def = p.expr()
			}
			td.Models[m.Name] = m
			td.Order = append(td.Order, m.Name)
		case p.accept("ghost"):
			n := p.ident()
			td.Ghosts[n] = p.typ()
		case p.accept("rep"):
			for {
				td.Rep = append(td.Rep, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case p.accept("inv"):
			td.Invs = p.addClause(td.Invs)
		case p.accept("ownedby"):
			td.OwnF = p.ident()
			td.OwnT = p.ident()
		case p.accept("guard"):
			g := Guard{Mutex: p.ident()}
			p.want(":")
			for {
				f := p.ident()
				for p.accept(".") {
					f += "." + p.ident()
				}
				g.Fields = append(g.Fields, f)
				if !p.accept(",") {
					break
				}
			}
			td.Guards = append(td.Guards, g)
		default:
			p.fail("type declaration")
		}
	}
}

func parseSpec(file string, sf *SpecFile) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	p := &parser{file: file, toks: lex(file, string(src))}
	pkg := ""
	for p.cur().k != "eof" {
		switch {
		case p.accept("package"):
			pkg = p.next().s
		case p.accept("func"):
			sf.Contracts = append(sf.Contracts, p.contract(pkg))
		case p.accept("iface"):
			c := p.contract(pkg)
			c.Iface = true
			sf.Contracts = append(sf.Contracts, c)
		case p.accept("var"):
			n := p.ident()
			sf.Vars[n] = p.typ()
		case p.accept("type"), p.accept("impl"):
			td := &TypeDecl{Name: p.ident(), Pkg: pkg, Models: map[string]*Model{}, Ghosts: map[string]string{}}
			if p.accept("for") {
				td.Iface = td.Name
				td.Name = p.ident()
			}
			if p.accept("iface") {
				td.IsIf = true
			}
			p.typeBody(td)
			sf.Types = append(sf.Types, td)
		case p.accept("pred"):
			d := &Pred{Pkg: pkg, Name: p.ident()}
			d.Par = p.params()
			d.Type = "bool"
			if !p.is(":=") {
				d.Type = p.typ()
			}
			p.want(":=")
			d.Body = p.expr()
			sf.Preds = append(sf.Preds, d)
		case p.accept("lemma"):
			l := &Lemma{Pkg: pkg, Line: p.line(), Name: p.ident()}
			l.Par = p.params()
			for {
				if p.accept("open") {
					l.Open = append(l.Open, p.names()...)
				} else if p.accept("requires") {
					l.Req = p.addClause(l.Req)
				} else if p.accept("tags") {
					l.Tags = append(l.Tags, p.tagList()...)
				} else if p.accept("use") {
					l.Uses = append(l.Uses, p.expr())
				} else if p.accept("induction") {
					l.Ind = p.ident()
					if p.accept("{") {
						for !p.accept("}") {
							l.Pat = append(l.Pat, p.expr())
							p.accept(",")
						}
					}
				} else if p.accept("ensures") {
					l.Ens = p.expr()
				} else {
					break
				}
			}
			sf.Lemmas = append(sf.Lemmas, l)
		default:
			p.fail("declaration expected")
		}
	}
}

func loadSpecs(dir string) *SpecFile {
	sf := &SpecFile{Vars: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.dv"))
	sort.Strings(fs)
	for _, f := range fs {
		parseSpec(f, sf)
	}
	return sf
}
