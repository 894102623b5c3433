package main

// Model of net/http as a client: a request has a method, a URL and a body; sending it is an event, and the
// answer has a status and a body that can be read.

import (
	"go/types"
	"strings"
)

// the text that can be read from a reader
func (ex *Exec) readerText(st *State, v Val) *Term {
	if i, ok := v.(IfV); ok && i.DynT != nil {
		v = i.Dyn
	}
	switch x := v.(type) {
	case NatV:
		if b, ok := st.nat[x.ID].(bufSt); ok {
			return b.text
		}
	case IfV:
		if x.Tag == IntT(0) {
			return StrLit("")
		}
		return App("readall", SStr, x.Pay)
	}
	return Fresh("readall", SStr)
}

// decSt: a JSON decoder over a text
type decSt struct {
	text *Term
	n    int
}

func (t decSt) eq(o interface{}) bool { x, ok := o.(decSt); return ok && x == t }
func (t decSt) havoc(ex *Exec, st *State) interface{} {
	return decSt{Fresh("stream", SStr), 0}
}

// field of a struct of the heap
func (ex *Exec) fieldOf(st *State, ref *Term, t types.Type, name string) Val {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if fname(s.Field(i)) == name {
			return ex.load(st, ex.fieldAddr(TV{ref}, t, i), s.Field(i).Type())
		}
	}
	panic(unsup("no field %s", name))
}

func (ex *Exec) setField(st *State, ref *Term, t types.Type, name string, v Val) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if fname(s.Field(i)) == name {
			ex.store(st, ex.fieldAddr(TV{ref}, t, i), s.Field(i).Type(), v)
			return
		}
	}
	panic(unsup("no field %s", name))
}

// noHost: continues with the case in which the URL names no host, and with the others.
func (ex *Exec) noHost(st *State, url *Term, yes, no func(*State)) {
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Op == "app" && t.Name == "cat" {
			flat(t.Args[0])
			flat(t.Args[1])
			return
		}
		parts = append(parts, t)
	}
	flat(url)
	const p = "http://"
	if len(parts) == 0 || parts[0].Op != "strlit" || len(parts[0].Name) < len(p) || parts[0].Name[:len(p)] != p {
		no(st)
		return
	}
	rest := append([]*Term{StrLit(parts[0].Name[len(p):])}, parts[1:]...)
	var walk func(st *State, i int)
	walk = func(st *State, i int) {
		if i == len(rest) {
			yes(st)
			return
		}
		t := rest[i]
		if t.Op == "strlit" {
			switch {
			case t.Name == "":
				walk(st, i+1)
			case t.Name[0] == '/':
				yes(st)
			default:
				no(st)
			}
			return
		}
		ex.fork(st, Eq(t, StrLit("")), func(s *State) { walk(s, i+1) }, no)
	}
	walk(st, 0)
}

var strT = types.Typ[types.String]

func init() {
	newReq := func(off int) nativeFn {
		return func(c *nativeCtx, k func(*State, []Val)) {
			ex, st := c.ex, c.st
			pt := c.sig.Results().At(0).Type()
			t := deref(pt)
			body := ex.readerText(st, c.args[off+2])
			rec := func(s *State, r []Val) {
				c.ex.event(s, Event{Name: "newrequest", Args: []Val{c.args[off], c.args[off+1], TV{body}}, Sig: []types.Type{strT, strT, strT}, Res: r, ResT: resTypes(c.sig)})
				ex.eventHook(s, "net/http.newrequest", []Val{c.args[off], c.args[off+1], TV{body}}, []types.Type{strT, strT, strT}, r, resTypes(c.sig))
				k(s, r)
			}
			f := st.clone()
			rec(f, []Val{TV{IntT(0)}, ex.newErr(f)})
			r := ex.newRef(st)
			ex.setField(st, r, t, "Method", c.args[off])
			ex.setReqText(st, r, "url", ex.scalar(c.args[off+1]))
			ex.setReqText(st, r, "body", body)
			rec(st, []Val{TV{r}, nilErr()})
		}
	}
	nat("net/http.NewRequest", newReq(0))
	nat("net/http.NewRequestWithContext", newReq(1))
	send := func(c *nativeCtx, method, url, body *Term, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		pt := c.sig.Results().At(0).Type()
		t := deref(pt)
		rec := func(s *State, r []Val) {
			c.ex.event(s, Event{Name: "forward", Args: []Val{TV{method}, TV{url}, TV{body}}, Sig: []types.Type{strT, strT, strT}, Res: r, ResT: resTypes(c.sig)})
			ex.eventHook(s, "net/http.forward", []Val{TV{method}, TV{url}, TV{body}}, []types.Type{strT, strT, strT}, r, resTypes(c.sig))
			k(s, r)
		}
		fail := func(s *State) { rec(s, []Val{TV{IntT(0)}, ex.newErr(s)}) }
		ex.noHost(st, url, fail, func(st *State) {
			fail(st.clone())
			r := ex.newRef(st)
			b := ex.fieldOf(st, r, t, "Body").(IfV)
			st.assume(Neq(b.Tag, IntT(0)))
			rec(st, []Val{TV{r}, nilErr()})
		})
	}
	nat("net/http.Client.Do", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		ex.nilCheck(st, c.args[0], ex.lastPos)
		ex.nilCheck(st, c.args[1], ex.lastPos)
		if st.dead {
			return
		}
		r := ex.scalar(c.args[1])
		url, body := ex.reqText(st, r, "url"), ex.reqText(st, r, "body")
		m := ex.scalar(ex.fieldOf(st, r, deref(c.sig.Params().At(0).Type()), "Method"))
		send(c, m, url, body, k)
	})
	for _, p := range []string{"net/http.", "net/http.Client."} {
		o := 0
		if p != "net/http." {
			o = 1
		}
		nat(p+"Get", func(c *nativeCtx, k func(*State, []Val)) {
			send(c, StrLit("GET"), c.ex.scalar(c.args[o]), StrLit(""), k)
		})
		nat(p+"Post", func(c *nativeCtx, k func(*State, []Val)) {
			send(c, StrLit("POST"), c.ex.scalar(c.args[o]), c.ex.readerText(c.st, c.args[o+2]), k)
		})
	}
	nat("net/http.Header.Set net/http.Header.Add", func(c *nativeCtx, k func(*State, []Val)) { k(c.st, nil) })
	nat("io.ReadAll io/ioutil.ReadAll", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		t := ex.readerText(st, c.args[0])
		f := st.clone()
		k(f, []Val{ex.mkBytes(f, Fresh("partial", SStr)), ex.newErr(f)})
		k(st, []Val{ex.mkBytes(st, t), nilErr()})
	})
	nat("encoding/json.NewDecoder", func(c *nativeCtx, k func(*State, []Val)) {
		k(c.st, []Val{c.ex.newNat(c.st, "json.Decoder", decSt{c.ex.readerText(c.st, c.args[0]), 0})})
	})
	// the text read holds one JSON value
	nat("encoding/json.Decoder.Decode", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		id := natOf(c.args[0], "decoder").ID
		d, ok := st.nat[id].(decSt)
		if !ok {
			panic(unsup("decoder of unknown origin"))
		}
		s := d.text
		if d.n > 0 {
			s = Fresh("stream", SStr)
		}
		st.nat[id] = decSt{d.text, d.n + 1}
		ex.unmarshal(c, st, s, ex.mkBytes(st, s), c.args[1], k)
	})
	// hostof(a): the host of an address
	specFuns["hostof"] = func(e *Env, x *Ex, a []SVal) SVal {
		return strVal(App("hostof", SStr, e.ex.scalar(a[0].V)))
	}
	// peer(c): the address a connection or client was made for
	specFuns["peer"] = func(e *Env, x *Ex, a []SVal) SVal {
		return strVal(App("peer", SStr, e.ex.payload(a[0].V)))
	}
	// readall(r): the text of a reader
	// the text host:port, an IPv6 address in brackets
	nat("net.JoinHostPort", func(c *nativeCtx, k func(*State, []Val)) {
		t := App("hostport", SStr, c.ex.scalar(c.args[0]), c.ex.scalar(c.args[1]))
		c.st.assume(Not(Eq(t, StrLit(""))))
		k(c.st, []Val{TV{t}})
	})
	specFuns["hostport"] = func(e *Env, x *Ex, a []SVal) SVal {
		return strVal(App("hostport", SStr, e.ex.scalar(a[0].V), e.ex.scalar(a[1].V)))
	}
	specFuns["readall"] = func(e *Env, x *Ex, a []SVal) SVal {
		return strVal(e.ex.readerText(e.st, a[0].V))
	}
}

// the URL and body a request was made with
func (ex *Exec) reqText(st *State, r *Term, part string) *Term {
	k := "$req." + part
	ex.class(k, ArrS(SInt, SStr), strT, "ghost")
	return Select(ex.hget(st, k), r)
}

func (ex *Exec) setReqText(st *State, r *Term, part string, v *Term) {
	k := "$req." + part
	ex.class(k, ArrS(SInt, SStr), strT, "ghost")
	ex.hset(st, k, Store(ex.hget(st, k), r, v))
}

func init() {
	// routed("POST", "/path", "Handler.X"): the requests of this method and path go to that handler, and to no other
	specFuns["routed"] = func(e *Env, x *Ex, a []SVal) SVal {
		lit := func(v SVal) string {
			t := e.term(v)
			if t.Op != "strlit" {
				e.fail(x, "literal expected")
			}
			return t.Name
		}
		m, p, h := lit(a[0]), lit(a[1]), lit(a[2])
		n, good := 0, 0
		for _, ev := range e.st.events {
			if ev.Names["github.com/danielgtaylor/huma/v2.Register"] {
				e.fail(x, "routes registered in a loop")
			}
			if ev.Name != "github.com/danielgtaylor/huma/v2.Register" || len(ev.Args) < 3 {
				continue
			}
			op, ok := ev.Args[1].(SV)
			st, ok2 := ev.Sig[1].Underlying().(*types.Struct)
			fv, ok3 := ev.Args[2].(FnV)
			if !ok || !ok2 || !ok3 {
				e.fail(x, "route of unknown kind")
			}
			get := func(f string) string {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f {
						if t, ok := op.F[i].(TV); ok && t.T.Op == "strlit" {
							return t.T.Name
						}
					}
				}
				e.fail(x, "route of unknown %s", f)
				return ""
			}
			if get("Method") != m || get("Path") != p {
				continue
			}
			n++
			if fv.Fn != nil && strings.TrimSuffix(fv.Fn.Name(), "$bound") == h[strings.IndexByte(h, '.')+1:] {
				good++
			}
		}
		return boolVal(BoolT(n == 1 && good == 1))
	}
}
