package main

// Model of github.com/hashicorp/raft as the node uses it: futures report one error, however often
// they are asked, and a command that was applied without an error has the response of the state machine.

import (
	"go/types"
)

func futErr(p *Term) IfV {
	return IfV{Tag: App("futerr.tag", SInt, p), Pay: App("futerr.pay", SInt, p)}
}

// future: the error and the fields of what a future refers to are functions of the future.
func (ex *Exec) futFacts(st *State, p *Term) {
	e := futErr(p)
	st.assume(And(Or(Eq(e.Tag, IntT(0)), Eq(e.Tag, IntT(errTag))), Imp(Eq(e.Tag, IntT(0)), Eq(e.Pay, IntT(0)))))
}

func (ex *Exec) respType() types.Type {
	if t := ex.w.stype("*raft.FSMResponse", "raft"); t != nil {
		return t.Go
	}
	return nil
}

func (ex *Exec) futResponse(st *State, p *Term) *Term {
	r := App("futresp", SInt, p)
	st.assume(And(Lt(IntT(0), r), Lt(r, st.front)))
	return r
}

func init() {
	pay := func(v Val) *Term { return v.(IfV).Pay }
	for _, i := range []string{"Future", "IndexFuture", "ApplyFuture", "ConfigurationFuture", "SnapshotFuture", "LeadershipTransferFuture"} {
		nat("hraft."+i+".Error", func(c *nativeCtx, k func(*State, []Val)) {
			p := pay(c.args[0])
			c.ex.futFacts(c.st, p)
			k(c.st, []Val{futErr(p)})
		})
	}
	// the response of FSM.Apply (its contract: never nil, always a *FSMResponse)
	nat("hraft.ApplyFuture.Response", func(c *nativeCtx, k func(*State, []Val)) {
		p := pay(c.args[0])
		c.ex.futFacts(c.st, p)
		c.ex.fork(c.st, Eq(futErr(p).Tag, IntT(0)), func(s *State) {
			k(s, []Val{c.ex.makeIface(TV{c.ex.futResponse(s, p)}, c.ex.respType())})
		}, func(s *State) { k(s, []Val{nilErr()}) })
	})
	nat("hraft.ConfigurationFuture.Configuration", func(c *nativeCtx, k func(*State, []Val)) {
		p := pay(c.args[0])
		t := c.sig.Results().At(0).Type()
		v := c.ex.freshVal(c.st, "config", t).(SV)
		// the same list each time
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if s, ok := v.F[i].(SliceV); ok {
				n := st.Field(i).Name()
				w := SliceV{App("config.R"+n, SInt, p), IntT(0), App("config.L"+n, SInt, p), App("config.L"+n, SInt, p)}
				c.st.assume(And(Lt(IntT(0), w.R), Lt(w.R, c.st.front), Le(IntT(0), w.L), Le(w.L, BigT(maxLen))))
				_ = s
				v.F[i] = w
			}
		}
		k(c.st, []Val{v})
	})
	nat("github.com/bwmarrin/snowflake.ID.Int64", func(c *nativeCtx, k func(*State, []Val)) { k(c.st, []Val{c.args[0]}) })
	futOf := func(e *Env, x *Ex, a []SVal) *Term {
		if i, ok := a[0].V.(IfV); ok {
			return i.Pay
		}
		e.fail(x, "not a future")
		return nil
	}
	// futok(f): the future reports no error
	specFuns["futok"] = func(e *Env, x *Ex, a []SVal) SVal {
		p := futOf(e, x, a)
		e.ex.futFacts(e.st, p)
		return boolVal(Eq(futErr(p).Tag, IntT(0)))
	}
	// response(f): what the state machine answered
	specFuns["response"] = func(e *Env, x *Ex, a []SVal) SVal {
		t := e.ex.respType()
		return goVal(TV{e.ex.futResponse(e.st, futOf(e, x, a))}, t)
	}
	// members(f, i): entry i of the configuration of a future
	specFuns["servers"] = func(e *Env, x *Ex, a []SVal) SVal {
		p := futOf(e, x, a)
		t := e.ex.w.stype("hraft.Configuration", "raft").Go.Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			if n := t.Field(i).Name(); n == "Servers" {
				return goVal(SliceV{App("config.R"+n, SInt, p), IntT(0), App("config.L"+n, SInt, p), App("config.L"+n, SInt, p)}, t.Field(i).Type())
			}
		}
		e.fail(x, "no servers")
		return SVal{}
	}
	// is(x, "T"): the value in the interface is a T; as(x, "T"): that value
	specFuns["is"] = func(e *Env, x *Ex, a []SVal) SVal {
		n := e.term(a[1])
		i, ok := a[0].V.(IfV)
		if !ok || n.Op != "strlit" {
			e.fail(x, "is(interface, type)")
		}
		return boolVal(Eq(i.Tag, e.ex.tagOf(e.ex.w.stype(n.Name, e.pkg).Go)))
	}
	specFuns["as"] = func(e *Env, x *Ex, a []SVal) SVal {
		n := e.term(a[1])
		i, ok := a[0].V.(IfV)
		if !ok || n.Op != "strlit" {
			e.fail(x, "as(interface, type)")
		}
		t := e.ex.w.stype(n.Name, e.pkg).Go
		if i.DynT != nil && types.Identical(i.DynT, t) {
			return goVal(i.Dyn, t)
		}
		return goVal(e.ex.unbox(i.Pay, t), t)
	}
	specFuns["jobj"] = func(e *Env, x *Ex, a []SVal) SVal {
		s := e.term(a[0])
		return boolVal(And(jvalid(s), Eq(jkind(jparse(s)), IntT(jkObj))))
	}
	specFuns["isstr"] = func(e *Env, x *Ex, a []SVal) SVal {
		return boolVal(Eq(jkind(jparse(e.term(a[0]))), IntT(jkStr)))
	}
}
