package main

// Model of byte buffers and of the msgpack codec: decoding what was encoded gives the same fields.

import (
	"go/types"
)

type bufSt struct{ text *Term }

func (t bufSt) eq(o interface{}) bool                 { x, ok := o.(bufSt); return ok && x == t }
func (t bufSt) havoc(ex *Exec, st *State) interface{} { return bufSt{Fresh("buffer", SStr)} }

// codecSt: an encoder or decoder on a buffer
type codecSt struct{ buf int }

func (t codecSt) eq(o interface{}) bool                 { x, ok := o.(codecSt); return ok && x == t }
func (t codecSt) havoc(ex *Exec, st *State) interface{} { return t }

func (ex *Exec) bufOf(st *State, v Val) (int, bufSt) {
	if i, ok := v.(IfV); ok && i.DynT != nil {
		v = i.Dyn
	}
	n := natOf(v, "buffer")
	b, ok := st.nat[n.ID].(bufSt)
	if !ok {
		panic(unsup("buffer of unknown origin"))
	}
	return n.ID, b
}

func mpI(t *Term, f string) *Term { return App("mpint", SInt, t, StrLit(f)) }
func mpS(t *Term, f string) *Term { return App("mpstr", SStr, t, StrLit(f)) }
func mpOK(t *Term) *Term          { return App("mpok", SBool, t) }

func (ex *Exec) mpStruct(v Val) (ptr Val, t types.Type, s *types.Struct) {
	i := ex.asIf(v, anyT)
	if i.DynT == nil || !isPtrT(i.DynT) {
		panic(unsup("msgpack of a value of unknown type"))
	}
	t = deref(i.DynT)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsup("msgpack of %s", t))
	}
	return i.Dyn, t, s
}

func init() {
	nat("bytes.NewBuffer bytes.NewReader bytes.NewBufferString strings.NewReader", func(c *nativeCtx, k func(*State, []Val)) {
		var t *Term
		if _, ok := c.args[0].(SliceV); ok {
			t = c.ex.content(c.st, c.args[0])
		} else {
			t = c.ex.scalar(c.args[0])
		}
		k(c.st, []Val{c.ex.newNat(c.st, "bytes.Buffer", bufSt{t})})
	})
	nat("bytes.Buffer.Bytes", func(c *nativeCtx, k func(*State, []Val)) {
		_, b := c.ex.bufOf(c.st, c.args[0])
		k(c.st, []Val{c.ex.mkBytes(c.st, b.text)})
	})
	nat("bytes.Buffer.String", func(c *nativeCtx, k func(*State, []Val)) {
		_, b := c.ex.bufOf(c.st, c.args[0])
		k(c.st, []Val{TV{b.text}})
	})
	nat("bytes.Buffer.Len", func(c *nativeCtx, k func(*State, []Val)) {
		_, b := c.ex.bufOf(c.st, c.args[0])
		k(c.st, []Val{TV{slen(b.text)}})
	})
	nat("bytes.Buffer.Write bytes.Buffer.WriteString", func(c *nativeCtx, k func(*State, []Val)) {
		id, b := c.ex.bufOf(c.st, c.args[0])
		var t *Term
		if _, ok := c.args[1].(SliceV); ok {
			t = c.ex.content(c.st, c.args[1])
		} else {
			t = c.ex.scalar(c.args[1])
		}
		c.st.nat[id] = bufSt{Cat(b.text, t)}
		k(c.st, []Val{TV{slen(t)}, nilErr()})
	})
	cp := "github.com/hashicorp/go-msgpack/v2/codec."
	for _, p := range []string{cp, "codec."} {
		nat(p+"NewEncoder "+p+"NewDecoder", func(c *nativeCtx, k func(*State, []Val)) {
			id, _ := c.ex.bufOf(c.st, c.args[0])
			k(c.st, []Val{c.ex.newNat(c.st, "codec", codecSt{id})})
		})
		nat(p+"Encoder.Encode", func(c *nativeCtx, k func(*State, []Val)) {
			ex, st := c.ex, c.st
			cd, ok := st.nat[natOf(c.args[0], "encoder").ID].(codecSt)
			if !ok {
				panic(unsup("encoder of unknown origin"))
			}
			ptr, t, s := ex.mpStruct(c.args[1])
			if p, ok := ptr.(TV); ok {
				ex.safe(st, "nil-dereference", Not(Eq(p.T, IntT(0))), ex.lastPos)
				if st.dead {
					return
				}
			}
			f := st.clone()
			k(f, []Val{ex.newErr(f)})
			x := Fresh("msgpack", SStr)
			v := ex.load(st, ptr, t).(SV)
			st.assume(And(mpOK(x), Lt(IntT(0), slen(x))))
			for i := 0; i < s.NumFields(); i++ {
				n := s.Field(i).Name()
				switch y := v.F[i].(type) {
				case SliceV:
					if isBytesT(s.Field(i).Type()) {
						st.assume(Eq(mpS(x, n), ex.content(st, y)))
					}
				case TV:
					if y.T.S == SInt && isIntT(s.Field(i).Type()) {
						st.assume(Eq(mpI(x, n), y.T))
					} else if y.T.S == SStr {
						st.assume(Eq(mpS(x, n), y.T))
					}
				}
			}
			b := st.nat[cd.buf].(bufSt)
			st.nat[cd.buf] = bufSt{Cat(b.text, x)}
			k(st, []Val{nilErr()})
		})
		nat(p+"Decoder.Decode", func(c *nativeCtx, k func(*State, []Val)) {
			ex, st := c.ex, c.st
			cd, ok := st.nat[natOf(c.args[0], "decoder").ID].(codecSt)
			if !ok {
				panic(unsup("decoder of unknown origin"))
			}
			x := st.nat[cd.buf].(bufSt).text
			ptr, t, s := ex.mpStruct(c.args[1])
			ex.fork(st, mpOK(x), func(st *State) {
				v := ex.load(st, ptr, t).(SV)
				v.F = append([]Val(nil), v.F...)
				for i := 0; i < s.NumFields(); i++ {
					n, ft := s.Field(i).Name(), s.Field(i).Type()
					switch y := v.F[i].(type) {
					case SliceV:
						if isBytesT(ft) {
							v.F[i] = ex.mkBytes(st, mpS(x, n))
							continue
						}
					case TV:
						if y.T.S == SInt && isIntT(ft) {
							st.assume(inBounds(mpI(x, n), ft))
							v.F[i] = TV{mpI(x, n)}
							continue
						} else if y.T.S == SStr {
							v.F[i] = TV{mpS(x, n)}
							continue
						}
					}
					v.F[i] = ex.freshVal(st, "msgpack", ft)
				}
				v.Origin, v.Snap = nil, nil
				ex.store(st, ptr, t, v)
				k(st, []Val{nilErr()})
			}, func(st *State) {
				ex.store(st, ptr, t, ex.freshVal(st, "partial", t))
				k(st, []Val{ex.newErr(st)})
			})
		})
	}
	field := func(e *Env, x *Ex, a []SVal) string {
		n := e.term(a[1])
		if n.Op != "strlit" {
			e.fail(x, "field name")
		}
		return n.Name
	}
	specFuns["mpint"] = func(e *Env, x *Ex, a []SVal) SVal { return intVal(mpI(e.term(a[0]), field(e, x, a))) }
	specFuns["mpstr"] = func(e *Env, x *Ex, a []SVal) SVal { return strVal(mpS(e.term(a[0]), field(e, x, a))) }
	specFuns["mpok"] = func(e *Env, x *Ex, a []SVal) SVal { return boolVal(mpOK(e.term(a[0]))) }
}
