package main

// Model of the key-value store (badger): transactions over one store of keys and values.
//
// The store is the pair of ghost variables kvhas and kv. A transaction reads and changes a view
// taken at its start, which replaces the store if it commits. Any operation may fail; that a
// storage operation failed is recorded in the ghost variable dbfail.

import (
	"go/types"
)

type txnSt struct {
	has0, val0 *Term
	has, val   *Term
	upd, done  bool
}

func (t txnSt) eq(o interface{}) bool { x, ok := o.(txnSt); return ok && x == t }
func (t txnSt) havoc(ex *Exec, st *State) interface{} {
	n := t
	if t.upd {
		n.has, n.val = Fresh("txhas", t.has.S), Fresh("txval", t.val.S)
	}
	return n
}

type itemSt struct {
	key, val *Term
}

func (t itemSt) eq(o interface{}) bool { x, ok := o.(itemSt); return ok && x == t }
func (t itemSt) havoc(ex *Exec, st *State) interface{} {
	return itemSt{Fresh("ikey", SStr), Fresh("ival", SStr)}
}

// volSt: byte arrays that belong to the store, which changes them later.
type volSt struct{ rows []*Term }

// marks on byte arrays, kept in the state
const (
	volID = -7 // memory of the store
)

func (t volSt) eq(o interface{}) bool {
	x, ok := o.(volSt)
	if !ok || len(x.rows) != len(t.rows) {
		return false
	}
	for i := range t.rows {
		if x.rows[i] != t.rows[i] {
			return false
		}
	}
	return true
}
func (t volSt) havoc(ex *Exec, st *State) interface{} { return t }

func volRows(st *State) []*Term { return marks(st, volID) }
func addVol(st *State, r *Term) { addMark(st, volID, r) }

func marks(st *State, id int) []*Term {
	v, _ := st.nat[id].(volSt)
	return v.rows
}

func addMark(st *State, id int, r *Term) {
	if !isMarked(st, id, r) {
		st.nat[id] = volSt{append(append([]*Term(nil), marks(st, id)...), r)}
	}
}

func isMarked(st *State, id int, r *Term) bool {
	for _, x := range marks(st, id) {
		if x == r {
			return true
		}
	}
	return false
}

// endVol: the memory is used by the store for something else.
func (ex *Exec) endVol(st *State, r *Term) {
	var left []*Term
	for _, x := range volRows(st) {
		if x != r {
			left = append(left, x)
		}
	}
	if left == nil {
		delete(st.nat, volID)
	} else {
		st.nat[volID] = volSt{left}
	}
	ex.touchOff++
	ex.bset(st, r, Fresh("gone", SStr))
	ex.touchOff--
}

type iterSt struct {
	has, val   *Term
	reverse    bool
	prefix     *Term // option Prefix, "" if none
	valid, cur *Term
	seen       *Term // keys passed since the last Seek
	start      *Term
	whole      bool // Rewind: from the end
	order      bool // facts about the order of keys
	started    bool
}

func (t iterSt) eq(o interface{}) bool { x, ok := o.(iterSt); return ok && x == t }
func (t iterSt) havoc(ex *Exec, st *State) interface{} {
	n := t
	n.valid, n.cur, n.seen = Fresh("itvalid", SBool), Fresh("itkey", SStr), Fresh("seen", t.seen.S)
	if n.started {
		n.facts(st)
	}
	return n
}

// before in the direction of the iteration
func (t iterSt) lt(a, b *Term) *Term {
	if t.reverse {
		return slt(b, a)
	}
	return slt(a, b)
}

func (t iterSt) in(x *Term) *Term {
	c := []*Term{Select(t.has, x)}
	if t.prefix != StrLit("") {
		c = append(c, sprefix(x, t.prefix))
	}
	if !t.whole {
		if t.order {
			c = append(c, Not(t.lt(x, t.start)))
		}
	}
	return And(c...)
}

// facts that hold of every position of the iterator.
func (t iterSt) facts(st *State) {
	x := FreshVar("x", SStr)
	in := []*Term{Select(t.has, x)}
	if t.order {
		in = append(in, t.in(x), Imp(t.valid, t.lt(x, t.cur)))
	}
	if t.seen != zeroOf(t.seen.S) {
		st.assume(Forall([]*Term{x}, Imp(Select(t.seen, x), And(in...)), []*Term{Select(t.seen, x)}))
	}
	st.assume(Imp(t.valid, And(t.in(t.cur), Not(Select(t.seen, t.cur)))))
	if t.order {
		st.assume(Forall([]*Term{x}, Imp(And(t.in(x), Imp(t.valid, t.lt(x, t.cur))), Select(t.seen, x)), []*Term{Select(t.has, x)}))
	}
}

func (ex *Exec) newNat(st *State, kind string, s natState) NatV {
	ex.ncel++
	st.nat[ex.ncel] = s
	return NatV{Kind: kind, ID: ex.ncel}
}

func natOf(v Val, what string) NatV {
	n, ok := v.(NatV)
	if !ok {
		panic(unsup("%s of unknown origin", what))
	}
	return n
}

func (ex *Exec) txn(st *State, v Val) (int, txnSt) {
	n := natOf(v, "transaction")
	t, ok := st.nat[n.ID].(txnSt)
	if !ok {
		panic(unsup("transaction of unknown origin"))
	}
	return n.ID, t
}

func (ex *Exec) iter(st *State, v Val) (int, iterSt) {
	n := natOf(v, "iterator")
	t, ok := st.nat[n.ID].(iterSt)
	if !ok {
		panic(unsup("iterator of unknown origin"))
	}
	return n.ID, t
}

func (ex *Exec) beginTxn(st *State, upd bool) NatV {
	h, v := ex.gvar(st, "kvhas"), ex.gvar(st, "kv")
	return ex.newNat(st, "badger.Txn", txnSt{h, v, h, v, upd, false})
}

func (ex *Exec) dbFail(st *State) IfV {
	ex.gvar(st, "dbfail")
	st.vars["dbfail"] = True
	// any error of the store but "not found", which has its own meaning
	p := Fresh("err", SInt)
	cases := []*Term{Le(IntT(0), p)}
	for _, n := range badgerErrs {
		cases = append(cases, Eq(p, ex.sentinel("G:badger."+n).Pay))
	}
	st.assume(Or(cases...))
	return IfV{Tag: IntT(errTag), Pay: p}
}

var badgerErrs = []string{"ErrTxnTooBig", "ErrConflict", "ErrDBClosed", "ErrBlockedWrites", "ErrInvalidKey", "ErrEmptyKey", "ErrBannedKey", "ErrReadOnlyTxn", "ErrDiscardedTxn", "ErrInvalidRequest", "ErrRejected"}

// commit of a transaction; it may fail, and then changes nothing.
func (ex *Exec) commitTxn(st *State, id int, k func(*State, Val)) {
	t := st.nat[id].(txnSt)
	done := t
	done.done = true
	if t.has == t.has0 && t.val == t.val0 {
		st.nat[id] = done
		k(st, nilErr())
		return
	}
	f := st.clone()
	f.nat[id] = done
	k(f, ex.dbFail(f))
	if ex.gvar(st, "kvhas") != t.has0 || ex.gvar(st, "kv") != t.val0 {
		panic(unsup("storage changed by another transaction before a commit"))
	}
	ex.concurrent(st, "changes the storage")
	st.vars["kvhas"], st.vars["kv"] = t.has, t.val
	st.vars["commits"] = Add(ex.gvar(st, "commits"), IntT(1))
	st.nat[id] = done
	k(st, nilErr())
}

// ownBytes: bytes handed to the store must not belong to it.
func (ex *Exec) ownBytes(st *State, v Val, what string) {
	s := v.(SliceV)
	if isMarked(st, volID, s.R) {
		ex.oblige(st, "memory", what+" is memory of the iterator, which changes it", nil, False, ex.lastPos)
	}
}

func (ex *Exec) newItem(st *State, key, val *Term) Val {
	return ex.newNat(st, "badger.Item", itemSt{key, val})
}

func boolField(v Val, t types.Type, name string) (*Term, Val) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	sv, ok := v.(SV)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			if tv, ok := sv.F[i].(TV); ok {
				return tv.T, tv
			}
			return nil, sv.F[i]
		}
	}
	return nil, nil
}

// iteratorDefaults: the value of badger.DefaultIteratorOptions.
func (ex *Exec) iteratorDefaults(t types.Type) Val {
	v := ex.zero(t).(SV)
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "PrefetchValues":
			v.F[i] = TV{True}
		case "PrefetchSize":
			v.F[i] = TV{IntT(100)}
		}
	}
	return v
}

func init() {
	specConsts["txhas"] = func(e *Env) SVal {
		t := e.lastTxn()
		return termVal(t.has, &SType{S: t.has.S, K: tStr, V: tBool})
	}
	specConsts["txkv"] = func(e *Env) SVal {
		t := e.lastTxn()
		return termVal(t.val, &SType{S: t.val.S, K: tStr, V: tStr})
	}
	specConsts["seen"] = func(e *Env) SVal {
		best := -1
		for id, v := range e.st.nat {
			if _, ok := v.(iterSt); ok && id > best {
				best = id
			}
		}
		if best < 0 {
			panic(specErr{"seen: no iterator"})
		}
		t := e.st.nat[best].(iterSt)
		return termVal(t.seen, &SType{S: t.seen.S, K: tStr, V: tBool})
	}
	specConsts["itkey"] = func(e *Env) SVal {
		best := -1
		for id, v := range e.st.nat {
			if _, ok := v.(iterSt); ok && id > best {
				best = id
			}
		}
		if best < 0 {
			panic(specErr{"itkey: no iterator"})
		}
		return strVal(e.st.nat[best].(iterSt).cur)
	}

	nat("badger.DB.Update badger.DB.View", func(c *nativeCtx, k func(*State, []Val)) {
		ex := c.ex
		upd := c.key == "badger.DB.Update"
		lp := ex.lastPos
		f := c.st.clone()
		k(f, []Val{ex.dbFail(f)})
		ex.lastPos = lp
		st := c.st
		tx := ex.beginTxn(st, upd)
		fsig := c.sig.Params().At(0).Type().Underlying().(*types.Signature)
		ex.callFnVal(st, c.fr, c.args[1], fsig, []Val{tx}, c.ins, func(s *State, r []Val) {
			e := ex.asIf(r[0], fsig.Results().At(0).Type())
			fail := func(s *State) {
				t := s.nat[tx.ID].(txnSt)
				t.done = true
				s.nat[tx.ID] = t
				k(s, []Val{e})
			}
			ok := func(s *State) {
				ex.commitTxn(s, tx.ID, func(s *State, v Val) { k(s, []Val{v}) })
			}
			z := Eq(e.Tag, IntT(0))
			switch s.known(z) {
			case True:
				ok(s)
			case False:
				fail(s)
			default:
				s2 := s.clone()
				s2.assume(Not(z))
				if !s2.dead && ex.feasible(s2) {
					fail(s2)
				}
				s.assume(z)
				if !s.dead && ex.feasible(s) {
					ok(s)
				}
			}
		})
	})
	nat("badger.DB.NewTransaction", func(c *nativeCtx, k func(*State, []Val)) {
		u := c.ex.scalar(c.args[1])
		if u != True && u != False {
			panic(unsup("kind of a transaction"))
		}
		k(c.st, []Val{c.ex.beginTxn(c.st, u == True)})
	})
	nat("badger.Txn.Discard", func(c *nativeCtx, k func(*State, []Val)) {
		id, t := c.ex.txn(c.st, c.args[0])
		t.done = true
		c.st.nat[id] = t
		k(c.st, nil)
	})
	nat("badger.Txn.Commit", func(c *nativeCtx, k func(*State, []Val)) {
		id, t := c.ex.txn(c.st, c.args[0])
		if t.done {
			k(c.st, []Val{c.ex.dbFail(c.st)})
			return
		}
		c.ex.commitTxn(c.st, id, func(s *State, v Val) { k(s, []Val{v}) })
	})
	nat("badger.Txn.Get", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		_, t := ex.txn(st, c.args[0])
		f := st.clone()
		k(f, []Val{TV{IntT(0)}, ex.dbFail(f)})
		if t.done {
			return
		}
		key := ex.content(st, c.args[1])
		in := Select(t.has, key)
		a := st.clone()
		a.assume(Not(in))
		if !a.dead && ex.feasible(a) {
			k(a, []Val{TV{IntT(0)}, ex.sentinel("G:badger.ErrKeyNotFound")})
		}
		st.assume(in)
		if !st.dead && ex.feasible(st) {
			k(st, []Val{ex.newItem(st, key, Select(t.val, key)), nilErr()})
		}
	})
	nat("badger.Txn.Set badger.Txn.Delete", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		id, t := ex.txn(st, c.args[0])
		f := st.clone()
		k(f, []Val{ex.dbFail(f)})
		if t.done || !t.upd {
			return
		}
		ex.ownBytes(st, c.args[1], "the key")
		key := ex.content(st, c.args[1])
		if c.key == "badger.Txn.Set" {
			ex.ownBytes(st, c.args[2], "the value")
			t.has, t.val = Store(t.has, key, True), Store(t.val, key, ex.content(st, c.args[2]))
		} else {
			t.has = Store(t.has, key, False)
		}
		st.nat[id] = t
		k(st, []Val{nilErr()})
	})
	nat("badger.Item.Value", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		it := ex.itemOf(st, c.args[0])
		f := st.clone()
		k(f, []Val{ex.dbFail(f)})
		v := ex.mkBytes(st, it.val).(SliceV)
		addVol(st, v.R)
		fsig := c.sig.Params().At(0).Type().Underlying().(*types.Signature)
		ex.callFnVal(st, c.fr, c.args[1], fsig, []Val{v}, c.ins, func(s *State, r []Val) {
			ex.endVol(s, v.R)
			k(s, r)
		})
	})
	nat("badger.Item.ValueCopy", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		it := ex.itemOf(st, c.args[0])
		f := st.clone()
		k(f, []Val{ex.zero(c.sig.Results().At(0).Type()), ex.dbFail(f)})
		ex.ownCopy(c.args[1])
		v := ex.mkBytes(st, it.val).(SliceV)
		// an empty value is copied to nil
		v.R = Ite(Eq(slen(it.val), IntT(0)), IntT(0), v.R)
		k(st, []Val{v, nilErr()})
	})
	nat("badger.Item.Key", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		it := ex.itemOf(st, c.args[0])
		v := ex.mkBytes(st, it.key).(SliceV)
		addVol(st, v.R)
		k(st, []Val{v})
	})
	nat("badger.Item.KeyCopy", func(c *nativeCtx, k func(*State, []Val)) {
		c.ex.ownCopy(c.args[1])
		k(c.st, []Val{c.ex.mkBytes(c.st, c.ex.itemOf(c.st, c.args[0]).key)})
	})
	nat("badger.Txn.NewIterator", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		_, t := ex.txn(st, c.args[0])
		ot := c.sig.Params().At(0).Type()
		rev, _ := boolField(c.args[1], ot, "Reverse")
		if rev != True && rev != False {
			panic(unsup("direction of an iterator"))
		}
		pfx := StrLit("")
		if _, p := boolField(c.args[1], ot, "Prefix"); p != nil {
			pfx = ex.content(st, p)
		}
		order := false
		if ex.con != nil {
			_, order = ex.con.Opts["order"]
		}
		k(st, []Val{ex.newNat(st, "badger.Iterator", iterSt{has: t.has, val: t.val, reverse: rev == True, prefix: pfx,
			valid: False, cur: StrLit(""), seen: zeroOf(t.has.S), start: StrLit(""), order: order})})
	})
	nat("badger.Iterator.Seek badger.Iterator.Rewind", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		id, t := ex.iter(st, c.args[0])
		ex.endItem(st)
		t.whole, t.start = true, StrLit("")
		if c.key == "badger.Iterator.Seek" {
			t.whole, t.start = false, ex.content(st, c.args[1])
		}
		if t.prefix != StrLit("") {
			// seeking nothing seeks the prefix
			t.whole = false
			if t.start.Op == "strlit" && t.start.Name == "" {
				t.start = t.prefix
			} else {
				t.start = Ite(Eq(slen(t.start), IntT(0)), t.prefix, t.start)
			}
		}
		t.started = true
		t.valid, t.cur, t.seen = Fresh("itvalid", SBool), Fresh("itkey", SStr), zeroOf(t.seen.S)
		t.facts(st)
		st.nat[id] = t
		k(st, nil)
	})
	nat("badger.Iterator.Valid", func(c *nativeCtx, k func(*State, []Val)) {
		_, t := c.ex.iter(c.st, c.args[0])
		c.ex.iterDone(c.st, t, nil, t.valid)
		k(c.st, []Val{TV{t.valid}})
	})
	nat("badger.Iterator.ValidForPrefix", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		_, t := ex.iter(st, c.args[0])
		p := ex.content(st, c.args[1])
		r := And(t.valid, sprefix(t.cur, p))
		ex.iterDone(st, t, p, r)
		k(st, []Val{TV{r}})
	})
	nat("badger.Iterator.Next", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		id, t := ex.iter(st, c.args[0])
		ex.safe(st, "iterator-at-end", t.valid, ex.lastPos)
		if st.dead {
			return
		}
		ex.endItem(st)
		t.seen = Store(t.seen, t.cur, True)
		t.valid, t.cur = Fresh("itvalid", SBool), Fresh("itkey", SStr)
		t.facts(st)
		st.nat[id] = t
		k(st, nil)
	})
	nat("badger.Iterator.Item", func(c *nativeCtx, k func(*State, []Val)) {
		ex, st := c.ex, c.st
		_, t := ex.iter(st, c.args[0])
		ex.safe(st, "iterator-at-end", t.valid, ex.lastPos)
		if st.dead {
			return
		}
		k(st, []Val{ex.newItem(st, t.cur, Select(t.val, t.cur))})
	})
	nat("badger.Iterator.Close", func(c *nativeCtx, k func(*State, []Val)) {
		c.ex.iter(c.st, c.args[0])
		c.ex.endItem(c.st)
		k(c.st, nil)
	})
	nat("badger.DB.Close badger.DB.RunValueLogGC badger.DB.Sync", func(c *nativeCtx, k func(*State, []Val)) {
		f := c.st.clone()
		k(f, []Val{c.ex.newErr(f)})
		k(c.st, []Val{nilErr()})
	})
}

// ownCopy: copies into given memory are not modelled.
func (ex *Exec) ownCopy(v Val) {
	if s, ok := v.(SliceV); ok && s.R == IntT(0) {
		return
	}
	if t, ok := v.(TV); ok && t.T == IntT(0) {
		return
	}
	panic(unsup("copy into given memory"))
}

func (ex *Exec) itemOf(st *State, v Val) itemSt {
	if t, ok := v.(TV); ok && t.T == IntT(0) {
		ex.safe(st, "nil-item", False, ex.lastPos)
	}
	n := natOf(v, "item")
	t, ok := st.nat[n.ID].(itemSt)
	if !ok {
		panic(unsup("item of unknown origin"))
	}
	return t
}

// endItem: the memory of the current item is used again.
func (ex *Exec) endItem(st *State) {
	for _, r := range volRows(st) {
		ex.endVol(st, r)
	}
}

// iterDone: what is known once the test of the iterator's position fails: the keys with the
// tested prefix from the start on have all been passed.
func (ex *Exec) iterDone(st *State, t iterSt, p *Term, res *Term) {
	if !t.started {
		return
	}
	x := FreshVar("x", SStr)
	c := []*Term{Select(t.has, x)}
	pre := []*Term{Not(res)}
	if t.prefix != StrLit("") {
		c = append(c, sprefix(x, t.prefix))
		if p == nil {
			p = t.prefix
		}
	}
	if p != nil {
		c = append(c, sprefix(x, p))
	}
	switch {
	case t.whole && p != nil:
		return
	case t.whole:
	case p == nil:
		c = append(c, Not(t.lt(x, t.start)))
	case t.start == p && !t.reverse:
	case t.reverse:
		pre = append(pre, sprefix(t.start, p))
		c = append(c, Not(slt(t.start, x)))
	default:
		pre = append(pre, Not(slt(t.start, p)))
		c = append(c, Not(slt(x, t.start)))
	}
	st.assume(Imp(And(pre...), Forall([]*Term{x}, Imp(And(c...), Select(t.seen, x)), []*Term{Select(t.has, x)})))
}

func (e *Env) lastTxn() txnSt {
	best := -1
	for id, v := range e.st.nat {
		if _, ok := v.(txnSt); ok && id > best {
			best = id
		}
	}
	if best < 0 {
		panic(specErr{"no transaction here"})
	}
	return e.st.nat[best].(txnSt)
}

func init() {
	specConsts["ErrLogNotFound"] = func(e *Env) SVal {
		v := e.ex.sentinel("G:hraft.ErrLogNotFound")
		return SVal{V: v, T: &SType{Go: types.Universe.Lookup("error").Type(), S: "struct"}}
	}
	specConsts["ErrKeyNotFound"] = func(e *Env) SVal {
		v := e.ex.sentinel("G:badger.ErrKeyNotFound")
		return SVal{V: v, T: &SType{Go: types.Universe.Lookup("error").Type(), S: "struct"}}
	}
}
