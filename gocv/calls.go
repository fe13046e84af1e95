package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func methodKey(c *ssa.CallCommon) string {
	t := c.Value.Type()
	return "(" + typeKey(t) + ")." + c.Method.Name()
}

// call executes a call instruction.
func (x *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos, k func(*Frame, *State, *Val)) {
	fnv := x.val(fr, st, c.Value)
	var args []*Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	x.callVals(fr, st, c, fnv, args, pos, k)
}

func resultVal(sig *types.Signature, res []*Val) *Val {
	switch len(res) {
	case 0:
		return &Val{T: sig.Results(), Tup: []*Val{}}
	case 1:
		return res[0]
	}
	return &Val{T: sig.Results(), Tup: res}
}

func (x *Exec) callVals(fr *Frame, st *State, c *ssa.CallCommon, fnv *Val, args []*Val, pos token.Pos, k func(*Frame, *State, *Val)) {
	x.checkBudget()
	sig := c.Signature()
	cc := &CallCtx{x: x, fr: fr, st: st, pos: pos, sig: sig, k: k}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(cc, b, args, c)
		return
	}
	for _, a := range args {
		for _, t := range a.Ts {
			x.resolve(st, t)
		}
	}
	if c.IsInvoke() {
		key := methodKey(c)
		all := append([]*Val{fnv}, args...)
		if fnv.Dyn == nil && len(fnv.Ts) == 1 {
			x.oblige(st, "no panic", "nil interface method call", pos, Neq(fnv.Ts[0], Zero))
		}
		if x.dispatch(cc, key, nil, all) {
			return
		}
		if fnv.Dyn != nil {
			if m := x.P.prog.LookupMethod(fnv.Dyn.T, c.Method.Pkg(), c.Method.Name()); m != nil {
				x.callFn(cc, m, append([]*Val{fnv.Dyn}, args...), nil)
				return
			}
		}
		x.unknownCall(cc, key, all)
		return
	}
	if fnv.Fn != nil {
		x.callFn(cc, fnv.Fn.Fn, args, fnv.Fn.Binds)
		return
	}
	// function value that is not statically known
	if h := x.P.dynCall; h != nil && h(cc, fnv, args) {
		return
	}
	x.oblige(st, "no panic", "nil function call", pos, Neq(x.termsOf(st, fnv)[0], Zero))
	x.unknownCall(cc, "dynamic call", args)
}

type CallCtx struct {
	x    *Exec
	fr   *Frame
	st   *State
	pos  token.Pos
	sig  *types.Signature
	k    func(*Frame, *State, *Val)
	name string
	fn   *ssa.Function
}

func (c *CallCtx) ret(vs ...*Val) { c.k(c.fr, c.st, resultVal(c.sig, vs)) }
func (c *CallCtx) rt(i int) types.Type {
	return c.sig.Results().At(i).Type()
}

// dispatch uses a library model or a contract for the callee.
func (x *Exec) dispatch(cc *CallCtx, name string, fn *ssa.Function, args []*Val) bool {
	cc.name = name
	cc.fn = fn
	if sp := x.P.specFor(name, x); sp != nil && !sp.inline && (fn == nil || sp.arity < 0 || sp.arity == len(args)) {
		if fn != nil && fn.Signature.Results().Len() != len(sp.results) && len(sp.results) > 0 {
			goto lib // a different shape: not the function the contract was written for
		}
		kind := "contract (verified)"
		if sp.extern {
			kind = "contract (assumed)"
		}
		x.note(name, kind)
		x.applyContract(cc, sp, args)
		return true
	}
lib:
	if l, ok := libModels[name]; ok {
		x.note(name, "library model (assumed)")
		l(cc, args)
		return true
	}
	for _, p := range libPrefixes {
		if strings.HasPrefix(name, p.prefix) {
			x.note(name, p.kind)
			p.f(cc, args)
			return true
		}
	}
	return false
}

func (x *Exec) callFn(cc *CallCtx, fn *ssa.Function, args []*Val, binds []*Val) {
	name := fnName(fn)
	if x.dispatch(cc, name, fn, args) {
		return
	}
	if fn.Blocks == nil {
		x.unknownCall(cc, name, args)
		return
	}
	for _, s := range x.stack {
		if s == fn {
			x.fail("recursive call of %s without a contract", name)
		}
	}
	if len(x.stack) > 12 {
		x.fail("inlining too deep at %s", name)
	}
	x.inline(cc, fn, args, binds)
}

// inline executes the body of a function.
func (x *Exec) inline(cc *CallCtx, fn *ssa.Function, args []*Val, binds []*Val) {
	x.inlined[fnName(fn)] = true
	nf := &Frame{fn: fn, env: map[ssa.Value]*Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, parent: cc.fr}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		nf.env[f] = binds[i]
	}
	x.stack = append(x.stack, fn)
	depth := len(x.stack)
	saved := append([]*ssa.Function{}, x.stack...)
	nf.onRet = func(st *State, _ *Frame, res []*Val) {
		old := x.stack
		x.stack = append([]*ssa.Function{}, saved[:depth-1]...)
		x.paths--
		cc.k(cc.fr.clone(), st, resultVal(fn.Signature, res))
		x.stack = old
	}
	x.visit(nf, fn.Blocks[0], nil, cc.st)
	x.stack = saved[:depth-1]
}

// unknownCall: nothing is known about the callee but its type; memory it could reach through its arguments is havoced.
func (x *Exec) unknownCall(cc *CallCtx, name string, args []*Val) {
	x.note(name, "unmodelled call (assumed not to touch the program's state except through its arguments, not to panic)")
	st := cc.st
	for _, a := range args {
		x.havocReach(st, a)
	}
	x.bumpClk(st)
	var res []*Val
	for i := 0; i < cc.sig.Results().Len(); i++ {
		res = append(res, x.freshVal(st, "ext:"+name, cc.rt(i)))
	}
	cc.ret(res...)
}

func (x *Exec) bumpClk(st *State) {
	c := newClk(x.clk(st))
	st.assume(Le(x.clk(st), c))
	x.set(st, "clk", c)
}

func (x *Exec) havocReach(st *State, a *Val) {
	if a.Dyn != nil {
		x.havocReach(st, a.Dyn)
		return
	}
	if a.T == nil {
		return
	}
	switch u := a.T.Underlying().(type) {
	case *types.Slice:
		for _, l := range leaves(u.Elem()) {
			k := "M|" + elemKey(u.Elem()) + "||" + l.Path
			m := x.get(st, k, arrSort(SInt, arrSort(SInt, l.Sort)))
			x.set(st, k, Store(m, a.Ts[0], Fresh("havoc", arrSort(SInt, l.Sort))))
		}
	case *types.Pointer:
		if a.A != nil || len(a.Ts) == 1 {
			if _, isS := u.Elem().Underlying().(*types.Struct); isS || a.A != nil {
				if _, opq := opaqueTypes[namedKey(u.Elem())]; opq {
					return
				}
				if n := namedKey(u.Elem()); n != "" && !x.P.isLocalType(u.Elem()) {
					return
				}
				x.store(st, x.addrOf(a), x.freshVal(st, "havoc", u.Elem()))
			}
		}
	}
}

// ---- builtins ----

func (x *Exec) builtin(cc *CallCtx, b *ssa.Builtin, args []*Val, c *ssa.CallCommon) {
	st := cc.st
	it := types.Typ[types.Int]
	switch b.Name() {
	case "len":
		cc.k(cc.fr, st, scalar(it, x.lenOf(st, args[0])))
	case "cap":
		switch args[0].T.Underlying().(type) {
		case *types.Slice:
			cc.k(cc.fr, st, scalar(it, args[0].Ts[3]))
		default:
			cc.k(cc.fr, st, scalar(it, x.lenOf(st, args[0])))
		}
	case "append":
		x.appendTo(cc, args[0], args[1], c)
	case "copy":
		x.copyTo(cc, args[0], args[1])
	case "delete":
		kt := x.termsOf(st, args[1])
		m := args[0].term()
		if st.known[Eq(m, Zero)] {
			cc.ret()
			return
		}
		x.mapDelete(st, args[0].T, m, kt[0], cc.pos)
		cc.ret()
	case "print", "println", "ssa:wrapnilchk":
		if b.Name() == "ssa:wrapnilchk" {
			x.nilCheck(st, args[0], cc.pos)
			cc.k(cc.fr, st, args[0])
			return
		}
		cc.ret()
	case "min", "max":
		r := args[0].term()
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = Ite(Le(r, a.term()), r, a.term())
			} else {
				r = Ite(Ge(r, a.term()), r, a.term())
			}
		}
		cc.k(cc.fr, st, scalar(args[0].T, r))
	case "clear":
		if mt, ok := args[0].T.Underlying().(*types.Map); ok {
			_, ks := mapKeys(mt, args[0].T)
			x.accessMap(st, args[0].T, args[0].term(), true, cc.pos)
			x.setDom(st, args[0].T, args[0].term(), ConstArr(arrSort(ks, SBool), False))
			cc.ret()
			return
		}
		x.fail("clear of %v", args[0].T)
	case "close":
		x.P.chanOp(x, st, "close", args[0], cc.pos)
		cc.ret()
	case "recover":
		cc.k(cc.fr, st, x.zero(types.NewInterfaceType(nil, nil)))
	default:
		x.fail("builtin %s", b.Name())
	}
}

func (x *Exec) lenOf(st *State, v *Val) *Term {
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		return v.Ts[2]
	case *types.Basic:
		return SeqLen(v.term())
	case *types.Map:
		m := v.term()
		x.accessMap(st, v.T, m, false, token.NoPos)
		n := card(x.mapDom(st, v.T, m))
		if mt := v.T.Underlying().(*types.Map); true { // the entries fit in the address space
			st.assume(Le(n, Int(maxLen/(elemSize(mt.Key())+elemSize(mt.Elem())))))
		}
		if isFreshRef(m) || st.known[Neq(m, Zero)] {
			return n
		}
		return Ite(Eq(m, Zero), Zero, n)
	case *types.Array:
		return Int(u.Len())
	case *types.Pointer:
		return Int(u.Elem().Underlying().(*types.Array).Len())
	case *types.Chan:
		n := Fresh("chanlen", SInt)
		st.assume(Le(Zero, n))
		return n
	}
	x.fail("len of %v", v.T)
	return nil
}

// appendTo models append(dst, src...).
func (x *Exec) appendTo(cc *CallCtx, dst, src *Val, c *ssa.CallCommon) {
	st := cc.st
	t := dst.T
	et := t.Underlying().(*types.Slice).Elem()
	reg, off, ln, cp := sl(dst)
	if isByte(et) {
		var s *Term
		if isStringT(src.T) {
			s = src.term()
			x.resolve(st, s)
		} else {
			s = x.content(st, src)
			st.assume(Eq(SeqLen(s), src.Ts[2]))
		}
		n := SeqLen(s)
		if !isStringT(src.T) {
			n = src.Ts[2]
		}
		fits := Le(Add(ln, n), cp)
		x.branch(cc.fr, st, fits, func(fr *Frame, st *State) {
			m := x.get(st, m8, m8Sort)
			x.accessBytes(st, reg, true, cc.pos)
			x.aliasWrite(st, reg, Add(off, ln), n, cc.pos)
			x.set(st, m8, Store(m, reg, Blit(Select(m, reg), Add(off, ln), s)))
			cc.k(fr, st, mkSlice(t, reg, off, Add(ln, n), cp))
		}, func(fr *Frame, st *State) {
			old := x.content(st, dst)
			st.assume(Eq(SeqLen(old), ln))
			r := x.allocRef(st)
			m := x.get(st, m8, m8Sort)
			x.set(st, m8, Store(m, r, Blit(zeroArr, Zero, Concat(old, s))))
			ncap := Fresh("cap", SInt)
			st.assume(Le(Add(ln, n), ncap), Le(ncap, Int(maxLen)))
			cc.k(fr, st, mkSlice(t, r, Zero, Add(ln, n), ncap))
		})
		return
	}
	sreg, soff, sln, _ := sl(src)
	fits := Le(Add(ln, sln), cp)
	ls := leaves(et)
	write := func(st *State, base func(l Leaf) *Term, r, at *Term) bool {
		if !sln.isInt() || sln.I.Int64() > 16 {
			return false
		}
		for _, l := range ls {
			k := "M|" + elemKey(et) + "||" + l.Path
			m := x.get(st, k, arrSort(SInt, arrSort(SInt, l.Sort)))
			b := base(l)
			sa := Select(m, sreg)
			for i := int64(0); i < sln.I.Int64(); i++ {
				b = Store(b, Add(at, Int(i)), Select(sa, Add(soff, Int(i))))
			}
			x.set(st, k, Store(m, r, b))
		}
		return true
	}
	x.branch(cc.fr, st, fits, func(fr *Frame, st *State) {
		ok := write(st, func(l Leaf) *Term {
			return Select(x.get(st, "M|"+elemKey(et)+"||"+l.Path, arrSort(SInt, arrSort(SInt, l.Sort))), reg)
		}, reg, Add(off, ln))
		if !ok {
			x.blitFresh(st, et, reg, Add(off, ln), src, nil)
		}
		cc.k(fr, st, mkSlice(t, reg, off, Add(ln, sln), cp))
	}, func(fr *Frame, st *State) {
		r := x.allocRef(st)
		ok := write(st, func(l Leaf) *Term {
			a := Select(x.get(st, "M|"+elemKey(et)+"||"+l.Path, arrSort(SInt, arrSort(SInt, l.Sort))), reg)
			return x.shiftArr(st, a, off)
		}, r, ln)
		if !ok {
			x.blitFresh(st, et, r, ln, src, dst)
		}
		ncap := Fresh("cap", SInt)
		st.assume(Le(Add(ln, sln), ncap), Le(ncap, Int(maxLen)))
		cc.k(fr, st, mkSlice(t, r, Zero, Add(ln, sln), ncap))
	})
}

// shiftArr is the array i -> a[i+off].
func (x *Exec) shiftArr(st *State, a, off *Term) *Term {
	if off == Zero {
		return a
	}
	b := Fresh("shift", a.Sort)
	i := BVar("i", SInt)
	st.assume(Quant("forall", []*Term{i}, [][]*Term{{mk("select", "", splitVal(a.Sort), []*Term{b, i})}}, Eq(Select(b, i), Select(a, Add(i, off)))))
	return b
}

func splitVal(s string) string { _, v := splitArr(s); return v }

// blitFresh copies src into region r at position at; the part before comes from dst (nil: keep the region).
func (x *Exec) blitFresh(st *State, et types.Type, r, at *Term, src, dst *Val) {
	for _, l := range leaves(et) {
		k := "M|" + elemKey(et) + "||" + l.Path
		m := x.get(st, k, arrSort(SInt, arrSort(SInt, l.Sort)))
		b := Fresh("blit", arrSort(SInt, l.Sort))
		i := BVar("i", SInt)
		sel := mk("select", "", l.Sort, []*Term{b, i})
		var before *Term
		if dst == nil {
			before = Select(Select(m, r), i)
		} else {
			before = Select(Select(m, dst.Ts[0]), Add(dst.Ts[1], i))
		}
		end := Add(at, src.Ts[2])
		st.assume(Quant("forall", []*Term{i}, [][]*Term{{sel}}, And(
			Implies(And(Le(at, i), Lt(i, end)), Eq(sel, Select(Select(m, src.Ts[0]), Add(src.Ts[1], Sub(i, at))))),
			Implies(Lt(i, at), Eq(sel, before)))))
		x.set(st, k, Store(m, r, b))
	}
}

func (x *Exec) copyTo(cc *CallCtx, dst, src *Val) {
	st := cc.st
	it := types.Typ[types.Int]
	et := dst.T.Underlying().(*types.Slice).Elem()
	reg, off, ln, _ := sl(dst)
	if !isByte(et) {
		n := Ite(Le(ln, src.Ts[2]), ln, src.Ts[2])
		s2 := *src
		s2.Ts = []*Term{src.Ts[0], src.Ts[1], n, n}
		// exact only when the copied part is not followed by live elements of the destination
		for _, l := range leaves(et) {
			k := "M|" + elemKey(et) + "||" + l.Path
			m := x.get(st, k, arrSort(SInt, arrSort(SInt, l.Sort)))
			b := Fresh("copy", arrSort(SInt, l.Sort))
			i := BVar("i", SInt)
			sel := mk("select", "", l.Sort, []*Term{b, i})
			in := And(Le(off, i), Lt(i, Add(off, n)))
			st.assume(Quant("forall", []*Term{i}, [][]*Term{{sel}}, Eq(sel, Ite(in, Select(Select(m, src.Ts[0]), Add(src.Ts[1], Sub(i, off))), Select(Select(m, reg), i)))))
			x.set(st, k, Store(m, reg, b))
		}
		cc.k(cc.fr, st, scalar(it, n))
		return
	}
	var s, sn *Term
	if isStringT(src.T) {
		s = src.term()
		x.resolve(st, s)
		sn = SeqLen(s)
	} else {
		s = x.content(st, src)
		sn = src.Ts[2]
		st.assume(Eq(SeqLen(s), sn))
	}
	do := func(fr *Frame, st *State, part, n *Term) {
		m := x.get(st, m8, m8Sort)
		x.accessBytes(st, reg, true, cc.pos)
		x.aliasWrite(st, reg, off, n, cc.pos)
		x.set(st, m8, Store(m, reg, Blit(Select(m, reg), off, part)))
		cc.k(fr, st, scalar(it, n))
	}
	x.branch(cc.fr, st, Le(sn, ln), func(fr *Frame, st *State) { do(fr, st, s, sn) }, func(fr *Frame, st *State) {
		var part *Term
		if isStringT(src.T) {
			part = SeqExtract(s, Zero, ln)
		} else {
			part = Sq(Select(x.get(st, m8, m8Sort), src.Ts[0]), src.Ts[1], ln)
		}
		st.assume(Eq(SeqLen(part), ln))
		do(fr, st, part, ln)
	})
}
