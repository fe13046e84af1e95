package main

// time, rand, netip, atomic, bufio, strconv and friends

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func setHook(op, res string, args []string, f func(t *Term) []*Term) {
	declFn(op, res, args...)
	if f != nil {
		setLemmaHook(op, f)
	}
}

// nowGhost is the latest value of the wall clock, in Unix seconds.
const nowGhost = "ghost|now"

func (x *Exec) now(st *State) *Term {
	t := x.get(st, nowGhost, SInt)
	lim := BigInt(new(big.Int).Lsh(big.NewInt(1), 40))
	st.assume(Le(Zero, t), Le(t, lim))
	return t
}

func init() {
	lim := BigInt(new(big.Int).Lsh(big.NewInt(1), 40))
	// ---- time
	setHook("unix", SInt, []string{"Time"}, nil)
	setHook("unixns", SInt, []string{"Time"}, nil)
	setHook("dursecs", "Flt", []string{SInt}, nil)
	declFn("i2f", "Flt", SInt)
	model("time.Now", func(c *CallCtx, a []*Val) {
		x := c.x
		before := x.now(c.st)
		t := Fresh("now", "Time")
		u := App("unix", SInt, t)
		c.st.assume(Le(before, u), Le(u, lim))
		x.set(c.st, nowGhost, u)
		c.ret(scalar(c.rt(0), t))
	})
	model("(time.Time).Unix", func(c *CallCtx, a []*Val) { c.ret(scalar(c.rt(0), App("unix", SInt, a[0].term()))) })
	model("(time.Time).UnixNano", func(c *CallCtx, a []*Val) {
		t := App("unixns", SInt, a[0].term())
		c.st.assume(rangeFacts(c.rt(0), t)...)
		c.ret(scalar(c.rt(0), t))
	})
	model("time.Since time.Until (time.Time).Sub (time.Time).Add (time.Time).Truncate (time.Duration).String (time.Duration).Minutes (time.Time).Before (time.Time).After", noEffect)
	model("(time.Duration).Seconds", func(c *CallCtx, a []*Val) { c.ret(scalar(c.rt(0), App("dursecs", "Flt", a[0].term()))) })

	// ---- math/rand
	rnd := func(c *CallCtx, a []*Val) {
		r := Fresh("rand", SInt)
		c.st.assume(rangeFacts(c.rt(0), r)...)
		c.st.assume(Le(Zero, r))
		if len(a) > 0 {
			c.x.oblige(c.st, "no panic", "invalid argument to "+c.name, c.pos, Lt(Zero, a[0].term()))
			c.st.assume(Lt(r, a[0].term()))
		}
		c.ret(scalar(c.rt(0), r))
	}
	model("math/rand.Int63 math/rand.Int31 math/rand.Int math/rand.Int31n math/rand.Int63n math/rand.Intn", rnd)
	model("math/rand.Seed", noEffect)

	// ---- net/netip
	A, AP := "Addr", "AddrPort"
	zeroA, zeroAP := zeroSort(A), zeroSort(AP)
	declFn("a_is4", SBool, A)
	declFn("a_is6", SBool, A)
	declFn("a_bytes", SSeq, A)
	declFn("a_str", SSeq, A)
	declFn("a_zone", SBool, A) // has a zone
	declFn("a_4in6", SBool, A)
	declFn("a_unmap", A, A)
	declFn("a_from", A, SSeq)
	declFn("ap_addr", A, AP)
	declFn("ap_port", SInt, AP)
	declFn("ap", AP, A, SInt)
	facts := func(a *Term) []*Term {
		i4, i6, b := App("a_is4", SBool, a), App("a_is6", SBool, a), App("a_bytes", SSeq, a)
		zn, m := App("a_zone", SBool, a), App("a_4in6", SBool, a)
		out := []*Term{
			Not(And(i4, i6)),
			Eq(SeqLen(b), Ite(i4, Int(4), Ite(i6, Int(16), Zero))),
			Implies(Or(zn, m), i6),
			Iff(And(Not(i4), Not(i6)), Eq(a, zeroA)),
		}
		if b.Op != "seq" && (a.Op != "a_from") {
			out = append(out, Implies(And(Not(zn), Or(i4, i6)), Eq(App("a_from", A, b), a)))
		}
		return out
	}
	for _, f := range []string{"a_is4", "a_is6", "a_zone", "a_4in6"} {
		setLemmaHook(f, func(t *Term) []*Term { return facts(t.Args[0]) })
	}
	setLemmaHook("a_bytes", func(t *Term) []*Term { return facts(t.Args[0]) })
	setLemmaHook("a_from", func(t *Term) []*Term {
		s := t.Args[0]
		l := SeqLen(s)
		return []*Term{
			Implies(Eq(l, Int(4)), And(App("a_is4", SBool, t), Eq(App("a_bytes", SSeq, t), s))),
			Implies(Eq(l, Int(16)), And(App("a_is6", SBool, t), Eq(App("a_bytes", SSeq, t), s))),
			Implies(And(Neq(l, Int(4)), Neq(l, Int(16))), Eq(t, zeroA)),
			Not(App("a_zone", SBool, t)),
		}
	})
	setLemmaHook("a_unmap", func(t *Term) []*Term {
		a := t.Args[0]
		m := App("a_4in6", SBool, a)
		return []*Term{
			Implies(Not(m), Eq(t, a)),
			Implies(m, And(App("a_is4", SBool, t), Eq(App("a_bytes", SSeq, t), SeqExtract(App("a_bytes", SSeq, a), Int(12), Int(4))))),
		}
	})
	setLemmaHook("ap", func(t *Term) []*Term {
		return []*Term{Eq(App("ap_addr", A, t), t.Args[0]), Eq(App("ap_port", SInt, t), t.Args[1])}
	})
	apf := func(t *Term) []*Term {
		p := t.Args[0]
		port := App("ap_port", SInt, p)
		out := []*Term{Le(Zero, port), Lt(port, Int(65536))}
		if p.Op != "ap" {
			out = append(out, Eq(App("ap", AP, App("ap_addr", A, p), port), p))
		}
		return out
	}
	setLemmaHook("ap_addr", apf)
	setLemmaHook("ap_port", apf)
	_ = zeroAP
	fn1 := func(name, op, srt string) {
		model(name, func(c *CallCtx, a []*Val) {
			t := App(op, srt, a[0].term())
			c.st.assume(typeFacts(c.rt(0), []*Term{t}, nil)...)
			c.ret(scalar(c.rt(0), t))
		})
	}
	fn1("(net/netip.Addr).Is4", "a_is4", SBool)
	fn1("(net/netip.Addr).Is6", "a_is6", SBool)
	fn1("(net/netip.Addr).Is4In6", "a_4in6", SBool)
	fn1("(net/netip.Addr).Unmap", "a_unmap", A)
	fn1("(net/netip.AddrPort).Addr", "ap_addr", A)
	fn1("(net/netip.AddrPort).Port", "ap_port", SInt)
	declFn("a_valid", SBool, A)
	model("(net/netip.Addr).IsValid", func(c *CallCtx, a []*Val) {
		c.ret(scalar(c.rt(0), Or(App("a_is4", SBool, a[0].term()), App("a_is6", SBool, a[0].term()))))
	})
	setLemmaHook("a_str", func(t *Term) []*Term { return []*Term{Le(SeqLen(t), Int(300))} })
	model("(net/netip.Addr).String", func(c *CallCtx, a []*Val) { c.ret(scalar(c.rt(0), App("a_str", SSeq, a[0].term()))) })
	model("(net/netip.Addr).AsSlice", func(c *CallCtx, a []*Val) {
		s := App("a_bytes", SSeq, a[0].term())
		v := c.x.newBytes(c.st, c.rt(0), s)
		c.st.assume(facts(a[0].term())...)
		c.ret(v)
	})
	as := func(n int64, is string) func(c *CallCtx, a []*Val) {
		return func(c *CallCtx, a []*Val) {
			c.x.oblige(c.st, "no panic", c.name+" of the wrong family", c.pos, App(is, SBool, a[0].term()))
			c.ret(scalar(c.rt(0), App("s2ba", SBA, App("a_bytes", SSeq, a[0].term()))))
		}
	}
	model("(net/netip.Addr).As16", as(16, "a_is6"))
	model("(net/netip.Addr).As4", as(4, "a_is4"))
	model("net/netip.AddrFromSlice", func(c *CallCtx, a []*Val) {
		s := c.x.content(c.st, a[0])
		c.st.assume(Eq(SeqLen(s), a[0].Ts[2]))
		l := a[0].Ts[2]
		c.ret(scalar(c.rt(0), App("a_from", A, s)), scalar(c.rt(1), Or(Eq(l, Int(4)), Eq(l, Int(16)))))
	})
	model("net/netip.AddrPortFrom", func(c *CallCtx, a []*Val) {
		c.ret(scalar(c.rt(0), App("ap", AP, a[0].term(), a[1].term())))
	})
	declFn("a_parse", A, SSeq)
	declFn("a_parseok", SBool, SSeq)
	setLemmaHook("a_parse", func(t *Term) []*Term {
		return []*Term{Implies(Not(App("a_parseok", SBool, t.Args[0])), Eq(t, zeroA)),
			Implies(App("a_parseok", SBool, t.Args[0]), Neq(t, zeroA))}
	})
	setLemmaHook("a_parseok", func(t *Term) []*Term { return []*Term{Implies(Eq(t.Args[0], Empty), Not(t))} })
	model("net/netip.ParseAddr", func(c *CallCtx, a []*Val) {
		e := Fresh("err", SInt)
		c.x.resolve(c.st, a[0].term())
		ok := App("a_parseok", SBool, a[0].term())
		c.st.assume(Le(Zero, e), Iff(Eq(e, Zero), ok))
		c.ret(scalar(c.rt(0), App("a_parse", A, a[0].term())), scalar(c.rt(1), e))
	})

	// ---- atomic
	for _, w := range []string{"Int64", "Int32"} {
		w := w
		bt := types.Typ[types.Int64]
		if w == "Int32" {
			bt = types.Typ[types.Int32]
		}
		cell := func(c *CallCtx, p *Val) (*Addr, *Term) {
			c.x.nilCheck(c.st, p, c.pos)
			a := c.x.addrOf(p)
			return a, c.x.load(c.st, a).Ts[0]
		}
		model("(*sync/atomic."+w+").Add", func(c *CallCtx, a []*Val) {
			ad, v := cell(c, a[0])
			n := c.st.wrapIn(Add(v, a[1].term()), bt)
			c.x.store(c.st, ad, &Val{T: ad.T, Ts: []*Term{n}})
			c.ret(scalar(c.rt(0), n))
		})
		model("(*sync/atomic."+w+").Load", func(c *CallCtx, a []*Val) {
			_, v := cell(c, a[0])
			c.ret(scalar(c.rt(0), v))
		})
		model("(*sync/atomic."+w+").Store", func(c *CallCtx, a []*Val) {
			ad, _ := cell(c, a[0])
			c.x.store(c.st, ad, &Val{T: ad.T, Ts: []*Term{a[1].term()}})
			c.ret()
		})
		model("(*sync/atomic."+w+").Swap", func(c *CallCtx, a []*Val) {
			ad, v := cell(c, a[0])
			c.x.store(c.st, ad, &Val{T: ad.T, Ts: []*Term{a[1].term()}})
			c.ret(scalar(c.rt(0), v))
		})
	}

	// ---- bufio
	model("bufio.NewWriter bufio.NewWriterSize", func(c *CallCtx, a []*Val) {
		if a[0].Dyn == nil || !typeNamed(a[0].Dyn.T, "*bytes.Buffer") {
			c.x.fail("bufio.NewWriter of something else than a *bytes.Buffer")
		}
		under := c.x.termsOf(c.st, a[0].Dyn)[0]
		p := c.x.alloc(c.st, c.rt(0))
		p.T = c.rt(0)
		ad := c.x.addrOf(p)
		c.x.store(c.st, ad, &Val{T: ad.T, Ts: []*Term{Empty, under}})
		c.ret(p)
	})
	model("(*bufio.Writer).Flush", func(c *CallCtx, a []*Val) {
		x, st := c.x, c.st
		x.nilCheck(st, a[0], c.pos)
		ad := x.addrOf(a[0])
		v := x.load(st, ad)
		bt := x.P.pkgs["bytes"].Pkg.Scope().Lookup("Buffer").Type()
		bp := scalar(types.NewPointer(bt), v.Ts[1])
		ba := x.addrOf(bp)
		cur := x.load(st, ba).term()
		n := Concat(cur, v.Ts[0])
		st.assume(Le(SeqLen(n), Int(maxLen)))
		x.store(st, ba, &Val{T: ba.T, Ts: []*Term{n}})
		x.store(st, ad, &Val{T: ad.T, Ts: []*Term{Empty, v.Ts[1]}})
		c.ret(x.zero(c.rt(0)))
	})
	bufWrite := func(f func(c *CallCtx, a []*Val) (*Term, *Term)) func(c *CallCtx, a []*Val) {
		return func(c *CallCtx, a []*Val) {
			s, n := f(c, a)
			w := &Val{T: types.Universe.Lookup("any").Type(), Dyn: a[0]}
			c.x.writeTo(c, w, s)
			if c.sig.Results().Len() == 2 {
				c.ret(scalar(c.rt(0), n), c.x.zero(c.rt(1)))
			} else {
				c.ret(c.x.zero(c.rt(0)))
			}
		}
	}
	model("(*bufio.Writer).Write", bufWrite(func(c *CallCtx, a []*Val) (*Term, *Term) {
		return c.x.content(c.st, a[1]), a[1].Ts[2]
	}))
	model("(*bufio.Writer).WriteString", bufWrite(func(c *CallCtx, a []*Val) (*Term, *Term) { return a[1].term(), SeqLen(a[1].term()) }))
	model("(*bufio.Writer).WriteByte", bufWrite(func(c *CallCtx, a []*Val) (*Term, *Term) { return SeqUnit(a[1].term()), One }))
	model("bufio.NewReader bufio.NewReaderSize", func(c *CallCtx, a []*Val) {
		if a[0].Dyn == nil {
			c.x.fail("bufio.NewReader of an unknown reader")
		}
		base, pos, avail, adv := c.x.readerOf(c, a[0].Dyn)
		rest := base
		if pos != Zero {
			rest = SeqExtract(base, pos, avail)
		}
		adv(c.st, avail) // the buffered reader owns the bytes from here on
		p := c.x.alloc(c.st, c.rt(0))
		p.T = c.rt(0)
		ad := c.x.addrOf(p)
		c.x.store(c.st, ad, &Val{T: ad.T, Ts: []*Term{rest, Zero}})
		c.ret(p)
	})
	readFull := func(c *CallCtx, a []*Val) {
		x := c.x
		if a[0].Dyn == nil {
			x.fail("read from an unknown reader")
		}
		base, pos, avail, adv := x.readerOf(c, a[0].Dyn)
		reg, off, ln, _ := sl(a[1])
		x.branch(c.fr, c.st, Lt(avail, ln), func(fr *Frame, st *State) {
			c2 := *c
			c2.fr, c2.st = fr, st
			n := avail
			x.aliasWrite(st, reg, off, n, c.pos)
			m := x.get(st, m8, m8Sort)
			x.set(st, m8, Store(m, reg, Blit(Select(m, reg), off, SeqExtract(base, pos, n))))
			adv(st, n)
			e := c2.newErr()
			eof, uneof := extErr(st, "io.EOF"), extErr(st, "io.ErrUnexpectedEOF")
			st.assume(Eq(e.term(), Ite(Eq(n, Zero), eof, uneof)))
			c2.ret(scalar(c.rt(0), n), e)
		}, func(fr *Frame, st *State) {
			c2 := *c
			c2.fr, c2.st = fr, st
			x.aliasWrite(st, reg, off, ln, c.pos)
			m := x.get(st, m8, m8Sort)
			x.set(st, m8, Store(m, reg, Blit(Select(m, reg), off, SeqExtract(base, pos, ln))))
			adv(st, ln)
			c2.ret(scalar(c.rt(0), ln), x.zero(c.rt(1)))
		})
	}
	model("io.ReadFull", readFull)

	// ---- errors
	model("errors.Is github.com/pkg/errors.Is", func(c *CallCtx, a []*Val) {
		e, t := c.x.termsOf(c.st, a[0])[0], c.x.termsOf(c.st, a[1])[0]
		r := Fresh("erris", SBool)
		// the error values the verified code compares are not wrapped
		c.st.assume(Implies(Eq(e, t), r), Implies(Eq(e, Zero), Iff(r, Eq(t, Zero))))
		declFn("gerrname", SInt, SInt)
		c.st.assume(Implies(And(Neq(e, t), Neq(App("gerrname", SInt, e), Zero)), Not(r)))
		c.ret(scalar(c.rt(0), r))
	})
	model("github.com/pkg/errors.Unwrap errors.Unwrap github.com/pkg/errors.Cause", func(c *CallCtx, a []*Val) {
		e := Fresh("err", SInt)
		in := c.x.termsOf(c.st, a[0])[0]
		c.st.assume(Le(Zero, e), Implies(App("wrapped", SBool, in), Lt(Zero, e)), Implies(Eq(in, Zero), Eq(e, Zero)))
		c.ret(scalar(c.rt(0), e))
	})
	declFn("wrapped", SBool, SInt)

	// ---- gob: the bytes an Encode of a map writes decode to that map (gobOk, gobDom, gobVal of the bytes)
	model("encoding/gob.NewDecoder encoding/gob.NewEncoder", func(c *CallCtx, a []*Val) {
		r := c.x.allocRef(c.st)
		c.ret(&Val{T: c.rt(0), Ts: []*Term{r}, Dyn: a[0].Dyn})
	})
	declFn("gobOk", SBool, SSeq)
	gobFns := func(t types.Type, s *Term) (dom *Term, vals []*Term) {
		mt := t.Underlying().(*types.Map)
		_, ks := mapKeys(mt, t)
		name := func(p string) string { return "gobDom" + strings.NewReplacer("/", "_", "[", "_", "]", "_").Replace(p) }
		declFn(name(""), arrSort(ks, SBool), SSeq)
		dom = App(name(""), arrSort(ks, SBool), s)
		for _, l := range leaves(mt.Elem()) {
			n := "gobVal" + strings.ReplaceAll(l.Path, ".", "_")
			declFn(n, arrSort(ks, l.Sort), SSeq)
			vals = append(vals, App(n, arrSort(ks, l.Sort), s))
		}
		return
	}
	// Decode fills what its argument points to; a map decoded into stays a map
	model("(*encoding/gob.Decoder).Decode", func(c *CallCtx, a []*Val) {
		x, st := c.x, c.st
		p := a[1].Dyn
		if p == nil || !isPointer(p.T) {
			x.fail("gob.Decode of an unknown value")
		}
		x.nilCheck(st, p, c.pos)
		et := derefT(p.T)
		if _, ok := et.Underlying().(*types.Map); !ok {
			x.fail("gob.Decode of %v", et)
		}
		old := x.load(st, x.addrOf(p)).Ts[0]
		oldDom := x.mapDom(st, et, old)
		x.bumpClk(st)
		r := x.allocRef(st)
		x.havoc(st, x.mapLocs(et, r))
		v := Ite(Eq(old, Zero), r, old)
		x.havoc(st, x.mapLocs(et, old))
		x.store(st, x.addrOf(p), &Val{T: et, Ts: []*Term{v}})
		e := Fresh("err", SInt)
		st.assume(Le(Zero, e))
		if a[0].Dyn != nil {
			base, pos, avail, adv := x.readerOf(c, a[0].Dyn)
			s := base
			if pos != Zero {
				s = SeqExtract(base, pos, avail)
			}
			dom, vals := gobFns(et, s)
			st.assume(Iff(Eq(e, Zero), App("gobOk", SBool, s)))
			_, ks := mapKeys(et.Underlying().(*types.Map), et)
			same := []*Term{Eq(x.mapDom(st, et, v), dom)}
			for i, m := range x.mapVals(st, et, v) {
				same = append(same, Eq(m, vals[i]))
			}
			st.assume(Implies(And(Eq(e, Zero), Or(Eq(old, Zero), Eq(oldDom, ConstArr(arrSort(ks, SBool), False)))), And(same...)))
			adv(st, avail)
		}
		c.ret(scalar(c.rt(0), e))
	})
	model("(*encoding/gob.Encoder).Encode", func(c *CallCtx, a []*Val) {
		x, st := c.x, c.st
		v := a[1].Dyn
		s := Fresh("gob", SSeq)
		e := Fresh("err", SInt)
		st.assume(Le(Zero, e), Le(SeqLen(s), Int(maxLen)))
		if v != nil {
			if _, ok := v.T.Underlying().(*types.Map); ok {
				ref := x.termsOf(st, v)[0]
				x.accessMap(st, v.T, ref, false, c.pos)
				dom, vals := gobFns(v.T, s)
				same := []*Term{App("gobOk", SBool, s), Eq(x.mapDom(st, v.T, ref), dom)}
				for i, m := range x.mapVals(st, v.T, ref) {
					same = append(same, Eq(m, vals[i]))
				}
				st.assume(Eq(e, Zero), And(same...)) // a map of plain keys and values encodes, and the writers in use do not fail
			}
		}
		x.writeTo(c, &Val{T: types.Universe.Lookup("any").Type(), Dyn: a[0].Dyn}, s)
		c.ret(scalar(c.rt(0), e))
	})

	// ---- strconv
	declFn("atoi", SInt, SSeq)
	declFn("atoiok", SBool, SSeq)
	setLemmaHook("atoi", func(t *Term) []*Term {
		if t.Args[0].Op == "itoa" {
			return []*Term{Eq(t, t.Args[0].Args[0])}
		}
		return rangeFacts(types.Typ[types.Int64], t)
	})
	setLemmaHook("atoiok", func(t *Term) []*Term {
		if t.Args[0].Op == "itoa" {
			return []*Term{Implies(And(rangeFacts(types.Typ[types.Int64], t.Args[0].Args[0])...), t)}
		}
		return []*Term{Implies(Eq(t.Args[0], Empty), Not(t))}
	})
	model("strconv.Atoi", func(c *CallCtx, a []*Val) {
		c.x.resolve(c.st, a[0].term())
		s := a[0].term()
		ok := App("atoiok", SBool, s)
		e := Fresh("err", SInt)
		v := Fresh("atoi", SInt)
		c.st.assume(rangeFacts(c.rt(0), v)...)
		c.st.assume(Le(Zero, e), Iff(Eq(e, Zero), ok), Implies(ok, Eq(v, App("atoi", SInt, s))))
		c.ret(scalar(c.rt(0), v), scalar(c.rt(1), e))
	})
	_ = fmt.Sprint
}
