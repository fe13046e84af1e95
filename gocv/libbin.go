package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// encoding/binary, bytes.Buffer, bytes.Reader

func init() {
	for _, nn := range []int{2, 4, 8, 12, 14, 18} {
		n := nn
		be := fmt.Sprintf("be%d", 8*n)
		ub := fmt.Sprintf("u%d", 8*n)
		if nn > 10 {
			n -= 10
			be = fmt.Sprintf("le%d", 8*n)
			ub = fmt.Sprintf("lu%d", 8*n)
		}
		declFn(be, SSeq, SInt)
		declFn(ub, SInt, SSeq)
		fixedLen[be] = int64(n)
		mod := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
		setLemmaHook(be, func(t *Term) []*Term {
			a := t.Args[0]
			out := []*Term{Eq(App(ub, SInt, t), Mod(a, BigInt(mod)))}
			if a.Op != "mod" && !a.isInt() {
				out = append(out, Eq(t, App(be, SSeq, Mod(a, BigInt(mod)))))
			}
			if n == 2 && be[0] == 'b' {
				out = append(out, Eq(t, Concat(SeqUnit(Mod(Div(a, Int(256)), Int(256))), SeqUnit(Mod(a, Int(256))))))
			}
			return out
		})
		setLemmaHook(ub, func(t *Term) []*Term {
			out := []*Term{Le(Zero, t), Lt(t, BigInt(mod))}
			s := t.Args[0]
			if s.Op != be {
				out = append(out, Implies(Eq(SeqLen(s), Int(int64(n))), Eq(App(be, SSeq, t), s)))
			}
			return out
		})
	}
	declFn("be8", SSeq, SInt)

	const E = "encoding/binary"
	for _, n := range []int64{2, 4, 8} {
		n := n
		put := func(c *CallCtx, a []*Val) {
			b, v := a[len(a)-2], a[len(a)-1]
			reg, off, ln, _ := sl(b)
			c.x.oblige(c.st, "no panic", "index out of range", c.pos, Le(Int(n), ln))
			c.x.aliasWrite(c.st, reg, off, Int(n), c.pos)
			m := c.x.get(c.st, m8, m8Sort)
			c.x.set(c.st, m8, Store(m, reg, Blit(Select(m, reg), off, App(fmt.Sprintf("be%d", 8*n), SSeq, v.term()))))
			c.ret()
		}
		get := func(c *CallCtx, a []*Val) {
			b := a[len(a)-1]
			_, _, ln, _ := sl(b)
			c.x.oblige(c.st, "no panic", "index out of range", c.pos, Le(Int(n), ln))
			v := scalar(c.rt(0), App(fmt.Sprintf("u%d", 8*n), SInt, SeqExtract(c.x.content(c.st, b), Zero, Int(n))))
			c.st.assume(rangeFacts(c.rt(0), v.term())...)
			c.ret(v)
		}
		app := func(c *CallCtx, a []*Val) {
			b, v := a[len(a)-2], a[len(a)-1]
			s := App(fmt.Sprintf("be%d", 8*n), SSeq, v.term())
			src := c.x.newBytes(c.st, b.T, s)
			c.x.appendTo(c, b, src, nil)
		}
		model(fmt.Sprintf("(%s.bigEndian).PutUint%d", E, 8*n), put)
		model(fmt.Sprintf("(%s.bigEndian).Uint%d", E, 8*n), get)
		model(fmt.Sprintf("(%s.bigEndian).AppendUint%d", E, 8*n), app)
	}
	model(E+".Write", binWrite)
	model(E+".Read", binRead)

	// bytes.Buffer
	bufAddr := func(c *CallCtx, p *Val) *Addr {
		c.x.nilCheck(c.st, p, c.pos)
		return c.x.addrOf(p)
	}
	bufLoad := func(c *CallCtx, p *Val) *Term { return c.x.load(c.st, bufAddr(c, p)).term() }
	bufStore := func(c *CallCtx, p *Val, s *Term) {
		a := bufAddr(c, p)
		c.st.assume(Le(SeqLen(s), Int(maxLen)))
		c.x.store(c.st, a, &Val{T: a.T, Ts: []*Term{s}})
	}
	model("(*bytes.Buffer).Grow", func(c *CallCtx, a []*Val) {
		bufAddr(c, a[0])
		c.x.oblige(c.st, "no panic", "negative size", c.pos, Le(Zero, a[1].term()))
		c.x.allocSize(c.st, a[1].term(), c.pos)
		c.ret()
	})
	model("(*bytes.Buffer).Bytes", func(c *CallCtx, a []*Val) {
		c.ret(c.x.newBytes(c.st, c.rt(0), bufLoad(c, a[0])))
	})
	model("(*bytes.Buffer).String (*strings.Builder).String", func(c *CallCtx, a []*Val) { c.ret(scalar(c.rt(0), bufLoad(c, a[0]))) })
	model("(*bytes.Buffer).Len (*strings.Builder).Len", func(c *CallCtx, a []*Val) { c.ret(scalar(c.rt(0), SeqLen(bufLoad(c, a[0])))) })
	model("(*bytes.Buffer).Reset (*strings.Builder).Reset", func(c *CallCtx, a []*Val) { bufStore(c, a[0], Empty); c.ret() })
	model("(*strings.Builder).Grow", func(c *CallCtx, a []*Val) {
		c.x.oblige(c.st, "no panic", "negative size", c.pos, Le(Zero, a[1].term()))
		c.ret()
	})
	model("(*bytes.Buffer).Write", func(c *CallCtx, a []*Val) {
		s := c.x.content(c.st, a[1])
		bufStore(c, a[0], Concat(bufLoad(c, a[0]), s))
		c.ret(scalar(c.rt(0), a[1].Ts[2]), c.x.zero(c.rt(1)))
	})
	model("(*bytes.Buffer).WriteString (*strings.Builder).WriteString", func(c *CallCtx, a []*Val) {
		bufStore(c, a[0], Concat(bufLoad(c, a[0]), a[1].term()))
		c.ret(scalar(c.rt(0), SeqLen(a[1].term())), c.x.zero(c.rt(1)))
	})
	model("(*bytes.Buffer).WriteByte (*strings.Builder).WriteByte", func(c *CallCtx, a []*Val) {
		bufStore(c, a[0], Concat(bufLoad(c, a[0]), SeqUnit(a[1].term())))
		c.ret(c.x.zero(c.rt(0)))
	})
	model("bytes.NewBuffer", func(c *CallCtx, a []*Val) {
		p := c.x.alloc(c.st, c.rt(0))
		p.T = c.rt(0)
		bufStore(c, p, c.x.content(c.st, a[0]))
		c.ret(p)
	})
	model("bytes.NewReader", func(c *CallCtx, a []*Val) {
		p := c.x.alloc(c.st, c.rt(0))
		p.T = c.rt(0)
		ad := c.x.addrOf(p)
		c.x.store(c.st, ad, &Val{T: ad.T, Ts: a[0].Ts[:3]})
		c.ret(p)
	})
	model("(*bytes.Reader).Len", func(c *CallCtx, a []*Val) {
		c.ret(scalar(c.rt(0), c.x.loadRaw(c.st, c.x.addrOf(a[0])).Ts[2]))
	})
	model("bytes.Equal", func(c *CallCtx, a []*Val) {
		c.ret(scalar(c.rt(0), Eq(c.x.content(c.st, a[0]), c.x.content(c.st, a[1]))))
	})
}

func typeNamed(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok && strings.HasPrefix(name, "*") {
		return namedKey(p.Elem()) == name[1:]
	}
	return namedKey(t) == name
}

// order is "b" or "l" for the two byte orders, "" for an unknown one.
func byteOrder(order *Val) string {
	switch {
	case order.Dyn == nil:
		return ""
	case typeNamed(order.Dyn.T, "encoding/binary.bigEndian"):
		return "b"
	case typeNamed(order.Dyn.T, "encoding/binary.littleEndian"):
		return "l"
	}
	return ""
}

func encName(ord string, n int64) string { return fmt.Sprintf("%se%d", ord, 8*n) }
func decName(ord string, n int64) string {
	if ord == "l" {
		return fmt.Sprintf("lu%d", 8*n)
	}
	return fmt.Sprintf("u%d", 8*n)
}

// binSize is encoding/binary's size of a fixed-size type, -1 if it has none.
func binSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
		return -1
	case *types.Array:
		if n := binSize(u.Elem()); n >= 0 {
			return n * u.Len()
		}
		return -1
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			m := binSize(u.Field(i).Type())
			if m < 0 {
				return -1
			}
			n += m
		}
		return n
	}
	return -1
}

func (x *Exec) encFixed(ord string, t types.Type, ts []*Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch n := binSize(t); {
		case u.Kind() == types.Bool:
			return SeqUnit(Ite(ts[0], One, Zero))
		case u.Info()&types.IsInteger == 0:
			x.fail("binary encoding of %v", t)
		case n == 1:
			return SeqUnit(Mod(ts[0], Int(256)))
		default:
			if ts[0].isInt() {
				v := new(big.Int).Mod(ts[0].I, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
				b := make([]byte, n)
				v.FillBytes(b)
				if ord == "l" {
					for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
						b[i], b[j] = b[j], b[i]
					}
				}
				return SeqLit(string(b))
			}
			return App(encName(ord, n), SSeq, ts[0])
		}
	case *types.Array:
		if isByte(u.Elem()) {
			return App("ba2s", SSeq, ts[0])
		}
	case *types.Struct:
		out := Empty
		at := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			k := len(leaves(ft))
			out = Concat(out, x.encFixed(ord, ft, ts[at:at+k]))
			at += k
		}
		return out
	}
	x.fail("binary encoding of %v", t)
	return nil
}

// decFixed are the leaves of a fixed-size value at offset off of s.
func (x *Exec) decFixed(ord string, t types.Type, s, off *Term) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := binSize(t)
		switch {
		case u.Kind() == types.Bool:
			return []*Term{Neq(SeqNth(s, off), Zero)}
		case u.Info()&types.IsInteger == 0:
			x.fail("binary decoding of %v", t)
		case n == 1:
			return []*Term{wrap(SeqNth(s, off), t)}
		default:
			return []*Term{wrap(App(decName(ord, n), SInt, SeqExtract(s, off, Int(n))), t)}
		}
	case *types.Array:
		if isByte(u.Elem()) {
			return []*Term{App("s2ba", SBA, SeqExtract(s, off, Int(u.Len())))}
		}
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			out = append(out, x.decFixed(ord, ft, s, off)...)
			off = Add(off, Int(binSize(ft)))
		}
		return out
	}
	x.fail("binary decoding of %v", t)
	return nil
}

// recsName names the encoding of a slice of fixed-size records by its wire format.
func recsFormat(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return fmt.Sprint(binSize(t))
	case *types.Array:
		if isByte(u.Elem()) {
			return fmt.Sprintf("b%d", u.Len())
		}
	case *types.Struct:
		s := ""
		for i := 0; i < u.NumFields(); i++ {
			s += recsFormat(u.Field(i).Type())
		}
		return s
	}
	return "x"
}

// encAny is what binary.Write(BigEndian) produces for data.
func (x *Exec) encAny(c *CallCtx, ord string, d *Val) *Term {
	st := c.st
	t := d.T
	if p, ok := t.Underlying().(*types.Pointer); ok && binSize(p.Elem()) >= 0 {
		x.nilCheck(st, d, c.pos)
		v := x.load(st, x.addrOf(d))
		return x.encFixed(ord, p.Elem(), x.termsOf(st, v))
	}
	if binSize(t) >= 0 {
		return x.encFixed(ord, t, x.termsOf(st, d))
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if isByte(s.Elem()) {
			return x.content(st, d)
		}
		if n := binSize(s.Elem()); n > 0 && ord == "b" {
			name := "recs_" + recsFormat(s.Elem())
			reg, off, ln, _ := sl(d)
			var args []*Term
			var sorts []string
			for _, l := range leaves(s.Elem()) {
				m := x.get(st, "M|"+elemKey(s.Elem())+"||"+l.Path, arrSort(SInt, arrSort(SInt, l.Sort)))
				args = append(args, Select(m, reg))
				sorts = append(sorts, arrSort(SInt, l.Sort))
			}
			declFn(name, SSeq, append(sorts, SInt, SInt)...)
			r := App(name, SSeq, append(args, off, ln)...)
			st.assume(Eq(SeqLen(r), Mul(Int(n), ln)))
			return r
		}
	}
	return nil
}

// writeTo appends bytes to a writer; err is the error result (nil when the writer cannot fail).
func (x *Exec) writeTo(c *CallCtx, w *Val, s *Term) (err *Term) {
	st := c.st
	if w.Dyn != nil {
		a := x.addrOf(w.Dyn)
		switch {
		case typeNamed(w.Dyn.T, "*bytes.Buffer"):
			x.nilCheck(st, w.Dyn, c.pos)
			v := x.load(st, a)
			n := Concat(v.term(), s)
			st.assume(Le(SeqLen(n), Int(maxLen)))
			x.store(st, a, &Val{T: a.T, Ts: []*Term{n}})
			return Zero
		case typeNamed(w.Dyn.T, "*bufio.Writer"):
			// over a bytes.Buffer (NewWriter accepts nothing else): no write fails
			x.nilCheck(st, w.Dyn, c.pos)
			v := x.load(st, a)
			n := Concat(v.Ts[0], s)
			st.assume(Le(SeqLen(n), Int(maxLen)))
			x.store(st, a, &Val{T: a.T, Ts: []*Term{n, v.Ts[1]}})
			return Zero
		}
	}
	x.fail("write to an unknown writer")
	return nil
}

func binWrite(c *CallCtx, a []*Val) {
	x := c.x
	ord := byteOrder(a[1])
	if ord == "" {
		x.fail("binary.Write with an unknown byte order")
	}
	if a[2].Dyn == nil {
		x.fail("binary.Write of a value of unknown type")
	}
	s := x.encAny(c, ord, a[2].Dyn)
	if s == nil {
		// not a fixed-size value: nothing is written and an error is returned
		c.ret(c.newErr())
		return
	}
	e := x.writeTo(c, a[0], s)
	c.ret(scalar(c.rt(0), e))
}

func binRead(c *CallCtx, a []*Val) {
	x := c.x
	ord := byteOrder(a[1])
	if ord == "" {
		x.fail("binary.Read with an unknown byte order")
	}
	d := a[2].Dyn
	if d == nil || a[0].Dyn == nil {
		x.fail("binary.Read of an unknown reader or value")
	}
	base, pos, avail, advance := x.readerOf(c, a[0].Dyn)
	var size *Term
	var fin func(st *State)
	setFixed := func(st *State, ad *Addr, t types.Type) {
		ts := x.decFixed(ord, t, base, pos)
		for i, l := range leaves(t) {
			if l.T != nil && isIntT(l.T) {
				st.assume(rangeFacts(l.T, ts[i])...)
			}
		}
		x.store(st, ad, &Val{T: t, Ts: ts})
	}
	sliceOf := func(v *Val) bool {
		s, ok := v.T.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		reg, off, ln, _ := sl(v)
		if isByte(s.Elem()) {
			size = ln
			fin = func(st *State) {
				x.aliasWrite(st, reg, off, ln, c.pos)
				m := x.get(st, m8, m8Sort)
				x.set(st, m8, Store(m, reg, Blit(Select(m, reg), off, SeqExtract(base, pos, ln))))
			}
			return true
		}
		n := binSize(s.Elem())
		if n < 0 {
			return false
		}
		size = Mul(Int(n), ln)
		fin = func(st *State) {
			i := BVar("ri", SInt)
			ts := x.decFixed(ord, s.Elem(), base, Add(pos, Mul(Int(n), Sub(i, off))))
			for k, l := range leaves(s.Elem()) {
				key := "M|" + elemKey(s.Elem()) + "||" + l.Path
				m := x.get(st, key, arrSort(SInt, arrSort(SInt, l.Sort)))
				f := Fresh("rd", arrSort(SInt, l.Sort))
				sel := mk("select", "", l.Sort, []*Term{f, i})
				st.assume(Quant("forall", []*Term{i}, [][]*Term{{sel}}, Eq(sel, Ite(And(Le(off, i), Lt(i, Add(off, ln))), ts[k], Select(Select(m, reg), i)))))
				x.set(st, key, Store(m, reg, f))
			}
		}
		return true
	}
	if p, ok := d.T.Underlying().(*types.Pointer); ok {
		x.nilCheck(c.st, d, c.pos)
		if n := binSize(p.Elem()); n >= 0 {
			size = Int(n)
			fin = func(st *State) { setFixed(st, x.addrOf(d), p.Elem()) }
		} else if _, ok := p.Elem().Underlying().(*types.Slice); ok {
			sliceOf(x.load(c.st, x.addrOf(d)))
		}
	} else {
		sliceOf(d)
	}
	if fin == nil {
		c.ret(c.newErr()) // not a fixed-size target
		return
	}
	short := And(Lt(avail, size), Gt(size, Zero))
	x.branch(c.fr, c.st, short, func(fr *Frame, st *State) {
		c2 := *c
		c2.fr, c2.st = fr, st
		advance(st, avail)
		e := c2.newErr()
		// io.EOF if nothing was left, io.ErrUnexpectedEOF otherwise
		eof, uneof := extErr(st, "io.EOF"), extErr(st, "io.ErrUnexpectedEOF")
		st.assume(Eq(e.term(), Ite(Eq(avail, Zero), eof, uneof)))
		c2.ret(e)
	}, func(fr *Frame, st *State) {
		c2 := *c
		c2.fr, c2.st = fr, st
		fin(st)
		advance(st, size)
		c2.ret(x.zero(c.rt(0)))
	})
}

// readerOf gives the unread bytes of a reader (those of base from pos, avail many) and how to consume some of them.
func (x *Exec) readerOf(c *CallCtx, r *Val) (base, pos, avail *Term, advance func(st *State, n *Term)) {
	x.nilCheck(c.st, r, c.pos)
	rd := x.addrOf(r)
	switch {
	case typeNamed(r.T, "*bytes.Reader"):
		cur := x.loadRaw(c.st, rd).Ts
		m := x.get(c.st, m8, m8Sort)
		rest := Sq(Select(m, cur[0]), cur[1], cur[2])
		c.st.assume(Eq(SeqLen(rest), cur[2]))
		return rest, Zero, cur[2], func(st *State, n *Term) {
			x.store(st, rd, &Val{T: rd.T, Ts: []*Term{cur[0], Add(cur[1], n), Sub(cur[2], n)}})
		}
	case typeNamed(r.T, "*bufio.Reader"):
		cur := x.loadRaw(c.st, rd).Ts
		c.st.assume(Le(Zero, cur[1]), Le(cur[1], SeqLen(cur[0])))
		return cur[0], cur[1], Sub(SeqLen(cur[0]), cur[1]), func(st *State, n *Term) {
			x.store(st, rd, &Val{T: rd.T, Ts: []*Term{cur[0], Add(cur[1], n)}})
		}
	case typeNamed(r.T, "*bytes.Buffer"):
		rest := x.loadRaw(c.st, rd).Ts[0]
		return rest, Zero, SeqLen(rest), func(st *State, n *Term) {
			nr := SeqExtract(rest, n, Sub(SeqLen(rest), n))
			x.store(st, rd, &Val{T: rd.T, Ts: []*Term{nr}})
		}
	}
	x.fail("read from an unknown reader %v", r.T)
	return
}
