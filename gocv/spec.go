package main

// Evaluation of specification expressions, contracts at call sites, frames.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Env struct {
	x            *Exec
	st, old, pre *State
	sink         *State
	vars         map[string]*Val
	nb           int
	depth        int
	iters        map[string]*MapIter
}

func lv(t *Term) *Val { return &Val{Ts: []*Term{t}} }

var nilVal = &Val{Ts: []*Term{Zero}}

func (e *Env) err(ex *Expr, f string, a ...any) {
	panic(specErr{ex.at + ": " + fmt.Sprintf(f, a...)})
}

func (e *Env) with(vars map[string]*Val) *Env {
	n := *e
	n.vars = make(map[string]*Val, len(e.vars)+len(vars))
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func (e *Env) at(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) bool(ex *Expr) *Term {
	v := e.eval(ex)
	t := e.one(ex, v)
	if t.Sort != SBool {
		e.err(ex, "boolean expected, got %s", t.Sort)
	}
	return t
}

func (e *Env) one(ex *Expr, v *Val) *Term {
	ts := e.x.termsOf(e.sink, v)
	if len(ts) != 1 {
		e.err(ex, "scalar expected, got %v with %d leaves", v.T, len(ts))
	}
	return ts[0]
}

func (e *Env) term(ex *Expr) *Term { return e.one(ex, e.eval(ex)) }

// seq coerces to a byte sequence.
func (e *Env) seq(ex *Expr, v *Val) *Term {
	if v.T != nil && isByteSlice(v.T) {
		s := e.x.content(e.st, v)
		if s.free == 0 {
			e.sink.assume(Eq(SeqLen(s), v.Ts[2]))
		}
		return s
	}
	if v.T != nil {
		if n, ok := isByteArray(v.T); ok {
			s := App("ba2s", SSeq, v.term())
			if s.free == 0 {
				e.sink.assume(Eq(SeqLen(s), Int(n)))
			}
			return s
		}
		if k := namedKey(v.T); k == "bytes.Buffer" || k == "strings.Builder" {
			return v.Ts[0]
		}
	}
	t := e.one(ex, v)
	switch t.Sort {
	case SSeq:
		e.x.resolve(e.sink, t)
		return t
	case SBA:
		return App("ba2s", SSeq, t)
	}
	e.err(ex, "byte sequence expected, got %s", t.Sort)
	return nil
}

func (e *Env) facts(v *Val) *Val {
	for _, t := range v.Ts {
		if t.free != 0 {
			if v.T != nil && len(v.Ts) == 1 && t.Op == "select" && t.Args[0].free == 0 && t.Args[1].Sort == SInt && t.Args[0].Op != "store" {
				switch v.T.Underlying().(type) {
				case *types.Pointer, *types.Map:
					rv := BVar("rr", SInt)
					s := mk("select", "", t.Sort, []*Term{t.Args[0], rv})
					clk := e.x.clk(e.sink)
					if f := typeFacts(v.T, []*Term{s}, clk); len(f) > 0 {
						e.sink.assume(Quant("forall", []*Term{rv}, [][]*Term{{s}}, Implies(Lt(rv, clk), And(f...))))
					}
				}
			}
			return v
		}
	}
	if v.T != nil {
		e.x.loadedFacts(e.sink, v.T, v.Ts)
	}
	return v
}

// mapFacts: every stored value of a map is a value of its type, also at a quantified key.
func (e *Env) mapFacts(v *Val) {
	if len(v.Ts) == 0 || v.T == nil {
		return
	}
	switch v.T.Underlying().(type) {
	case *types.Basic, *types.Pointer:
	default:
		return
	}
	t := v.Ts[0]
	if t.free == 0 || t.Op != "select" || t.Args[0].Op == "store" {
		return
	}
	clk := e.x.clk(e.sink)
	if a := t.Args[0]; a.free != 0 {
		if a.Op != "select" || a.Args[0].free != 0 || a.Args[1].Sort != SInt {
			return
		}
		mv, kv := BVar("mm", SInt), BVar("mk", t.Args[1].Sort)
		s := mk("select", "", v.Ts[0].Sort, []*Term{mk("select", "", a.Sort, []*Term{a.Args[0], mv}), kv})
		if f := typeFacts(v.T, []*Term{s}, clk); len(f) > 0 {
			e.sink.assume(Quant("forall", []*Term{mv, kv}, [][]*Term{{s}}, Implies(Lt(mv, clk), And(f...))))
		}
		return
	}
	kv := BVar("mk", t.Args[1].Sort)
	s := Select(t.Args[0], kv)
	f := typeFacts(v.T, []*Term{s}, e.x.clk(e.sink))
	if len(f) == 0 || s.Op != "select" {
		return
	}
	e.sink.assume(Quant("forall", []*Term{kv}, [][]*Term{{s}}, And(f...)))
}

func (e *Env) loadAddr(a *Addr) *Val {
	return e.facts(e.x.loadRaw(e.st, a))
}

func (e *Env) field(ex *Expr, b *Val, name string) *Val {
	x := e.x
	if b.T == nil {
		e.err(ex, "field %s of a logic value", name)
	}
	if strings.HasPrefix(name, "#") {
		t := b.T
		var ref *Term
		if isPointer(t) {
			a := x.addrOf(b)
			t = a.T
			ref = a.Ref
			if a.Path != "" {
				// ghost field of an embedded component
				for _, g := range x.P.ghostFields[typeKey(t)] {
					if g.name == name[1:] {
						return lv(Select(x.get(e.st, a.Root+"|"+a.Path+name, arrSort(SInt, g.sort)), ref))
					}
				}
			}
		} else {
			e.err(ex, "ghost field of a non-pointer")
		}
		for _, g := range x.P.ghostFields[typeKey(t)] {
			if g.name == name[1:] {
				return lv(Select(x.get(e.st, "F|"+typeKey(t)+"|"+name, arrSort(SInt, g.sort)), ref))
			}
		}
		e.err(ex, "no ghost field %s of %v", name, t)
	}
	if isInterface(b.T) && b.Dyn != nil {
		b = b.Dyn
	}
	obj, path, _ := types.LookupFieldOrMethod(b.T, true, x.P.anyPkg(b.T), name)
	if obj == nil {
		// a component of a modelled library type
		v := b
		if isPointer(b.T) {
			v = x.loadRaw(e.st, x.addrOf(b))
		}
		for i, l := range leaves(v.T) {
			if l.Path == "."+name && i < len(v.Ts) {
				return lv(v.Ts[i])
			}
		}
		e.err(ex, "no field %s in %v", name, b.T)
	}
	if _, ok := obj.(*types.Var); !ok {
		e.err(ex, "%s is not a field", name)
	}
	for _, ix := range path {
		if isPointer(b.T) {
			stt := derefT(b.T).Underlying().(*types.Struct)
			f := stt.Field(ix)
			a := *x.addrOf(b)
			if a.Idx != nil {
				a.Sub += "." + f.Name()
			} else {
				a.Path += "." + f.Name()
			}
			a.T = f.Type()
			// keep as address when a struct, so that pointers to it can be formed
			if _, isS := f.Type().Underlying().(*types.Struct); isS && ix != path[len(path)-1] {
				b = &Val{T: types.NewPointer(f.Type()), A: &a}
				continue
			}
			b = e.loadAddr(&a)
			continue
		}
		stt := b.T.Underlying().(*types.Struct)
		lo, n := leafRange(b.T, ix)
		b = &Val{T: stt.Field(ix).Type(), Ts: b.Ts[lo : lo+n]}
	}
	return b
}

// addrExpr evaluates a location.
func (e *Env) addrExpr(ex *Expr) *Addr {
	x := e.x
	switch ex.op {
	case "field":
		if g := e.globalOf(ex); g != nil {
			return &Addr{Root: "G|" + globalName(g), Ref: Zero, T: derefT(g.Type())}
		}
		var a Addr
		base := e.eval(ex.args[0])
		if base.T != nil && isPointer(base.T) {
			a = *x.addrOf(base)
		} else {
			a = *e.addrExpr(ex.args[0])
		}
		if strings.HasPrefix(ex.name, "#") {
			a.Path += "." + ex.name
			a.T = nil
			return &a
		}
		obj, path, _ := types.LookupFieldOrMethod(a.T, true, x.P.anyPkg(a.T), ex.name)
		if obj == nil {
			e.err(ex, "no field %s in %v", ex.name, a.T)
		}
		t := a.T
		for _, ix := range path {
			f := t.Underlying().(*types.Struct).Field(ix)
			if a.Idx != nil {
				a.Sub += "." + f.Name()
			} else {
				a.Path += "." + f.Name()
			}
			t = f.Type()
		}
		a.T = t
		return &a
	case "un":
		if ex.name == "*" {
			return x.addrOf(e.eval(ex.args[0]))
		}
	case "index":
		b := e.eval(ex.args[0])
		if s, ok := b.T.Underlying().(*types.Slice); ok {
			return &Addr{Root: "M|" + elemKey(s.Elem()), Ref: b.Ts[0], Idx: Add(b.Ts[1], e.term(ex.args[1])), T: s.Elem()}
		}
	case "id":
		if v, ok := e.vars[ex.name]; ok && v.T != nil && isPointer(v.T) {
			if v.Captured {
				if !isPointer(derefT(v.T)) {
					return x.addrOf(v)
				}
				v = e.loadAddr(x.addrOf(v))
			}
			return x.addrOf(v)
		}
	}
	e.err(ex, "not a location")
	return nil
}

func (e *Env) globalOf(ex *Expr) *ssa.Global {
	if ex.op != "field" || ex.args[0].op != "id" {
		return nil
	}
	if _, ok := e.vars[ex.args[0].name]; ok {
		return nil
	}
	p := e.x.P.pkgs[ex.args[0].name]
	if p == nil {
		return nil
	}
	g, _ := p.Members[ex.name].(*ssa.Global)
	return g
}

func (e *Env) eval(ex *Expr) *Val {
	x := e.x
	switch ex.op {
	case "int":
		return lv(BigInt(ex.num))
	case "str":
		return lv(SeqLit(ex.name))
	case "id":
		if v, ok := e.vars[ex.name]; ok {
			if v.Captured {
				return e.loadAddr(x.addrOf(v))
			}
			return v
		}
		switch ex.name {
		case "true":
			return lv(True)
		case "false":
			return lv(False)
		case "nil":
			return nilVal
		case "empty":
			return lv(Empty)
		}
		if s, ok := x.P.ghosts[ex.name]; ok {
			return lv(x.get(e.st, "ghost|"+ex.name, s))
		}
		if m, ok := x.P.macros[ex.name]; ok && len(m.params) == 0 {
			return e.macro(ex, m, nil)
		}
		e.err(ex, "unknown name %s", ex.name)
	case "un":
		switch ex.name {
		case "!":
			return lv(Not(e.bool(ex.args[0])))
		case "-":
			return lv(Neg(e.term(ex.args[0])))
		case "*":
			v := e.eval(ex.args[0])
			return e.loadAddr(x.addrOf(v))
		}
	case "field":
		if g := e.globalOf(ex); g != nil {
			if v := x.P.globalValue(x, e.sink, g); v != nil {
				return v
			}
			return e.loadAddr(&Addr{Root: "G|" + globalName(g), Ref: Zero, T: derefT(g.Type())})
		}
		if ex.args[0].op == "id" {
			if _, isVar := e.vars[ex.args[0].name]; !isVar {
				if p := x.P.pkgs[ex.args[0].name]; p != nil {
					if c, ok := p.Members[ex.name].(*ssa.NamedConst); ok {
						return x.constVal(e.st, c.Value)
					}
					e.err(ex, "no member %s in package %s", ex.name, ex.args[0].name)
				}
			}
		}
		return e.field(ex, e.eval(ex.args[0]), ex.name)
	case "index":
		b := e.eval(ex.args[0])
		iv := e.eval(ex.args[1])
		if b.T == nil {
			t := b.term()
			if strings.HasPrefix(t.Sort, "(Array") {
				return lv(Select(t, e.one(ex, iv)))
			}
			return lv(SeqNth(t, e.one(ex, iv)))
		}
		switch u := b.T.Underlying().(type) {
		case *types.Slice:
			return e.loadAddr(&Addr{Root: "M|" + elemKey(u.Elem()), Ref: b.Ts[0], Idx: Add(b.Ts[1], e.one(ex, iv)), T: u.Elem()})
		case *types.Map:
			k := e.one(ex, iv)
			_, v := x.lookupMap(e.st, b.T, b.term(), k)
			e.mapFacts(v)
			return e.facts(v)
		case *types.Basic:
			return lv(SeqNth(b.term(), e.one(ex, iv)))
		case *types.Array:
			if isByte(u.Elem()) {
				return lv(SeqNth(App("ba2s", SSeq, b.term()), e.one(ex, iv)))
			}
			r := &Val{T: u.Elem()}
			for _, t := range b.Ts {
				r.Ts = append(r.Ts, Select(t, e.one(ex, iv)))
			}
			return e.facts(r)
		}
		e.err(ex, "index of %v", b.T)
	case "let":
		v := e.eval(ex.args[0])
		return e.with(map[string]*Val{ex.name: v}).eval(ex.args[1])
	case "forall", "exists":
		return lv(e.quant(ex))
	case "bin":
		return lv(e.bin(ex))
	case "call":
		return e.callExpr(ex)
	}
	e.err(ex, "cannot evaluate %s %s", ex.op, ex.name)
	return nil
}

func (e *Env) quant(ex *Expr) *Term {
	vars := map[string]*Val{}
	var bs []*Term
	n := *e
	for _, b := range ex.bnd {
		if t := e.x.P.goType(b.typ); t != nil && !isSortName(b.typ) {
			v := &Val{T: t}
			for i, l := range leaves(t) {
				bv := BVar(fmt.Sprintf("%s_%d_%d", b.name, n.nb, i), l.Sort)
				v.Ts = append(v.Ts, bv)
				bs = append(bs, bv)
			}
			n.nb++
			vars[b.name] = v
			continue
		}
		bv := BVar(fmt.Sprintf("%s_%d", b.name, n.nb), e.x.P.sortName(b.typ))
		n.nb++
		vars[b.name] = lv(bv)
		bs = append(bs, bv)
	}
	en := n.with(vars)
	body := en.bool(ex.args[0])
	var pats [][]*Term
	for _, tr := range ex.trig {
		var p []*Term
		for _, t := range tr {
			for _, u := range patTerms(en.term(t), bs) {
				dup := false
				for _, w := range p {
					dup = dup || w == u
				}
				if !dup {
					p = append(p, u)
				}
			}
		}
		if len(p) > 0 {
			pats = append(pats, p)
		}
	}
	if len(pats) == 0 {
		for _, b := range bs {
			if b.Sort == SInt {
				body = reindex(b, bs, body)
			}
		}
		if len(bs) == 1 {
			pats = selPats(bs[0], body)
		}
	}
	return Quant(ex.op, bs, pats, body)
}

// patTerms looks through connectives for the terms a solver can match on.
func patTerms(t *Term, bs []*Term) []*Term {
	some := false
	for _, b := range bs {
		some = some || mentions(t, b)
	}
	if !some {
		return nil
	}
	switch t.Op {
	case "and", "or", "not", "=", "=>", "ite", "+", "-", "<=", "<":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, patTerms(a, bs)...)
		}
		return out
	}
	return []*Term{t}
}

// reindex replaces b by b-rest when arrays are only read at b+rest, so that reads are usable as triggers.
func reindex(b *Term, bs []*Term, body *Term) *Term {
	var rest *Term
	ok, found := true, false
	collectAll(body, map[*Term]bool{}, func(t *Term) {
		if t.Op != "select" || !mentions(t.Args[1], b) {
			return
		}
		if t.Args[1].Sort != SInt {
			return
		}
		l := toLin(t.Args[1])
		k := l.ts[b]
		if k == nil || !k.IsInt64() || k.Int64() != 1 {
			ok = false
			return
		}
		delete(l.ts, b)
		r := l.term()
		for _, o := range bs {
			if mentions(r, o) {
				ok = false
			}
		}
		if found && rest != r {
			ok = false
		}
		rest, found = r, true
	})
	if !ok || !found || rest == Zero {
		return body
	}
	return Subst(body, map[*Term]*Term{b: Sub(b, rest)})
}

func selPats(b *Term, body *Term) [][]*Term {
	var out [][]*Term
	collectAll(body, map[*Term]bool{}, func(t *Term) {
		if t.Op == "select" && t.Args[1] == b && !mentions(t.Args[0], b) && len(out) < 6 {
			out = append(out, []*Term{t})
		}
	})
	return out
}

func collectAll(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		collectAll(a, seen, f)
	}
	f(t)
}

func (e *Env) isNil(ex *Expr, v *Val) *Term {
	if v.Dyn != nil || v.A != nil || v.Fn != nil {
		return False
	}
	return Eq(v.Ts[0], Zero)
}

func (e *Env) eq(ex *Expr, a, b *Val) *Term {
	if a == nilVal {
		return e.isNil(ex, b)
	}
	if b == nilVal {
		return e.isNil(ex, a)
	}
	ta, tb := e.x.termsOf(e.sink, a), e.x.termsOf(e.sink, b)
	if len(ta) == 1 && len(tb) == 1 && ta[0].Sort != tb[0].Sort {
		return Eq(e.seq(ex, a), e.seq(ex, b))
	}
	if len(ta) != len(tb) {
		e.err(ex, "comparison of %v (%d) and %v (%d)", a.T, len(ta), b.T, len(tb))
	}
	e.x.resolve(e.sink, ta...)
	e.x.resolve(e.sink, tb...)
	var cs []*Term
	for i := range ta {
		cs = append(cs, Eq(ta[i], tb[i]))
	}
	return And(cs...)
}

func (e *Env) bin(ex *Expr) *Term {
	switch ex.name {
	case "&&":
		return And(e.bool(ex.args[0]), e.bool(ex.args[1]))
	case "||":
		return Or(e.bool(ex.args[0]), e.bool(ex.args[1]))
	case "==>":
		return Implies(e.bool(ex.args[0]), e.bool(ex.args[1]))
	case "<==>":
		return Iff(e.bool(ex.args[0]), e.bool(ex.args[1]))
	case "==":
		return e.eq(ex, e.eval(ex.args[0]), e.eval(ex.args[1]))
	case "!=":
		return Not(e.eq(ex, e.eval(ex.args[0]), e.eval(ex.args[1])))
	case "++":
		return Concat(e.seq(ex, e.eval(ex.args[0])), e.seq(ex, e.eval(ex.args[1])))
	}
	a, b := e.term(ex.args[0]), e.term(ex.args[1])
	if a.Sort != SInt || b.Sort != SInt {
		e.err(ex, "integers expected for %s, got %s and %s", ex.name, a.Sort, b.Sort)
	}
	switch ex.name {
	case "<":
		return Lt(a, b)
	case "<=":
		return Le(a, b)
	case ">":
		return Gt(a, b)
	case ">=":
		return Ge(a, b)
	case "+":
		return Add(a, b)
	case "-":
		return Sub(a, b)
	case "*":
		return Mul(a, b)
	case "/":
		return Div(a, b)
	case "%":
		return Mod(a, b)
	}
	e.err(ex, "operator %s", ex.name)
	return nil
}

func (e *Env) macro(ex *Expr, m *Macro, args []*Val) *Val {
	if len(args) != len(m.params) {
		e.err(ex, "%s takes %d arguments", m.name, len(m.params))
	}
	n := *e
	n.depth++
	if n.depth > 60 {
		e.err(ex, "macro recursion")
	}
	n.vars = map[string]*Val{}
	for i, p := range m.params {
		n.vars[p] = args[i]
	}
	return n.eval(m.body)
}

func (e *Env) iter(ex *Expr, a *Expr) *MapIter {
	v := e.eval(a)
	if v.It == nil {
		e.err(ex, "iterator expected")
	}
	return v.It
}

func (e *Env) callExpr(ex *Expr) *Val {
	x := e.x
	if m, ok := x.P.macros[ex.name]; ok {
		var args []*Val
		for _, a := range ex.args {
			args = append(args, e.eval(a))
		}
		return e.macro(ex, m, args)
	}
	need := func(n int) {
		if len(ex.args) != n {
			e.err(ex, "%s takes %d arguments", ex.name, n)
		}
	}
	switch ex.name {
	case "old":
		need(1)
		return e.at(e.old).eval(ex.args[0])
	case "pre":
		need(1)
		if e.pre == nil {
			e.err(ex, "pre outside a loop invariant")
		}
		return e.at(e.pre).eval(ex.args[0])
	case "len":
		v := e.eval(ex.args[0])
		if v.T == nil {
			return lv(SeqLen(e.seq(ex, v)))
		}
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			return lv(v.Ts[2])
		case *types.Map:
			return lv(card(x.mapDom(e.st, v.T, v.term())))
		case *types.Array:
			return lv(Int(u.Len()))
		}
		return lv(SeqLen(e.seq(ex, v)))
	case "cap":
		return lv(e.eval(ex.args[0]).Ts[3])
	case "reg":
		return lv(e.eval(ex.args[0]).Ts[0])
	case "off":
		return lv(e.eval(ex.args[0]).Ts[1])
	case "ref":
		v := e.eval(ex.args[0])
		if v.A != nil && len(v.Ts) == 0 {
			return lv(v.A.Ref)
		}
		return lv(v.Ts[0])
	case "heap8": // all byte regions
		return lv(x.get(e.st, m8, m8Sort))
	case "arrmem": // the region of a slice: arrmem(s) or arrmem(s, leaf)
		v := e.eval(ex.args[0])
		leaf := ""
		if len(ex.args) > 1 {
			leaf = "." + ex.args[1].name
		}
		if a, ok := v.T.Underlying().(*types.Array); ok {
			for i, l := range leaves(a.Elem()) {
				if l.Path == leaf {
					return lv(x.termsOf(e.st, v)[i])
				}
			}
			e.err(ex, "no leaf %s", leaf)
		}
		et := v.T.Underlying().(*types.Slice).Elem()
		for _, l := range leaves(et) {
			if l.Path == leaf {
				return lv(Select(x.get(e.st, "M|"+elemKey(et)+"||"+leaf, arrSort(SInt, arrSort(SInt, l.Sort))), v.Ts[0]))
			}
		}
		e.err(ex, "no leaf %s", leaf)
	case "mem": // the byte array of a slice's region
		v := e.eval(ex.args[0])
		return lv(Select(x.get(e.st, m8, m8Sort), v.Ts[0]))
	case "content", "bytes":
		return lv(e.seq(ex, e.eval(ex.args[0])))
	case "s2ba":
		return lv(App("s2ba", SBA, e.seq(ex, e.eval(ex.args[0]))))
	case "sub":
		need(3)
		return lv(SeqExtract(e.seq(ex, e.eval(ex.args[0])), e.term(ex.args[1]), e.term(ex.args[2])))
	case "nth":
		return lv(SeqNth(e.seq(ex, e.eval(ex.args[0])), e.term(ex.args[1])))
	case "unit":
		return lv(SeqUnit(e.term(ex.args[0])))
	case "ite":
		need(3)
		c := e.bool(ex.args[0])
		a, b := e.eval(ex.args[1]), e.eval(ex.args[2])
		ta, tb := x.termsOf(e.sink, a), x.termsOf(e.sink, b)
		r := &Val{T: a.T}
		if a.T == nil {
			r.T = b.T
		}
		for i := range ta {
			r.Ts = append(r.Ts, Ite(c, ta[i], tb[i]))
		}
		return r
	case "has":
		need(2)
		m := e.eval(ex.args[0])
		ok, _ := x.lookupMap(e.st, m.T, m.term(), e.term(ex.args[1]))
		return lv(ok)
	case "in": // in(dom, k)
		return lv(Select(e.term(ex.args[0]), e.term(ex.args[1])))
	case "dom":
		m := e.eval(ex.args[0])
		return lv(x.mapDom(e.st, m.T, m.term()))
	case "vals":
		m := e.eval(ex.args[0])
		vs := x.mapVals(e.st, m.T, m.term())
		if len(ex.args) > 1 { // a leaf of the values
			for i, l := range leaves(m.T.Underlying().(*types.Map).Elem()) {
				if l.Path == "."+ex.args[1].name {
					return lv(vs[i])
				}
			}
			e.err(ex, "no leaf %s", ex.args[1].name)
		}
		if len(vs) != 1 {
			e.err(ex, "vals of a map with %d value leaves", len(vs))
		}
		return lv(vs[0])
	case "card":
		v := e.eval(ex.args[0])
		if v.T != nil {
			return lv(card(x.mapDom(e.st, v.T, v.term())))
		}
		return lv(card(v.term()))
	case "sel":
		return lv(Select(e.term(ex.args[0]), e.term(ex.args[1])))
	case "upd":
		return lv(Store(e.term(ex.args[0]), e.term(ex.args[1]), e.term(ex.args[2])))
	case "arr":
		t := x.P.mustType(ex, ex.typ)
		p := ex.args[0].name
		if strings.HasPrefix(p, "#") {
			for _, g := range x.P.ghostFields[typeKey(t)] {
				if g.name == p[1:] {
					return lv(x.get(e.st, "F|"+typeKey(t)+"|"+p, arrSort(SInt, g.sort)))
				}
			}
		}
		for _, l := range leaves(t) {
			if l.Path == "."+p {
				return lv(x.get(e.st, "F|"+typeKey(t)+"|"+l.Path, arrSort(SInt, l.Sort)))
			}
		}
		e.err(ex, "no leaf %s in %v", p, t)
	case "domarr":
		t := x.P.mustType(ex, ex.typ)
		dk, ks := mapKeys(t.Underlying().(*types.Map), t)
		return lv(x.get(e.st, dk, arrSort(SInt, arrSort(ks, SBool))))
	case "valarr":
		t := x.P.mustType(ex, ex.typ)
		_, ks := mapKeys(t.Underlying().(*types.Map), t)
		ls := leaves(t.Underlying().(*types.Map).Elem())
		if len(ls) != 1 {
			e.err(ex, "valarr of a map with %d value leaves", len(ls))
		}
		return lv(x.get(e.st, "V|"+typeKey(t)+"|"+ls[0].Path, arrSort(SInt, arrSort(ks, ls[0].Sort))))
	case "fresh":
		v := e.eval(ex.args[0])
		return lv(Le(x.clk(e.old), e.x.termsOf(e.sink, v)[0]))
	case "alloc":
		v := e.eval(ex.args[0])
		t := x.termsOf(e.sink, v)[0]
		return lv(And(Lt(Zero, t), Lt(t, x.clk(e.st))))
	case "clk":
		return lv(x.clk(e.st))
	case "typeis":
		v := e.eval(ex.args[0])
		t := x.P.mustType(ex, ex.typ)
		if v.Dyn != nil {
			return lv(Bool(types.Identical(v.Dyn.T, t)))
		}
		return lv(And(Neq(v.term(), Zero), Eq(itag(v.term()), tagOf(typeKey(t)))))
	case "as":
		v := e.eval(ex.args[0])
		t := x.P.mustType(ex, ex.typ)
		if v.Dyn != nil {
			if types.Identical(v.Dyn.T, t) {
				return v.Dyn
			}
			return x.freshVal(e.sink, "badcast", t)
		}
		return x.unbox(e.sink, v.term(), t)
	case "zero":
		return x.zero(x.P.mustType(ex, ex.typ))
	case "vis", "cnt", "ord", "rank":
		it := e.iter(ex, ex.args[0])
		t := e.st.heap[it.Name+"|"+ex.name]
		if t == nil {
			e.err(ex, "iterator not active")
		}
		return lv(t)
	case "d0":
		return lv(e.iter(ex, ex.args[0]).D0)
	case "itmap":
		it := e.iter(ex, ex.args[0])
		return &Val{T: it.T, Ts: []*Term{it.M}}
	case "min":
		a, b := e.term(ex.args[0]), e.term(ex.args[1])
		return lv(Ite(Le(a, b), a, b))
	case "max":
		a, b := e.term(ex.args[0]), e.term(ex.args[1])
		return lv(Ite(Le(a, b), b, a))
	case "wrap":
		t := x.P.mustType(ex, ex.args[1].name)
		return lv(wrap(e.term(ex.args[0]), t))
	case "locked":
		return lv(Bool(true))
	case "zeros":
		n := e.term(ex.args[0])
		return lv(Sq(zeroArr, Zero, n))
	}
	if strings.HasPrefix(ex.name, "itoa") {
		_ = ex
	}
	if sig, ok := getSig(ex.name); ok {
		if len(sig.args) != len(ex.args) {
			e.err(ex, "%s takes %d arguments", ex.name, len(sig.args))
		}
		var ts []*Term
		for i, a := range ex.args {
			v := e.eval(a)
			var t *Term
			if sig.args[i] == SSeq {
				t = e.seq(ex, v)
			} else {
				t = e.one(ex, v)
			}
			if t.Sort != sig.args[i] {
				e.err(ex, "argument %d of %s has sort %s, want %s", i+1, ex.name, t.Sort, sig.args[i])
			}
			ts = append(ts, t)
		}
		return lv(App(ex.name, sig.res, ts...))
	}
	e.err(ex, "unknown function %s", ex.name)
	return nil
}

// ---- environments ----

func (x *Exec) evalSpecTerm(ex *Expr, e *Env) *Term { return e.term(ex) }

// specEnv is the environment of the function under verification.
func (x *Exec) specEnv(st, old *State, res []*Val) *Env {
	e := &Env{x: x, st: st, old: old, sink: st, vars: map[string]*Val{}}
	for i, p := range x.spec.params {
		if i < len(x.args) {
			e.vars[p] = x.args[i]
		}
	}
	if x.top != nil {
		for i, p := range x.top.FreeVars {
			if _, ok := e.vars[p.Name()]; !ok && i < len(x.free) {
				e.vars[p.Name()] = x.free[i].captured()
			}
		}
	}
	for i, r := range x.spec.results {
		if i < len(res) {
			e.vars[r] = res[i]
		}
	}
	return e
}

// ---- modifies ----

type modLoc struct {
	key, sort string
	ref       *Term // nil: all references
	idx       *Term // index within the region (nil: the whole region)
	leaf      Leaf
}

func (e *Env) modLocs(exs []*Expr) []modLoc {
	var out []modLoc
	x := e.x
	for _, ex := range exs {
		switch ex.op {
		case "ghost":
			s, ok := x.P.ghosts[ex.name]
			if !ok {
				e.err(ex, "unknown ghost %s", ex.name)
			}
			out = append(out, modLoc{key: "ghost|" + ex.name, sort: s})
			continue
		case "all":
			name := ex.name
			if i := strings.LastIndex(name, "."); i >= 0 && x.P.goType(name) == nil {
				t := x.P.mustType(ex, name[:i])
				f := name[i+1:]
				found := false
				for _, l := range leaves(t) {
					if l.Path == "."+f || strings.HasPrefix(l.Path, "."+f+".") {
						out = append(out, modLoc{key: "F|" + typeKey(t) + "|" + l.Path, sort: arrSort(SInt, l.Sort), leaf: l})
						found = true
					}
				}
				for _, g := range x.P.ghostFields[typeKey(t)] {
					if "#"+g.name == f {
						out = append(out, modLoc{key: "F|" + typeKey(t) + "|" + f, sort: arrSort(SInt, g.sort)})
						found = true
					}
				}
				if !found {
					e.err(ex, "no field %s", name)
				}
				continue
			}
			t := x.P.mustType(ex, name)
			for _, l := range leaves(t) {
				out = append(out, modLoc{key: "F|" + typeKey(t) + "|" + l.Path, sort: arrSort(SInt, l.Sort), leaf: l})
			}
			for _, g := range x.P.ghostFields[typeKey(t)] {
				out = append(out, modLoc{key: "F|" + typeKey(t) + "|#" + g.name, sort: arrSort(SInt, g.sort)})
			}
			continue
		case "allmap":
			t := x.P.mustType(ex, ex.name)
			out = append(out, x.mapLocs(t, nil)...)
			continue
		case "allmem":
			t := x.P.mustType(ex, ex.name)
			for _, l := range leaves(t) {
				out = append(out, modLoc{key: "M|" + elemKey(t) + "||" + l.Path, sort: arrSort(SInt, arrSort(SInt, l.Sort)), leaf: l})
			}
			continue
		case "call":
			switch ex.name {
			case "mem":
				v := e.eval(ex.args[0])
				et := v.T.Underlying().(*types.Slice).Elem()
				for _, l := range leaves(et) {
					out = append(out, modLoc{key: "M|" + elemKey(et) + "||" + l.Path, sort: arrSort(SInt, arrSort(SInt, l.Sort)), ref: v.Ts[0], leaf: l})
				}
				continue
			case "map":
				v := e.eval(ex.args[0])
				out = append(out, x.mapLocs(v.T, v.term())...)
				continue
			}
		}
		a := e.addrExpr(ex)
		if a.T == nil { // ghost field
			base := a.Root + "|" + a.Path
			base = strings.Replace(base, ".#", "#", 1)
			for tk, gs := range x.P.ghostFields {
				for _, g := range gs {
					if strings.HasSuffix(base, "#"+g.name) && strings.HasPrefix(base, "F|"+tk+"|") {
						out = append(out, modLoc{key: base, sort: arrSort(SInt, g.sort), ref: a.Ref})
					}
				}
			}
			continue
		}
		if isArrayObj(a) {
			et := a.T.Underlying().(*types.Array).Elem()
			for _, l := range leaves(et) {
				out = append(out, modLoc{key: a.Root + "||" + l.Path, sort: arrSort(SInt, arrSort(SInt, l.Sort)), ref: a.Ref, leaf: l})
			}
			continue
		}
		for _, l := range leaves(a.T) {
			s := arrSort(SInt, l.Sort)
			k := leafKey(a, l.Path)
			if a.Idx != nil {
				s = arrSort(SInt, s)
				if !strings.HasPrefix(a.Root, "M|") {
					k = a.Root + "|" + a.Path + a.Sub + l.Path
				}
			}
			out = append(out, modLoc{key: k, sort: s, ref: a.Ref, idx: a.Idx, leaf: l})
		}
		if a.Path == "" && a.Idx == nil && strings.HasPrefix(a.Root, "F|") {
			for _, g := range x.P.ghostFields[a.Root[2:]] {
				out = append(out, modLoc{key: a.Root + "|#" + g.name, sort: arrSort(SInt, g.sort), ref: a.Ref})
			}
		}
	}
	return out
}

func (x *Exec) mapLocs(t types.Type, ref *Term) []modLoc {
	mt := t.Underlying().(*types.Map)
	dk, ks := mapKeys(mt, t)
	out := []modLoc{{key: dk, sort: arrSort(SInt, arrSort(ks, SBool)), ref: ref}}
	for _, l := range leaves(mt.Elem()) {
		out = append(out, modLoc{key: "V|" + typeKey(t) + "|" + l.Path, sort: arrSort(SInt, arrSort(ks, l.Sort)), ref: ref, leaf: l})
	}
	return out
}

func leafIsRef(l Leaf) bool {
	return l.T != nil && isRefType(l.T) || l.T == nil && strings.HasSuffix(l.Path, ".reg")
}

// havoc gives the locations arbitrary values.
func (x *Exec) havoc(st *State, locs []modLoc) {
	c := x.clk(st)
	for _, l := range locs {
		if strings.HasPrefix(l.key, "ghost|") {
			f := Fresh("hv:"+l.key, l.sort)
			if strings.HasPrefix(l.key, "ghost|rel_") {
				setRootClk(f, c)
			}
			x.set(st, l.key, f)
			continue
		}
		if l.ref == nil {
			f := Fresh("hv:"+l.key, l.sort)
			setRootClk(f, c)
			x.set(st, l.key, f)
			continue
		}
		arr := x.get(st, l.key, l.sort)
		_, vs := splitArr(l.sort)
		var v *Term
		if l.idx != nil {
			_, es := splitArr(vs)
			f := Fresh("hv:"+l.key, es)
			if leafIsRef(l.leaf) {
				boundRef(f, c)
			}
			v = Store(Select(arr, l.ref), l.idx, f)
		} else {
			v = Fresh("hv:"+l.key, vs)
			if leafIsRef(l.leaf) && vs == SInt {
				boundRef(v, c)
			}
			if strings.HasPrefix(vs, "(Array") {
				setRootClk(v, c)
			}
		}
		x.set(st, l.key, Store(arr, l.ref, v))
	}
}

// ---- contracts at call sites ----

func (x *Exec) applyContract(cc *CallCtx, sp *Spec, args []*Val) {
	st := cc.st
	e := &Env{x: x, st: st, old: st, sink: st, vars: map[string]*Val{}}
	for i, p := range sp.params {
		if i < len(args) {
			e.vars[p] = args[i]
		}
	}
	if cc.fn != nil && cc.fn.Signature.Recv() != nil && len(args) > 0 && isPointer(cc.fn.Signature.Recv().Type()) {
		x.nilCheck(st, args[0], cc.pos)
	}
	for _, r := range sp.requires {
		x.oblige(st, "precondition of "+sp.name, r.label, cc.pos, e.bool(r.e))
	}
	for _, a := range args {
		x.liveVal(st, a, "released memory is passed on", cc.pos)
	}
	x.lockCheckCall(st, sp, cc.pos)
	old := st.clone()
	locs := e.modLocs(sp.modifies)
	x.bumpClk(st)
	for _, l := range locs {
		if l.ref != nil && l.key == m8 {
			x.accessBytes(st, l.ref, true, cc.pos)
			x.aliasWrite(st, l.ref, Zero, Int(maxLen), cc.pos)
		}
	}
	x.havoc(st, locs)
	var res []*Val
	for i := 0; i < cc.sig.Results().Len(); i++ {
		v := x.freshVal(st, "res:"+sp.name, cc.rt(i))
		for j, l := range leaves(v.T) {
			if leafIsRef(l) {
				boundRef(v.Ts[j], x.clk(st))
			}
		}
		res = append(res, v)
	}
	e2 := &Env{x: x, st: st, old: old, sink: st, vars: e.vars}
	for i, r := range sp.results {
		if i < len(res) {
			e2.vars[r] = res[i]
		}
	}
	for _, en := range sp.ensures {
		st.assume(e2.bool(en.e))
	}
	if sp.opts["noreturn"] {
		return
	}
	cc.ret(res...)
}

// frame checks that only allowed locations changed.
func (x *Exec) frame(st *State, locs []modLoc) {
	byKey := map[string][]modLoc{}
	for _, l := range locs {
		byKey[l.key] = append(byKey[l.key], l)
	}
	for _, k := range sortedKeys(st.heap) {
		fin := st.heap[k]
		if k == "clk" || strings.HasPrefix(k, "it|") || strings.HasPrefix(k, "card") || strings.HasPrefix(k, "ghost|now") || x.P.unframed[k] {
			continue
		}
		if strings.HasPrefix(k, "ghost|") {
			if _, ok := byKey[k]; ok {
				continue
			}
			ini := x.get(x.entry, k, fin.Sort)
			if ini != fin {
				if x.P.derivedGhost[strings.TrimPrefix(k, "ghost|")] {
					continue
				}
				x.oblige(st, "frame", k, 0, Eq(ini, fin))
			}
			continue
		}
		ini := x.get(x.entry, k, fin.Sort)
		if ini == fin {
			continue
		}
		allow := byKey[k]
		all := false
		for _, l := range allow {
			if l.ref == nil {
				all = true
			}
		}
		if all {
			continue
		}
		// strip stores at fresh or allowed references
		t := fin
		for t.Op == "store" {
			ix := t.Args[1]
			ok := isFreshRef(ix) && clkGE(ix, clk0)
			for _, l := range allow {
				if l.ref == ix && l.idx == nil {
					ok = true
				}
				if l.ref == ix && l.idx != nil && t.Args[2].Op == "store" && t.Args[2].Args[1] == l.idx && t.Args[2].Args[0].Op == "select" && t.Args[2].Args[0].Args[1] == ix {
					ok = true
				}
			}
			if !ok {
				break
			}
			t = t.Args[0]
		}
		if t == ini {
			continue
		}
		r := Fresh("frameref", SInt)
		conj := []*Term{Lt(r, clk0)}
		if strings.HasPrefix(k, "G|") {
			conj = append(conj, Eq(r, Zero))
		} else {
			conj = append(conj, Lt(Zero, r))
		}
		for _, l := range allow {
			if l.idx == nil {
				conj = append(conj, Neq(r, l.ref))
			}
		}
		boundRef(r, clk0)
		a, b := Select(ini, r), Select(fin, r)
		if strings.HasPrefix(a.Sort, "(Array") {
			ks, _ := splitArr(a.Sort)
			i := Fresh("frameidx", ks)
			for _, l := range allow {
				if l.idx != nil && ks == SInt {
					conj = append(conj, Or(Neq(r, l.ref), Neq(i, l.idx)))
				}
			}
			a, b = Select(a, i), Select(b, i)
			// values at absent keys do not matter
			if strings.HasPrefix(k, "V|") {
				dk := "D|" + strings.Split(k, "|")[1]
				d := x.get(st, dk, arrSort(SInt, arrSort(ks, SBool)))
				conj = append(conj, Select(Select(d, r), i))
			}
		}
		x.oblige(st, "frame", k, 0, Implies(And(conj...), Eq(a, b)))
	}
}
