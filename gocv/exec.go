package main

// Path-by-path symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec verifies one function.
type Exec struct {
	P        *Program
	spec     *Spec
	top      *ssa.Function
	name     string
	sorts    map[string]string
	obls     []*Obligation
	lt       *light
	muted    int
	discover int
	// what the inner loops of the loop being analysed could keep
	surviving, survived map[*ssa.BasicBlock]map[string]bool
	usePrev             map[*ssa.BasicBlock]bool
	hints               map[string]map[string]bool // loop -> candidates known to survive (nil: infer)
	hinted, hintMiss    bool
	hintFails           atomic.Int32               // hinted candidates that could not be established
	hintAll             bool                       // the candidates of any loop of the function, whatever the registers are called
	kept                map[string]map[string]bool // loop -> candidates that survived
	conc                bool
	anyName             bool
	entry               *State
	args                []*Val
	free                []*Val
	paths               int
	steps               int
	retCount            int
	used                map[string]string // contracts, models and assumptions used: name -> kind
	usedMu              sync.Mutex
	proved              map[string]int // obligations proved on the fly, by kind
	noexit              func(b *ssa.BasicBlock) bool
	stack               []*ssa.Function
	deadline            time.Time
	iterN               int
	topFrame            *Frame
	debug               bool
	lastPos             token.Pos
	invs                map[string]bool
	inlined             map[string]bool
}

type deferred struct {
	call *ssa.CallCommon
	fnv  *Val
	args []*Val
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Val
	defers []deferred
	onRet  func(st *State, fr *Frame, res []*Val)
	loops  map[*ssa.BasicBlock]*loopCtx
	parent *Frame
}

func (fr *Frame) clone() *Frame {
	n := &Frame{fn: fr.fn, env: make(map[ssa.Value]*Val, len(fr.env)+4), onRet: fr.onRet, parent: fr.parent}
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, fr.defers...)
	n.loops = make(map[*ssa.BasicBlock]*loopCtx, len(fr.loops))
	for k, v := range fr.loops {
		n.loops[k] = v
	}
	return n
}

type loopCtx struct {
	onBack func(st *State, fr *Frame, from *ssa.BasicBlock)
	onExit func(st *State, fr *Frame, from, to *ssa.BasicBlock) // nil: leave normally
	onRet  bool                                                 // discard returns inside the loop
	body   map[*ssa.BasicBlock]bool
}

const maxPaths = 60000

func (x *Exec) note(name, kind string) {
	x.usedMu.Lock()
	if _, ok := x.used[name]; !ok {
		x.used[name] = kind
	}
	x.usedMu.Unlock()
}

func (x *Exec) pos(p token.Pos) token.Position {
	if p == token.NoPos {
		p = x.lastPos
	}
	return x.P.fset.Position(p)
}

// oblige records a proof obligation; afterwards the goal is assumed.
func (x *Exec) oblige(st *State, kind, label string, pos token.Pos, goal *Term) {
	if goal == True {
		if x.muted == 0 {
			x.proved[kind]++
		}
		return
	}
	if st.known[goal] {
		if x.muted == 0 {
			x.proved[kind]++
		}
		return
	}
	if x.muted == 0 {
		o := &Obligation{Fn: x.name, Kind: kind, Label: label, Pos: x.pos(pos), PC: st.pc, Goal: goal, St: st.clone()}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

// feasible asks the light solver whether the path condition is satisfiable.
func (x *Exec) feasible(st *State) bool {
	for _, f := range st.facts() {
		if f == False {
			return false
		}
	}
	return x.lt.feasible(st.facts())
}

func (x *Exec) checkBudget() {
	x.steps++
	if x.paths > maxPaths {
		x.fail("too many paths")
	}
	if x.steps&255 == 0 && time.Now().After(x.deadline) {
		x.fail("time budget of symbolic execution exceeded")
	}
}

// ---- loops of a function ----

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

var loopMemo sync.Map

// inner lists the headers of the loops nested in li.
func (li *loopInfo) inner() []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for h := range loopsOf(li.header.Parent()) {
		if h != li.header && li.body[h] {
			out = append(out, h)
		}
	}
	return out
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if v, ok := loopMemo.Load(fn); ok {
		return v.(map[*ssa.BasicBlock]*loopInfo)
	}
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back-edge b -> s
				li := out[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if li.body[n] {
						continue
					}
					li.body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	loopMemo.Store(fn, out)
	return out
}

// visit continues execution at block b coming from pred.
func (x *Exec) visit(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	x.checkBudget()
	// leaving loops
	for h, ctx := range fr.loops {
		if !ctx.body[b] {
			if ctx.onExit != nil {
				ctx.onExit(st, fr, pred, b)
				return
			}
			delete(fr.loops, h)
		}
	}
	if ctx, ok := fr.loops[b]; ok && pred != nil && ctx.body[pred] {
		ctx.onBack(st, fr, pred)
		return
	}
	if li, ok := loopsOf(fr.fn)[b]; ok {
		x.loop(fr, li, pred, st)
		return
	}
	x.enter(fr, b, pred, st)
}

// enter evaluates the phis of b and executes it.
func (x *Exec) enter(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	vals := x.phiVals(fr, b, pred, st)
	i := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.env[phi] = vals[i]
		i++
	}
	x.exec(fr, b, i, st)
}

func (x *Exec) phiVals(fr *Frame, b, pred *ssa.BasicBlock, st *State) []*Val {
	var vals []*Val
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for j, p := range b.Preds {
			if p == pred {
				vals = append(vals, x.val(fr, st, phi.Edges[j]))
				break
			}
		}
	}
	return vals
}

// val evaluates an SSA value.
func (x *Exec) val(fr *Frame, st *State, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Global:
		return &Val{T: v.Type(), A: &Addr{Root: "G|" + globalName(v), Ref: Zero, T: derefT(v.Type())}}
	case *ssa.Function:
		return &Val{T: v.Type(), Fn: &FnVal{Fn: v}}
	case *ssa.Builtin:
		return &Val{T: v.Type()}
	}
	r, ok := fr.env[v]
	if !ok {
		x.fail("no value for %s (%T) in %s", v.Name(), v, fr.fn)
	}
	return r
}

func globalName(g *ssa.Global) string {
	return strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath) + "." + g.Name()
}

func (x *Exec) constVal(st *State, c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return scalar(t, Bool(constant.BoolVal(c.Value)))
		case info&types.IsString != 0:
			if c.Value.Kind() == constant.Int { // string(rune)
				n, _ := constant.Int64Val(c.Value)
				return scalar(t, SeqLit(string(rune(n))))
			}
			return scalar(t, SeqLit(constant.StringVal(c.Value)))
		case info&types.IsInteger != 0:
			i := constant.ToInt(c.Value)
			b := new(big.Int)
			b.SetString(i.ExactString(), 10)
			return scalar(t, BigInt(b))
		case info&types.IsFloat != 0:
			return scalar(t, Var("flt:"+c.Value.ExactString(), "Flt"))
		}
	case *types.Interface:
		_ = u
	}
	x.fail("constant %v of type %v", c, t)
	return nil
}

// bind sets the value of an instruction.
func (fr *Frame) bind(v ssa.Value, val *Val) { fr.env[v] = val }

// exec runs the instructions of b from index i.
func (x *Exec) exec(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		in := b.Instrs[i]
		if p := in.Pos(); p != token.NoPos {
			x.lastPos = p
		}
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			x.visit(fr, b.Succs[0], b, st)
			return
		case *ssa.If:
			c := x.val(fr, st, in.Cond).term()
			x.branch(fr, st, c, func(fr *Frame, st *State) { x.visit(fr, b.Succs[0], b, st) }, func(fr *Frame, st *State) { x.visit(fr, b.Succs[1], b, st) })
			return
		case *ssa.Return:
			var res []*Val
			for _, r := range in.Results {
				res = append(res, x.val(fr, st, r))
			}
			for _, ctx := range fr.loops {
				if ctx.onRet {
					return
				}
			}
			x.paths++
			fr.onRet(st, fr, res)
			return
		case *ssa.RunDefers:
			x.runDefers(fr, st, func(fr *Frame, st *State) { x.exec(fr, b, i+1, st) })
			return
		case *ssa.Panic:
			x.oblige(st, "no panic", "explicit panic", in.Pos(), False)
			return
		case *ssa.Call:
			x.call(fr, st, in.Common(), in.Pos(), func(fr *Frame, st *State, res *Val) {
				fr.bind(in, res)
				x.exec(fr, b, i+1, st)
			})
			return
		case *ssa.Defer:
			d := deferred{call: in.Common(), pos: in.Pos()}
			if !in.Call.IsInvoke() {
				d.fnv = x.val(fr, st, in.Call.Value)
			} else {
				d.fnv = x.val(fr, st, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			x.goStmt(fr, st, in)
		case *ssa.Store:
			a := x.val(fr, st, in.Addr)
			v := x.val(fr, st, in.Val)
			x.nilCheck(st, a, in.Pos())
			x.storeTo(st, a, v, in.Pos())
		case *ssa.MapUpdate:
			x.mapUpdate(fr, st, in)
		case *ssa.Send:
			x.send(fr, st, in)
		case *ssa.TypeAssert:
			if x.typeAssert(fr, st, in, func(fr *Frame, st *State, res *Val) {
				fr.bind(in, res)
				x.exec(fr, b, i+1, st)
			}) {
				return
			}
		case *ssa.Next:
			x.next(fr, st, in, func(fr *Frame, st *State, res *Val) {
				fr.bind(in, res)
				x.exec(fr, b, i+1, st)
			})
			return
		case *ssa.Lookup:
			if x.lookup(fr, st, in, func(fr *Frame, st *State, res *Val) {
				fr.bind(in, res)
				x.exec(fr, b, i+1, st)
			}) {
				return
			}
		case *ssa.Select:
			x.selectStmt(fr, st, in)
			if in.Blocking && len(in.States) == 0 {
				return // blocks forever
			}
		case ssa.Value:
			fr.bind(in, x.value(fr, st, in))
		default:
			x.fail("unsupported instruction %T %v", in, in)
		}
	}
}

// branch forks on a condition.
func (x *Exec) branch(fr *Frame, st *State, c *Term, then, els func(*Frame, *State)) {
	if c == True || st.known[c] {
		then(fr, st)
		return
	}
	nc := Not(c)
	if c == False || st.known[nc] {
		els(fr, st)
		return
	}
	st2 := st.clone()
	st.assume(c)
	st2.assume(nc)
	fr2 := fr.clone()
	f1 := x.feasible(st)
	f2 := true
	if f1 {
		f2 = x.feasible(st2)
	}
	if f1 {
		then(fr, st)
	}
	if f2 {
		els(fr2, st2)
	}
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.callVals(fr, st, d.call, d.fnv, d.args, d.pos, func(fr *Frame, st *State, _ *Val) {
		x.runDefers(fr, st, k)
	})
}

func (x *Exec) nilCheck(st *State, p *Val, pos token.Pos) {
	if p.A != nil || p.Re != nil {
		return
	}
	t := p.term()
	if isFreshRef(t) {
		return
	}
	x.oblige(st, "no panic", "nil dereference", pos, Neq(t, Zero))
	// interior pointers are negative or opaque; well-typed object pointers are positive
}

// isFreshRef: syntactically an allocated reference (clock + constant).
func isFreshRef(t *Term) bool {
	_, ok := clkForm(t)
	return ok
}

// ---- plain value instructions ----

func (x *Exec) value(fr *Frame, st *State, in ssa.Value) *Val {
	switch in := in.(type) {
	case *ssa.Alloc:
		return x.alloc(st, in.Type())
	case *ssa.BinOp:
		return x.binop(fr, st, in)
	case *ssa.UnOp:
		return x.unop(fr, st, in)
	case *ssa.ChangeType:
		v := x.val(fr, st, in.X)
		n := *v
		n.T = in.Type()
		if n.A != nil {
			a := *n.A
			if isPointer(in.Type()) {
				a.T = derefT(in.Type())
			}
			n.A = &a
		}
		return &n
	case *ssa.ChangeInterface:
		v := x.val(fr, st, in.X)
		n := *v
		n.T = in.Type()
		return &n
	case *ssa.Convert:
		return x.convert(fr, st, in)
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		return &Val{T: in.Type(), Dyn: v}
	case *ssa.MakeClosure:
		f := &FnVal{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Binds = append(f.Binds, x.val(fr, st, b))
		}
		return &Val{T: in.Type(), Fn: f}
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		if in.Reserve != nil {
			x.val(fr, st, in.Reserve)
		}
		return x.newMap(st, in.Type(), mt)
	case *ssa.MakeSlice:
		return x.makeSlice(fr, st, in)
	case *ssa.MakeChan:
		return scalar(in.Type(), x.allocRef(st))
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		x.nilCheck(st, p, in.Pos())
		a := *x.addrOf(p)
		stt := derefT(in.X.Type()).Underlying().(*types.Struct)
		f := stt.Field(in.Field)
		if a.Idx != nil {
			a.Sub += "." + f.Name()
		} else {
			a.Path += "." + f.Name()
		}
		a.T = f.Type()
		return &Val{T: in.Type(), A: &a}
	case *ssa.Field:
		v := x.val(fr, st, in.X)
		lo, n := leafRange(in.X.Type(), in.Field)
		r := &Val{T: in.Type(), Ts: x.termsOf(st, v)[lo : lo+n]}
		return r
	case *ssa.IndexAddr:
		return x.indexAddr(fr, st, in)
	case *ssa.Index:
		v := x.val(fr, st, in.X)
		ix := x.val(fr, st, in.Index).term()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.oblige(st, "no panic", "index out of range", in.Pos(), And(Le(Zero, ix), Lt(ix, Int(u.Len()))))
			return x.arrayElem(st, v, u, ix)
		case *types.Basic:
			s := v.term()
			x.resolve(st, s)
			x.oblige(st, "no panic", "string index out of range", in.Pos(), And(Le(Zero, ix), Lt(ix, SeqLen(s))))
			r := SeqNth(s, ix)
			st.assume(Le(Zero, r), Le(r, Int(255)))
			return scalar(in.Type(), r)
		}
		x.fail("Index of %v", in.X.Type())
	case *ssa.Extract:
		t := x.val(fr, st, in.Tuple)
		if t.Tup == nil {
			x.fail("extract from non-tuple %v", in)
		}
		return t.Tup[in.Index]
	case *ssa.Range:
		return x.rangeOver(fr, st, in)
	case *ssa.SliceToArrayPointer:
		x.fail("slice to array pointer conversion")
	}
	x.fail("unsupported value instruction %T", in)
	return nil
}

func (x *Exec) arrayElem(st *State, v *Val, u *types.Array, ix *Term) *Val {
	if isByte(u.Elem()) {
		r := SeqNth(App("ba2s", SSeq, v.term()), ix)
		st.assume(Le(Zero, r), Le(r, Int(255)))
		return scalar(u.Elem(), r)
	}
	r := &Val{T: u.Elem()}
	for _, t := range v.Ts {
		r.Ts = append(r.Ts, Select(t, ix))
	}
	x.loadedFacts(st, u.Elem(), r.Ts)
	return r
}

// alloc creates a zeroed object; t is the pointer type.
func (x *Exec) alloc(st *State, t types.Type) *Val {
	r := x.allocRef(st)
	et := derefT(t)
	p := scalar(t, r)
	a := x.addrOf(p)
	if isArrayObj(a) {
		arr := et.Underlying().(*types.Array)
		if isByte(arr.Elem()) {
			m := x.get(st, m8, m8Sort)
			x.set(st, m8, Store(m, r, zeroArr))
			return p
		}
		for _, l := range leaves(arr.Elem()) {
			k := a.Root + "||" + l.Path
			m := x.get(st, k, arrSort(SInt, arrSort(SInt, l.Sort)))
			x.set(st, k, Store(m, r, ConstArr(arrSort(SInt, l.Sort), zeroLeaf(l))))
		}
		return p
	}
	for _, l := range leaves(et) {
		k := leafKey(a, l.Path)
		arr := x.get(st, k, arrSort(SInt, l.Sort))
		x.set(st, k, Store(arr, r, zeroLeaf(l)))
	}
	x.ghostAlloc(st, et, r)
	return p
}

// ghostAlloc initialises the ghost fields of a new object.
func (x *Exec) ghostAlloc(st *State, t types.Type, r *Term) {
	for _, g := range x.P.ghostFields[typeKey(t)] {
		k := "F|" + typeKey(t) + "|#" + g.name
		arr := x.get(st, k, arrSort(SInt, g.sort))
		if g.sort == SInt || g.sort == SBool || g.sort == SSeq {
			x.set(st, k, Store(arr, r, zeroSort(g.sort)))
		}
	}
}

func (x *Exec) storeTo(st *State, p *Val, v *Val, pos token.Pos) {
	if p.Re != nil {
		x.fail("store through a reinterpreted pointer")
	}
	a := x.addrOf(p)
	x.access(st, a, true, pos)
	x.liveVal(st, v, "released memory is stored", pos)
	if a.Root == "M|uint8" {
		if a.Idx != nil {
			x.aliasWrite(st, a.Ref, a.Idx, One, pos)
		} else if n, ok := isByteArray(a.T); ok {
			x.aliasWrite(st, a.Ref, Zero, Int(n), pos)
		}
	}
	x.store(st, a, v)
}

// aliasWrite keeps strings that alias byte memory consistent.
func (x *Exec) aliasWrite(st *State, reg, off, n *Term, pos token.Pos) {
	for _, al := range st.alias {
		if !al.resolved {
			continue
		}
		x.oblige(st, "no aliased write", "bytes of a string are overwritten", pos,
			Or(Neq(reg, al.reg), Le(Add(off, n), al.off), Le(Add(al.off, al.len), off), Le(n, Zero), Le(al.len, Zero)))
	}
}

// resolve fixes the value of aliasing strings that are used as values.
func (x *Exec) resolve(st *State, ts ...*Term) {
	if len(st.alias) == 0 {
		return
	}
	for i := range st.alias {
		al := &st.alias[i]
		if al.resolved {
			continue
		}
		for _, t := range ts {
			if mentions(t, al.sym) {
				al.resolved = true
				st.assume(Eq(al.sym, Sq(Select(x.get(st, m8, m8Sort), al.reg), al.off, al.len)))
				break
			}
		}
	}
}

func (x *Exec) resolveAll(st *State) {
	for i := range st.alias {
		al := &st.alias[i]
		if !al.resolved {
			al.resolved = true
			st.assume(Eq(al.sym, Sq(Select(x.get(st, m8, m8Sort), al.reg), al.off, al.len)))
		}
	}
}

func mentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) *Val {
	v := x.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		if v.Re != nil {
			return x.loadReinterpreted(st, v, in.Type(), in.Pos())
		}
		x.nilCheck(st, v, in.Pos())
		a := x.addrOf(v)
		x.access(st, a, false, in.Pos())
		if g, ok := in.X.(*ssa.Global); ok {
			if r := x.P.globalValue(x, st, g); r != nil {
				return r
			}
		}
		return x.load(st, a)
	case token.NOT:
		return scalar(in.Type(), Not(v.term()))
	case token.SUB:
		return scalar(in.Type(), st.wrapIn(Neg(v.term()), in.Type()))
	case token.XOR:
		// ^x = -x-1
		return scalar(in.Type(), st.wrapIn(Sub(Neg(v.term()), One), in.Type()))
	case token.ARROW:
		return x.recv(fr, st, in, v)
	}
	x.fail("unop %v", in.Op)
	return nil
}

// loadReinterpreted reads a []byte variable as a string or the other way round.
func (x *Exec) loadReinterpreted(st *State, p *Val, t types.Type, pos token.Pos) *Val {
	orig := x.load(st, x.addrOf(p.Re))
	b, isStr := t.Underlying().(*types.Basic)
	if isStr && b.Info()&types.IsString != 0 {
		if _, ok := orig.T.Underlying().(*types.Slice); ok {
			reg, off, ln, _ := sl(orig)
			s := Fresh("aliasstr", SSeq)
			st.assume(Eq(SeqLen(s), ln))
			st.alias = append(st.alias, aliasStr{sym: s, reg: reg, off: off, len: ln})
			return scalar(t, s)
		}
	}
	x.fail("unsafe reinterpretation of %v as %v", orig.T, t)
	return nil
}

func (x *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) *Val {
	v := x.val(fr, st, in.X)
	ix := x.val(fr, st, in.Index).term()
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		reg, off, ln, _ := sl(v)
		x.oblige(st, "no panic", "index out of range", in.Pos(), And(Le(Zero, ix), Lt(ix, ln)))
		return &Val{T: in.Type(), A: &Addr{Root: "M|" + elemKey(u.Elem()), Ref: reg, Idx: Add(off, ix), T: u.Elem()}}
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		x.nilCheck(st, v, in.Pos())
		x.oblige(st, "no panic", "index out of range", in.Pos(), And(Le(Zero, ix), Lt(ix, Int(arr.Len()))))
		a := *x.addrOf(v)
		if isArrayObj(&a) {
			a.Idx = ix
			a.T = arr.Elem()
			return &Val{T: in.Type(), A: &a}
		}
		if isByte(arr.Elem()) {
			x.fail("address of a byte of an array component")
		}
		if a.Idx != nil {
			x.fail("nested array component")
		}
		a.Idx = ix
		a.Sub = "[]"
		a.T = arr.Elem()
		return &Val{T: in.Type(), A: &a}
	}
	x.fail("IndexAddr of %v", in.X.Type())
	return nil
}

func (x *Exec) makeSlice(fr *Frame, st *State, in *ssa.MakeSlice) *Val {
	n := x.val(fr, st, in.Len).term()
	c := x.val(fr, st, in.Cap).term()
	et := in.Type().Underlying().(*types.Slice).Elem()
	x.oblige(st, "no panic", "makeslice: bad length", in.Pos(), And(Le(Zero, n), Le(n, c), Le(Mul(Int(elemSize(et)), c), Int(2*maxLen))))
	x.allocSize(st, Mul(Int(elemSize(et)), c), in.Pos())
	st.assume(Le(c, Int(maxLen/elemSize(et)))) // beyond that the allocation fails (memory exhaustion is out of scope)
	r := x.allocRef(st)
	for _, l := range leaves(et) {
		k := "M|" + elemKey(et) + "||" + l.Path
		m := x.get(st, k, arrSort(SInt, arrSort(SInt, l.Sort)))
		x.set(st, k, Store(m, r, ConstArr(arrSort(SInt, l.Sort), zeroLeaf(l))))
	}
	return mkSlice(in.Type(), r, Zero, n, c)
}

// allocSize checks the allocation bound a contract may set.
func (x *Exec) allocSize(st *State, n *Term, pos token.Pos) {
	if x.spec != nil && x.spec.maxAlloc != nil && x.topFrame != nil {
		lim := x.evalSpecTerm(x.spec.maxAlloc, x.specEnv(x.entry, x.entry, nil))
		x.oblige(st, "bounded allocation", "", pos, Le(n, lim))
	}
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) *Val {
	v := x.val(fr, st, in.X)
	opt := func(a ssa.Value, d *Term) *Term {
		if a == nil {
			return d
		}
		return x.val(fr, st, a).term()
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		reg, off, ln, cp := sl(v)
		lo := opt(in.Low, Zero)
		hi := opt(in.High, ln)
		mx := opt(in.Max, cp)
		x.oblige(st, "no panic", "slice bounds out of range", in.Pos(), And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)))
		return mkSlice(in.Type(), reg, Add(off, lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Basic:
		s := v.term()
		x.resolve(st, s)
		lo := opt(in.Low, Zero)
		hi := opt(in.High, SeqLen(s))
		x.oblige(st, "no panic", "string slice bounds out of range", in.Pos(), And(Le(Zero, lo), Le(lo, hi), Le(hi, SeqLen(s))))
		r := SeqExtract(s, lo, Sub(hi, lo))
		st.assume(Eq(SeqLen(r), Sub(hi, lo)))
		return scalar(in.Type(), r)
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		x.nilCheck(st, v, in.Pos())
		a := x.addrOf(v)
		if !isArrayObj(a) {
			x.fail("slicing an array component (%s%s)", a.Root, a.Path)
		}
		n := Int(arr.Len())
		lo := opt(in.Low, Zero)
		hi := opt(in.High, n)
		mx := opt(in.Max, n)
		x.oblige(st, "no panic", "slice bounds out of range", in.Pos(), And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		return mkSlice(in.Type(), a.Ref, lo, Sub(hi, lo), Sub(mx, lo))
	}
	x.fail("slice of %v", in.X.Type())
	return nil
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) *Val {
	v := x.val(fr, st, in.X)
	return x.convertVal(st, v, in.X.Type(), in.Type())
}

func (x *Exec) convertVal(st *State, v *Val, from, to types.Type) *Val {
	switch {
	case isIntT(from) && isIntT(to):
		return scalar(to, st.wrapIn(v.term(), to))
	case isIntT(from) && isFloatT(to):
		declFn("i2f", "Flt", SInt)
		return scalar(to, App("i2f", "Flt", v.term()))
	case isFloatT(from) && isFloatT(to):
		return scalar(to, v.term())
	case isFloatT(from) && isIntT(to):
		t := v.term()
		declFn("f2i", SInt, "Flt")
		if t.Op == "dursecs" {
			// whole seconds of a duration (the float arithmetic is taken as exact)
			q := goDivMod(true, t.Args[0], Int(1000000000), types.Typ[types.Int64])
			lo, hi, _ := intRange(to)
			r := Fresh("secs", SInt)
			st.assume(rangeFacts(to, r)...)
			st.assume(Implies(And(Le(BigInt(lo), q), Le(q, BigInt(hi))), Eq(r, q)))
			return scalar(to, r)
		}
		r := App("f2i", SInt, t)
		st.assume(rangeFacts(to, r)...)
		return scalar(to, r)
	case isStringT(from) && isStringT(to):
		return scalar(to, v.term())
	case isByteSlice(from) && isStringT(to):
		s := x.content(st, v)
		st.assume(Eq(SeqLen(s), v.Ts[2]))
		return scalar(to, s)
	case isStringT(from) && isByteSlice(to):
		x.resolve(st, v.term())
		return x.newBytes(st, to, v.term())
	}
	if _, ok := to.Underlying().(*types.Basic); ok && to.Underlying().(*types.Basic).Kind() == types.UnsafePointer {
		return &Val{T: to, Re: v, Ts: []*Term{Fresh("unsafeptr", SInt)}}
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if v.Re == nil {
			x.fail("conversion from an unknown unsafe.Pointer")
		}
		return &Val{T: to, Re: v.Re, Ts: []*Term{Fresh("unsafeptr", SInt)}}
	}
	x.fail("conversion from %v to %v", from, to)
	return nil
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) *Val {
	a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b)
		if in.Op == token.NEQ {
			e = Not(e)
		}
		return scalar(in.Type(), e)
	}
	if isStringT(t) {
		x.resolve(st, a.term(), b.term())
		switch in.Op {
		case token.ADD:
			r := Concat(a.term(), b.term())
			st.assume(Le(SeqLen(r), Int(maxLen))) // a longer string cannot be allocated
			return scalar(in.Type(), r)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			declFn("strlt", SBool, SSeq, SSeq)
			l, r := a.term(), b.term()
			switch in.Op {
			case token.LSS:
				return scalar(in.Type(), App("strlt", SBool, l, r))
			case token.GTR:
				return scalar(in.Type(), App("strlt", SBool, r, l))
			case token.LEQ:
				return scalar(in.Type(), Not(App("strlt", SBool, r, l)))
			default:
				return scalar(in.Type(), Not(App("strlt", SBool, l, r)))
			}
		}
	}
	if isFloatT(t) {
		name := "f" + in.Op.String()
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			declFn(name, SBool, "Flt", "Flt")
			return scalar(in.Type(), App(name, SBool, a.term(), b.term()))
		}
		declFn(name, "Flt", "Flt", "Flt")
		return scalar(in.Type(), App(name, "Flt", a.term(), b.term()))
	}
	l, r := a.term(), b.term()
	rt := in.Type()
	switch in.Op {
	case token.LSS:
		return scalar(rt, Lt(l, r))
	case token.LEQ:
		return scalar(rt, Le(l, r))
	case token.GTR:
		return scalar(rt, Gt(l, r))
	case token.GEQ:
		return scalar(rt, Ge(l, r))
	case token.ADD:
		return scalar(rt, st.wrapIn(Add(l, r), rt))
	case token.SUB:
		return scalar(rt, st.wrapIn(Sub(l, r), rt))
	case token.MUL:
		return scalar(rt, st.wrapIn(Mul(l, r), rt))
	case token.QUO, token.REM:
		x.oblige(st, "no panic", "division by zero", in.Pos(), Neq(r, Zero))
		return scalar(rt, goDivMod(in.Op == token.QUO, l, r, rt))
	case token.LAND, token.AND:
		if l.Sort == SBool {
			return scalar(rt, And(l, r))
		}
		return scalar(rt, bitAnd(l, r, rt))
	case token.LOR, token.OR:
		if l.Sort == SBool {
			return scalar(rt, Or(l, r))
		}
		return scalar(rt, x.bitFn(st, "bor", l, r, rt))
	case token.XOR:
		return scalar(rt, x.bitFn(st, "bxor", l, r, rt))
	case token.AND_NOT:
		return scalar(rt, x.bitFn(st, "bandnot", l, r, rt))
	case token.SHL:
		if r.isInt() && r.I.IsInt64() && r.I.Int64() < 64 {
			return scalar(rt, st.wrapIn(Mul(BigInt(new(big.Int).Lsh(big.NewInt(1), uint(r.I.Int64()))), l), rt))
		}
		return scalar(rt, x.bitFn(st, "bshl", l, r, rt))
	case token.SHR:
		if r.isInt() && r.I.IsInt64() && r.I.Int64() < 64 {
			return scalar(rt, Div(l, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(r.I.Int64())))))
		}
		return scalar(rt, x.bitFn(st, "bshr", l, r, rt))
	}
	x.fail("binop %v", in.Op)
	return nil
}

func goDivMod(quo bool, l, r *Term, t types.Type) *Term {
	lo, _, _ := intRange(t)
	if lo != nil && lo.Sign() == 0 && r.isInt() && r.I.Sign() > 0 {
		if quo {
			return Div(l, r)
		}
		return Mod(l, r)
	}
	// truncated division from the Euclidean one
	ad := func(a *Term) *Term { return Ite(Ge(a, Zero), a, Neg(a)) }
	q := Div(ad(l), ad(r))
	if quo {
		return wrap(Ite(Eq(Ge(l, Zero), Ge(r, Zero)), q, Neg(q)), t)
	}
	m := Mod(ad(l), ad(r))
	return Ite(Ge(l, Zero), m, Neg(m))
}

func bitAnd(l, r *Term, t types.Type) *Term {
	if l.isInt() {
		l, r = r, l
	}
	if r.isInt() {
		n := new(big.Int).Add(r.I, big.NewInt(1))
		if n.Sign() > 0 && n.BitLen() > 0 && new(big.Int).And(n, r.I).Sign() == 0 {
			return Mod(l, BigInt(n))
		}
		if l.isInt() {
			return BigInt(new(big.Int).And(l.I, r.I))
		}
	}
	declFn("band", SInt, SInt, SInt)
	return App("band", SInt, l, r)
}

func (x *Exec) bitFn(st *State, name string, l, r *Term, t types.Type) *Term {
	if l.isInt() && r.isInt() {
		switch name {
		case "bor":
			return BigInt(new(big.Int).Or(l.I, r.I))
		case "bxor":
			return BigInt(new(big.Int).Xor(l.I, r.I))
		}
	}
	declFn(name, SInt, SInt, SInt)
	b := App(name, SInt, l, r)
	st.assume(rangeFacts(t, b)...)
	if name == "bor" || name == "bxor" {
		// disjoint bits add up
		for k := uint(4); k <= 32; k += 4 {
			p := BigInt(new(big.Int).Lsh(big.NewInt(1), k))
			st.assume(Implies(And(Le(Zero, r), Lt(r, p), Le(Zero, l), Eq(Mod(l, p), Zero)), Eq(b, Add(l, r))))
			if k > 8 {
				break
			}
		}
	}
	return b
}

// equal is Go's == on two values.
func (x *Exec) equal(st *State, a, b *Val) *Term {
	if isInterface(a.T) || isInterface(b.T) {
		// nil comparisons with statically known contents
		if a.Dyn != nil && isNilConst(b) || b.Dyn != nil && isNilConst(a) {
			return False
		}
	}
	if a.Fn != nil || b.Fn != nil {
		if a.Fn != nil && isNilConst(b) || b.Fn != nil && isNilConst(a) {
			return False
		}
	}
	if a.A != nil && isNilConst(b) || b.A != nil && isNilConst(a) {
		return False
	}
	ta, tb := x.termsOf(st, a), x.termsOf(st, b)
	if _, ok := a.T.Underlying().(*types.Slice); ok {
		return Eq(ta[0], tb[0]) // only comparison with nil is allowed
	}
	x.resolve(st, ta...)
	x.resolve(st, tb...)
	if len(ta) != len(tb) {
		x.fail("comparison of %v and %v", a.T, b.T)
	}
	var cs []*Term
	for i := range ta {
		if strings.HasPrefix(ta[i].Sort, "(Array") {
			x.fail("comparison of arrays")
		}
		cs = append(cs, Eq(ta[i], tb[i]))
	}
	return And(cs...)
}

func isNilConst(v *Val) bool {
	return len(v.Ts) >= 1 && v.Ts[0] == Zero && v.Dyn == nil && v.A == nil && v.Fn == nil
}

// ---- type assertions ----

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert, k func(*Frame, *State, *Val)) bool {
	v := x.val(fr, st, in.X)
	at := in.AssertedType
	give := func(fr *Frame, st *State, val *Val, ok *Term) {
		if in.CommaOk {
			k(fr, st, &Val{T: in.Type(), Tup: []*Val{val, scalar(types.Typ[types.Bool], ok)}})
		} else {
			k(fr, st, val)
		}
	}
	if isInterface(at) {
		// assertion to another interface
		if v.Dyn != nil {
			ok := types.Implements(v.Dyn.T, at.Underlying().(*types.Interface))
			n := *v
			n.T = at
			if !ok && !in.CommaOk {
				x.oblige(st, "no panic", "type assertion", in.Pos(), False)
				return true
			}
			if !ok {
				give(fr, st, x.zero(at), False)
			} else {
				give(fr, st, &n, True)
			}
			return true
		}
		name := "implements:" + typeKey(at)
		declFn(name, SBool, SInt)
		c := App(name, SBool, itag(x.termsOf(st, v)[0]))
		c = And(c, Neq(x.termsOf(st, v)[0], Zero))
		if !in.CommaOk {
			x.oblige(st, "no panic", "type assertion", in.Pos(), c)
			n := *v
			n.T = at
			k(fr, st, &n)
			return true
		}
		x.branch(fr, st, c, func(fr *Frame, st *State) {
			n := *v
			n.T = at
			give(fr, st, &n, True)
		}, func(fr *Frame, st *State) { give(fr, st, x.zero(at), False) })
		return true
	}
	if v.Dyn != nil {
		if types.Identical(v.Dyn.T, at) {
			give(fr, st, v.Dyn, True)
			return true
		}
		if !in.CommaOk {
			x.oblige(st, "no panic", "type assertion", in.Pos(), False)
			return true
		}
		give(fr, st, x.zero(at), False)
		return true
	}
	t := v.term()
	c := And(Neq(t, Zero), Eq(itag(t), tagOf(typeKey(at))))
	if !in.CommaOk {
		x.oblige(st, "no panic", "type assertion", in.Pos(), c)
		k(fr, st, x.unbox(st, t, at))
		return true
	}
	x.branch(fr, st, c, func(fr *Frame, st *State) { give(fr, st, x.unbox(st, t, at), True) },
		func(fr *Frame, st *State) { give(fr, st, x.zero(at), False) })
	return true
}

// ---- maps ----

func mapKeys(mt *types.Map, t types.Type) (dk string, ks string) {
	tk := typeKey(t)
	ls := leaves(mt.Key())
	if len(ls) != 1 {
		panic(unsupported{"map key type " + mt.Key().String()})
	}
	return "D|" + tk, ls[0].Sort
}

func (x *Exec) mapDom(st *State, t types.Type, ref *Term) *Term {
	mt := t.Underlying().(*types.Map)
	dk, ks := mapKeys(mt, t)
	return Select(x.get(st, dk, arrSort(SInt, arrSort(ks, SBool))), ref)
}
func (x *Exec) mapVals(st *State, t types.Type, ref *Term) []*Term {
	mt := t.Underlying().(*types.Map)
	_, ks := mapKeys(mt, t)
	var out []*Term
	for _, l := range leaves(mt.Elem()) {
		out = append(out, Select(x.get(st, "V|"+typeKey(t)+"|"+l.Path, arrSort(SInt, arrSort(ks, l.Sort))), ref))
	}
	return out
}
func (x *Exec) setDom(st *State, t types.Type, ref, d *Term) {
	mt := t.Underlying().(*types.Map)
	dk, ks := mapKeys(mt, t)
	arr := x.get(st, dk, arrSort(SInt, arrSort(ks, SBool)))
	x.set(st, dk, Store(arr, ref, d))
}
func (x *Exec) setVals(st *State, t types.Type, ref *Term, vs []*Term) {
	mt := t.Underlying().(*types.Map)
	_, ks := mapKeys(mt, t)
	for i, l := range leaves(mt.Elem()) {
		k := "V|" + typeKey(t) + "|" + l.Path
		arr := x.get(st, k, arrSort(SInt, arrSort(ks, l.Sort)))
		x.set(st, k, Store(arr, ref, vs[i]))
	}
}

func card(d *Term) *Term {
	ks, _ := splitArr(d.Sort)
	name := "card:" + ks
	declFn(name, SInt, d.Sort)
	registerCard(name)
	return App(name, SInt, d)
}

var cardDone sync.Map

func registerCard(name string) {
	if _, dup := cardDone.LoadOrStore(name, true); dup {
		return
	}
	setLemmaHook(name, func(t *Term) []*Term {
		d := t.Args[0]
		out := []*Term{Le(Zero, t), Le(t, Int(maxLen))}
		ks, _ := splitArr(d.Sort)
		if d.Op == "store" {
			b := d.Args[0]
			k, v := d.Args[1], d.Args[2]
			was := Select(b, k)
			out = append(out, Eq(t, Add(card(b), Ite(v, Ite(was, Zero, One), Ite(was, Int(-1), Zero)))))
			out = append(out, Implies(was, Le(One, card(b))))
		}
		if d.Op == "constarr" {
			if d.Args[0] == False {
				out = append(out, Eq(t, Zero))
			}
			return out
		}
		kv := BVar("k", ks)
		out = append(out, Implies(Eq(t, Zero), Quant("forall", []*Term{kv}, [][]*Term{{mk("select", "", SBool, []*Term{d, kv})}}, Not(mk("select", "", SBool, []*Term{d, kv})))))
		w := "wit:" + ks
		declFn(w, ks, d.Sort)
		out = append(out, Implies(Lt(Zero, t), mk("select", "", SBool, []*Term{d, mk(w, "", ks, []*Term{d})})))
		out = append(out, Quant("forall", []*Term{kv}, [][]*Term{{mk("select", "", SBool, []*Term{d, kv})}}, Implies(mk("select", "", SBool, []*Term{d, kv}), Le(One, t))))
		return out
	})
}

func (x *Exec) newMap(st *State, t types.Type, mt *types.Map) *Val {
	r := x.allocRef(st)
	_, ks := mapKeys(mt, t)
	x.setDom(st, t, r, ConstArr(arrSort(ks, SBool), False))
	return scalar(t, r)
}

// lookupMap reads m[k].
func (x *Exec) lookupMap(st *State, t types.Type, m, key *Term) (ok *Term, v *Val) {
	mt := t.Underlying().(*types.Map)
	d := x.mapDom(st, t, m)
	ok = And(Neq(m, Zero), Select(d, key))
	v = &Val{T: mt.Elem()}
	for _, a := range x.mapVals(st, t, m) {
		v.Ts = append(v.Ts, Select(a, key))
	}
	return
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup, k func(*Frame, *State, *Val)) bool {
	m := x.val(fr, st, in.X)
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	if !isMap {
		s := m.term()
		ix := x.val(fr, st, in.Index).term()
		x.resolve(st, s)
		x.oblige(st, "no panic", "string index out of range", in.Pos(), And(Le(Zero, ix), Lt(ix, SeqLen(s))))
		r := SeqNth(s, ix)
		st.assume(Le(Zero, r), Le(r, Int(255)))
		fr.bind(in, scalar(in.Type(), r))
		return false
	}
	x.accessMap(st, in.X.Type(), m.term(), false, in.Pos())
	key := x.val(fr, st, in.Index)
	kt := x.termsOf(st, key)
	x.resolve(st, kt...)
	if len(kt) != 1 {
		x.fail("map key")
	}
	ok, v := x.lookupMap(st, in.X.Type(), m.term(), kt[0])
	give := func(fr *Frame, st *State, v *Val, ok *Term) {
		if in.CommaOk {
			k(fr, st, &Val{T: in.Type(), Tup: []*Val{v, scalar(types.Typ[types.Bool], ok)}})
		} else {
			k(fr, st, v)
		}
	}
	_ = mt
	x.branch(fr, st, ok, func(fr *Frame, st *State) {
		x.loadedFacts(st, v.T, v.Ts)
		give(fr, st, v, True)
	}, func(fr *Frame, st *State) {
		give(fr, st, x.zero(v.T), False)
	})
	return true
}

func (x *Exec) mapUpdate(fr *Frame, st *State, in *ssa.MapUpdate) {
	m := x.val(fr, st, in.Map)
	key := x.termsOf(st, x.val(fr, st, in.Key))
	v := x.val(fr, st, in.Value)
	t := in.Map.Type()
	x.oblige(st, "no panic", "assignment to entry in nil map", in.Pos(), Neq(m.term(), Zero))
	x.accessMap(st, t, m.term(), true, in.Pos())
	x.resolve(st, key...)
	x.mapSet(st, t, m.term(), key[0], v)
}

func (x *Exec) mapSet(st *State, t types.Type, m, key *Term, v *Val) {
	ts := x.termsOf(st, v)
	x.liveVal(st, v, "released memory is stored", token.NoPos)
	d := x.mapDom(st, t, m)
	x.mapUnhook(st, t, m, key)
	x.setDom(st, t, m, Store(d, key, True))
	vs := x.mapVals(st, t, m)
	for i := range vs {
		vs[i] = Store(vs[i], key, ts[i])
	}
	x.setVals(st, t, m, vs)
	x.mapHooks(st, t, m, key, ts)
}

func (x *Exec) mapDelete(st *State, t types.Type, m, key *Term, pos token.Pos) {
	x.accessMap(st, t, m, true, pos)
	d := x.mapDom(st, t, m)
	x.mapUnhook(st, t, m, key)
	x.setDom(st, t, m, Store(d, key, False))
}

// mapUnhook: the value leaving the map has no owner any more.
func (x *Exec) mapUnhook(st *State, t types.Type, m, key *Term) {
	for _, h := range x.P.mapHooks[typeKey(t)] {
		if h.what != "map" {
			continue
		}
		in := Select(x.mapDom(st, t, m), key)
		if in == False || st.known[Not(in)] {
			continue
		}
		arr := x.get(st, "ghost|"+h.ghost, x.P.ghosts[h.ghost])
		v := Select(x.mapVals(st, t, m)[0], key)
		if in == True || st.known[in] {
			x.set(st, "ghost|"+h.ghost, Store(arr, v, Zero))
		} else {
			x.set(st, "ghost|"+h.ghost, Ite(in, Store(arr, v, Zero), arr))
		}
	}
}

// mapHooks performs the ghost updates a contract file attaches to map insertions.
func (x *Exec) mapHooks(st *State, t types.Type, m, key *Term, ts []*Term) {
	for _, h := range x.P.mapHooks[typeKey(t)] {
		if h.what == "order" {
			continue
		}
		arr := x.get(st, "ghost|"+h.ghost, x.P.ghosts[h.ghost])
		var v *Term
		switch h.what {
		case "key":
			v = key
		case "map":
			v = m
		}
		x.set(st, "ghost|"+h.ghost, Store(arr, ts[0], v))
	}
}

// ---- iteration ----

// orderHook is the ghost that records in which order maps of type t were visited, if the contract
// being verified declares that it modifies it.
func (x *Exec) orderHook(t types.Type) string {
	if x.spec == nil {
		return ""
	}
	for _, h := range x.P.mapHooks[typeKey(t)] {
		if h.what != "order" {
			continue
		}
		for _, m := range x.spec.modifies {
			if m.op == "ghost" && m.name == h.ghost {
				return "ghost|" + h.ghost
			}
		}
	}
	return ""
}

func (x *Exec) noteOrder(st *State, it *MapIter) {
	if k := x.orderHook(it.T); k != "" {
		x.set(st, k, Store(x.get(st, k, x.P.ghosts[k[6:]]), it.M, st.heap[it.Name+"|ord"]))
	}
}

func (x *Exec) rangeOver(fr *Frame, st *State, in *ssa.Range) *Val {
	v := x.val(fr, st, in.X)
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		x.iterN++
		x.accessMap(st, in.X.Type(), v.term(), false, in.Pos())
		_, ks := mapKeys(mt, in.X.Type())
		name := fmt.Sprintf("it|%d@%s", x.iterN, in.Name())
		st.heap[name+"|vis"] = ConstArr(arrSort(ks, SBool), False)
		st.heap[name+"|cnt"] = Zero
		st.heap[name+"|ord"] = Var("iord:"+ks, arrSort(SInt, ks))
		st.heap[name+"|rank"] = Var("irank:"+ks, arrSort(ks, SInt))
		d := x.mapDom(st, in.X.Type(), v.term())
		d0 := Ite(Eq(v.term(), Zero), ConstArr(d.Sort, False), d)
		if st.known[Neq(v.term(), Zero)] || isFreshRef(v.term()) {
			d0 = d
		}
		it := &MapIter{M: v.term(), MT: mt, Name: name, D0: d0, T: in.X.Type()}
		x.noteOrder(st, it)
		return &Val{T: in.Type(), It: it}
	}
	x.resolve(st, v.term())
	return &Val{T: in.Type(), It: &MapIter{Str: v.term()}}
}

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next, k func(*Frame, *State, *Val)) {
	it := x.val(fr, st, in.Iter).It
	if it == nil || it.M == nil {
		x.fail("iteration over a string")
	}
	bt := types.Typ[types.Bool]
	_, ks := mapKeys(it.MT, it.T)
	vis := st.heap[it.Name+"|vis"]
	cnt := st.heap[it.Name+"|cnt"]
	x.accessMap(st, it.T, it.M, false, in.Pos())
	dom := x.mapDom(st, it.T, it.M)
	key := Fresh("rangekey", ks)
	st2 := st.clone()
	fr2 := fr.clone()
	// another element
	st.assume(Neq(it.M, Zero), Select(dom, key), Not(Select(vis, key)))
	kv := &Val{T: it.MT.Key(), Ts: []*Term{key}}
	st.assume(typeFacts(it.MT.Key(), kv.Ts, x.clk(st))...)
	_, v := x.lookupMap(st, it.T, it.M, key)
	x.loadedFacts(st, v.T, v.Ts)
	st.heap[it.Name+"|vis"] = Store(vis, key, True)
	st.heap[it.Name+"|cnt"] = Add(cnt, One)
	st.heap[it.Name+"|ord"] = Store(st.heap[it.Name+"|ord"], cnt, key)
	st.heap[it.Name+"|rank"] = Store(st.heap[it.Name+"|rank"], key, cnt)
	st.heap[it.Name+"|key"] = key
	x.noteOrder(st, it)
	if x.feasible(st) {
		k(fr, st, &Val{T: in.Type(), Tup: []*Val{scalar(bt, True), kv, v}})
	}
	// exhausted: every key present from start to end has been visited
	q := BVar("k", ks)
	selv := Select(vis, q)
	if !x.conc || st2.heap[it.Name+"|open"] == nil {
		body := Implies(And(Select(it.D0, q), Select(dom, q)), selv)
		var pats [][]*Term
		if dom.Op != "constarr" {
			pats = append(pats, []*Term{mk("select", "", SBool, []*Term{dom, q})})
		}
		if vis.Op != "constarr" {
			pats = append(pats, []*Term{mk("select", "", SBool, []*Term{vis, q})})
		}
		if it.D0.Op == "var" || it.D0.Op == "select" {
			pats = append(pats, []*Term{mk("select", "", SBool, []*Term{it.D0, q})})
		}
		st2.assume(Quant("forall", []*Term{q}, pats, body))
		if it.D0 == dom {
			// unmodified map: as many steps as elements
			st2.assume(Implies(Neq(it.M, Zero), Eq(cnt, card(dom))))
			st2.assume(Implies(Neq(it.M, Zero), Eq(vis, dom)))
		}
	}
	if x.feasible(st2) {
		z := x.zero(it.MT.Key())
		k(fr2, st2, &Val{T: in.Type(), Tup: []*Val{scalar(bt, False), z, x.zero(it.MT.Elem())}})
	}
}

// ---- channels, goroutines ----

func (x *Exec) send(fr *Frame, st *State, in *ssa.Send) {
	ch := x.val(fr, st, in.Chan)
	x.P.chanOp(x, st, "send", ch, in.Pos())
}

func (x *Exec) recv(fr *Frame, st *State, in *ssa.UnOp, ch *Val) *Val {
	x.P.chanOp(x, st, "recv", ch, in.Pos())
	if in.CommaOk {
		t := in.Type().(*types.Tuple)
		return &Val{T: in.Type(), Tup: []*Val{x.freshVal(st, "recv", t.At(0).Type()), x.freshVal(st, "recvok", t.At(1).Type())}}
	}
	return x.freshVal(st, "recv", in.Type())
}

func (x *Exec) selectStmt(fr *Frame, st *State, in *ssa.Select) {
	if len(in.States) == 0 {
		return
	}
	x.fail("select statement")
}

// goStmt: the new goroutine runs under its own contract; here only the launch counts.
func (x *Exec) goStmt(fr *Frame, st *State, in *ssa.Go) {
	c := in.Common()
	var name string
	if c.IsInvoke() {
		name = methodKey(c)
	} else if f := c.StaticCallee(); f != nil {
		name = fnName(f)
	} else {
		v := x.val(fr, st, c.Value)
		if v.Fn != nil {
			name = fnName(v.Fn.Fn)
		} else {
			name = "dynamic"
		}
	}
	x.note("go "+name, "goroutine launch (verified separately or not at all)")
	x.P.goHook(x, fr, st, name, in)
}

var debugTrace = os.Getenv("GOCV_TRACE") != ""
var oblCount int64

func countObl() { atomic.AddInt64(&oblCount, 1) }
