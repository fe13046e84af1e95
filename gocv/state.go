package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	t    *Term
	prev *PC
	n    int
}

type lockState struct {
	mode string // "R" or "W"
	n    int
	addr *Addr
	ref  *Term
}

type aliasStr struct {
	sym           *Term
	reg, off, len *Term
	resolved      bool
}

// State is one symbolic state on one path.
type State struct {
	heap  map[string]*Term
	pc    *PC
	known map[*Term]bool
	locks map[string]lockState
	alias []aliasStr
	// conc mode
	crit []critSnap
}

type critSnap struct {
	key  string
	heap map[string]*Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, heap: make(map[string]*Term, len(s.heap)), known: make(map[*Term]bool, len(s.known)), locks: make(map[string]lockState, len(s.locks))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.alias = append([]aliasStr{}, s.alias...)
	n.crit = append([]critSnap{}, s.crit...)
	return n
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == True {
			continue
		}
		if t.Op == "and" {
			s.assume(t.Args...)
			continue
		}
		if s.known[t] {
			continue
		}
		s.known[t] = true
		n := 1
		if s.pc != nil {
			n = s.pc.n + 1
		}
		s.pc = &PC{t, s.pc, n}
	}
}

func (s *State) facts() []*Term {
	if s.pc == nil {
		return nil
	}
	out := make([]*Term, s.pc.n)
	for p := s.pc; p != nil; p = p.prev {
		out[p.n-1] = p.t
	}
	return out
}

func pcFacts(p *PC) []*Term {
	if p == nil {
		return nil
	}
	out := make([]*Term, p.n)
	for q := p; q != nil; q = q.prev {
		out[q.n-1] = q.t
	}
	return out
}

// heapSorts remembers the sort of every heap entry ever named.
var heapSorts = map[string]string{}

func (x *Exec) get(st *State, key, srt string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	x.sorts[key] = srt
	t := Var("h:"+key, srt)
	setRootClk(t, clk0)
	return t
}

func (x *Exec) set(st *State, key string, t *Term) {
	x.sorts[key] = t.Sort
	st.heap[key] = t
}

func (x *Exec) clk(st *State) *Term {
	if t, ok := st.heap["clk"]; ok {
		return t
	}
	return clk0
}

func (x *Exec) allocRef(st *State) *Term {
	r := x.clk(st)
	x.set(st, "clk", Add(r, One))
	return r
}

// Obligation is one proof obligation.
type Obligation struct {
	Fn, Kind, Label string
	Pos             token.Position
	Props           []string
	PC              *PC
	Extra           []*Term
	Goal            *Term
	Res             Result
	Proved          bool
	St              *State
	Watch           map[string]*Term // terms of interest for counterexamples
}

func (o *Obligation) Name() string {
	s := o.Fn + ": " + o.Kind
	if o.Label != "" {
		s += " [" + o.Label + "]"
	}
	return s
}

type unsupported struct{ msg string }

func (x *Exec) fail(format string, args ...any) {
	panic(unsupported{fmt.Sprintf(format, args...)})
}

// root finds the base array symbol of a chain of selects and stores.
func rootSym(t *Term) *Term {
	for {
		switch t.Op {
		case "select", "store", "blit":
			t = t.Args[0]
		case "var":
			return t
		default:
			return nil
		}
	}
}

func stripStores(t *Term) *Term {
	switch t.Op {
	case "store", "blit":
		return stripStores(t.Args[0])
	case "select":
		b := stripStores(t.Args[0])
		if b == t.Args[0] {
			return t
		}
		return mk("select", "", t.Sort, []*Term{b, t.Args[1]})
	}
	return t
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
		return true
	}
	return false
}

// loadedFacts adds the well-formedness facts of a value just read from the heap.
func (x *Exec) loadedFacts(st *State, t types.Type, ts []*Term) {
	st.assume(typeFacts(t, ts, x.clk(st))...)
	ls := leaves(t)
	for i, l := range ls {
		isRef := l.T != nil && isRefType(l.T) || strings.HasSuffix(l.Path, ".reg") && l.T == nil
		if !isRef || ts[i].Op != "select" {
			continue
		}
		b := stripStores(ts[i])
		r := rootSym(b)
		if r == nil {
			continue
		}
		clkMu.RLock()
		c := rootClk[r]
		clkMu.RUnlock()
		if c == nil {
			continue
		}
		inner := b
		for inner.Args[0].Op == "select" {
			inner = inner.Args[0]
		}
		if ix := inner.Args[1]; ix == Zero || ix.Sort != SInt || upperOf(b) != nil {
			st.assume(Lt(b, c))
		} else {
			st.assume(Implies(Lt(ix, c), Lt(b, c)))
		}
	}
}

// ---- reading and writing through addresses ----

func (x *Exec) rootKey(t types.Type) string { return "F|" + typeKey(t) }

// leafKey is the heap entry of one leaf of the addressed component.
func leafKey(a *Addr, leaf string) string {
	if a.Idx != nil {
		return a.Root + "|" + a.Path + "|" + a.Sub + leaf
	}
	return a.Root + "|" + a.Path + leaf
}

func (x *Exec) loadLeaf(st *State, a *Addr, l Leaf) *Term {
	if a.Idx == nil {
		arr := x.get(st, leafKey(a, l.Path), arrSort(SInt, l.Sort))
		return Select(arr, a.Ref)
	}
	if strings.HasPrefix(a.Root, "M|") {
		arr := x.get(st, leafKey(a, l.Path), arrSort(SInt, arrSort(SInt, l.Sort)))
		return Select(Select(arr, a.Ref), a.Idx)
	}
	arr := x.get(st, a.Root+"|"+a.Path+a.Sub+l.Path, arrSort(SInt, arrSort(SInt, l.Sort)))
	return Select(Select(arr, a.Ref), a.Idx)
}

func (x *Exec) storeLeaf(st *State, a *Addr, l Leaf, v *Term) {
	if a.Idx == nil {
		k := leafKey(a, l.Path)
		arr := x.get(st, k, arrSort(SInt, l.Sort))
		x.set(st, k, Store(arr, a.Ref, v))
		return
	}
	k := leafKey(a, l.Path)
	if !strings.HasPrefix(a.Root, "M|") {
		k = a.Root + "|" + a.Path + a.Sub + l.Path
	}
	arr := x.get(st, k, arrSort(SInt, arrSort(SInt, l.Sort)))
	x.set(st, k, Store(arr, a.Ref, Store(Select(arr, a.Ref), a.Idx, v)))
}

// addrOf turns a pointer value into an address.
func (x *Exec) addrOf(v *Val) *Addr {
	if v.A != nil {
		return v.A
	}
	t := derefT(v.T)
	if arr, ok := t.Underlying().(*types.Array); ok {
		return &Addr{Root: "M|" + elemKey(arr.Elem()), Ref: v.term(), T: t}
	}
	return &Addr{Root: x.rootKey(t), Ref: v.term(), T: t}
}

func isArrayObj(a *Addr) bool {
	_, ok := a.T.Underlying().(*types.Array)
	return ok && a.Idx == nil && strings.HasPrefix(a.Root, "M|")
}

func (x *Exec) load(st *State, a *Addr) *Val {
	v := x.loadRaw(st, a)
	if !isArrayObj(a) {
		x.loadedFacts(st, a.T, v.Ts)
	}
	return v
}

func (x *Exec) loadRaw(st *State, a *Addr) *Val {
	if isArrayObj(a) {
		arr := a.T.Underlying().(*types.Array)
		if n, ok := isByteArray(a.T); ok {
			m := x.get(st, "M|uint8||", arrSort(SInt, arrSort(SInt, SInt)))
			return scalar(a.T, App("s2ba", SBA, Sq(Select(m, a.Ref), Zero, Int(n))))
		}
		v := &Val{T: a.T}
		for _, l := range leaves(arr.Elem()) {
			m := x.get(st, a.Root+"||"+l.Path, arrSort(SInt, arrSort(SInt, l.Sort)))
			v.Ts = append(v.Ts, Select(m, a.Ref))
		}
		return v
	}
	v := &Val{T: a.T}
	for _, l := range leaves(a.T) {
		v.Ts = append(v.Ts, x.loadLeaf(st, a, l))
	}
	return v
}

func (x *Exec) store(st *State, a *Addr, v *Val) {
	ts := x.termsOf(st, v)
	if isArrayObj(a) {
		arr := a.T.Underlying().(*types.Array)
		if n, ok := isByteArray(a.T); ok {
			m := x.get(st, "M|uint8||", arrSort(SInt, arrSort(SInt, SInt)))
			s := App("ba2s", SSeq, ts[0])
			_ = n
			x.set(st, "M|uint8||", Store(m, a.Ref, Blit(Select(m, a.Ref), Zero, s)))
			return
		}
		for i, l := range leaves(arr.Elem()) {
			k := a.Root + "||" + l.Path
			m := x.get(st, k, arrSort(SInt, arrSort(SInt, l.Sort)))
			x.set(st, k, Store(m, a.Ref, ts[i]))
		}
		return
	}
	ls := leaves(a.T)
	if len(ls) != len(ts) {
		x.fail("store of %v into %v: %d leaves for %d", v.T, a.T, len(ts), len(ls))
	}
	for i, l := range ls {
		x.storeLeaf(st, a, l, ts[i])
	}
}

// termsOf gives the leaves of a value, boxing statically known interface contents and functions.
func (x *Exec) termsOf(st *State, v *Val) []*Term {
	if v.Dyn != nil && len(v.Ts) == 0 {
		v.Ts = []*Term{x.box(st, v.Dyn)}
	}
	if v.Fn != nil && len(v.Ts) == 0 {
		v.Ts = []*Term{x.fnRef(v.Fn)}
	}
	if v.A != nil && len(v.Ts) == 0 {
		// an interior pointer stored as a value: opaque but functional in its base
		name := "addr:" + v.A.Root + v.A.Path + v.A.Sub
		args := []*Term{v.A.Ref}
		if v.A.Idx != nil {
			args = append(args, v.A.Idx)
			declFn(name, SInt, SInt, SInt)
		} else {
			declFn(name, SInt, SInt)
		}
		v.Ts = []*Term{App(name, SInt, args...)}
	}
	return v.Ts
}

func (x *Exec) fnRef(f *FnVal) *Term {
	return Var("fn:"+f.Fn.String(), SInt)
}

// zero is the zero value of a type.
func (x *Exec) zero(t types.Type) *Val {
	v := &Val{T: t}
	for _, l := range leaves(t) {
		v.Ts = append(v.Ts, zeroLeaf(l))
	}
	return v
}

func zeroLeaf(l Leaf) *Term {
	if l.T != nil {
		if n, ok := isByteArray(l.T); ok && l.Sort == SBA {
			return App("s2ba", SBA, SeqLit(strings.Repeat("\x00", int(n))))
		}
	}
	return zeroSort(l.Sort)
}

func zeroSort(s string) *Term {
	switch s {
	case SInt:
		return Zero
	case SBool:
		return False
	case SSeq:
		return Empty
	case "Addr", "AddrPort", "Time", "Opq", "Flt", SBA:
		return Var("zero:"+s, s)
	}
	if strings.HasPrefix(s, "(Array ") {
		_, vs := splitArr(s)
		return ConstArr(s, zeroSort(vs))
	}
	panic("zero of sort " + s)
}

// freshVal is an arbitrary value of a type.
func (x *Exec) freshVal(st *State, prefix string, t types.Type) *Val {
	v := &Val{T: t}
	if tup, ok := t.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			v.Tup = append(v.Tup, x.freshVal(st, prefix, tup.At(i).Type()))
		}
		return v
	}
	for _, l := range leaves(t) {
		v.Ts = append(v.Ts, Fresh(prefix+l.Path, l.Sort))
	}
	st.assume(typeFacts(t, v.Ts, x.clk(st))...)
	return v
}

// ---- boxing ----

func (x *Exec) box(st *State, v *Val) *Term {
	ts := x.termsOf(st, v)
	name := "box:" + typeKey(v.T)
	var srt []string
	for _, t := range ts {
		srt = append(srt, t.Sort)
	}
	declareBox(name, typeKey(v.T), srt)
	if len(ts) == 0 {
		return Var(name, SInt)
	}
	return App(name, SInt, ts...)
}

var tagNums = map[string]int64{}

func tagOf(tk string) *Term {
	sigMu.Lock()
	defer sigMu.Unlock()
	n, ok := tagNums[tk]
	if !ok {
		n = int64(len(tagNums) + 1)
		tagNums[tk] = n
	}
	return Int(n)
}

var boxDone = map[string]bool{}

func declareBox(name, tk string, sorts []string) {
	sigMu.Lock()
	done := boxDone[name]
	boxDone[name] = true
	sigMu.Unlock()
	if done {
		return
	}
	declFn("itag", SInt, SInt)
	tag := tagOf(tk)
	if len(sorts) == 0 {
		v := Var(name, SInt)
		addAxiom("box-tag "+name, []string{"itag"}, And(Eq(App("itag", SInt, v), tag), Gt(v, Zero)))
		return
	}
	declFn(name, SInt, sorts...)
	var bs []*Term
	for i, s := range sorts {
		bs = append(bs, BVar(fmt.Sprintf("b%d", i), s))
	}
	b := App(name, SInt, bs...)
	conj := []*Term{Gt(b, Zero), Eq(App("itag", SInt, b), tag)}
	for i, s := range sorts {
		un := fmt.Sprintf("unbox:%s:%d", tk, i)
		declFn(un, s, SInt)
		conj = append(conj, Eq(App(un, s, b), bs[i]))
	}
	addAxiom("box "+name, []string{name}, Quant("forall", bs, [][]*Term{{b}}, And(conj...)))
}

func addAxiom(name string, keys []string, t *Term) {
	sigMu.Lock()
	axioms = append(axioms, &Axiom{name: name, keys: keys, t: t})
	sigMu.Unlock()
}

func (x *Exec) unbox(st *State, i *Term, t types.Type) *Val {
	v := &Val{T: t}
	tk := typeKey(t)
	var srt []string
	for _, l := range leaves(t) {
		srt = append(srt, l.Sort)
	}
	declareBox("box:"+tk, tk, srt)
	for n, l := range leaves(t) {
		if i.Op == "box:"+tk {
			v.Ts = append(v.Ts, i.Args[n])
			continue
		}
		v.Ts = append(v.Ts, App(fmt.Sprintf("unbox:%s:%d", tk, n), l.Sort, i))
	}
	st.assume(typeFacts(t, v.Ts, x.clk(st))...)
	return v
}

func itag(i *Term) *Term {
	declFn("itag", SInt, SInt)
	if strings.HasPrefix(i.Op, "box:") {
		return tagOf(i.Op[4:])
	}
	return App("itag", SInt, i)
}

// ---- slices ----

func sl(v *Val) (reg, off, ln, cp *Term) { return v.Ts[0], v.Ts[1], v.Ts[2], v.Ts[3] }

func mkSlice(t types.Type, reg, off, ln, cp *Term) *Val {
	return &Val{T: t, Ts: []*Term{reg, off, ln, cp}}
}

const m8 = "M|uint8||"

var m8Sort = arrSort(SInt, arrSort(SInt, SInt))

// content is the byte sequence a []byte value denotes in a state.
func (x *Exec) content(st *State, v *Val) *Term {
	reg, off, ln, _ := sl(v)
	return Sq(Select(x.get(st, m8, m8Sort), reg), off, ln)
}

func (x *Exec) newBytes(st *State, t types.Type, s *Term) *Val {
	r := x.allocRef(st)
	m := x.get(st, m8, m8Sort)
	x.set(st, m8, Store(m, r, Blit(zeroArr, Zero, s)))
	n := SeqLen(s)
	return mkSlice(t, r, Zero, n, n)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func fnName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Object() == nil && f.Synthetic == "" || f.Parent() != nil {
		return strings.ReplaceAll(f.String(), modPath, "")
	}
	return strings.ReplaceAll(f.String(), modPath, "")
}
