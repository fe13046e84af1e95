package main

// Loading /repo and resolving names.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type ghostField struct{ name, sort string }
type mapHook struct{ ghost, what string }
type recSrc struct {
	name   string
	params []binder
	sort   string
	depth  int
	body   string
	at     string
}

// Program is one build variant of the repository with the contracts.
type Program struct {
	hints        map[string]map[string]map[string]bool // function -> loop -> candidates
	anyName      bool                                  // named placeholders may stand for any variable
	variant      string
	fset         *token.FileSet
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package // by short name and by path
	local        map[*types.Package]bool
	funcs        map[string]*ssa.Function
	specs        map[string][]*Spec
	macros       map[string]*Macro
	logic        map[string]bool
	recSrc       []recSrc
	axiomSrc     []*Lemma
	theorems     []*Theorem
	lemmas       []*Lemma
	ghosts       map[string]string
	ghostFields  map[string][]ghostField
	unframed     map[string]bool
	mapHooks     map[string][]mapHook
	templates    []*Clause
	globalSrc    []*Clause
	derivedGhost map[string]bool
	dynCall      func(cc *CallCtx, fnv *Val, args []*Val) bool
	globals      map[*ssa.Global]*globalInfo
	typeMu       sync.Mutex
	typeMemo     map[string]types.Type
	typesByName  map[string]types.Type
}

func newProgram(variant string) *Program {
	return &Program{variant: variant, pkgs: map[string]*ssa.Package{}, local: map[*types.Package]bool{}, funcs: map[string]*ssa.Function{},
		specs: map[string][]*Spec{}, macros: map[string]*Macro{}, logic: map[string]bool{}, ghosts: map[string]string{},
		ghostFields: map[string][]ghostField{}, mapHooks: map[string][]mapHook{}, unframed: map[string]bool{}, derivedGhost: map[string]bool{},
		globals: map[*ssa.Global]*globalInfo{}, typeMemo: map[string]types.Type{}, typesByName: map[string]types.Type{}}
}

func (P *Program) load(repo string, tags string) error {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: env, Tests: false}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags", tags}
	}
	P.fset = token.NewFileSet()
	cfg.Fset = P.fset
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P.prog = prog
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		P.local[sp.Pkg] = true
		P.pkgs[sp.Pkg.Name()] = sp
		P.pkgs[strings.TrimPrefix(sp.Pkg.Path(), modPath)] = sp
	}
	// full paths come before short names: a dependency may have a package named like one of the standard library
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, sp := range all {
		if _, ok := P.pkgs[sp.Pkg.Path()]; !ok {
			P.pkgs[sp.Pkg.Path()] = sp
		}
	}
	for _, sp := range all {
		if _, ok := P.pkgs[sp.Pkg.Name()]; !ok {
			P.pkgs[sp.Pkg.Name()] = sp
		}
	}
	goAlias := map[string]*ssa.Function{}
	for fn := range P.everyFunction() {
		if fn.Pkg == nil && fn.Origin() == nil {
			continue
		}
		n := fnName(fn)
		if in := instName(fn); in != "" {
			P.funcs[in] = fn
		}
		if old, ok := P.funcs[n]; ok && old.Blocks != nil && fn.Synthetic != "" {
			continue
		}
		P.funcs[n] = fn
	}
	for n, fn := range P.funcs {
		i := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				i++
				if f := g.Call.StaticCallee(); f != nil && f.Parent() == fn {
					goAlias[fmt.Sprintf("%s$go%d", n, i)] = f
				}
			}
		}
	}
	for n, f := range goAlias {
		P.funcs[n] = f
	}
	P.dynCall = dynamicCall
	for _, g := range relGhosts {
		P.ghosts[g] = relSort
	}
	P.findGlobals()
	return nil
}

// everyFunction also includes the declared methods nothing refers to.
func (P *Program) everyFunction() map[*ssa.Function]bool {
	out := ssautil.AllFunctions(P.prog)
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for p := range P.local {
		for _, name := range p.Scope().Names() {
			tn, ok := p.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(P.prog.FuncValue(n.Method(i)))
			}
		}
	}
	return out
}

func (P *Program) anyPkg(t types.Type) *types.Package {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func isSortName(s string) bool {
	switch s {
	case "Int", "Bool", "Seq", "BA", "Addr", "AddrPort", "Time", "Opq", "Flt":
		return true
	}
	return strings.HasPrefix(s, "Arr(") || strings.HasPrefix(s, "(")
}

func (P *Program) sortName(s string) string {
	s = strings.TrimSpace(s)
	switch s {
	case "Int", "Bool", "BA", "Addr", "AddrPort", "Time", "Opq", "Flt":
		return s
	case "Seq":
		return SSeq
	case "AII":
		return arrSort(SInt, SInt)
	case "Order": // enumeration order of a map with byte array keys
		return arrSort(SInt, SBA)
	case "Set":
		return arrSort(SBA, SBool)
	case "BAInt":
		return arrSort(SBA, SInt)
	case "IntBool":
		return arrSort(SInt, SBool)
	case "IntBA":
		return arrSort(SInt, SBA)
	case "IntSeq":
		return arrSort(SInt, SSeq)
	case "IntAddr":
		return arrSort(SInt, "Addr")
	case "AddrInt":
		return arrSort("Addr", SInt)
	case "AddrSet":
		return arrSort("Addr", SBool)
	case "BASet2":
		return arrSort(SBA, arrSort(SBA, SBool))
	case "BABAInt":
		return arrSort(SBA, arrSort(SBA, SInt))
	case "BABABool":
		return arrSort(SBA, arrSort(SBA, SBool))
	case "BABAAddr":
		return arrSort(SBA, arrSort(SBA, "Addr"))
	}
	if strings.HasPrefix(s, "Arr(") {
		body := s[4 : len(s)-1]
		d := 0
		for i := range body {
			switch body[i] {
			case '(':
				d++
			case ')':
				d--
			case ',':
				if d == 0 {
					return arrSort(P.sortName(body[:i]), P.sortName(body[i+1:]))
				}
			}
		}
	}
	if strings.HasPrefix(s, "(") {
		return s
	}
	panic(specErr{"unknown sort " + s})
}

func (P *Program) mustType(ex *Expr, s string) types.Type {
	t := P.goType(s)
	if t == nil {
		panic(specErr{ex.at + ": unknown type " + s})
	}
	return t
}

func (P *Program) goType(s string) types.Type {
	P.typeMu.Lock()
	defer P.typeMu.Unlock()
	return P.goTypeL(strings.TrimSpace(s))
}

func (P *Program) goTypeL(s string) types.Type {
	if t, ok := P.typeMemo[s]; ok {
		return t
	}
	t := P.goType1(s)
	if t != nil {
		P.typeMemo[s] = t
	}
	return t
}

func (P *Program) goType1(s string) types.Type {
	switch {
	case s == "":
		return nil
	case s[0] == '*':
		if e := P.goTypeL(s[1:]); e != nil {
			return types.NewPointer(e)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if e := P.goTypeL(s[2:]); e != nil {
			return types.NewSlice(e)
		}
		return nil
	case strings.HasPrefix(s, "map["):
		i := strings.Index(s, "]")
		k, v := P.goTypeL(s[4:i]), P.goTypeL(s[i+1:])
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
		return nil
	case s[0] == '[':
		var n int64
		i := strings.Index(s, "]")
		fmt.Sscan(s[1:i], &n)
		if e := P.goTypeL(s[i+1:]); e != nil {
			return types.NewArray(e, n)
		}
		return nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	i := strings.LastIndex(s, ".")
	if i < 0 {
		return nil
	}
	p := P.pkgs[s[:i]]
	if p == nil {
		return nil
	}
	if o, ok := p.Pkg.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func (P *Program) isLocalType(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return P.local[n.Obj().Pkg()]
	}
	return false
}

// specFor gives the contract used for calls of name.
func (P *Program) specFor(name string, x *Exec) *Spec {
	for _, sp := range P.specs[name] {
		if len(sp.variants) > 0 && !contains(sp.variants, P.variant) {
			continue
		}
		if sp.opts["topOnly"] {
			continue
		}
		return sp
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- package-level variables that never change after initialisation ----

type globalInfo struct {
	constant bool
	kind     string // errnew, str, bytes, nonnil
	lit      string
}

func (P *Program) findGlobals() {
	type use struct {
		stores   int
		initVal  ssa.Value
		escapes  bool
		initOnly bool
	}
	uses := map[*ssa.Global]*use{}
	get := func(g *ssa.Global) *use {
		u := uses[g]
		if u == nil {
			u = &use{initOnly: true}
			uses[g] = u
		}
		return u
	}
	for fn := range P.everyFunction() {
		if fn.Blocks == nil || fn.Pkg == nil || !P.local[fn.Pkg.Pkg] {
			continue
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					u := get(g)
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == g {
							u.stores++
							u.initVal = in.Val
							if !isInit {
								u.initOnly = false
							}
							continue
						}
						u.escapes = true
					case *ssa.UnOp:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						u.escapes = true
					default:
						u.escapes = true
					}
				}
			}
		}
	}
	for g, u := range uses {
		if u.stores != 1 || !u.initOnly || u.escapes || g.Pkg == nil || !P.local[g.Pkg.Pkg] {
			continue
		}
		gi := &globalInfo{constant: true}
		switch v := u.initVal.(type) {
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
				gi.kind = "errnew"
			}
		case *ssa.Convert:
			if c, ok := v.X.(*ssa.Const); ok && isStringT(c.Type()) && isByteSlice(v.Type()) {
				gi.kind = "bytes"
				gi.lit = constString(c)
			}
		case *ssa.Slice:
			if al, ok := v.X.(*ssa.Alloc); ok && isByteSlice(v.Type()) && v.Low == nil && v.High == nil {
				if lit, ok := constBytes(al); ok {
					gi.kind, gi.lit = "bytes", lit
				}
			}
		case *ssa.Const:
			if v.Value != nil {
				gi.kind = "const"
			}
		}
		if gi.kind != "" {
			P.globals[g] = gi
		}
	}
}

// constBytes reads a byte array literal from the stores of its initialiser.
func constBytes(al *ssa.Alloc) (string, bool) {
	n, ok := isByteArray(derefT(al.Type()))
	if !ok {
		return "", false
	}
	b := make([]byte, n)
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Slice:
		case *ssa.IndexAddr:
			ix, ok := r.Index.(*ssa.Const)
			if !ok {
				return "", false
			}
			for _, u := range *r.Referrers() {
				s, ok := u.(*ssa.Store)
				if !ok || s.Addr != r {
					return "", false
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok {
					return "", false
				}
				b[ix.Int64()] = byte(c.Int64())
			}
		default:
			return "", false
		}
	}
	return string(b), true
}

// ioErr is a package-level error value of the standard library.
func (P *Program) ioErr(x *Exec, st *State, name string) *Term {
	return extErr(st, "io."+name)
}

func extErr(st *State, name string) *Term {
	v := Var("gerr:"+name, SInt)
	declFn("gerrname", SInt, SInt)
	st.assume(Gt(v, Zero), Eq(App("gerrname", SInt, v), tagOf("errvar "+name)))
	return v
}

func constString(c *ssa.Const) string {
	x := &Exec{}
	return x.constVal(nil, c).Ts[0].Name
}

// globalValue is the value of a package variable that is set once, by its initialiser.
func (P *Program) globalValue(x *Exec, st *State, g *ssa.Global) *Val {
	gi := P.globals[g]
	t := derefT(g.Type())
	if gi == nil {
		if g.Pkg != nil && !P.local[g.Pkg.Pkg] && types.Identical(t, types.Universe.Lookup("error").Type()) {
			x.note("variable "+globalName(g), "library error value (assumed constant)")
			return scalar(t, extErr(st, globalName(g)))
		}
		return nil
	}
	switch gi.kind {
	case "errnew":
		v := Var("gerr:"+globalName(g), SInt)
		declFn("gerrid", SInt, SInt)
		st.assume(Gt(v, Zero), Eq(App("gerrid", SInt, v), Int(int64(g.Pos()))), Eq(itag(v), tagOf("*errors.errorString")))
		return scalar(t, v)
	case "bytes":
		r := Var("greg:"+globalName(g), SInt)
		boundRef(r, clk0)
		n := Int(int64(len(gi.lit)))
		declFn("gregid", SInt, SInt)
		st.assume(Gt(r, Zero), Lt(r, clk0), Eq(App("gregid", SInt, r), Int(int64(g.Pos()))))
		v := mkSlice(t, r, Zero, n, n)
		// nobody writes to its bytes (frame conditions of every verified function)
		ent := x.entry
		if ent == nil {
			ent = st
		}
		st.assume(Eq(Sq(Select(x.get(ent, m8, m8Sort), r), Zero, n), SeqLit(gi.lit)))
		return v
	}
	return nil
}

// ---- verification of one function ----

type FnReport struct {
	hinted   bool
	hintMiss bool
	kept     map[string]map[string]bool
	Name     string
	Variant  string
	Spec     *Spec
	Obls     []*Obligation
	Proved   map[string]int
	Used     map[string]string
	Invs     []string
	Err      string
	Paths    int
	Wall     time.Duration
	Missing  bool
	Bodies   []string
	Disch    int
	Total    int
	Backends map[string]int
}

func (r *FnReport) ok() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if !o.Proved {
			return false
		}
	}
	return true
}

// verify checks one contract. Loop candidates known to have survived an earlier run (contracts/hints.json) are
// tried alone first: they are proved inductive again like any others; if the contract does not follow, all
// candidates are tried.
func (P *Program) verify(sp *Spec, budget time.Duration, maxStage int) (rep *FnReport) {
	t0 := time.Now()
	end := t0.Add(budget * 3 / 2)
	if !runDeadline.IsZero() && runDeadline.Before(end) {
		end = runDeadline
	}
	solverDeadline.Store(end.UnixNano())
	defer solverDeadline.Store(0)
	if h := P.hints[sp.name]; h != nil {
		rep = P.verifyWith(sp, budget, maxStage, h, false)
		if rep.Err == "" && rep.Disch == rep.Total || !rep.hinted {
			return rep
		}
		left := func() time.Duration { return max(time.Until(end), time.Second) }
		r2 := rep
		if rep.hintMiss {
			r2 = P.verifyWith(sp, left()/3, maxStage, h, true)
		}
		if r2.Err != "" || r2.Disch != r2.Total {
			if time.Until(end) > 5*time.Second {
				P.anyName = true
				r2 = P.verifyWith(sp, left()*2/3, maxStage, nil, false)
				P.anyName = false
			}
		}
		r2.Wall = time.Since(t0)
		return r2
	}
	return P.verifyWith(sp, budget, maxStage, nil, false)
}

// runDeadline ends a quick check's work in time to report what failed (zero: none).
var runDeadline time.Time

// loadHints reads contracts/hints.json (absent: every candidate is tried).
func (P *Program) loadHints(file string) {
	b, err := os.ReadFile(file)
	if err != nil || os.Getenv("GOCV_NOHINTS") != "" {
		return
	}
	raw := map[string]map[string][]string{}
	if json.Unmarshal(b, &raw) != nil {
		return
	}
	P.hints = map[string]map[string]map[string]bool{}
	for f, loops := range raw {
		P.hints[f] = map[string]map[string]bool{"": {}}
		for l, cs := range loops {
			P.hints[f][l] = map[string]bool{}
			for _, c := range cs {
				P.hints[f][l][c] = true
				P.hints[f][""][anonKey(c)] = true
			}
		}
	}
}

// saveHints records what survived in a successful report.
func saveHints(file string, reps []*FnReport) {
	raw := map[string]map[string][]string{}
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, &raw)
	}
	for _, r := range reps {
		if r.Err != "" || r.Disch != r.Total || len(r.kept) == 0 || r.Variant != "" && r.Variant != "default" {
			continue
		}
		raw[r.Name] = map[string][]string{}
		for l, cs := range r.kept {
			raw[r.Name][l] = sortedKeys(cs)
		}
	}
	b, _ := json.MarshalIndent(raw, "", " ")
	os.WriteFile(file, append(b, 10), 0644)
}

func (P *Program) verifyWith(sp *Spec, budget time.Duration, maxStage int, hints map[string]map[string]bool, hintAll bool) (rep *FnReport) {
	t0 := time.Now()
	rep = &FnReport{Name: sp.name, Variant: P.variant, Spec: sp, Proved: map[string]int{}, Backends: map[string]int{}}
	defer func() { rep.Wall = time.Since(t0) }()
	fn := P.funcs[sp.name]
	if fn == nil || fn.Blocks == nil {
		rep.Err = "function not found in the source: its contract cannot be checked"
		rep.Missing = true
		return
	}
	if len(fn.Params) != len(sp.params) || len(sp.results) > 0 && fn.Signature.Results().Len() != len(sp.results) {
		rep.Err = fmt.Sprintf("function has %d parameters and %d results, its contract names %d and %d", len(fn.Params), fn.Signature.Results().Len(), len(sp.params), len(sp.results))
		return
	}
	x := &Exec{P: P, spec: sp, top: fn, name: sp.name, sorts: map[string]string{}, used: map[string]string{}, proved: map[string]int{}, invs: map[string]bool{}, inlined: map[string]bool{}, surviving: map[*ssa.BasicBlock]map[string]bool{}, survived: map[*ssa.BasicBlock]map[string]bool{}, usePrev: map[*ssa.BasicBlock]bool{}, hints: hints, hintAll: hintAll, anyName: P.anyName, kept: map[string]map[string]bool{}}
	x.deadline = t0.Add(budget)
	if !runDeadline.IsZero() && runDeadline.Before(x.deadline) {
		x.deadline = runDeadline
	}
	x.lt = newLight()
	x.conc = sp.conc
	defer x.lt.close()
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case unsupported:
					rep.Err = r.msg + " at " + x.pos(0).String()
				case specErr:
					rep.Err = "contract: " + r.msg
				default:
					if os.Getenv("GOCV_PANIC") != "" {
						panic(r)
					}
					rep.Err = fmt.Sprintf("internal error: %v at %s", r, x.pos(0))
				}
			}
		}()
		x.runTop(fn)
	}()
	rep.Obls = x.obls
	rep.hinted, rep.hintMiss, rep.kept = x.hinted, x.hintMiss, x.kept
	rep.Proved = x.proved
	rep.Used = x.used
	rep.Invs = sortedKeys(x.invs)
	rep.Bodies = append([]string{sp.name}, sortedKeys(x.inlined)...)
	rep.Paths = x.paths
	if rep.Err == "" && x.paths == 0 && !sp.opts["noreturn"] {
		rep.Err = "no path reaches a return: the contract would hold vacuously"
	}
	for _, o := range x.obls {
		o.Props = sp.props
	}
	t1 := time.Now()
	dischargeAll(x.obls, maxStage, t0.Add(budget*5/4))
	if debugLoop {
		fmt.Fprintf(os.Stderr, "loop %s: execution %.1fs, obligations %.1fs, %d path queries %.1fs (%d killed)\n", fn.Name(), t1.Sub(t0).Seconds(), time.Since(t1).Seconds(), x.lt.calls, x.lt.spent.Seconds(), x.lt.killed)
		for _, o := range x.obls {
			if o.Res.Time > time.Second {
				fmt.Fprintf(os.Stderr, "loop   %.1fs %s %s\n", o.Res.Time.Seconds(), o.Res.Solver, o.Name())
			}
		}
	}
	for _, n := range x.proved {
		rep.Disch += n
		rep.Total += n
	}
	for _, o := range x.obls {
		rep.Total++
		if o.Proved {
			rep.Disch++
			rep.Backends[o.Res.Solver]++
		}
	}
	return
}

func (x *Exec) runTop(fn *ssa.Function) {
	st := &State{heap: map[string]*Term{}, known: map[*Term]bool{}, locks: map[string]lockState{}}
	st.assume(Le(One, clk0))
	st.heap["clk"] = clk0
	for _, g := range relGhosts {
		st.heap["ghost|"+g] = ConstArr(relSort, False)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]*Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}}
	x.topFrame = fr
	for i, p := range fn.Params {
		v := &Val{T: p.Type()}
		for _, l := range leaves(p.Type()) {
			t := Var("p:"+x.spec.params[i]+l.Path, l.Sort)
			if leafIsRef(l) {
				boundRef(t, clk0)
			}
			v.Ts = append(v.Ts, t)
		}
		st.assume(typeFacts(p.Type(), v.Ts, clk0)...)
		if i == 0 && fn.Signature.Recv() != nil && isPointer(p.Type()) {
			st.assume(Lt(Zero, v.Ts[0]))
		} else if isPointer(p.Type()) {
			st.assume(Le(Zero, v.Ts[0]))
		}
		fr.env[p] = v
		x.args = append(x.args, v)
	}
	for _, p := range fn.FreeVars {
		v := &Val{T: p.Type()}
		for _, l := range leaves(p.Type()) {
			t := Var("fv:"+p.Name()+l.Path, l.Sort)
			if leafIsRef(l) {
				boundRef(t, clk0)
			}
			v.Ts = append(v.Ts, t)
		}
		st.assume(typeFacts(p.Type(), v.Ts, clk0)...)
		if isPointer(p.Type()) {
			st.assume(Lt(Zero, v.Ts[0]))
		}
		fr.env[p] = v
		x.free = append(x.free, v)
	}
	x.entry = st.clone()
	x.P.globalFacts(x, st)
	env := x.specEnv(st, st, nil)
	for _, r := range x.spec.requires {
		st.assume(env.bool(r.e))
	}
	x.entry = st.clone()
	if solve(st.facts(), 1).Status == "unsat" {
		x.fail("the preconditions are contradictory")
	}
	locs := env.modLocs(x.spec.modifies)
	fr.onRet = func(st *State, fr *Frame, res []*Val) {
		x.resolveAll(st)
		e := x.specEnv(st, x.entry, res)
		for _, en := range x.spec.ensures {
			g := e.bool(en.e)
			lab := en.label
			if lab == "" {
				lab = en.src
			}
			x.oblige2(st, "postcondition", lab, g, en.props)
		}
		if !x.spec.opts["noframe"] {
			x.frame(st, locs)
		}
		if len(st.locks) > 0 {
			x.oblige(st, "locks released", "", 0, False)
		}
	}
	x.stack = []*ssa.Function{fn}
	x.visit(fr, fn.Blocks[0], nil, st)
}

// oblige2 splits conjunctions into separate obligations.
func (x *Exec) oblige2(st *State, kind, label string, goal *Term, props []string) {
	if goal.Op == "and" {
		for _, g := range goal.Args {
			x.oblige2(st, kind, label, g, props)
		}
		return
	}
	x.oblige(st, kind, label, 0, goal)
}

// splitGoal decomposes a goal into parts that together imply it; each part is given as the facts to refute.
func splitGoal(g *Term) [][]*Term {
	var out [][]*Term
	var rec func(pre []*Term, g *Term)
	rec = func(pre []*Term, g *Term) {
		pre = pre[:len(pre):len(pre)]
		switch {
		case g == True:
		case g.Op == "and":
			for _, a := range g.Args {
				rec(pre, a)
				pre = append(pre, a)
			}
		case g.Op == "=>":
			rec(append(pre, g.Args[0]), g.Args[1])
		case g.Op == "forall" && g.free == 0:
			m := map[*Term]*Term{}
			for _, b := range g.bnd {
				m[b] = Var(fmt.Sprintf("sk:%s!%d", b.Name, g.id), b.Sort)
			}
			rec(pre, Subst(g.Args[0], m))
		case g.Op == "=" && g.Args[0].Sort == SBool && !isLit(g.Args[0]) && !isLit(g.Args[1]):
			rec(append(pre, g.Args[0]), g.Args[1])
			rec(append(pre, g.Args[1]), g.Args[0])
		default:
			out = append(out, append(pre, Not(g)))
		}
	}
	rec(nil, g)
	if len(out) > 40 {
		return [][]*Term{{Not(g)}}
	}
	return out
}

func isLit(t *Term) bool { return t == True || t == False }

// dischargeAll tries every obligation shortly, then the open ones with the whole portfolio until two of them
// resist it; the rest then stay unproved.
func dischargeAll(obls []*Obligation, maxStage int, deadline time.Time) {
	each := func(par int, obls []*Obligation, f func(o *Obligation)) {
		var wg sync.WaitGroup
		sem := make(chan bool, par)
		for _, o := range obls {
			o := o
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				f(o)
			}()
		}
		wg.Wait()
	}
	var open []*Obligation
	var mu sync.Mutex
	each(8, obls, func(o *Obligation) {
		if o.Goal == False && len(pcFacts(o.PC)) == 0 {
			o.Res = Result{Status: "sat", Solver: "simplifier"}
			return
		}
		if time.Now().After(deadline) {
			o.Res = Result{Status: "unknown", Solver: "time budget"}
			return
		}
		o.Res = solve(append(pcFacts(o.PC), Not(o.Goal)), 1)
		o.Proved = o.Res.Status == "unsat"
		if !o.Proved {
			mu.Lock()
			open = append(open, o)
			mu.Unlock()
		}
	})
	var failed atomic.Int32
	each(2, open, func(o *Obligation) {
		if failed.Load() >= 2 || maxStage < 2 || time.Now().After(deadline) {
			return
		}
		fs := append(pcFacts(o.PC), Not(o.Goal))
		parts := splitGoal(o.Goal)
		if len(parts) == 1 {
			o.Res = solve(fs, maxStage)
		}
		for i := 0; len(parts) > 1 && i < len(parts); i++ {
			fs = append(pcFacts(o.PC), parts[i]...)
			o.Res = solve(fs, maxStage)
			if o.Res.Status != "unsat" {
				break
			}
		}
		o.Proved = o.Res.Status == "unsat"
		if !o.Proved {
			failed.Add(1)
			if d := os.Getenv("GOCV_DUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/%p.smt2", d, o), []byte(script(fs, "")), 0644)
			}
		}
	})
}

var farFuture = time.Now().Add(1000 * time.Hour)

// ---- lemmas, axioms, recursive definitions ----

func (P *Program) elaborateLogic() error {
	var rerr error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(specErr); ok {
					rerr = fmt.Errorf("%s", s.msg)
					return
				}
				panic(r)
			}
		}()
		x := P.logicExec()
		for _, r := range P.recSrc {
			var ps []*Term
			vars := map[string]*Val{}
			for _, b := range r.params {
				v := BVar("r:"+b.name, P.sortName(b.typ))
				ps = append(ps, v)
				vars[b.name] = lv(v)
			}
			st := emptyState()
			e := &Env{x: x, st: st, old: st, sink: st, vars: vars}
			ex := parseExpr(r.body, r.at)
			v := e.eval(ex)
			var t *Term
			if P.sortName(r.sort) == SSeq {
				t = e.seq(ex, v)
			} else {
				t = e.one(ex, v)
			}
			recdefs[r.name] = &recdef{name: r.name, params: ps, body: t, sort: P.sortName(r.sort), depth: r.depth}
		}
		for _, a := range P.axiomSrc {
			t, keys := P.lemmaTerm(x, a)
			addAxiom(a.name, keys, t)
		}
	}()
	return rerr
}

func (P *Program) logicExec() *Exec {
	return &Exec{P: P, sorts: map[string]string{}, used: map[string]string{}, proved: map[string]int{}, invs: map[string]bool{}, inlined: map[string]bool{}, surviving: map[*ssa.BasicBlock]map[string]bool{}, survived: map[*ssa.BasicBlock]map[string]bool{}, usePrev: map[*ssa.BasicBlock]bool{}}
}

func emptyState() *State {
	return &State{heap: map[string]*Term{}, known: map[*Term]bool{}, locks: map[string]lockState{}}
}

func (P *Program) lemmaTerm(x *Exec, a *Lemma) (*Term, []string) {
	st := emptyState()
	e := &Env{x: x, st: st, old: st, sink: st, vars: map[string]*Val{}}
	var bs []*Term
	vars := map[string]*Val{}
	for _, b := range a.bnd {
		v := BVar("l:"+b.name, P.sortName(b.typ))
		bs = append(bs, v)
		vars[b.name] = lv(v)
	}
	e = e.with(vars)
	body := e.bool(a.e)
	var pats [][]*Term
	keys := map[string]bool{}
	for i, tr := range a.trig {
		var p []*Term
		for _, t := range tr {
			tt := e.term(t)
			p = append(p, tt)
			if i == 0 {
				collectOps(tt, keys)
			}
		}
		pats = append(pats, p)
	}
	if len(a.trig) == 0 {
		collectOps(body, keys)
	}
	return Quant("forall", bs, pats, body), sortedKeys(keys)
}

func collectOps(t *Term, out map[string]bool) {
	if _, ok := getSig(t.Op); ok {
		out[t.Op] = true
	}
	for _, a := range t.Args {
		collectOps(a, out)
	}
}

// proveLemmas proves the lemmas of the contract files in order (by induction where stated) and then makes them available.
func (P *Program) proveLemmas() []*Obligation {
	x := P.logicExec()
	var out []*Obligation
	for _, l := range P.lemmas {
		t, keys := P.lemmaTerm(x, l)
		st := emptyState()
		e := &Env{x: x, st: st, old: st, sink: st, vars: map[string]*Val{}}
		sk := map[string]*Val{}
		var ind *Term
		for _, b := range l.bnd {
			v := Fresh("lem:"+b.name, P.sortName(b.typ))
			sk[b.name] = lv(v)
			if b.name == l.induct {
				ind = v
			}
		}
		goal := e.with(sk).bool(l.e)
		mkO := func(label string, facts []*Term, goal *Term) *Obligation {
			var pc *PC
			s2 := emptyState()
			s2.assume(facts...)
			pc = s2.pc
			return &Obligation{Fn: "lemma " + l.name, Kind: "lemma", Label: label, PC: pc, Goal: goal}
		}
		if ind == nil {
			out = append(out, mkO("", nil, goal))
		} else {
			out = append(out, mkO("base", []*Term{Le(ind, Zero)}, goal))
			// hypothesis: the statement for n-1 and all other variables
			hb := map[string]*Val{}
			var bs []*Term
			for _, b := range l.bnd {
				if b.name == l.induct {
					hb[b.name] = lv(Sub(ind, One))
					continue
				}
				v := BVar("l:"+b.name, P.sortName(b.typ))
				hb[b.name] = lv(v)
				bs = append(bs, v)
			}
			he := e.with(hb)
			var pats [][]*Term
			for _, tr := range l.trig {
				var p []*Term
				for _, t := range tr {
					p = append(p, he.term(t))
				}
				pats = append(pats, p)
			}
			hyp := Quant("forall", bs, pats, he.bool(l.e))
			// ground instance with the same other variables
			hb2 := map[string]*Val{}
			for k, v := range sk {
				hb2[k] = v
			}
			hb2[l.induct] = lv(Sub(ind, One))
			ground := mkO("step", []*Term{Lt(Zero, ind), e.with(hb2).bool(l.e)}, goal)
			dischargeAll([]*Obligation{ground}, 1, farFuture)
			if !ground.Proved {
				ground = mkO("step", []*Term{Lt(Zero, ind), hyp, e.with(hb2).bool(l.e)}, goal)
			}
			out = append(out, ground)
		}
		n := len(out)
		from := n - 1
		if ind != nil {
			from = n - 2
		}
		for _, o := range out[from:] {
			if !o.Proved {
				dischargeAll([]*Obligation{o}, 3, farFuture)
			}
		}
		addAxiom("lemma "+l.name, keys, t)
	}
	return out
}

// verifyTheorem proves a theorem of the contract files.
func (P *Program) verifyTheorem(th *Theorem, maxStage int) *FnReport {
	t0 := time.Now()
	x := P.logicExec()
	st := emptyState()
	e := &Env{x: x, st: st, old: st, sink: st, vars: map[string]*Val{}}
	sk := map[string]*Val{}
	for _, b := range th.bnd {
		if t := P.goType(b.typ); t != nil && !isSortName(b.typ) {
			sk[b.name] = x.freshVal(st, "thm:"+b.name, t)
		} else {
			sk[b.name] = lv(Fresh("thm:"+b.name, P.sortName(b.typ)))
		}
	}
	e = e.with(sk)
	for _, r := range th.sp.requires {
		st.assume(e.bool(r.e))
	}
	rep := &FnReport{Name: "theorem " + th.sp.name, Spec: th.sp, Variant: P.variant, Proved: map[string]int{}, Used: map[string]string{}, Backends: map[string]int{}}
	for _, en := range th.sp.ensures {
		g := e.bool(en.e)
		lab := en.label
		if lab == "" {
			lab = en.src
		}
		rep.Obls = append(rep.Obls, &Obligation{Fn: rep.Name, Kind: "theorem", Label: lab, PC: st.pc, Goal: g})
	}
	dischargeAll(rep.Obls, maxStage, farFuture)
	for _, o := range rep.Obls {
		rep.Total++
		if o.Proved {
			rep.Disch++
			rep.Backends[o.Res.Solver]++
		}
	}
	rep.Wall = time.Since(t0)
	return rep
}

// ---- hooks used by the executor; concurrency mode fills them in conc.go ----

func (P *Program) chanOp(x *Exec, st *State, op string, ch *Val, pos token.Pos) {
	if h := chanHook; h != nil {
		h(x, st, op, ch, pos)
	}
}

var chanHook func(x *Exec, st *State, op string, ch *Val, pos token.Pos)

func (P *Program) goHook(x *Exec, fr *Frame, st *State, name string, in *ssa.Go) {
	x.note("goroutine started: "+name, "goroutine (verified separately, or listed as assumption)")
}

func (P *Program) byProp(prop string) []*Spec {
	var out []*Spec
	for _, n := range sortedKeys(P.specs) {
		for _, sp := range P.specs[n] {
			if sp.extern || len(sp.variants) > 0 && !contains(sp.variants, P.variant) {
				continue
			}
			if contains(sp.props, prop) {
				out = append(out, sp)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// globalFacts are facts about package variables established by program initialisation.
func (P *Program) globalFacts(x *Exec, st *State) {
	e := &Env{x: x, st: st, old: st, sink: st, vars: map[string]*Val{}}
	for _, g := range P.globalSrc {
		st.assume(e.bool(g.e))
		x.note("globalfact "+g.src, "program initialisation (assumed)")
	}
}
