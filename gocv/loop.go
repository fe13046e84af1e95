package main

// Loops: modified-set discovery, invariant inference from templates (Houdini), final pass.

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type cand struct {
	name    string
	auto    bool
	f       func(st *State, phis []*Val) *Term
	assumed *Term  // as assumed at the start of the iteration
	key     string // names the candidate independently of its place in the contract file ("": name)
}

type modInfo struct {
	full bool
	idx  []*Term
}

// bornBefore reports whether all variables of t existed when term number mark was created.
func bornBefore(t *Term, mark int, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := true
	if t.Op == "var" {
		r = t.id <= mark || !strings.Contains(t.Name, "!")
	} else {
		for _, a := range t.Args {
			if !bornBefore(a, mark, memo) {
				r = false
				break
			}
		}
	}
	memo[t] = r
	return r
}

func sameVal(a, b *Val) bool {
	if a == b {
		return true
	}
	if a.It != nil || b.It != nil {
		return a.It == b.It
	}
	if (a.A == nil) != (b.A == nil) || (a.Fn == nil) != (b.Fn == nil) || (a.Dyn == nil) != (b.Dyn == nil) {
		return false
	}
	if a.A != nil {
		return a.A.Root == b.A.Root && a.A.Path == b.A.Path && a.A.Ref == b.A.Ref && a.A.Idx == b.A.Idx && a.A.Sub == b.A.Sub
	}
	if a.Fn != nil {
		return a.Fn.Fn == b.Fn.Fn && len(a.Fn.Binds) == 0 && len(b.Fn.Binds) == 0
	}
	if a.Dyn != nil {
		return types.Identical(a.Dyn.T, b.Dyn.T) && sameVal(a.Dyn, b.Dyn)
	}
	if len(a.Ts) != len(b.Ts) || a.Tup != nil || b.Tup != nil || a.Re != nil || b.Re != nil {
		return false
	}
	for i := range a.Ts {
		if a.Ts[i] != b.Ts[i] {
			return false
		}
	}
	return true
}

func (x *Exec) prove(facts []*Term, goal *Term, stage int) bool {
	if goal == True {
		return true
	}
	for _, f := range facts {
		if f == goal {
			return true
		}
	}
	return solve(append(append([]*Term{}, facts...), Not(goal)), stage).Status == "unsat"
}

// anonKey drops the register names from a candidate's key.
func anonKey(k string) string { return regName.ReplaceAllString(k, "#") }

var regName = regexp.MustCompile(`\bt[0-9]+\b`)

type backEdge struct {
	st   *State
	phis []*Val
}

func (x *Exec) loop(fr *Frame, li *loopInfo, pred *ssa.BasicBlock, st *State) {
	h := li.header
	mark := newMark()
	x.newLoop(li)
	pre := st
	preVals := x.phiVals(fr, h, pred, st)
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	phiMod := make([]bool, len(phis))
	mod := map[string]*modInfo{}
	preClk := x.clk(pre)
	iterMod := map[string]bool{}

	build := func() (*State, *Frame, []*Val) {
		s := pre.clone()
		f := fr.clone()
		c := newClk(preClk)
		s.assume(Le(preClk, c))
		s.heap["clk"] = c
		for _, k := range sortedKeys(mod) {
			m := mod[k]
			cur := x.get(s, k, x.sorts[k])
			if strings.HasPrefix(k, "it|") {
				v := Fresh("lp:"+k, cur.Sort)
				s.heap[k] = v
				continue
			}
			if m.full {
				v := Fresh("lp:"+k, cur.Sort)
				if strings.HasPrefix(cur.Sort, "(Array") {
					setRootClk(v, c)
				}
				s.heap[k] = v
				continue
			}
			_, vs := splitArr(cur.Sort)
			for _, ix := range m.idx {
				v := Fresh("lp:"+k, vs)
				if strings.HasPrefix(vs, "(Array") {
					setRootClk(v, c)
				} else if vs == SInt {
					boundRefKey(k, v, c)
				}
				cur = Store(cur, ix, v)
			}
			s.heap[k] = cur
		}
		vals := make([]*Val, len(phis))
		for i, p := range phis {
			if !phiMod[i] {
				vals[i] = preVals[i]
			} else {
				v := &Val{T: p.Type()}
				if preVals[i].It != nil {
					x.fail("iterator in a phi")
				}
				if preVals[i].A != nil && isPointer(p.Type()) {
					x.fail("interior pointer %s changes in a loop", p.Comment)
				}
				for _, l := range leaves(p.Type()) {
					t := Fresh("phi:"+p.Comment+l.Path, l.Sort)
					if leafIsRef(l) {
						boundRef(t, c)
					}
					v.Ts = append(v.Ts, t)
				}
				s.assume(typeFacts(p.Type(), v.Ts, c)...)
				vals[i] = v
			}
			f.env[p] = vals[i]
		}
		for it := range iterMod {
			x.iterFacts(s, it)
		}
		return s, f, vals
	}

	run := func(s *State, f *Frame, onBack func(st *State, fr *Frame, from *ssa.BasicBlock), muted bool) {
		ctx := &loopCtx{body: li.body, onBack: onBack}
		if muted {
			ctx.onExit = func(*State, *Frame, *ssa.BasicBlock, *ssa.BasicBlock) {}
			ctx.onRet = true
			x.muted++
			paths := x.paths
			defer func() { x.muted--; x.paths = paths }()
		}
		f.loops[h] = ctx
		x.exec(f, h, len(phis), s)
	}

	// --- what does the body change?
	for round := 0; ; round++ {
		if round > 12 {
			x.fail("modified-set discovery does not converge")
		}
		s, f, vals := build()
		start := s.clone()
		changed := false
		x.discover++
		run(s, f, func(st *State, fr2 *Frame, from *ssa.BasicBlock) {
			bv := x.phiVals(fr2, h, from, st)
			for i := range phis {
				if !phiMod[i] && !sameVal(bv[i], vals[i]) {
					phiMod[i] = true
					changed = true
				}
			}
			x.checkLocks(pre, st)
			for _, k := range sortedKeys(st.heap) {
				v := st.heap[k]
				if k == "clk" {
					continue
				}
				if strings.HasPrefix(k, "it|") {
					if _, ok := pre.heap[k]; !ok {
						continue
					}
					if v != start.heap[k] {
						if mod[k] == nil {
							mod[k] = &modInfo{full: true}
							x.sorts[k] = v.Sort
							iterMod[k[:strings.LastIndex(k, "|")]] = true
							changed = true
						}
					}
					continue
				}
				x.sorts[k] = v.Sort
				s0 := x.get(start, k, v.Sort)
				if v == s0 {
					continue
				}
				m := mod[k]
				if m == nil {
					m = &modInfo{}
				}
				if m.full {
					continue
				}
				idx, ok := x.storeIdx(v, s0, preClk, mark)
				if strings.HasPrefix(k, "ghost|") && !strings.HasPrefix(v.Sort, "(Array") {
					ok = false
				}
				if !ok {
					m.full = true
					m.idx = nil
					mod[k] = m
					changed = true
					if debugLoop {
						fmt.Fprintf(os.Stderr, "loop %s b%d: full havoc of %s: %s\n", fr.fn.Name(), h.Index, k, v)
					}
					continue
				}
			next:
				for _, ix := range idx {
					for _, o := range m.idx {
						if o == ix {
							continue next
						}
					}
					m.idx = append(m.idx, ix)
					mod[k] = m
					changed = true
				}
			}
		}, true)
		x.discover--
		if !changed {
			break
		}
	}

	if x.discover > 0 {
		// an enclosing loop asks only what is modified
		s, f, _ := build()
		run(s, f, func(*State, *Frame, *ssa.BasicBlock) {}, false)
		return
	}
	// --- candidates
	cands := x.autoCands(fr, li, phis, phiMod, preVals, pre, iterMod, preClk)
	for _, k := range sortedKeys(mod) {
		if mod[k].full && !strings.HasPrefix(k, "it|") {
			cands = append(cands, x.frameCands(k, pre, preClk)...)
		}
	}
	cands = append(cands, x.templateCands(fr, li, phis, phiMod, preVals, pre, iterMod)...)
	// a candidate that no visit in the enclosing loop's previous round could keep is not tried again
	if last, ok := x.survived[h]; ok && x.usePrev[h] {
		var cs []cand
		for _, c := range cands {
			if last[c.canon()] {
				cs = append(cs, c)
			}
		}
		cands = cs
	}
	loopKey := loopName(fr.fn, h)
	if x.hints != nil {
		want, exact := x.hints[loopKey]
		exact = exact && !x.hintAll
		var cs []cand
		for _, c := range cands {
			if exact && want[c.canon()] || !exact && x.hints[""][anonKey(c.canon())] {
				cs = append(cs, c)
			}
		}
		if !exact || len(cs) < len(want) && !x.usePrev[h] {
			x.hintMiss = true
		}
		cands = cs
		x.hinted = true
	}
	// initially true?
	cands = x.filter(cands, []backEdge{{pre, preVals}}, "entry", fr, h)
	for round := 0; len(cands) > 0; round++ {
		s, f, vals := build()
		for i, c := range cands {
			cands[i].assumed = c.f(s, vals)
			s.assume(cands[i].assumed)
		}
		var backs []backEdge
		x.nextRound(li)
		run(s, f, func(st *State, fr2 *Frame, from *ssa.BasicBlock) {
			bv := x.phiVals(fr2, h, from, st)
			backs = append(backs, backEdge{st, bv})
		}, true)
		n := len(cands)
		cands = x.filter(cands, backs, fmt.Sprintf("round %d", round), fr, h)
		if len(cands) == n {
			break
		}
	}
	x.nextRound(li)
	if x.surviving[h] == nil {
		x.surviving[h] = map[string]bool{}
	}
	for _, c := range cands {
		x.surviving[h][c.canon()] = true
	}
	if x.muted == 0 {
		if x.kept[loopKey] == nil {
			x.kept[loopKey] = map[string]bool{}
		}
		for _, c := range cands {
			x.kept[loopKey][c.canon()] = true
		}
		x.proved["loop invariant"] += len(cands)
		for _, c := range cands {
			if !c.auto {
				x.invs[fr.fn.Name()+" b"+fmt.Sprint(h.Index)+": "+c.name] = true
			}
		}
	}
	s, f, vals := build()
	for _, c := range cands {
		s.assume(c.f(s, vals))
	}
	if !x.feasible(s) {
		if debugLoop {
			fmt.Fprintf(os.Stderr, "loop %s b%d: start infeasible\n", fr.fn.Name(), h.Index)
		}
	}
	run(s, f, func(st *State, fr2 *Frame, from *ssa.BasicBlock) {
		for _, al := range st.alias[len(pre.alias):] {
			for i := range phis {
				for _, t := range x.phiVals(fr2, h, from, st)[i].Ts {
					if mentions(t, al.sym) {
						x.fail("aliasing string carried around a loop")
					}
				}
			}
			for k, v := range st.heap {
				if v != s.heap[k] && mentions(v, al.sym) {
					x.aliasEscape(st, al, k)
				}
			}
		}
	}, false)
}

// aliasEscape: a string aliasing memory is stored away in a loop iteration; its bytes are fixed from now on.
func (x *Exec) aliasEscape(st *State, al aliasStr, key string) {
	x.note("strings aliasing request memory stored across loop iterations", "assumed not overwritten while the loop runs (checked on each iteration's own path)")
}

// loopName names a loop by its function and position among the function's blocks.
func loopName(fn *ssa.Function, h *ssa.BasicBlock) string {
	return fn.String() + " b" + fmt.Sprint(h.Index)
}

var iterNum = regexp.MustCompile(`it\|[0-9]+`)

func (c cand) canon() string {
	if c.key != "" {
		return canonName(c.key)
	}
	return canonName(c.name)
}

func canonName(s string) string { return iterNum.ReplaceAllString(s, "it|") }

// nextRound starts another round of the loop: its inner loops may reuse what the previous round found.
func (x *Exec) nextRound(li *loopInfo) {
	for _, h := range li.inner() {
		if s, ok := x.surviving[h]; ok {
			x.survived[h] = s
			x.usePrev[h] = true
			delete(x.surviving, h)
		}
	}
}

// newLoop forgets what earlier visits of the loop found about its inner loops.
func (x *Exec) newLoop(li *loopInfo) {
	for _, h := range li.inner() {
		delete(x.surviving, h)
		delete(x.survived, h)
		delete(x.usePrev, h)
	}
}

var debugLoop = os.Getenv("GOCV_LOOP") != ""

func newMark() int {
	internMu.Lock()
	defer internMu.Unlock()
	return termCount
}

// boundRefKey: a fresh value for heap entry k; references stay below the clock.
func boundRefKey(k string, v, c *Term) {
	boundRef(v, c) // harmless for integers: only consulted for references
}

// storeIdx lists the stable indices at which v differs from s0; fresh objects are ignored.
func (x *Exec) storeIdx(v, s0, preClk *Term, mark int) ([]*Term, bool) {
	var out []*Term
	memo := map[*Term]bool{}
	// both may be store chains over a common base
	base := func(t *Term) *Term {
		for t.Op == "store" {
			t = t.Args[0]
		}
		return t
	}
	contains := func(t, s *Term) bool {
		for t != s && t.Op == "store" {
			t = t.Args[0]
		}
		return t == s
	}
	if !contains(v, s0) {
		b := base(s0)
		if base(v) != b {
			return nil, false
		}
		has := func(t, ix, val *Term) bool {
			for t.Op == "store" {
				if t.Args[1] == ix {
					return t.Args[2] == val
				}
				t = t.Args[0]
			}
			return false
		}
		for t := s0; t != b; t = t.Args[0] {
			if !has(v, t.Args[1], t.Args[2]) && !bornBefore(t.Args[1], mark, memo) {
				return nil, false
			}
		}
		for t := v; t != b; t = t.Args[0] {
			ix := t.Args[1]
			if has(s0, ix, t.Args[2]) {
				continue
			}
			if _, ok := clkForm(ix); ok && clkGE(ix, preClk) {
				continue
			}
			if !bornBefore(ix, mark, memo) {
				return nil, false
			}
			out = append(out, ix)
		}
		for t := s0; t != b; t = t.Args[0] {
			if !has(v, t.Args[1], t.Args[2]) {
				out = append(out, t.Args[1])
			}
		}
		return out, true
	}
	for v != s0 {
		if v.Op != "store" {
			return nil, false
		}
		ix := v.Args[1]
		if _, ok := clkForm(ix); ok && clkGE(ix, preClk) {
			v = v.Args[0]
			continue
		}
		if !bornBefore(ix, mark, memo) {
			return nil, false
		}
		out = append(out, ix)
		v = v.Args[0]
	}
	return out, true
}

// frameCands: a heap array changed at unknown places keeps its values outside the function's modifies clause.
func (x *Exec) frameCands(k string, pre *State, preClk *Term) []cand {
	srt := x.sorts[k]
	if !strings.HasPrefix(srt, "(Array Int ") || strings.HasPrefix(k, "ghost|") {
		return nil
	}
	r := BVar("fr", SInt)
	mk1 := func(name string, ini, clk *Term, locs []modLoc) cand {
		return cand{name: name + " " + k, auto: true, f: func(st *State, ph []*Val) *Term {
			cur := x.get(st, k, srt)
			conj := []*Term{Lt(r, clk), Le(Zero, r)}
			for _, l := range locs {
				if l.key != k {
					continue
				}
				if l.ref == nil {
					return True
				}
				conj = append(conj, Neq(r, l.ref))
			}
			_, vs := splitArr(srt)
			sel := mk("select", "", vs, []*Term{cur, r})
			return Quant("forall", []*Term{r}, [][]*Term{{sel}}, Implies(And(conj...), Eq(Select(cur, r), Select(ini, r))))
		}}
	}
	var out []cand
	out = append(out, mk1("kept since loop entry", x.get(pre, k, srt), preClk, nil))
	if x.spec != nil && !x.spec.noframe {
		e := x.specEnv(x.entry, x.entry, nil)
		locs := e.modLocs(x.spec.modifies)
		out = append(out, mk1("frame", x.get(x.entry, k, srt), clk0, locs))
	}
	return out
}

// iterFacts: how the ghost order of a map iteration relates to the visited set.
func (x *Exec) iterFacts(st *State, name string) {
	vis, cnt, ord, rank := st.heap[name+"|vis"], st.heap[name+"|cnt"], st.heap[name+"|ord"], st.heap[name+"|rank"]
	ks, _ := splitArr(vis.Sort)
	k := BVar("k", ks)
	j := BVar("j", SInt)
	st.assume(Le(Zero, cnt), Eq(cnt, card(vis)))
	sv := mk("select", "", SBool, []*Term{vis, k})
	rk := mk("select", "", SInt, []*Term{rank, k})
	st.assume(Quant("forall", []*Term{k}, [][]*Term{{sv}}, Implies(sv, And(Le(Zero, rk), Lt(rk, cnt), Eq(Select(ord, rk), k)))))
	oj := mk("select", "", ks, []*Term{ord, j})
	st.assume(Quant("forall", []*Term{j}, [][]*Term{{oj}}, Implies(And(Le(Zero, j), Lt(j, cnt)), And(mk("select", "", SBool, []*Term{vis, oj}), Eq(Select(rank, oj), j)))))
}

func (x *Exec) filter(cs []cand, edges []backEdge, what string, fr *Frame, h *ssa.BasicBlock) []cand {
	if debugLoop {
		t0 := time.Now()
		defer func() {
			fmt.Fprintf(os.Stderr, "loop %s b%d: %s took %.1fs for %d candidates on %d edges\n", fr.fn.Name(), h.Index, what, time.Since(t0).Seconds(), len(cs), len(edges))
		}()
	}
	if len(cs) == 0 || len(edges) == 0 {
		return cs
	}
	type job struct {
		facts []*Term
		goal  *Term
		c     int
	}
	var jobs []job
	bad := make([]bool, len(cs))
	for _, e := range edges {
		for i, c := range cs {
			if bad[i] {
				continue
			}
			g, ok := x.tryCand(c, e)
			if !ok {
				bad[i] = true
				continue
			}
			if g == True || e.st.known[g] {
				continue
			}
			if !c.auto {
				g = strengthen(c.assumed, g)
			}
			jobs = append(jobs, job{e.st.facts(), g, i})
		}
	}
	// all at once first
	if len(jobs) > 3 {
		byEdge := map[string][]*Term{}
		facts := map[string][]*Term{}
		for _, j := range jobs {
			k := fmt.Sprint(len(j.facts))
			if len(j.facts) > 0 {
				k += fmt.Sprint(j.facts[len(j.facts)-1].id)
			}
			byEdge[k] = append(byEdge[k], j.goal)
			facts[k] = j.facts
		}
		all := true
		var wg sync.WaitGroup
		var mu sync.Mutex
		for k := range byEdge {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				if !x.prove(facts[k], And(byEdge[k]...), 1) {
					mu.Lock()
					all = false
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if debugLoop {
			fmt.Fprintf(os.Stderr, "loop %s b%d: %s all at once: %v\n", fr.fn.Name(), h.Index, what, all)
		}
		if all {
			jobs = nil
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			b := bad[j.c]
			mu.Unlock()
			if b {
				return
			}
			stage := 1
			if !cs[j.c].auto {
				stage = 2
				if x.hints != nil && x.hintFails.Load() < 2 {
					stage = 3 // known to hold on an earlier tree
				}
			}
			if time.Now().After(x.deadline) || !x.prove(j.facts, j.goal, stage) {
				if stage == 3 {
					x.hintFails.Add(1)
				}
				if d := os.Getenv("GOCV_DUMP"); d != "" && (!cs[j.c].auto || os.Getenv("GOCV_AUTO") != "") {
					os.WriteFile(fmt.Sprintf("%s/b%d_%s_%s.smt2", d, h.Index, strings.Map(func(r rune) rune {
						if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '+' || r == '=' {
							return r
						}
						return '_'
					}, cs[j.c].name), what), []byte(script(append(append([]*Term{}, j.facts...), Not(j.goal)), "")), 0644)
				}
				mu.Lock()
				bad[j.c] = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if time.Now().After(x.deadline) {
		x.fail("time budget of symbolic execution exceeded")
	}
	var out []cand
	for i, c := range cs {
		if !bad[i] {
			out = append(out, c)
		} else if debugLoop {
			fmt.Fprintf(os.Stderr, "loop %s b%d: dropped (%s) %s\n", fr.fn.Name(), h.Index, what, c.name)
		}
	}
	return out
}

func (x *Exec) tryCand(c cand, e backEdge) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isU := r.(unsupported); isU {
				ok = false
				return
			}
			if s, isS := r.(specErr); isS {
				if debugLoop {
					fmt.Fprintln(os.Stderr, "candidate", c.name, s.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	return c.f(e.st, e.phis), true
}

func (x *Exec) autoCands(fr *Frame, li *loopInfo, phis []*ssa.Phi, phiMod []bool, preVals []*Val, pre *State, iterMod map[string]bool, preClk *Term) []cand {
	var out []cand
	idxOf := map[ssa.Value]int{}
	for i, p := range phis {
		idxOf[p] = i
	}
	for i, p := range phis {
		i := i
		if !phiMod[i] {
			continue
		}
		if isIntT(p.Type()) && len(preVals[i].Ts) == 1 {
			p0 := preVals[i].Ts[0]
			out = append(out, cand{name: fmt.Sprintf("%s >= initial", p.Comment), auto: true, f: func(st *State, ph []*Val) *Term { return Le(p0, ph[i].Ts[0]) }})
			out = append(out, cand{name: fmt.Sprintf("%s <= initial", p.Comment), auto: true, f: func(st *State, ph []*Val) *Term { return Le(ph[i].Ts[0], p0) }})
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok && len(preVals[i].Ts) == 4 {
			p0 := preVals[i].Ts
			out = append(out, cand{name: fmt.Sprintf("%s region kept or new", p.Comment), auto: true, f: func(st *State, ph []*Val) *Term {
				return Or(And(Eq(ph[i].Ts[0], p0[0]), Eq(ph[i].Ts[1], p0[1]), Eq(ph[i].Ts[3], p0[3])), And(Le(preClk, ph[i].Ts[0]), Eq(ph[i].Ts[1], Zero)))
			}})
			out = append(out, cand{name: fmt.Sprintf("%s region kept", p.Comment), auto: true, f: func(st *State, ph []*Val) *Term {
				return And(Eq(ph[i].Ts[0], p0[0]), Eq(ph[i].Ts[1], p0[1]), Eq(ph[i].Ts[3], p0[3]))
			}})
			out = append(out, cand{name: fmt.Sprintf("%s grows", p.Comment), auto: true, f: func(st *State, ph []*Val) *Term { return Le(p0[2], ph[i].Ts[2]) }})
			out = append(out, cand{name: fmt.Sprintf("%s region end kept", p.Comment), auto: true, f: func(st *State, ph []*Val) *Term {
				return And(Eq(ph[i].Ts[0], p0[0]), Eq(Add(ph[i].Ts[1], ph[i].Ts[2]), Add(p0[1], p0[2])), Eq(Add(ph[i].Ts[1], ph[i].Ts[3]), Add(p0[1], p0[3])))
			}})
		}
	}
	// comparisons of the loop against loop-invariant bounds
	var vals func(v ssa.Value, st *State, ph []*Val) *Term
	vals = func(v ssa.Value, st *State, ph []*Val) *Term {
		if i, ok := idxOf[v]; ok {
			if len(ph[i].Ts) == 1 {
				return ph[i].Ts[0]
			}
			return nil
		}
		if b, ok := v.(*ssa.BinOp); ok && li.body[b.Block()] && (b.Op == token.ADD || b.Op == token.SUB) {
			l, r := vals(b.X, st, ph), vals(b.Y, st, ph)
			if l == nil || r == nil || l.Sort != SInt || r.Sort != SInt {
				return nil
			}
			if b.Op == token.ADD {
				return Add(l, r)
			}
			return Sub(l, r)
		}
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := c.Call.Args[0]
				var av *Val
				if i, ok := idxOf[a]; ok {
					av = ph[i]
				} else if e, ok := fr.env[a]; ok && !li.body[blockOf(a)] {
					av = e
				}
				if av != nil && len(av.Ts) == 4 {
					return av.Ts[2]
				}
				if av != nil && len(av.Ts) == 1 && av.Ts[0].Sort == SSeq {
					return SeqLen(av.Ts[0])
				}
			}
		}
		if c, ok := v.(*ssa.Const); ok {
			if cv := x.constVal(st, c); len(cv.Ts) == 1 {
				return cv.Ts[0]
			}
			return nil
		}
		if in, ok := v.(ssa.Instruction); ok && li.body[in.Block()] {
			return nil
		}
		if e, ok := fr.env[v]; ok && len(e.Ts) == 1 {
			return e.Ts[0]
		}
		return nil
	}
	seen := map[string]bool{}
	for b := range li.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || !isIntT(bo.X.Type()) {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			bo2 := bo
			key := bo.X.Name() + "/" + bo.Y.Name()
			if seen[key] {
				continue
			}
			seen[key] = true
			mkc := func(name string, f func(l, r *Term) *Term) {
				out = append(out, cand{name: fmt.Sprintf("%s %s", key, name), auto: true, f: func(st *State, ph []*Val) *Term {
					l, r := vals(bo2.X, st, ph), vals(bo2.Y, st, ph)
					if l == nil || r == nil {
						panic(unsupported{"no value"})
					}
					return f(l, r)
				}})
			}
			mkc("<=", func(l, r *Term) *Term { return Le(l, r) })
			mkc(">=", func(l, r *Term) *Term { return Ge(l, r) })
			mkc("<=+1", func(l, r *Term) *Term { return Le(l, Add(r, One)) })
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	for it := range iterMod {
		it := it
		var iter *MapIter
		for _, v := range fr.env {
			if v.It != nil && v.It.Name == it {
				iter = v.It
			}
		}
		if iter == nil {
			continue
		}
		ks, _ := splitArr(iter.D0.Sort)
		k := BVar("k", ks)
		sub := func(a, b *Term) *Term {
			sa := mk("select", "", SBool, []*Term{a, k})
			return Quant("forall", []*Term{k}, [][]*Term{{sa}}, Implies(Select(a, k), Select(b, k)))
		}
		out = append(out, cand{name: "visited ⊆ initial domain", auto: true, f: func(st *State, ph []*Val) *Term {
			v := st.heap[it+"|vis"]
			if v.Op == "constarr" {
				return True
			}
			return sub(v, iter.D0)
		}})
		out = append(out, cand{name: "domain ⊆ initial domain", auto: true, f: func(st *State, ph []*Val) *Term {
			d := x.mapDom(st, iter.T, iter.M)
			if d == iter.D0 {
				return True
			}
			return sub(d, iter.D0)
		}})
		if x.wantsOrder(iter) {
			kord, krank, kcnt, kvis := it+"|ord", it+"|rank", it+"|cnt", it+"|vis"
			out = append(out, cand{name: "rank of visited", auto: true, f: func(st *State, ph []*Val) *Term {
				v, o, r, n := st.heap[kvis], st.heap[kord], st.heap[krank], st.heap[kcnt]
				if v.Op == "constarr" {
					return True
				}
				rk := Select(r, k)
				return Quant("forall", []*Term{k}, [][]*Term{{mk("select", "", SBool, []*Term{v, k})}}, Implies(Select(v, k), And(Le(Zero, rk), Lt(rk, n), Eq(Select(o, rk), k))))
			}})
			out = append(out, cand{name: "order of visited", auto: true, f: func(st *State, ph []*Val) *Term {
				v, o, r, n := st.heap[kvis], st.heap[kord], st.heap[krank], st.heap[kcnt]
				if v.Op == "constarr" {
					return True
				}
				i := BVar("i", SInt)
				oi := mk("select", "", ks, []*Term{o, i})
				return Quant("forall", []*Term{i}, [][]*Term{{oi}}, Implies(And(Le(Zero, i), Lt(i, n)), And(Select(v, oi), Eq(Select(r, oi), i))))
			}})
			if h := x.orderHook(iter.T); h != "" {
				out = append(out, cand{name: "recorded order", auto: true, f: func(st *State, ph []*Val) *Term {
					return Eq(Select(x.get(st, h, x.P.ghosts[h[6:]]), iter.M), st.heap[kord])
				}})
			}
		}
		out = append(out, cand{name: "steps <= size", auto: true, f: func(st *State, ph []*Val) *Term {
			return Implies(Eq(x.mapDom(st, iter.T, iter.M), iter.D0), Le(st.heap[it+"|cnt"], card(iter.D0)))
		}})
	}
	return out
}

// wantsOrder: does the contract talk about the order of iteration?
func (x *Exec) wantsOrder(it *MapIter) bool {
	if x.spec == nil {
		return false
	}
	for _, c := range x.spec.invs {
		if strings.Contains(c.src, "ord(") || strings.Contains(c.src, "rank(") {
			return true
		}
	}
	return x.orderHook(it.T) != ""
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

// ---- templates ----

type slot struct {
	name string
	get  func(st *State, phis []*Val) *Val
}

func (x *Exec) templateCands(fr *Frame, li *loopInfo, phis []*ssa.Phi, phiMod []bool, preVals []*Val, pre *State, iterMod map[string]bool) []cand {
	var cl []*Clause
	if x.spec != nil {
		cl = append(cl, x.spec.invs...)
	}
	cl = append(cl, x.P.templates...)
	if len(cl) == 0 {
		return nil
	}
	// slots by type
	match := func(typ string) []slot {
		var out []slot
		if typ == "iter" || strings.HasPrefix(typ, "iter!") {
			for _, it := range sortedKeys(iterMod) {
				for _, v := range fr.env {
					if v.It != nil && v.It.Name == it && (typ == "iter" || typeMatches(x.P, typ[5:], v.It.T)) {
						v := v
						out = append(out, slot{it, func(*State, []*Val) *Val { return v }})
						break
					}
				}
			}
			return out
		}
		plus := false
		cellsOnly := false
		if typ == "idx" {
			typ, plus = "num", true
		}
		if strings.HasPrefix(typ, "cell!") {
			typ, cellsOnly = typ[5:], true
		}
		ok := func(t types.Type) bool { return typeMatches(x.P, typ, t) }
		if !cellsOnly {
			for i, p := range phis {
				i := i
				if !ok(p.Type()) || preVals[i].A != nil {
					continue
				}
				out = append(out, slot{p.Comment, func(st *State, ph []*Val) *Val { return ph[i] }})
				if plus {
					out = append(out, slot{p.Comment + "+1", func(st *State, ph []*Val) *Val { return lv(Add(ph[i].Ts[0], One)) }})
				}
			}
			// values of enclosing loops
			for lh := range fr.loops {
				for _, in := range lh.Instrs {
					p, isPhi := in.(*ssa.Phi)
					if !isPhi {
						break
					}
					if v, has := fr.env[p]; has && ok(p.Type()) && v.A == nil && lh != li.header {
						out = append(out, slot{"outer " + p.Comment, func(*State, []*Val) *Val { return v }})
					}
				}
			}
		}
		// pointers and slices computed before the loop
		if strings.HasPrefix(typ, "*") || strings.HasPrefix(typ, "[]") {
			var vs []ssa.Value
			for v := range fr.env {
				if _, isPhi := v.(*ssa.Phi); isPhi || !ok(v.Type()) || fr.env[v].A != nil && fr.env[v].A.Path != "" || li.body[blockOf(v)] {
					continue
				}
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool {
				return vs[i].Pos() < vs[j].Pos() || vs[i].Pos() == vs[j].Pos() && vs[i].Name() < vs[j].Name()
			})
		same:
			for i, v := range vs {
				nm := v.Name()
				for _, w := range vs[:i] {
					if sameVal(fr.env[v], fr.env[w]) {
						continue same
					}
				}
				v := fr.env[v]
				out = append(out, slot{"=" + nm, func(*State, []*Val) *Val { return v }})
			}
		}
		// variables kept in memory
		var cells []*ssa.Alloc
		for f := fr; f != nil; f = f.parent {
			if f != fr {
				break
			}
			for v := range f.env {
				if a, isA := v.(*ssa.Alloc); isA && ok(derefT(a.Type())) {
					cells = append(cells, a)
				}
			}
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].Pos() < cells[j].Pos() })
		for _, a := range cells {
			v := fr.env[a]
			out = append(out, slot{"*" + a.Comment, func(st *State, ph []*Val) *Val {
				r := x.loadRaw(st, x.addrOf(v))
				return r
			}})
		}
		return out
	}
	var out []cand
	for _, c := range cl {
		c := c
		var rec func(i int, vars map[string]slot)
		rec = func(i int, vars map[string]slot) {
			if i == len(c.ph) {
				bind := map[string]slot{}
				var nm []string
				for k, v := range vars {
					bind[k] = v
					nm = append(nm, k+"="+v.name)
				}
				sort.Strings(nm)
				hash := fnv.New32a()
				hash.Write([]byte(c.src))
				out = append(out, cand{key: fmt.Sprintf("%08x %s", hash.Sum32(), strings.Join(nm, " ")), name: c.at + " " + strings.Join(nm, " ") + " " + c.label, f: func(st *State, ph []*Val) *Term {
					e := &Env{x: x, st: st, old: x.entry, pre: pre, sink: st, vars: map[string]*Val{}}
					if x.spec != nil {
						for i, p := range x.spec.params {
							if i < len(x.args) {
								e.vars[p] = x.args[i]
							}
						}
					}
					if x.top != nil {
						for i, p := range x.top.FreeVars {
							if _, ok := e.vars[p.Name()]; !ok && i < len(x.free) {
								e.vars[p.Name()] = x.free[i].captured()
							}
						}
					}
					for k, v := range bind {
						e.vars[k] = v.get(st, ph)
						// the value on loop entry is available as k_pre
						e.vars[k+"0"] = v.get(pre, preVals)
					}
					return e.bool(c.e)
				}})
				return
			}
			used := map[string]bool{}
			for _, v := range vars {
				used[v.name] = true
			}
			slots := match(c.ph[i].typ)
			// a placeholder written ?pos_ stands for the variable pos where there is one (tried first)
			if n := strings.TrimSuffix(strings.TrimPrefix(c.ph[i].name, "?"), "_"); strings.HasSuffix(c.ph[i].name, "_") && !x.anyName {
				var named []slot
				for _, s := range slots {
					if strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(s.name, "*"), "outer "), "+1") == n {
						named = append(named, s)
					}
				}
				if len(named) > 0 {
					slots = named
				}
			}
			for _, s := range slots {
				if used[s.name] {
					continue
				}
				vars[c.ph[i].name] = s
				rec(i+1, vars)
				delete(vars, c.ph[i].name)
			}
		}
		rec(0, map[string]slot{})
	}
	if len(out) > 400 {
		out = out[:400]
	}
	return out
}

func typeMatches(P *Program, typ string, t types.Type) bool {
	switch typ {
	case "num":
		return isIntT(t)
	case "slice":
		_, ok := t.Underlying().(*types.Slice)
		return ok
	case "string":
		return isStringT(t)
	case "bool":
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	case "error":
		return typeKey(t) == "error"
	}
	g := P.goType(typ)
	return g != nil && types.Identical(g, t)
}

func (x *Exec) checkLocks(a, b *State) {
	if len(a.locks) != len(b.locks) {
		x.fail("locks held differ after a loop iteration")
	}
	for k, v := range a.locks {
		if b.locks[k].mode != v.mode || b.locks[k].n != v.n {
			x.fail("locks held differ after a loop iteration")
		}
	}
}

// strengthen adds to each universally quantified part of a goal the instance, at the same variables, of what was
// assumed at the start of the iteration: it holds there anyway, and saves the solver finding the instance.
func strengthen(assumed, goal *Term) *Term {
	if assumed == nil || assumed == goal {
		return goal
	}
	switch {
	case goal.Op == "forall" && assumed.Op == "forall" && len(goal.bnd) == len(assumed.bnd):
		m := map[*Term]*Term{}
		for i, b := range assumed.bnd {
			if b.Sort != goal.bnd[i].Sort {
				return goal
			}
			m[b] = goal.bnd[i]
		}
		inst := Subst(assumed.Args[0], m)
		return Quant("forall", goal.bnd, goal.pats, Implies(inst, goal.Args[0]))
	case goal.Op == "and" && assumed.Op == "and" && len(goal.Args) == len(assumed.Args):
		var ts []*Term
		for i := range goal.Args {
			ts = append(ts, strengthen(assumed.Args[i], goal.Args[i]))
		}
		return And(ts...)
	case goal.Op == "=>" && assumed.Op == "=>" && goal.Args[0] == assumed.Args[0]:
		return Implies(goal.Args[0], strengthen(assumed.Args[1], goal.Args[1]))
	}
	return goal
}
