package main

// SMT-LIB emission, ground lemma instantiation and the solver portfolio.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type fnSig struct {
	args []string
	res  string
}

var (
	fnSigs  = map[string]fnSig{}
	sigMu   sync.Mutex
	opaques = map[string]bool{SBA: true}
)

func declFn(name string, res string, args ...string) {
	sigMu.Lock()
	defer sigMu.Unlock()
	if old, ok := fnSigs[name]; ok {
		if old.res != res || strings.Join(old.args, ",") != strings.Join(args, ",") {
			panic(fmt.Sprintf("function %s redeclared: %v->%s vs %v->%s", name, old.args, old.res, args, res))
		}
		return
	}
	fnSigs[name] = fnSig{args, res}
}

// Axiom is a closed formula, included when all its key symbols occur in the query.
type Axiom struct {
	name string
	keys []string
	t    *Term
	raw  string // raw SMT text instead of t
	prop string // where it comes from (for the trusted base)
}

var axioms []*Axiom

func init() {
	AII := arrSort(SInt, SInt)
	declFn("sq", SSeq, AII, SInt, SInt)
	declFn("blit", AII, AII, SInt, SSeq)
	declFn("zeros", SSeq, SInt)
	declFn("nth", SInt, SSeq, SInt)
	declFn("ba2s", SSeq, SBA)
	declFn("s2ba", SBA, SSeq)
	ax := func(name, keys, raw string) {
		axioms = append(axioms, &Axiom{name: name, keys: strings.Fields(keys), raw: raw})
	}
	ax("sq-len", "sq", `(forall ((A (Array Int Int)) (o Int) (n Int)) (! (and (=> (>= n 0) (= (seq.len (sq A o n)) n)) (=> (<= n 0) (= (sq A o n) (as seq.empty (Seq Int)))) (=> (= n 1) (= (sq A o n) (seq.unit (select A o))))) :pattern ((sq A o n))))`)
	ax("sq-nth", "sq nth", `(forall ((A (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (nth (sq A o n) i) (select A (+ o i)))) :pattern ((nth (sq A o n) i))))`)
	ax("sq-blit", "sq blit", `(forall ((A (Array Int Int)) (p Int) (s (Seq Int)) (o Int) (n Int)) (! (and
 (=> (or (<= (+ o n) p) (<= (+ p (seq.len s)) o)) (= (sq (blit A p s) o n) (sq A o n)))
 (=> (and (<= o p) (<= (+ p (seq.len s)) (+ o n))) (= (sq (blit A p s) o n) (seq.++ (sq A o (- p o)) s (sq A (+ p (seq.len s)) (- (+ o n) (+ p (seq.len s)))))))
 (=> (and (<= p o) (<= (+ o n) (+ p (seq.len s))) (>= n 0)) (= (sq (blit A p s) o n) (seq.extract s (- o p) n)))) :pattern ((sq (blit A p s) o n))))`)
	ax("blit-sel", "blit", `(forall ((A (Array Int Int)) (p Int) (s (Seq Int)) (i Int)) (! (= (select (blit A p s) i) (ite (and (<= p i) (< i (+ p (seq.len s)))) (seq.nth s (- i p)) (select A i))) :pattern ((select (blit A p s) i))))`)
	ax("sq-store", "sq store", `(forall ((A (Array Int Int)) (k Int) (v Int) (o Int) (n Int)) (! (and
 (=> (or (< k o) (<= (+ o n) k)) (= (sq (store A k v) o n) (sq A o n)))
 (=> (and (<= o k) (< k (+ o n))) (= (sq (store A k v) o n) (seq.++ (sq A o (- k o)) (seq.unit v) (sq A (+ k 1) (- (+ o n) (+ k 1))))))) :pattern ((sq (store A k v) o n))))`)
	ax("zeros-len", "zeros", `(forall ((n Int)) (! (=> (>= n 0) (= (seq.len (zeros n)) n)) :pattern ((zeros n))))`)
	ax("nth-def", "nth", `(forall ((s (Seq Int)) (i Int)) (! (=> (and (<= 0 i) (< i (seq.len s))) (= (nth s i) (seq.nth s i))) :pattern ((nth s i))))`)
	ax("ba-inv1", "ba2s", `(forall ((b BA)) (! (= (s2ba (ba2s b)) b) :pattern ((ba2s b))))`)
	ax("ba-inv2", "s2ba", `(forall ((s (Seq Int))) (! (= (ba2s (s2ba s)) s) :pattern ((s2ba s))))`)
}

// recdef is a recursive logic function unfolded on ground terms.
type recdef struct {
	name   string
	params []*Term // bound variables
	body   *Term
	sort   string
	depth  int
}

var recdefs = map[string]*recdef{}

// ground lemma hooks: called for every ground application of the given operator
var lemmaHooks sync.Map

func setLemmaHook(op string, f func(t *Term) []*Term) { lemmaHooks.Store(op, f) }
func lemmaHook(op string) func(t *Term) []*Term {
	if f, ok := lemmaHooks.Load(op); ok {
		return f.(func(t *Term) []*Term)
	}
	return nil
}

func getSig(name string) (fnSig, bool) {
	sigMu.Lock()
	defer sigMu.Unlock()
	s, ok := fnSigs[name]
	return s, ok
}

// collectGround walks all ground subterms.
func collectGround(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		collectGround(a, seen, f)
	}
	if t.free == 0 {
		f(t)
	}
}

// skolemize replaces negated universal facts by an instance with fresh constants.
func skolemize(fs []*Term) []*Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t.Op == "and":
			for _, a := range t.Args {
				add(a)
			}
		case t.Op == "not" && t.Args[0].Op == "forall" && t.Args[0].free == 0:
			q := t.Args[0]
			m := map[*Term]*Term{}
			for _, b := range q.bnd {
				m[b] = Var(fmt.Sprintf("sk:%s!%d", b.Name, q.id), b.Sort)
			}
			add(Not(Subst(q.Args[0], m)))
		case t.Op == "not" && t.Args[0].Op == "=>":
			add(t.Args[0].Args[0])
			add(Not(t.Args[0].Args[1]))
		case t.Op == "not" && t.Args[0].Op == "or":
			for _, a := range t.Args[0].Args {
				add(Not(a))
			}
		default:
			out = append(out, t)
		}
	}
	for _, f := range fs {
		add(f)
	}
	return out
}

// instantiate adds ground lemma instances for the query.
func instantiate(fs []*Term) []*Term {
	// universally quantified facts with a trigger select(A, x): instances at the reads of A
	type qf struct {
		q    *Term
		done map[*Term]bool
	}
	byArr := map[*Term][]*qf{}
	for _, f := range fs {
		if f.Op == "forall" && len(f.bnd) == 1 && f.free == 0 {
			q := &qf{f, map[*Term]bool{}}
			for _, p := range f.pats {
				if len(p) == 1 && p[0].Op == "select" && p[0].Args[1] == f.bnd[0] && p[0].Args[0].free == 0 {
					byArr[p[0].Args[0]] = append(byArr[p[0].Args[0]], q)
				}
			}
		}
	}
	// sequences known to be stretches of memory
	type sqIf struct{ m, cond *Term }
	isSq := map[*Term]sqIf{}
	for _, f := range fs {
		cond := True
		if f.Op == "=>" {
			cond, f = f.Args[0], f.Args[1]
		}
		if f.Op == "=" && f.free == 0 && f.Args[0].Sort == SSeq {
			a, b := f.Args[0], f.Args[1]
			if a.Op == "sq" {
				a, b = b, a
			}
			if b.Op == "sq" && a.Op != "sq" && isSq[a].m == nil {
				isSq[a] = sqIf{b, cond}
			}
		}
	}
	seen := map[*Term]bool{}
	depth := map[*Term]int{}
	var out []*Term
	work := append([]*Term{}, fs...)
	for round := 0; round < 6 && len(work) > 0; round++ {
		var next []*Term
		add := func(t *Term) {
			if t != True {
				out = append(out, t)
				next = append(next, t)
			}
		}
		for _, w := range work {
			collectGround(w, seen, func(t *Term) {
				if t.Op == "select" {
					for _, q := range byArr[t.Args[0]] {
						if !q.done[t.Args[1]] && len(q.done) < 30 {
							q.done[t.Args[1]] = true
							add(Subst(q.q.Args[0], map[*Term]*Term{q.q.bnd[0]: t.Args[1]}))
						}
					}
				}
				if rd, ok := recdefs[t.Op]; ok {
					if depth[t] < rd.depth {
						m := map[*Term]*Term{}
						for i, p := range rd.params {
							m[p] = t.Args[i]
						}
						b := Subst(rd.body, m)
						collectGround(b, map[*Term]bool{}, func(u *Term) {
							if _, ok := recdefs[u.Op]; ok && u != t {
								if _, known := depth[u]; !known && !seen[u] {
									depth[u] = depth[t] + 1
								}
							}
						})
						add(Eq(t, b))
					}
				}
				if t.Op == "seq.extract" {
					// parts of a sequence that is one of two, or a stretch of memory
					if X := t.Args[0]; X.Op == "ite" {
						add(Implies(X.Args[0], Eq(t, SeqExtract(X.Args[1], t.Args[1], t.Args[2]))))
						add(Implies(Not(X.Args[0]), Eq(t, SeqExtract(X.Args[2], t.Args[1], t.Args[2]))))
					} else if m := isSq[X]; m.m != nil {
						add(Implies(m.cond, Eq(t, SeqExtract(m.m, t.Args[1], t.Args[2]))))
					}
				}
				if n, ok := fixedLen[t.Op]; ok {
					add(mk("=", "", SBool, []*Term{mk("seq.len", "", SInt, []*Term{t}), Int(n)}))
				}
				if h := lemmaHook(t.Op); h != nil {
					for _, l := range h(t) {
						add(l)
					}
				}
			})
		}
		work = next
	}
	return out
}

func init() {
	setLemmaHook("seq.extract", func(t *Term) []*Term {
		s, o, n := t.Args[0], t.Args[1], t.Args[2]
		in := And(Le(Zero, o), Le(Zero, n), Le(Add(o, n), SeqLen(s)))
		out := []*Term{Implies(in, Eq(mk("seq.len", "", SInt, []*Term{t}), n))}
		if s.Op == "sq" {
			out = append(out, Implies(in, Eq(t, Sq(s.Args[0], Add(s.Args[1], o), n))))
		}
		return out
	})
}

// script renders a satisfiability query for the conjunction of fs.
func script(fs []*Term, opts string) string {
	fs = skolemize(fs)
	fs = append(append([]*Term{}, fs...), instantiate(fs)...)
	ops := map[string]bool{}
	vars := map[*Term]bool{}
	sorts := map[string]bool{}
	cnt := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
		switch t.Op {
		case "var":
			vars[t] = true
			sorts[t.Sort] = true
		case "forall", "exists":
			for _, b := range t.bnd {
				sorts[b.Sort] = true
			}
		case "bvar", "int", "true", "false", "seqlit":
		default:
			ops[t.Op] = true
			sorts[t.Sort] = true
		}
		order = append(order, t)
	}
	for _, f := range fs {
		visit(f)
	}
	// axioms
	sigMu.Lock()
	axioms := append([]*Axiom{}, axioms...)
	sigMu.Unlock()
	var raws []string
	used := map[*Axiom]bool{}
	for changed := true; changed; {
		changed = false
	next:
		for _, a := range axioms {
			if used[a] {
				continue
			}
			for _, k := range a.keys {
				if !ops[k] {
					continue next
				}
			}
			used[a] = true
			changed = true
			if a.t != nil {
				visit(a.t)
				fs = append(fs, a.t)
			} else {
				raws = append(raws, a.raw)
				for _, name := range []string{"sq", "blit", "zeros", "nth", "ba2s", "s2ba"} {
					if strings.Contains(a.raw, "("+name+" ") {
						ops[name] = true
					}
				}
				if strings.Contains(a.raw, "BA") {
					sorts[SBA] = true
				}
			}
		}
	}
	var sb strings.Builder
	sb.WriteString(opts)
	sb.WriteString("(set-logic ALL)\n")
	// sorts
	need := map[string]bool{}
	var names []string
	for op := range ops {
		if sig, ok := getSig(op); ok {
			names = append(names, op)
			sorts[sig.res] = true
			for _, a := range sig.args {
				sorts[a] = true
			}
		}
	}
	for s := range sorts {
		for o := range opaques {
			if sortMentions(s, o) {
				need[o] = true
			}
		}
	}
	var ss []string
	for o := range need {
		ss = append(ss, o)
	}
	sort.Strings(ss)
	for _, o := range ss {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", o)
	}
	sort.Strings(names)
	for _, n := range names {
		sig, _ := getSig(n)
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", symQuote(n), strings.Join(sig.args, " "), sig.res)
	}
	var vs []*Term
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name < vs[j].Name })
	for _, v := range vs {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symQuote(v.Name), v.Sort)
	}
	for _, r := range raws {
		fmt.Fprintf(&sb, "(assert %s)\n", r)
	}
	// closed terms with connectives may not occur in a pattern: a constant stands for them
	inPat := map[*Term]bool{}
	for _, t := range order {
		for _, p := range t.pats {
			for _, x := range p {
				markPat(x, inPat)
			}
		}
	}
	nm := map[*Term]string{}
	k := 0
	for _, t := range order {
		if inPat[t] {
			k++
			n := fmt.Sprintf("d!%d", k)
			fmt.Fprintf(&sb, "(declare-const %s %s)\n(assert (= %s ", n, t.Sort, n)
			printTo(&sb, t, nm, true)
			sb.WriteString("))\n")
			nm[t] = n
		} else if cnt[t] > 1 && t.free == 0 && len(t.Args) > 0 || t.Op == "seqlit" && len(t.Name) > 3 {
			k++
			n := fmt.Sprintf("d!%d", k)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.Sort)
			printTo(&sb, t, nm, true)
			sb.WriteString(")\n")
			nm[t] = n
		}
	}
	done := map[*Term]bool{}
	for _, f := range fs {
		if f == True || done[f] {
			continue
		}
		done[f] = true
		sb.WriteString("(assert ")
		printTo(&sb, f, nm, false)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// markPat marks the closed subterms of a pattern that contain connectives.
func markPat(t *Term, out map[*Term]bool) {
	if t.free == 0 {
		if hasConnective(t) {
			out[t] = true
		}
		return
	}
	for _, a := range t.Args {
		markPat(a, out)
	}
}

var connMemo sync.Map

func hasConnective(t *Term) bool {
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := connMemo.Load(t); ok {
		return v.(bool)
	}
	r := false
	switch t.Op {
	case "ite", "and", "or", "not", "=>", "=", "forall", "exists", "<=", "<":
		r = true
	default:
		for _, a := range t.Args {
			if hasConnective(a) {
				r = true
				break
			}
		}
	}
	connMemo.Store(t, r)
	return r
}

func sortMentions(s, o string) bool {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		if f == o {
			return true
		}
	}
	return false
}

// ---- solving ----

type Result struct {
	Status string // unsat sat unknown error
	Solver string
	Out    string
	Time   time.Duration
}

var (
	solverSem   = make(chan struct{}, 8)
	solverTime  int64 // nanoseconds, atomic
	solverCalls int64
	byBackend   = map[string]int{}
	backendMu   sync.Mutex
	cacheMu     sync.Mutex
	queryCache  = map[string]Result{} // within one run only
)

func runSolver(ctx context.Context, name string, scr string, timeout time.Duration) Result {
	var cmd *exec.Cmd
	ms := timeout.Milliseconds()
	ctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	switch name {
	case "z3-new":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3":
		cmd = exec.CommandContext(ctx, "z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-s1", "z3-s2", "z3-s3", "z3-s4":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.random_seed="+name[4:])
	case "z3-auto":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.mbqi=false", "smt.auto_config=false")
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--strings-exp", "-q")
	}
	cmd.Stdin = strings.NewReader(scr)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.WaitDelay = time.Second
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&solverTime, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	o := strings.TrimSpace(out.String())
	st := "unknown"
	first, rest, _ := strings.Cut(o, "\n")
	for (strings.HasPrefix(first, "WARNING") || strings.TrimSpace(first) == "") && rest != "" {
		first, rest, _ = strings.Cut(rest, "\n")
	}
	switch strings.TrimSpace(first) {
	case "unsat":
		st = "unsat"
	case "sat":
		st = "sat"
	case "unknown", "timeout", "":
	default:
		if strings.HasPrefix(first, "(error") {
			st = "error"
		}
	}
	return Result{st, name, o, d}
}

type stage struct {
	solvers []string
	timeout time.Duration
}

var stages = []stage{
	{[]string{"z3-new"}, 2 * time.Second},
	{[]string{"z3-s1", "z3-s2", "cvc5", "z3-auto", "z3"}, 8 * time.Second},
	{[]string{"z3-new", "z3-s3", "z3-s4", "cvc5", "z3-auto"}, 30 * time.Second},
}

// solverDeadline bounds the work on the function being verified (Unix nanoseconds, 0: none).
var solverDeadline atomic.Int64

// solve checks satisfiability of the conjunction with the portfolio; wantUnsat stops at the first unsat.
func solve(fs []*Term, maxStage int) Result {
	for _, f := range fs {
		if f == False {
			return Result{Status: "unsat", Solver: "simplifier"}
		}
	}
	scr := script(fs, "")
	cacheMu.Lock()
	if r, ok := queryCache[scr]; ok && (r.Status == "unsat" || r.Status == "sat") {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	var last Result
	for i, st := range stages {
		if i >= maxStage {
			break
		}
		if d := solverDeadline.Load(); d != 0 {
			left := time.Until(time.Unix(0, d))
			if left <= 0 {
				return Result{Status: "unknown", Solver: "time budget"}
			}
			if left < st.timeout {
				st.timeout = left
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan Result, len(st.solvers))
		for _, s := range st.solvers {
			s := s
			go func() {
				solverSem <- struct{}{}
				defer func() { <-solverSem }()
				if ctx.Err() != nil {
					ch <- Result{Status: "unknown", Solver: s}
					return
				}
				ch <- runSolver(ctx, s, scr, st.timeout)
			}()
		}
		var got Result
		sat := 0
		for range st.solvers {
			r := <-ch
			if r.Status == "unsat" {
				got = r
				break
			}
			if r.Status == "error" {
				if os.Getenv("GOCV_ERR") != "" {
					fmt.Fprintln(os.Stderr, r.Solver, r.Out)
					os.WriteFile("/tmp/gocv_err.smt2", []byte(scr), 0644)
				}
			}
			if r.Status == "sat" {
				sat++
				last = r
			} else if last.Status != "sat" {
				last = r
			}
			if r.Status == "sat" {
				got = r
				break
			}
		}
		cancel()
		if got.Status == "unsat" || got.Status == "sat" {
			backendMu.Lock()
			byBackend[got.Solver]++
			backendMu.Unlock()
			cacheMu.Lock()
			queryCache[scr] = got
			cacheMu.Unlock()
			return got
		}
	}
	return last
}

// ---- light incremental solver used to prune infeasible paths ----

type light struct {
	cmd           *exec.Cmd
	in            io.WriteCloser
	out           *bufio.Reader
	decl          map[string]bool
	calls, killed int
	spent         time.Duration
}

func newLight() *light {
	l := &light{decl: map[string]bool{}}
	l.start()
	return l
}

func (l *light) start() {
	l.cmd = exec.Command("z3-new", "-in", "-memory:2000")
	l.in, _ = l.cmd.StdinPipe()
	o, _ := l.cmd.StdoutPipe()
	l.out = bufio.NewReader(o)
	if err := l.cmd.Start(); err != nil {
		panic(err)
	}
}

func (l *light) close() {
	l.in.Close()
	l.cmd.Process.Kill()
	l.cmd.Wait()
}

// feasible returns false only if the quantifier-free part of fs is unsatisfiable.
func (l *light) feasible(fs []*Term) bool {
	if debugLoop {
		t0 := time.Now()
		defer func() { l.spent += time.Since(t0) }()
	}
	var qf []*Term
	for _, f := range fs {
		if f == False {
			return false
		}
		if !hasQuant(f) {
			qf = append(qf, f)
		}
	}
	scr := script(qf, "(set-option :timeout 500)\n(set-option :rlimit 40000)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	if d := os.Getenv("GOCV_LIGHT"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, l.calls), []byte(scr), 0644)
	}
	// a query the solver does not give up on by itself: start over with a new process
	cmd := l.cmd
	dog := time.AfterFunc(2*time.Second, func() { cmd.Process.Kill() })
	defer dog.Stop()
	io.WriteString(l.in, "(reset)\n"+scr+"(echo \"done\")\n")
	res := ""
	for {
		s, err := l.out.ReadString('\n')
		if err != nil {
			l.killed++
			l.close()
			l.start()
			return true
		}
		s = strings.TrimSpace(s)
		if s == "\"done\"" || s == "done" {
			break
		}
		if res == "" {
			res = s
		}
	}
	l.calls++
	return res != "unsat"
}

var quantMemo sync.Map

func hasQuant(t *Term) bool {
	if t.bnd != nil {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := quantMemo.Load(t); ok {
		return v.(bool)
	}
	r := false
	for _, a := range t.Args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	quantMemo.Store(t, r)
	return r
}
