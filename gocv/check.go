package main

// The check command: everything one property depends on, verified from the current source.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type oblJSON struct {
	Name, Pos, Status, Solver string
	Proved                    bool
	Time                      float64
	Goal                      string
	Cross                     string
}

type repJSON struct {
	Job      string
	Name     string
	Variant  string
	Obls     []oblJSON
	Disch    int
	Total    int
	Paths    int
	Wall     float64
	Err      string
	Missing  bool
	Helper   bool
	Used     map[string]string
	Bodies   []string
	Backends map[string]int
	Invs     []string
	SolverS  float64
	Where    string
}

func (r *repJSON) failed() []oblJSON {
	var out []oblJSON
	for _, o := range r.Obls {
		if !o.Proved {
			out = append(out, o)
		}
	}
	return out
}

func toJSON(job string, r *FnReport) *repJSON {
	j := &repJSON{Job: job, Name: r.Name, Variant: r.Variant, Disch: r.Disch, Total: r.Total, Paths: r.Paths, Wall: r.Wall.Seconds(), Err: r.Err,
		Missing: r.Missing, Used: r.Used, Bodies: r.Bodies, Backends: r.Backends, Invs: r.Invs}
	if r.Spec != nil {
		j.Helper = r.Spec.opts["helper"]
	}
	for _, o := range r.Obls {
		pos := ""
		if o.Pos.Line > 0 {
			pos = strings.TrimPrefix(o.Pos.String(), "/repo/")
		}
		g := ""
		if !o.Proved && o.Goal != nil {
			g = o.Goal.String()
			if len(g) > 2000 {
				g = g[:2000] + "…"
			}
		}
		j.SolverS += o.Res.Time.Seconds()
		j.Obls = append(j.Obls, oblJSON{Name: o.Name(), Pos: pos, Status: o.Res.Status, Solver: o.Res.Solver, Proved: o.Proved, Time: o.Res.Time.Seconds(), Goal: g})
	}
	return j
}

// worker: verifies the functions named on stdin, one report per line on stdout.
func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	tags := fs.String("tags", "", "")
	thorough := fs.Bool("thorough", false, "")
	par := fs.Int("par", 4, "")
	fs.Parse(args)
	variant := "default"
	if *tags != "" {
		variant = *tags
	}
	solverSem = make(chan struct{}, *par)
	if *thorough {
		stages[2].timeout = 120 * time.Second
	}
	if d, err := strconv.ParseInt(os.Getenv("GOCV_DEADLINE"), 10, 64); err == nil {
		runDeadline = time.Unix(d, 0)
	}
	P := newProgram(variant)
	out := bufio.NewWriter(os.Stdout)
	emit := func(v any) {
		b, _ := json.Marshal(v)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	if err := P.load(*repo, *tags); err != nil {
		emit(&repJSON{Job: "load", Err: err.Error()})
		return
	}
	P.loadContracts(*dir)
	P.loadHints(*dir + "/hints.json")
	if err := P.elaborateLogic(); err != nil {
		emit(&repJSON{Job: "load", Err: "contract files: " + err.Error()})
		return
	}
	emit(&repJSON{Job: "load"})
	lemmasAdded := false
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		job := sc.Text()
		kind, name := job[:1], job[2:]
		budget := 180 * time.Second
		if *thorough {
			budget = 1200 * time.Second
		}
		dog := time.AfterFunc(3*budget, func() {
			fmt.Fprintln(os.Stderr, "verifier stuck on", job)
			buf := make([]byte, 1<<16)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		})
		defer dog.Stop()
		if kind == "L" {
			r := &FnReport{Name: "lemmas", Variant: variant, Backends: map[string]int{}, Used: map[string]string{}}
			r.Obls = P.proveLemmas()
			lemmasAdded = true
			for _, o := range r.Obls {
				r.Total++
				if o.Proved {
					r.Disch++
					r.Backends[o.Res.Solver]++
				}
			}
			dog.Stop()
			emit(toJSON(job, r))
			continue
		}
		if !lemmasAdded {
			lemmasAdded = true
			P.addLemmas()
		}
		switch kind {
		case "F":
			for _, sp := range P.specs[name] {
				if sp.extern || len(sp.variants) > 0 && !contains(sp.variants, P.variant) {
					continue
				}
				r := P.verify(sp, budget, 3)
				j := toJSON(job, r)
				if fn := P.funcs[sp.name]; fn != nil && fn.Pos().IsValid() {
					j.Where = strings.TrimPrefix(P.fset.Position(fn.Pos()).String(), *repo+"/")
				}
				if *thorough {
					crossCheck(r, j)
				}
				emit(j)
			}
		case "T":
			for _, th := range P.theorems {
				if th.sp.name == name {
					emit(toJSON(job, P.verifyTheorem(th, 3)))
				}
			}
		}
		dog.Stop()
		emit(&repJSON{Job: "done " + job})
	}
}

// crossCheck re-proves every discharged obligation with a different back end.
func crossCheck(r *FnReport, j *repJSON) {
	var wg sync.WaitGroup
	for i, o := range r.Obls {
		if !o.Proved || o.Res.Solver == "simplifier" {
			continue
		}
		i, o := i, o
		wg.Add(1)
		go func() {
			defer wg.Done()
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			other := "cvc5"
			if o.Res.Solver == "cvc5" {
				other = "z3-new"
			}
			res := runSolver(context.Background(), other, script(append(pcFacts(o.PC), Not(o.Goal)), ""), 20*time.Second)
			j.Obls[i].Cross = other + ":" + res.Status
		}()
	}
	wg.Wait()
}

// addLemmas makes the lemmas available without proving them (the run's lemma job proves them).
func (P *Program) addLemmas() {
	x := P.logicExec()
	for _, l := range P.lemmas {
		t, keys := P.lemmaTerm(x, l)
		addAxiom("lemma "+l.name, keys, t)
	}
}

type worker struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	sc   *bufio.Scanner
	stop func()
}

type checker struct {
	repo, verif string
	thorough    bool
	nworkers    int
	deadline    time.Time
}

func (c *checker) start(variant string) (*worker, error) {
	self, _ := os.Executable()
	args := []string{"worker", "-repo", c.repo, "-contracts", filepath.Join(c.verif, "contracts")}
	if variant != "default" {
		args = append(args, "-tags", variant)
	}
	if c.thorough {
		args = append(args, "-thorough")
	}
	cmd := exec.Command(self, args...)
	cmd.Stderr = os.Stderr
	if !c.deadline.IsZero() {
		cmd.Env = append(os.Environ(), fmt.Sprintf("GOCV_DEADLINE=%d", c.deadline.Unix()))
	}
	ip, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	op, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w := &worker{cmd: cmd, in: bufio.NewWriter(ip), sc: bufio.NewScanner(op)}
	w.sc.Buffer(make([]byte, 1<<26), 1<<26)
	w.stop = func() { ip.Close(); cmd.Process.Kill(); cmd.Wait() }
	r, err := w.next()
	if err != nil {
		return nil, err
	}
	if r.Err != "" {
		w.stop()
		return nil, fmt.Errorf("%s", r.Err)
	}
	return w, nil
}

func (w *worker) next() (*repJSON, error) {
	if !w.sc.Scan() {
		return nil, fmt.Errorf("verifier process ended early: %v", w.sc.Err())
	}
	var r repJSON
	if err := json.Unmarshal(w.sc.Bytes(), &r); err != nil {
		return nil, err
	}
	return &r, nil
}

// run sends one job and collects its reports.
func (w *worker) run(job string) ([]*repJSON, error) {
	w.in.WriteString(job + "\n")
	if err := w.in.Flush(); err != nil {
		return nil, err
	}
	var out []*repJSON
	for {
		r, err := w.next()
		if err != nil {
			return out, err
		}
		if strings.HasPrefix(r.Job, "done ") {
			return out, nil
		}
		out = append(out, r)
		if r.Name == "lemmas" {
			return out, nil
		}
	}
}

// runVariant verifies the closure of the property in one build variant.
func (c *checker) runVariant(variant string, P *Program, prop string) ([]*repJSON, error) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []string
	seen := map[string]bool{}
	push := func(j string) {
		if !seen[j] {
			seen[j] = true
			queue = append(queue, j)
		}
	}
	if len(P.lemmas) > 0 {
		push("L lemmas")
	}
	specs := P.byProp(prop)
	sort.SliceStable(specs, func(i, j int) bool { return specs[i].opts["heavy"] && !specs[j].opts["heavy"] })
	for _, sp := range specs {
		push("F " + sp.name)
	}
	for _, th := range P.theorems {
		if contains(th.sp.props, prop) && variant == "default" {
			push("T " + th.sp.name)
		}
	}
	if len(queue) == 0 || len(specs) == 0 && variant != "default" {
		return nil, nil
	}
	busy := 0
	retried := map[string]bool{}
	var reps []*repJSON
	var rerr error
	var wg sync.WaitGroup
	n := c.nworkers
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && rerr == nil {
					cond.Wait()
				}
				if len(queue) == 0 || rerr != nil {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				job := queue[0]
				queue = queue[1:]
				busy++
				mu.Unlock()
				var rs []*repJSON
				var err error
				if w == nil {
					w, err = c.start(variant)
				}
				if err == nil {
					rs, err = w.run(job)
					if err != nil {
						mu.Lock()
						retried[job] = true
						mu.Unlock() // once more with a new process
						w.stop()
						w, err = nil, nil
						if w, err = c.start(variant); err == nil {
							rs, err = w.run(job)
						}
					}
					if err != nil && rs == nil {
						rs = []*repJSON{{Job: job, Name: job[2:], Err: "the verifier process failed: " + err.Error(), Variant: variant}}
						w.stop()
						w, err = nil, nil
					}
				}
				mu.Lock()
				busy--
				if err != nil && rerr == nil {
					rerr = err
				}
				reps = append(reps, rs...)
				for _, r := range rs {
					for _, name := range sortedKeys(r.Used) {
						if r.Used[name] == "contract (verified)" {
							push("F " + name)
						}
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.SliceStable(reps, func(i, j int) bool { return reps[i].Name < reps[j].Name })
	return reps, rerr
}

type knownFinding struct{ kind, prop, pat, what string }

func readKnown(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=<id> obligation=<substring of the obligation's name or replay line> | what fails
		f := strings.SplitN(strings.TrimSpace(l[6:]), "|", 2)
		if len(f) != 2 {
			continue
		}
		hd := strings.SplitN(strings.TrimSpace(f[0]), " ", 2)
		if len(hd) != 2 {
			continue
		}
		out = append(out, knownFinding{"known", strings.TrimPrefix(hd[0], "property="), strings.TrimPrefix(strings.TrimSpace(hd[1]), "match="), strings.TrimSpace(f[1])})
	}
	return out
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	noReplay := fs.Bool("noreplay", false, "")
	nw := fs.Int("workers", 4, "")
	fs.Parse(args)
	prop := fs.Arg(0)
	if *tier != "thorough" {
		*tier = "quick"
	}
	var seed int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	t0 := time.Now()
	c := &checker{repo: *repo, verif: *verif, thorough: *tier == "thorough", nworkers: *nw}
	if !c.thorough {
		c.deadline = time.Now().Add(560 * time.Second)
	}
	known := readKnown(filepath.Join(*verif, "known-findings.txt"))

	// the contracts (this process only reads them; the workers verify)
	P := newProgram("default")
	P.loadContracts(filepath.Join(*verif, "contracts"))
	variants := map[string]bool{}
	for _, ss := range P.specs {
		for _, sp := range ss {
			if contains(sp.props, prop) && !sp.extern {
				if len(sp.variants) == 0 {
					variants["default"] = true
				}
				for _, v := range sp.variants {
					variants[v] = true
				}
			}
		}
	}
	for _, th := range P.theorems {
		if contains(th.sp.props, prop) {
			variants["default"] = true
		}
	}
	if len(variants) == 0 {
		fatal(fmt.Errorf("no contracts for property %s", prop))
	}
	var reps []*repJSON
	var problems []string // reported as violations
	loadErr := ""
	for _, v := range sortedKeys(variants) {
		V := newProgram(v)
		V.loadContracts(filepath.Join(*verif, "contracts"))
		rs, err := c.runVariant(v, V, prop)
		if err != nil {
			loadErr = fmt.Sprintf("%s build: %v", v, err)
		}
		reps = append(reps, rs...)
	}

	oblN, discharged, solverS := 0, 0, 0.0
	backends := map[string]int{}
	trusted := map[string]bool{}
	var fnList []string
	var failures []string
	var detail bytes.Buffer
	suppressed := 0
	crossed, crossOK := 0, 0
	invN := 0
	for _, r := range reps {
		oblN += r.Total
		discharged += r.Disch
		solverS += r.SolverS
		invN += len(r.Invs)
		for k, n := range r.Backends {
			backends[k] += n
		}
		for k, u := range r.Used {
			if strings.Contains(u, "assumed") || strings.Contains(u, "assumption") {
				trusted[k+": "+u] = true
			}
		}
		lbl := r.Name
		if r.Variant != "default" && r.Variant != "" {
			lbl += " (" + r.Variant + " build)"
		}
		fnList = append(fnList, fmt.Sprintf("%s — %d/%d obligations, %d paths, %.1fs", lbl, r.Disch, r.Total, r.Paths, r.Wall))
		for _, o := range r.Obls {
			if o.Cross != "" {
				crossed++
				if strings.HasSuffix(o.Cross, ":unsat") {
					crossOK++
				}
			}
		}
		if r.Err != "" {
			if r.Missing && r.Helper {
				continue // a helper that no longer exists: its callers are verified with whatever replaced it
			}
			failures = append(failures, lbl+": "+r.Err)
			fmt.Fprintf(&detail, "function %s (%s): %s\n", lbl, r.Where, r.Err)
		}
		for _, o := range r.failed() {
			nm := o.Name
			if o.Pos != "" {
				nm += " at " + o.Pos
			}
			hit := false
			for _, k := range known {
				if k.prop == prop && strings.Contains(nm, k.pat) {
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.what, o.Name)
					hit = true
					suppressed++
				}
			}
			if hit {
				continue
			}
			failures = append(failures, nm)
			fmt.Fprintf(&detail, "failed obligation: %s\n  function %s (%s)\n  verdict of the back end: %s (%s, %.1fs)\n  goal: %s\n\n", nm, lbl, r.Where, o.Status, o.Solver, o.Time, o.Goal)
		}
	}
	if loadErr != "" {
		failures = append(failures, loadErr)
		fmt.Fprintf(&detail, "the source could not be loaded: %s\n", loadErr)
	}
	if oblN == 0 && len(failures) == 0 {
		failures = append(failures, "no obligation was generated")
	}

	// bounded stand-ins and replay of failures on the real code
	bounded := c.boundedTests(prop)
	var boundedOut []string
	replayFail := ""
	boundedRun := 0
	if bounded != nil && !*noReplay && (len(failures) > 0 || bounded.always) {
		out, failed, n, err := c.runTests(bounded, prop, *tier, seed)
		boundedRun = n
		if failed {
			replayFail = out
		}
		if err != nil {
			boundedOut = append(boundedOut, err.Error())
			if bounded.always && len(failures) == 0 {
				failures = append(failures, "bounded stand-in did not run: "+err.Error())
				detail.WriteString(out)
			}
		}
	}
	if replayFail != "" && len(failures) == 0 && bounded.always {
		failures = append(failures, "bounded stand-in")
	}

	replay := ""
	if len(failures) > 0 {
		dir := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		replay = filepath.Join(dir, prop+".txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s is violated by the code in %s\n\n", prop, *repo)
		for _, f := range failures {
			fmt.Fprintf(&b, "FAILED OBLIGATION: %s\n", f)
		}
		if replayFail != "" {
			fmt.Fprintf(&b, "\nFailing input on the real code (go test with the overlay described in %s):\n%s\n", filepath.Join(*verif, "replay", prop), replayFail)
		} else {
			fmt.Fprintf(&b, "\nNo failing input was found by the replay tests.\n")
		}
		fmt.Fprintf(&b, "\nVerifier output:\n%s", detail.String())
		os.WriteFile(replay, b.Bytes(), 0644)
	}
	_ = problems

	tb := []string{
		"gocv (/verif/gocv): symbolic execution of go/ssa, VC generation and the simplifier",
		"golang.org/x/tools go/packages and go/ssa (front end)",
		"SMT solvers z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (an unsat answer of one discharges an obligation)",
	}
	for _, k := range sortedKeys(trusted) {
		tb = append(tb, k)
	}
	assumptions := propAssumptions(*verif, prop)
	cov := map[string]any{
		"obligations":            oblN,
		"discharged":             discharged,
		"checker_cmd":            "/verif/run_check " + prop,
		"trusted_base":           tb,
		"functions_under_proof":  fnList,
		"backends":               backends,
		"solver_seconds":         int(solverS),
		"loop_invariants_proved": invN,
		"known_findings":         suppressed,
		"failed_obligations":     append([]string{}, failures...),
	}
	if bounded != nil && bounded.always {
		cov["bounded_standins"] = fmt.Sprintf("%d test functions (bounded; not counted as proved): %s", boundedRun, strings.Join(bounded.notes, "; "))
	}
	if c.thorough {
		cov["cross_checked_by_second_backend"] = fmt.Sprintf("%d of %d", crossOK, crossed)
	}
	ev := map[string]any{"property": prop, "tier": *tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions,
		"wall_s": time.Since(t0).Seconds(), "violations": len(failures)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(*verif, "evidence", prop+".json"), append(b, '\n'), 0644)

	if len(failures) > 0 {
		for i, f := range failures {
			if i == 12 {
				fmt.Printf("... and %d more\n", len(failures)-i)
				break
			}
			fmt.Println("failed obligation:", f)
		}
		for _, s := range boundedOut {
			fmt.Println("replay:", s)
		}
		if replayFail != "" {
			fmt.Println(replayFail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
		os.Exit(1)
	}
	fmt.Printf("OK property=%s: %d obligations discharged in %d functions, %.1fs\n", prop, discharged, len(fnList), time.Since(t0).Seconds())
}

// propAssumptions lists the assumptions recorded with the contracts (lines "assume PROP[,PROP]: text" of assumptions.txt).
func propAssumptions(verif, prop string) []string {
	out := []string{}
	b, _ := os.ReadFile(filepath.Join(verif, "contracts", "assumptions.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.Index(l, ":")
		if i < 0 || strings.HasPrefix(l, "#") {
			continue
		}
		for _, p := range strings.FieldsFunc(l[:i], func(r rune) bool { return r == ',' || r == ' ' }) {
			if p == prop || p == "*" {
				out = append(out, strings.TrimSpace(l[i+1:]))
			}
		}
	}
	return out
}

type testSet struct {
	files  []string // overlay files: dir__with__slashes__name_test.go
	always bool
	race   bool
	notes  []string
	tags   string
}

// boundedTests finds /verif/replay/PROP: overlay test files, and a file "config" with flags.
func (c *checker) boundedTests(prop string) *testSet {
	dir := filepath.Join(c.verif, "replay", prop)
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	t := &testSet{}
	for _, e := range es {
		n := e.Name()
		switch {
		case strings.HasSuffix(n, ".go.txt"), strings.HasSuffix(n, "_test.go"):
			t.files = append(t.files, filepath.Join(dir, n))
		case n == "config":
			b, _ := os.ReadFile(filepath.Join(dir, n))
			for _, l := range strings.Split(string(b), "\n") {
				l = strings.TrimSpace(l)
				switch {
				case l == "always":
					t.always = true
				case l == "race":
					t.race = true
				case strings.HasPrefix(l, "note "):
					t.notes = append(t.notes, l[5:])
				case strings.HasPrefix(l, "tags "):
					t.tags = strings.TrimSpace(l[5:])
				case strings.HasPrefix(l, "use "):
					// shared file of another property's directory
					t.files = append(t.files, filepath.Join(c.verif, "replay", strings.TrimSpace(l[4:])))
				}
			}
		}
	}
	if len(t.files) == 0 {
		return nil
	}
	return t
}

// runTests runs overlay tests of the real code. A file a__b__c_test.go goes into package directory a/b as c_test.go.
func (c *checker) runTests(t *testSet, prop, tier string, seed int64) (out string, failed bool, n int, err error) {
	tmp, err := os.MkdirTemp("", "gocv-replay")
	if err != nil {
		return "", false, 0, err
	}
	defer os.RemoveAll(tmp)
	type group struct {
		tags string
		pkg  string
	}
	repl := map[group]map[string]string{}
	for _, f := range t.files {
		base := strings.TrimSuffix(filepath.Base(f), ".txt")
		tags := t.tags
		if i := strings.Index(base, "@"); i >= 0 { // tag@dir__file_test.go
			tags, base = base[:i], base[i+1:]
		}
		parts := strings.Split(base, "__")
		pkg := strings.Join(parts[:len(parts)-1], "/")
		g := group{tags, pkg}
		if repl[g] == nil {
			repl[g] = map[string]string{}
		}
		repl[g][filepath.Join(c.repo, pkg, "zz_verif_"+parts[len(parts)-1])] = f
	}
	var gs []group
	for g := range repl {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].pkg+gs[i].tags < gs[j].pkg+gs[j].tags })
	for i, g := range gs {
		// shared helper files: every file under /verif/replay/_shared with the package's prefix
		sh, _ := filepath.Glob(filepath.Join(c.verif, "replay", "_shared", strings.ReplaceAll(g.pkg, "/", "__")+"__*"))
		for _, f := range sh {
			parts := strings.Split(strings.TrimSuffix(filepath.Base(f), ".txt"), "__")
			repl[g][filepath.Join(c.repo, g.pkg, "zz_verif_"+parts[len(parts)-1])] = f
		}
		b, _ := json.Marshal(map[string]any{"Replace": repl[g]})
		ov := filepath.Join(tmp, fmt.Sprintf("ov%d.json", i))
		os.WriteFile(ov, b, 0644)
		to := 150 * time.Second
		if tier == "thorough" {
			to = 600 * time.Second
		}
		args := []string{"test", "-overlay", ov, "-count=1", "-v", "-vet=off", "-run", "^TestVerif", "-timeout", to.String()}
		if t.race {
			args = append(args, "-race")
		}
		if g.tags != "" {
			args = append(args, "-tags", g.tags)
		}
		args = append(args, "./"+g.pkg)
		ctx, cancel := context.WithTimeout(context.Background(), to+60*time.Second)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = c.repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "VERIF_TIER="+tier, fmt.Sprint("VERIF_SEED=", seed), "VERIF_SCRATCH="+tmp)
		o, rerr := cmd.CombinedOutput()
		cancel()
		s := string(o)
		n += strings.Count(s, "=== RUN   TestVerif")
		if rerr != nil {
			if strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]") || !strings.Contains(s, "=== RUN") {
				err = fmt.Errorf("the replay test of %s does not build with this code: %s", g.pkg, clip(s, 1500))
				continue
			}
			failed = true
			out += "go " + strings.Join(args, " ") + "\n" + clip(failLines(s), 6000)
		}
	}
	return
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// failLines keeps the part of the test output that tells the failure.
func failLines(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "=== RUN") || strings.Contains(l, "--- PASS") || strings.HasPrefix(l, "{\"level\"") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}
