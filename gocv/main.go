package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				fmt.Fprintln(os.Stderr, "contract error:", s.msg)
				os.Exit(2)
			}
			panic(r)
		}
	}()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv verify|dump|externs|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		fs := flag.NewFlagSet("dump", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		tags := fs.String("tags", "", "")
		fs.Parse(os.Args[2:])
		P := newProgram("default")
		if err := P.load(*repo, *tags); err != nil {
			fatal(err)
		}
		for _, n := range fs.Args() {
			if f := P.funcs[n]; f != nil {
				f.WriteTo(os.Stdout)
			} else {
				for k := range P.funcs {
					if strings.Contains(k, n) {
						fmt.Println(k)
					}
				}
			}
		}
	case "externs":
		P := newProgram("default")
		if err := P.load("/repo", ""); err != nil {
			fatal(err)
		}
		ext := map[string][]string{}
		for n, f := range P.funcs {
			if f.Pkg == nil || !P.local[f.Pkg.Pkg] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := c.Common()
					key := ""
					if cc.IsInvoke() {
						key = "invoke " + methodKey(cc)
					} else if s := cc.StaticCallee(); s != nil {
						if s.Pkg != nil && P.local[s.Pkg.Pkg] {
							continue
						}
						key = fnName(s)
					} else if _, ok := cc.Value.(*ssa.Builtin); ok {
						continue
					} else {
						key = "dynamic " + cc.Value.Name()
					}
					ext[key] = append(ext[key], n)
				}
			}
		}
		for _, k := range sortedKeys(ext) {
			s := ext[k]
			sort.Strings(s)
			u := s[:0]
			for i, y := range s {
				if i == 0 || y != s[i-1] {
					u = append(u, y)
				}
			}
			fmt.Println(k, " <- ", strings.Join(u, " "))
		}
	case "worker":
		workerMain(os.Args[2:])
	case "check":
		checkMain(os.Args[2:])
	case "verify":
		fs := flag.NewFlagSet("verify", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		dir := fs.String("contracts", "/verif/contracts", "")
		tags := fs.String("tags", "", "")
		prop := fs.String("prop", "", "")
		stage := fs.Int("stage", 3, "")
		smt := fs.String("smt", "", "")
		hints := fs.String("hints", "", "record the surviving loop candidates in this file")
		v := fs.Bool("v", false, "")
		lemmas := fs.Bool("lemmas", false, "also prove the lemmas")
		fs.Parse(os.Args[2:])
		variant := "default"
		if *tags != "" {
			variant = *tags
		}
		P := newProgram(variant)
		t0 := time.Now()
		if err := P.load(*repo, *tags); err != nil {
			fatal(err)
		}
		P.loadContracts(*dir)
		if *hints == "" {
			P.loadHints(*dir + "/hints.json")
		}
		if err := P.elaborateLogic(); err != nil {
			fatal(err)
		}
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
		if *lemmas {
			for _, o := range P.proveLemmas() {
				fmt.Println(o.Name(), o.Proved, o.Res.Solver, o.Res.Time)
			}
		} else {
			P.addLemmas()
		}
		var sps []*Spec
		if *prop != "" {
			sps = P.byProp(*prop)
		}
		for _, n := range fs.Args() {
			for _, sp := range P.specs[n] {
				sps = append(sps, sp)
			}
			if P.specs[n] == nil {
				fmt.Println("no contract for", n)
			}
		}
		for _, th := range P.theorems {
			if *prop != "" && contains(th.sp.props, *prop) || contains(fs.Args(), th.sp.name) {
				printReport(P.verifyTheorem(th, *stage), *v, *smt)
			}
		}
		for _, sp := range sps {
			r := P.verify(sp, 300*time.Second, *stage)
			printReport(r, *v, *smt)
			if *hints != "" {
				saveHints(*hints, []*FnReport{r})
			}
		}
	default:
		fatal(fmt.Errorf("unknown command"))
	}
}

func printReport(r *FnReport, v bool, smt string) {
	st := "OK"
	if !r.ok() {
		st = "FAILED"
	}
	fmt.Printf("%-8s %s: %d/%d obligations, %d paths, %.1fs %v\n", st, r.Name, r.Disch, r.Total, r.Paths, r.Wall.Seconds(), r.Backends)
	if r.Err != "" {
		fmt.Println("   error:", r.Err)
	}
	n := 0
	for _, o := range r.Obls {
		if !o.Proved {
			fmt.Printf("   not proved: %s at %s (%s %s %.1fs)\n", o.Name(), o.Pos, o.Res.Status, o.Res.Solver, o.Res.Time.Seconds())
			if v {
				fmt.Println("      goal:", o.Goal)
			}
			if smt != "" && n == 0 {
				os.WriteFile(smt, []byte(script(append(pcFacts(o.PC), Not(o.Goal)), "")), 0644)
			}
			n++
		}
	}
	if v {
		fmt.Println("   invariants:")
		for _, i := range r.Invs {
			fmt.Println("     ", i)
		}
		for _, k := range sortedKeys(r.Used) {
			fmt.Println("   uses", k, "—", r.Used[k])
		}
		fmt.Println("   bodies", r.Bodies)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gocv:", err)
	os.Exit(2)
}
