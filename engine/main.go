package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func solverMs() int {
	if os.Getenv("VC_SLOW") != "" {
		return 20000
	}
	return 6000
}

// discharge decides the obligations: simplifier, then z3, then cvc5.
func (e *Engine) discharge(obls []*Obligation, budget time.Duration) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var mu sync.Mutex // terms are not safe for concurrent construction
	for _, o := range obls {
		if o.Goal == True {
			o.Status, o.Solver = "proved", "simplifier"
			continue
		}
		infeasible := false
		for _, a := range o.Assume {
			if a == False {
				infeasible = true
			}
		}
		if infeasible {
			o.Status, o.Solver = "proved", "simplifier"
			continue
		}
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			t0 := time.Now()
			defer func() { o.Ms = float64(time.Since(t0).Microseconds()) / 1000 }()
			mu.Lock()
			as, goal := instantiate(o.Assume, o.Goal)
			ts := append(append([]*Term{}, as...), goal)
			ax := e.groundAxioms(ts)
			script := smtScript(append(append([]*Term{}, as...), ax...), goal, "z3")
			var first []string
			if !goal.hasBound {
				first = []string{e.firstTry(as, goal, 1), e.firstTry(as, goal, 4)}
			}
			mu.Unlock()
			for i, s := range first {
				if len(s) == len(script) || i > 0 && len(s) == len(first[i-1]) {
					continue
				}
				// z3 does not keep to its time limit on string operations
				if d := os.Getenv("VC_DUMPF"); d != "" {
					os.WriteFile(fmt.Sprintf("%s.%d", d, i), []byte(s), 0o644)
				}
				if strings.Contains(s, "(str.") && e.pool.checkCVC5(toCVC5(s), 300) == "unsat" {
					o.Status, o.Solver = "proved", "cvc5"
					return
				}
				if r, _ := e.pool.checkZ3(s, []int{300, 1500}[i], false); r == "unsat" {
					o.Status, o.Solver = "proved", "z3"
					return
				}
			}
			if dumpSMT != "" {
				os.WriteFile(dumpSMT, []byte(script+"(check-sat)\n"), 0o644)
			}
			if strings.Contains(script, " String") && e.pool.checkCVC5(toCVC5(script), 1000) == "unsat" {
				o.Status, o.Solver = "proved", "cvc5"
				return
			}
			r, d := e.pool.checkZ3(script, solverMs(), true)
			if r == "unsat" {
				o.Status, o.Solver = "proved", "z3"
				return
			}
			o.Detail = r
			if r == "sat" {
				o.Status, o.Solver = "failed", "z3"
				o.Detail = d
				return
			}
			c := e.pool.checkCVC5(toCVC5(script), solverMs())
			if c == "unsat" {
				o.Status, o.Solver = "proved", "cvc5"
				return
			}
			o.Status, o.Solver = "unknown", "z3:"+r+" cvc5:"+c
		}(o)
	}
	wg.Wait()
}

func toCVC5(s string) string {
	return s
}

func (e *Engine) entrySet() []*ssa.Function {
	iface := map[string]bool{}
	for _, n := range e.tpkg.Scope().Names() {
		if o := e.tpkg.Scope().Lookup(n); o != nil {
			for _, m := range ifaceMethods(o.Type()) {
				iface[m] = true
			}
		}
	}
	var out []*ssa.Function
	for _, n := range sortedKeys(e.funcs) {
		f := e.funcs[n]
		if e.isSpecFn(f) || f.Name() == "init" || strings.HasSuffix(e.fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		if f.Object() == nil {
			continue
		}
		isEntry := f.Object().Exported()
		if f.Signature.Recv() != nil && iface[f.Name()] {
			isEntry = true
		}
		if e.contracts[n] != nil {
			isEntry = true
		}
		if isEntry {
			out = append(out, f)
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vc target NAME... | check PROP | list")
		os.Exit(2)
	}
	if n, err := strconv.Atoi(os.Getenv("VC_FIXLEN")); err == nil {
		fixLen = int64(n)
	}
	repo := envOr("VC_REPO", "/repo")
	exe, _ := os.Executable()
	verif := envOr("VC_VERIF", filepath.Dir(filepath.Dir(exe)))
	switch os.Args[1] {
	case "target":
		cmdTarget(repo, verif, os.Args[2:])
	case "check":
		os.Exit(cmdCheck(repo, verif, os.Args[2]))
	case "baseline":
		cmdBaseline(repo, verif, os.Args[2:])
	case "buildreplay":
		tmp, _ := os.MkdirTemp("", "vcreplay")
		if err := buildReplay(context.Background(), repo, filepath.Join(verif, "replay"), tmp, os.Args[2]); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		os.RemoveAll(tmp)
	case "worker":
		if f := os.Getenv("VC_PROF"); f != "" {
			if w, err := os.Create(fmt.Sprintf("%s.%d", f, os.Getpid())); err == nil {
				pprof.StartCPUProfile(w)
				time.AfterFunc(17*time.Second, pprof.StopCPUProfile)
			}
		}
		cmdWorker(repo, verif)
	case "inferinv":
		cmdInferInv(repo, verif)
	case "sweep":
		cmdSweep(repo, verif, os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func cmdTarget(repo, verif string, names []string) {
	t0 := time.Now()
	e, err := Load(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs, %d functions, %d contracts; dropped %v orphans %v\n", time.Since(t0).Seconds(), len(e.funcs), len(e.contracts), e.dropped, e.orphans)
	if len(names) == 0 {
		names = sortedKeys(e.contracts)
	}
	nbad := 0
	for _, n := range names {
		fn := e.funcs[n]
		if fn == nil {
			fmt.Println("no such function", n)
			continue
		}
		t1 := time.Now()
		tr := e.verify(fn, wants{true, true, true, true})
		e.discharge(tr.Obls, 0)
		bad := 0
		for _, o := range tr.Obls {
			if o.Status != "proved" {
				bad++
			}
		}
		st := "ok"
		if bad > 0 || tr.Unsupp != "" {
			st = "FAIL"
			nbad++
		}
		fmt.Printf("%-4s %s: %d paths, %d obligations, %d not proved, unsupported=%q %.2fs\n", st, n, tr.Paths, len(tr.Obls), bad, tr.Unsupp, time.Since(t1).Seconds())
		shown := 0
		for _, o := range tr.Obls {
			if o.Status != "proved" && shown < 6 {
				shown++
				fmt.Printf("     [%s] %s at %s: %s %s\n        goal %v\n        given %v\n", o.Kind, o.What, e.fset.Position(o.Pos), o.Status, o.Solver, clip(o.Goal.String()), clip(fmt.Sprint(o.Assume)))
			}
		}
	}
	fmt.Printf("%d targets, %d bad, z3 calls %d time %.1fs total %.1fs\n", len(names), nbad, e.pool.Calls, e.pool.Time.Seconds(), time.Since(t0).Seconds())
	e.pool.Close()
}

func clip(s string) string {
	n := 1500
	if os.Getenv("VC_FULL") != "" {
		n = 1 << 20
	}
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
