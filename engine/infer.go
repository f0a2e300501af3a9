package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// cmdInferInv proposes class invariants (children present, non-nil and free of
// errors) and drops those that some function does not establish. It is run by
// hand; its result is committed as contracts/inv.go and checked on every run.
func cmdInferInv(repo, verif string) {
	e, err := Load(repo, "/nonexistent")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	type cand struct{ name, typ, body string }
	var cs []cand
	for _, n := range e.tpkg.Scope().Names() {
		tn, ok := e.tpkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || n == "CypherRenderer" {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		guard := ""
		if e.methodOn(tn.Type(), "GetError") != nil {
			guard += "v.GetError() != nil || "
		}
		if e.methodOn(tn.Type(), "isNotNil") != nil {
			guard += "!v.isNotNil() || "
		}
		k := 0
		add := func(b string) {
			k++
			cs = append(cs, cand{fmt.Sprintf("inv_%s_%d", n, k), n, guard + b})
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			nm := f.Name()
			if nm == "err" || nm == "key" || nm == "notNil" {
				continue
			}
			val := func(expr string, t types.Type, wrap func(string) string) {
				hasE, hasN := false, false
				pre := ""
				switch u := t.Underlying().(type) {
				case *types.Interface:
					if isErrorType(t) || u.NumMethods() == 0 {
						return
					}
					hasE, hasN = hasMethod(u, "GetError"), hasMethod(u, "isNotNil")
					if !strings.Contains(expr, "[") {
						add(expr + " != nil")
					}
					pre = expr + " == nil || "
				case *types.Struct:
					hasE, hasN = e.methodOn(t, "GetError") != nil, e.methodOn(t, "isNotNil") != nil
				case *types.Pointer:
					if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
						return
					}
					add(expr + " != nil")
					hasE, hasN = e.methodOn(t, "GetError") != nil, e.methodOn(t, "isNotNil") != nil
					pre = expr + " == nil || "
				case *types.Map:
					add(expr + " != nil")
					return
				default:
					return
				}
				if hasE {
					add(wrap(pre + expr + ".GetError() == nil"))
				}
				if hasN {
					add(wrap(pre + expr + ".isNotNil()"))
				}
			}
			if sl, ok := f.Type().Underlying().(*types.Slice); ok {
				if _, isPtr := sl.Elem().Underlying().(*types.Pointer); isPtr {
					continue
				}
				val("v."+nm+"[i]", sl.Elem(), func(b string) string {
					return "vcAll(len(v." + nm + "), func(i int) bool { return " + b + " })"
				})
			} else {
				val("v."+nm, f.Type(), func(b string) string { return b })
			}
		}
	}
	live := map[string]bool{}
	for _, c := range cs {
		live[c.name] = true
	}
	gen := func() string {
		var b strings.Builder
		b.WriteString("package cypher\n\n// Class invariants: what every value of a type satisfies wherever it is put into\n// an interface, returned or passed on. Inferred by 'vc inferinv', checked on every run.\n\n//@ fileprops C05\n")
		for _, c := range cs {
			if live[c.name] {
				fmt.Fprintf(&b, "\n//@ invariant %s\nfunc %s(v %s) bool {\n\treturn %s\n}\n", c.typ, c.name, c.typ, c.body)
			}
		}
		return b.String()
	}
	out := filepath.Join(verif, "contracts", "inv.go")
	var jobs []job
	for _, fn := range e.entrySet() {
		jobs = append(jobs, job{shortName(fn), []string{"panic"}})
	}
	for round := 0; round < 12; round++ {
		os.WriteFile(out, []byte(gen()), 0o644)
		fmt.Printf("round %d: %d invariants, %d jobs\n", round, len(live), len(jobs))
		rs := runJobs(repo, verif, jobs, 8, 15*time.Second, time.Now().Add(time.Hour))
		drop := map[string]string{}
		var rest []job
		for i, r := range rs {
			keep := r.Unsupp == ""
			for _, o := range r.Obls {
				if o.Kind == "inv" && o.Status != "proved" {
					if w := strings.Fields(o.What); len(w) > 0 && live[w[0]] {
						drop[w[0]] = r.Target
					}
				}
			}
			for _, p := range r.Problems {
				fmt.Println("PROBLEM", p)
			}
			if keep {
				rest = append(rest, jobs[i])
			}
		}
		jobs = rest
		for d, t := range drop {
			delete(live, d)
			fmt.Println("drop", d, "because of", t)
		}
		if len(drop) == 0 {
			break
		}
	}
	os.WriteFile(out, []byte(gen()), 0o644)
}
