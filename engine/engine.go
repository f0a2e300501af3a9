package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/manhcuongbk56/cypher-go-dsl"

type Engine struct {
	repo          string
	prog          *ssa.Program
	pkg           *ssa.Package
	tpkg          *types.Package
	fset          *token.FileSet
	sortCache     map[types.Type]*Sort
	typesByName   map[string]types.Type
	implIfaces    map[string]*types.Interface
	staticIface   map[*Term]types.Type
	infos         map[*ssa.Function]*fnInfo
	recs          map[*ssa.Function]*RecFn
	recMemo       map[*Term]*Term
	contracts     map[string]*Contract
	dropped       []string // contract declarations that no longer type-check
	orphans       []string
	pool          *Pool
	recUsers      map[*ssa.Function]bool
	quick         map[string]bool
	qdepth        int
	initSt        *State
	globals       map[*ssa.Global]*Term
	entryTerms    []*Term
	loopStats     struct{ loops, quickCalls int }
	usedExt       map[string]int
	funcs         map[string]*ssa.Function
	specFiles     map[string]bool
	cw            map[types.Type][]types.Type
	exempt        map[string]map[string]string // kind -> target -> reason
	summaries     map[string]bool              // functions and interface methods whose calls are seen through the contract alone
	transformers  map[string]bool
	unprovedError map[string]bool            // functions whose error obligations are not all proved: not assumed
	nonNil        map[string]bool            // functions whose first result is not nil unless they return an error
	ifaceEns      map[string][]*ssa.Function // postconditions of interface methods, by Interface.Method
	ifaceTmpl     map[string][]*ifaceTemplate
	invs          map[string][]*ssa.Function
	specOnly      map[*ssa.Function]bool // ensures assumed only where contracts are proved
	errMemo       map[*Term]*Term
	ifaceErr      map[types.Type]bool
	usedContracts map[string]int
	varGo         map[*Term]types.Type
	invTmpl       map[string][]*tmpl
	errTmpl       map[string]*tmpl
	invProblems   []string
	inInv         int
}

type Contract struct {
	Target   string
	Spec     *ssa.Function
	Requires []*ssa.Function
	Ensures  []*ssa.Function
	Props    []string
	NilOK    map[string]bool
	// functions seen through their contract alone while the postconditions are
	// checked; true: not even that, an unknown function of the arguments
	Opaque map[string]bool
	Use    map[string]bool // the ones whose postconditions are assumed for every kind of obligation
	Hide   map[string]bool // the opaque ones that are so for postconditions only
}

func (e *Engine) used(s string) { e.usedExt[s]++ }

func Load(repo, contractDir string) (*Engine, error) {
	overlay := map[string][]byte{}
	files, _ := filepath.Glob(filepath.Join(contractDir, "*.go"))
	sort.Strings(files)
	specFiles := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p := filepath.Join(repo, "zz_vc_"+filepath.Base(f))
		overlay[p] = b
		specFiles[p] = true
	}
	var dropped []string
	var pk *packages.Package
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo, Overlay: overlay, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOFLAGS=")}
		ps, err := packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(ps) != 1 {
			return nil, fmt.Errorf("loaded %d packages", len(ps))
		}
		pk = ps[0]
		if len(pk.Errors) == 0 {
			break
		}
		if round > 12 {
			return nil, fmt.Errorf("type errors remain: %v", pk.Errors[0])
		}
		// drop the contract declarations the errors are in
		progress := false
		for _, er := range pk.Errors {
			pos := er.Pos
			parts := strings.Split(pos, ":")
			if len(parts) < 2 || !specFiles[parts[0]] {
				continue
			}
			var line int
			fmt.Sscan(parts[1], &line)
			for _, f := range pk.Syntax {
				tf := pk.Fset.File(f.Pos())
				if tf == nil || tf.Name() != parts[0] {
					continue
				}
				for _, d := range f.Decls {
					s, en := pk.Fset.Position(d.Pos()), pk.Fset.Position(d.End())
					if s.Line <= line && line <= en.Line {
						nm := "declaration"
						if fd, ok := d.(*ast.FuncDecl); ok {
							nm = fd.Name.Name
						}
						b := append([]byte{}, overlay[parts[0]]...)
						for i := s.Offset; i < en.Offset && i < len(b); i++ {
							if b[i] != '\n' {
								b[i] = ' '
							}
						}
						if string(b) != string(overlay[parts[0]]) {
							progress = true
							if !strings.Contains(er.Msg, "imported and not used") {
								dropped = append(dropped, nm+" ("+er.Msg+")")
							}
							overlay[parts[0]] = b
						}
					}
				}
			}
		}
		if !progress {
			return nil, fmt.Errorf("type errors: %v", pk.Errors)
		}
	}
	prog, pkgs := ssautil.Packages([]*packages.Package{pk}, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{repo: repo, prog: prog, pkg: pkgs[0], tpkg: pk.Types, fset: pk.Fset,
		sortCache: map[types.Type]*Sort{}, typesByName: map[string]types.Type{}, implIfaces: map[string]*types.Interface{},
		staticIface: map[*Term]types.Type{}, infos: map[*ssa.Function]*fnInfo{}, recs: map[*ssa.Function]*RecFn{},
		recMemo: map[*Term]*Term{}, contracts: map[string]*Contract{}, dropped: dropped, pool: NewPool(8), quick: map[string]bool{},
		globals: map[*ssa.Global]*Term{}, usedExt: map[string]int{}, funcs: map[string]*ssa.Function{}, specFiles: specFiles,
		specOnly: map[*ssa.Function]bool{}, cw: map[types.Type][]types.Type{}, exempt: map[string]map[string]string{}, summaries: map[string]bool{}, transformers: map[string]bool{}, ifaceEns: map[string][]*ssa.Function{}, nonNil: map[string]bool{}, ifaceTmpl: map[string][]*ifaceTemplate{}, invs: map[string][]*ssa.Function{}, errMemo: map[*Term]*Term{}, usedContracts: map[string]int{},
		varGo: map[*Term]types.Type{}, invTmpl: map[string][]*tmpl{}, errTmpl: map[string]*tmpl{}}
	e.unprovedError = map[string]bool{}
	open := loadOpen(filepath.Dir(contractDir))
	for _, m := range []map[string]string{open.Open, open.Undecided} {
		for k := range m {
			if w := strings.Split(k, "|"); len(w) > 1 && w[1] == "error" {
				e.unprovedError[w[0]] = true
			}
		}
	}
	// all named types get a stable tag first
	for _, n := range e.tpkg.Scope().Names() {
		if tn, ok := e.tpkg.Scope().Lookup(n).(*types.TypeName); ok {
			if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
				e.noteType(typeName(tn.Type()), tn.Type())
				tagID(typeName(tn.Type()))
				pt := types.NewPointer(tn.Type())
				e.noteType(typeName(pt), pt)
				tagID(typeName(pt))
			}
		}
	}
	for _, b := range []types.BasicKind{types.String, types.Int, types.Int64, types.Bool, types.Float64, types.Float32, types.Int32, types.Int16, types.Int8} {
		e.noteType(types.Typ[b].Name(), types.Typ[b])
		tagID(types.Typ[b].Name())
	}
	for _, m := range e.pkg.Members {
		if f, ok := m.(*ssa.Function); ok {
			e.addFn(f)
		}
		if t, ok := m.(*ssa.Type); ok {
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						e.addFn(f)
					}
				}
			}
		}
	}
	e.parseContracts(pk)
	e.evalInit()
	return e, nil
}

func (e *Engine) addFn(f *ssa.Function) {
	if f.Synthetic != "" {
		return
	}
	e.funcs[shortName(f)] = f
}

func (e *Engine) isSpecFn(f *ssa.Function) bool {
	return e.specFiles[e.fset.Position(f.Pos()).Filename]
}

// closedWorld lists the implementations of an interface with unexported methods.
func (e *Engine) closedWorld(t types.Type) []types.Type {
	if r, ok := e.cw[t]; ok {
		return r
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != e.tpkg {
		return nil
	}
	var out []types.Type
	for _, nm := range e.tpkg.Scope().Names() {
		tn, ok := e.tpkg.Scope().Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, isI := tn.Type().Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(tn.Type(), it) {
			out = append(out, tn.Type())
		} else if types.Implements(types.NewPointer(tn.Type()), it) {
			out = append(out, types.NewPointer(tn.Type()))
		}
	}
	if len(out) > 6 {
		out = nil
	}
	e.cw[t] = out
	return out
}

// directive gives the text of a //@ comment (gofmt writes // @).
func directive(c string) (string, bool) {
	if t, ok := strings.CutPrefix(c, "//@"); ok {
		return t, true
	}
	return strings.CutPrefix(c, "// @")
}

func (e *Engine) parseContracts(pk *packages.Package) {
	type pending struct {
		fn   *ssa.Function
		dirs [][]string
	}
	var nilok [][]string
	defer func() { e.setNilOK(nilok) }()
	for _, f := range pk.Syntax {
		fname := pk.Fset.Position(f.Pos()).Filename
		if !e.specFiles[fname] {
			continue
		}
		var fileProps []string
		opaque, hide, use := map[string]bool{}, map[string]bool{}, map[string]bool{}
		docs := map[*ast.CommentGroup]bool{}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
				docs[fd.Doc] = true
			}
		}
		for _, cg := range f.Comments {
			if docs[cg] {
				continue
			}
			for _, c := range cg.List {
				text, ok := directive(c.Text)
				if !ok {
					continue
				}
				w := strings.Fields(text)
				if len(w) == 0 {
					continue
				}
				switch w[0] {
				case "fileprops":
					fileProps = w[1:]
				case "opaque":
					for _, t := range w[1:] {
						opaque[t] = true
					}
				case "hide":
					for _, t := range w[1:] {
						opaque[t] = true
						hide[t] = true
					}
				case "use":
					for _, t := range w[1:] {
						opaque[t] = opaque[t]
						use[t] = true
					}
				case "via":
					for _, t := range w[1:] {
						opaque[t] = opaque[t]
					}
				case "nonnil":
					for _, t := range w[1:] {
						e.nonNil[t] = true
					}
				case "nilok":
					nilok = append(nilok, w[1:])
				case "transformer":
					for _, t := range w[1:] {
						e.transformers[t] = true
					}
				case "summary":
					for _, t := range w[1:] {
						e.summaries[t] = true
					}
				case "exempt":
					// //@ exempt KIND TARGET reason...
					if e.exempt[w[1]] == nil {
						e.exempt[w[1]] = map[string]string{}
					}
					e.exempt[w[1]][w[2]] = strings.Join(w[3:], " ")
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			fn := e.pkg.Func(fd.Name.Name)
			if fn == nil {
				continue
			}
			props := fileProps
			var verbs [][]string
			for _, c := range fd.Doc.List {
				text, ok := directive(c.Text)
				if !ok {
					continue
				}
				w := strings.Fields(text)
				if len(w) == 0 {
					continue
				}
				if w[0] == "props" {
					props = w[1:]
					continue
				}
				verbs = append(verbs, w)
			}
			for _, w := range verbs {
				switch w[0] {
				case "rec":
					e.declareRec(fn, len(w) > 1 && w[1] == "len", opaque)
				case "invariant":
					e.invs[w[1]] = append(e.invs[w[1]], fn)
				case "method":
					e.addMethodContract(fn, w[1], props)
				case "spec", "requires", "ensures":
					if _, ok := e.funcs[w[1]]; !ok {
						e.orphans = append(e.orphans, w[1])
						continue
					}
					c := e.contracts[w[1]]
					if c == nil {
						c = &Contract{Target: w[1], NilOK: map[string]bool{}}
						e.contracts[w[1]] = c
					}
					if len(opaque) > 0 {
						if c.Opaque == nil {
							c.Opaque, c.Hide, c.Use = map[string]bool{}, map[string]bool{}, map[string]bool{}
						}
						for t := range use {
							c.Use[t] = true
						}
						for t := range hide {
							c.Hide[t] = true
						}
						for t := range opaque {
							c.Opaque[t] = opaque[t] || c.Opaque[t]
						}
					}
					for _, p := range props {
						if !contains(c.Props, p) {
							c.Props = append(c.Props, p)
						}
					}
					switch w[0] {
					case "spec":
						c.Spec = fn
					case "requires":
						c.Requires = append(c.Requires, fn)
					case "ensures":
						c.Ensures = append(c.Ensures, fn)
					}
					for _, o := range w[2:] {
						if strings.HasPrefix(o, "nilok=") {
							c.NilOK[o[6:]] = true
						}
						if o == "specs" { // assumed only where contracts are proved, not for crashes, errors and frames
							e.specOnly[fn] = true
						}
					}
				}
			}
		}
	}
}

// setNilOK applies the //@ nilok lines: "F p…" says the contract of F covers nil
// for its interface parameters p. VC_NILOK tries others: "all", "N" (the N-th
// parameter only), used by tools/nilok.sh.
func (e *Engine) setNilOK(lines [][]string) {
	for _, l := range lines {
		if c := e.contracts[l[0]]; c != nil {
			for _, p := range l[1:] {
				c.NilOK[p] = true
			}
		}
	}
	try := os.Getenv("VC_NILOK")
	if try == "" {
		return
	}
	for n, c := range e.contracts {
		for i, p := range e.funcs[n].Params {
			if types.IsInterface(p.Type()) && (try == "all" || try == fmt.Sprint(i)) {
				c.NilOK[p.Name()] = true
			}
		}
	}
}

// addMethodContract declares a postcondition of an interface method: an
// obligation of every implementation, known at every call.
func (e *Engine) addMethodContract(fn *ssa.Function, target string, props []string) {
	i := strings.LastIndex(target, ".")
	if i < 0 {
		return
	}
	tn, ok := e.tpkg.Scope().Lookup(target[:i]).(*types.TypeName)
	if !ok {
		e.orphans = append(e.orphans, target)
		return
	}
	it, ok := tn.Type().Underlying().(*types.Interface)
	if !ok {
		e.orphans = append(e.orphans, target)
		return
	}
	e.ifaceEns[target[i+1:]] = append(e.ifaceEns[target[i+1:]], fn)
	for _, n := range e.tpkg.Scope().Names() {
		o, ok := e.tpkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || o.IsAlias() || !types.Implements(o.Type(), it) {
			continue
		}
		if _, isI := o.Type().Underlying().(*types.Interface); isI {
			continue
		}
		m := e.methodOn(o.Type(), target[i+1:])
		if m == nil || m.Synthetic != "" {
			continue
		}
		name := shortName(m)
		c := e.contracts[name]
		if c == nil {
			c = &Contract{Target: name, NilOK: map[string]bool{}}
			e.contracts[name] = c
		}
		for _, p := range props {
			if !contains(c.Props, p) {
				c.Props = append(c.Props, p)
			}
		}
		if !containsFn(c.Ensures, fn) {
			c.Ensures = append(c.Ensures, fn)
		}
	}
}

func containsFn(xs []*ssa.Function, f *ssa.Function) bool {
	for _, x := range xs {
		if x == f {
			return true
		}
	}
	return false
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func (e *Engine) contractFor(fn *ssa.Function) *Contract {
	if fn.Pkg != e.pkg || fn.Synthetic != "" {
		return nil
	}
	return e.contracts[shortName(fn)]
}

// ---- globals: the package initialiser is executed symbolically

func (e *Engine) globalAddr(g *ssa.Global) Val {
	r, ok := e.globals[g]
	if !ok {
		r = FreshRef("global " + g.Name())
		e.globals[g] = r
		el := deref(g.Type())
		var v *Term
		if g.Pkg == e.pkg {
			v = ZeroTerm(e.sortOf(el))
		} else {
			v = Var("ext_global_"+mangle(g.String()), e.sortOf(el))
		}
		if e.initSt != nil {
			e.initSt.cells[r.N] = cell{val: v}
		}
	}
	return Addr{base: r, root: deref(g.Type())}
}

func (e *Engine) evalInit() {
	why := ""
	st := NewState()
	e.initSt = st
	for _, m := range sortedKeys(e.pkg.Members) {
		if g, ok := e.pkg.Members[m].(*ssa.Global); ok {
			e.globalAddr(g)
		}
	}
	x := &Exec{e: e, name: "init", quiet: 1, unsupp: &why, noContract: map[*ssa.Function]bool{}}
	fn := e.pkg.Func("init")
	var final *State
	fr := func(s *State, res []Val) { final = s }
	x.callFnInit(st, fn, fr)
	if final == nil {
		fmt.Fprintln(os.Stderr, "package init could not be evaluated:", why)
		return
	}
	if why != "" {
		fmt.Fprintln(os.Stderr, "package init:", why)
	}
	final.pc = nil
	final.pcset = map[*Term]bool{}
	final.owned = map[*Term]bool{}
	final.writes = nil
	e.initSt = final
}

func (x *Exec) callFnInit(st *State, fn *ssa.Function, k Kont) {
	// init$guard is false on entry (zero value), so the straight path is taken
	x.callFn(st, fn, nil, nil, k)
}

// BaseState is the state every function starts from: initialised globals.
func (e *Engine) BaseState() *State {
	s := e.initSt.clone()
	s.vmap = map[*Term]Val{}
	for k, v := range e.initSt.vmap {
		s.vmap[k] = v
	}
	s.fns = map[*Term]*Closure{}
	for k, v := range e.initSt.fns {
		s.fns[k] = v
	}
	return s
}

// proveQuick is used inside loop analysis.
func (e *Engine) proveQuick(assume []*Term, goal *Term) bool {
	if goal == True {
		return true
	}
	e.loopStats.quickCalls++
	r, _ := e.prove(assume, goal, 1500, false)
	return r == "unsat"
}

var dumpSMT = os.Getenv("VC_DUMP")

func (e *Engine) prove(assume []*Term, goal *Term, ms int, model bool) (string, string) {
	for _, a := range assume {
		if a == False {
			return "unsat", ""
		}
	}
	assume, g := instantiate(assume, goal)
	if !model && !g.hasBound {
		script := e.firstTry(assume, g, 1)
		e.pool.mu.Lock()
		r, ok := e.pool.cache[script]
		e.pool.mu.Unlock()
		if !ok {
			r, _ = e.pool.checkZ3(script, 300, false)
			e.pool.mu.Lock()
			e.pool.cache[script] = r
			e.pool.mu.Unlock()
		}
		if r == "unsat" {
			return r, ""
		}
	}
	ts := append(append([]*Term{}, assume...), g)
	ax := e.groundAxioms(ts)
	script := smtScript(append(append([]*Term{}, assume...), ax...), g, "z3")
	key := script
	e.pool.mu.Lock()
	if r, ok := e.pool.cache[key]; ok && !model {
		e.pool.mu.Unlock()
		return r, ""
	}
	e.pool.mu.Unlock()
	if dumpSMT != "" {
		os.WriteFile(dumpSMT, []byte(script+"(check-sat)\n"), 0o644)
	}
	r, d := e.pool.checkZ3(script, ms, model)
	if strings.HasPrefix(r, "error") && os.Getenv("VC_ERR") != "" {
		fmt.Fprintln(os.Stderr, "SMT error:", r)
		os.WriteFile("/tmp/vc_err.smt2", []byte(script+"(check-sat)\n"), 0o644)
	}
	e.pool.mu.Lock()
	e.pool.cache[key] = r
	e.pool.mu.Unlock()
	return r, d
}
