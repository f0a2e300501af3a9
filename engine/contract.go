package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation: Assume |- Goal.
type Obligation struct {
	Target string
	Kind   string // panic, frame, pre, spec, ensures, error, inv, vacuity, unsupported
	What   string
	Assume []*Term
	Goal   *Term
	Pos    token.Pos
	Trace  []string
	Props  []string
	Status string // proved, failed, unknown
	Solver string
	Detail string
	Ms     float64
}

type TargetResult struct {
	Fn      *ssa.Function
	Name    string
	C       *Contract
	Obls    []*Obligation
	Paths   int
	Unsupp  string
	Trivial bool
}

// ---------------------------------------------------------------- errors carried by values

// errOf: does the value carry an error, seen through its type.
func (x *Exec) errOf(st *State, t *Term, gt types.Type) *Term {
	gt = types.Unalias(gt)
	switch u := gt.Underlying().(type) {
	case *types.Interface:
		if isErrorType(gt) {
			return Not(IsNil(t))
		}
		return x.errOfIfaceSt(st, t)
	case *types.Struct:
		fn := x.e.methodOn(gt, "GetError")
		if fn != nil && fn.Signature.Params().Len() == 0 {
			if memo, ok := x.e.errMemo[t]; ok && fn.Synthetic == "" {
				return memo
			}
			r, why := x.pureQuiet(st, fn, []Val{t})
			if why == "" && len(r) == 1 {
				return Not(IsNil(r[0]))
			}
			return nil
		}
		if x.e.isOpaqueNamedT(gt) {
			return False
		}
		for i := 0; i < u.NumFields(); i++ {
			if isErrorType(u.Field(i).Type()) && u.Field(i).Name() == "err" {
				return Not(IsNil(Sel(t, i)))
			}
		}
		return False
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
			return False
		}
		if t == Null {
			return False
		}
		s := x.e.sortOf(u.Elem())
		if s.K != SStruct || s.Name == "CypherRenderer" {
			return False
		}
		c := x.loadRef(st, t, s)
		r := x.errOf(st, c, u.Elem())
		if r == nil {
			return nil
		}
		return And(Not(Eq(t, Null)), r)
	case *types.Slice:
		if t.Sort.K != SSeq {
			return False
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Interface, *types.Pointer:
		default:
			return False
		}
		if ps := seqParts(t); allUnits(ps) {
			var xs []*Term
			for _, p := range ps {
				r := x.errOf(st, p.Args[0], u.Elem())
				if r == nil {
					return nil
				}
				xs = append(xs, r)
			}
			return Or(xs...)
		}
		bad := false
		q := x.quantify(st, SeqLen(t), true, func(b *Term) *Term {
			r := x.errOf(st, SeqNth(t, b), u.Elem())
			if r == nil {
				bad = true
				return False
			}
			return r
		})
		if bad {
			return nil
		}
		return q
	}
	return False
}

func (e *Engine) isOpaqueNamedT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && e.isOpaqueNamed(n)
}

func allUnits(ps []*Term) bool {
	for _, p := range ps {
		if p.Op != OSeqUnit {
			return false
		}
	}
	return true
}

func isErrorType(t types.Type) bool {
	return typeName(t) == "error"
}

func (x *Exec) pureQuiet(st *State, fn *ssa.Function, args []Val) ([]*Term, string) {
	why := ""
	y := *x
	y.unsupp = &why
	y.quiet = 1
	y.steps = 0
	return y.pure(st, fn, args, nil)
}

func (x *Exec) errOfIfaceSt(st *State, t *Term) *Term {
	switch t.Op {
	case ONil:
		return False
	case OIte:
		a, b := x.errOfIfaceSt(st, t.Args[1]), x.errOfIfaceSt(st, t.Args[2])
		if a == nil || b == nil {
			return nil
		}
		return Ite(t.Args[0], a, b)
	case OBox:
		gt := x.e.typesByName[t.S]
		if gt == nil {
			return False
		}
		fn := x.e.methodOn(gt, "GetError")
		if fn == nil {
			return x.errOf(st, t.Args[0], gt)
		}
		r, why := x.pureQuiet(st, fn, []Val{x.rich(st, t.Args[0])})
		if why != "" || len(r) != 1 {
			return nil
		}
		return Not(IsNil(r[0]))
	}
	if tn, ok := st.tags[t]; ok {
		if tn == "<nil>" {
			return False
		}
		if gt := x.e.typesByName[tn]; gt != nil {
			return x.errOfIfaceSt(st, Box(tn, Unbox(tn, x.e.sortOf(gt), t)))
		}
	}
	f := UF("m_GetError_"+mangle(IfaceS.key()), IfaceS, IfaceS)
	f.Method = "GetError"
	return And(Not(IsNil(t)), Not(IsNil(App(f, t))))
}

// ifaceErrCapable: a type of the package that can carry an error implements the interface.
func (e *Engine) ifaceErrCapable(gt types.Type, u *types.Interface) bool {
	if u.NumMethods() == 0 {
		return false
	}
	if e.ifaceErr == nil {
		e.ifaceErr = map[types.Type]bool{}
	}
	if r, ok := e.ifaceErr[gt]; ok {
		return r
	}
	e.ifaceErr[gt] = true
	r := false
	for _, n := range e.tpkg.Scope().Names() {
		tn, ok := e.tpkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); !ok {
			continue
		}
		if types.Implements(tn.Type(), u) || types.Implements(types.NewPointer(tn.Type()), u) {
			r = r || e.errCapable(tn.Type())
		}
	}
	e.ifaceErr[gt] = r
	return r
}

// errCapable: can a value of this type carry an error at all
func (e *Engine) errCapable(gt types.Type) bool {
	gt = types.Unalias(gt)
	switch u := gt.Underlying().(type) {
	case *types.Interface:
		if isErrorType(gt) {
			return true
		}
		return e.ifaceErrCapable(gt, u)
	case *types.Struct:
		if e.isOpaqueNamedT(gt) {
			return false
		}
		if e.methodOn(gt, "GetError") != nil {
			return true
		}
		for i := 0; i < u.NumFields(); i++ {
			if isErrorType(u.Field(i).Type()) && u.Field(i).Name() == "err" {
				return true
			}
		}
	case *types.Pointer:
		if typeName(u.Elem()) == "CypherRenderer" {
			return false
		}
		_, ok := u.Elem().Underlying().(*types.Struct)
		return ok && e.errCapable(u.Elem())
	case *types.Slice:
		return e.errCapable(u.Elem())
	}
	return false
}

// ---------------------------------------------------------------- comparison

// canon replaces references to objects created in st by their content.
func (x *Exec) canon(st *State, t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if t.Op == OFreshRef {
			c, ok := st.cells[t.N]
			if !ok || d > 40 {
				return t
			}
			if strings.HasPrefix(t.S, "global ") {
				return t
			}
			v := rec(c.val, d+1)
			r := App(UF("ptr_"+mangle(v.Sort.key()), RefS, v.Sort), v)
			memo[t] = r
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a, d)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return eraseKeys(rec(t, 0))
}

// same is the formula: the two results are observably the same. Two values
// that both carry an error are the same whatever else is in them.
func (x *Exec) same(sa *State, a *Term, sb *State, b *Term, gt types.Type) *Term {
	if a == b && (sa == sb || !hasFreshRef(a)) {
		return True
	}
	gt = types.Unalias(gt)
	if isErrorType(gt) {
		return Eq(IsNil(a), IsNil(b))
	}
	plain := Eq(x.canon(sa, a), x.canon(sb, b))
	if plain == True {
		return True
	}
	switch u := gt.Underlying().(type) {
	case *types.Struct:
		if a.Sort.K != SStruct || x.e.isOpaqueNamedT(gt) {
			return plain
		}
		ea, eb := x.errOf(sa, a, gt), x.errOf(sb, b, gt)
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.same(sa, Sel(a, i), sb, Sel(b, i), u.Field(i).Type()))
		}
		fe := And(fs...)
		if ea == nil || eb == nil {
			return fe
		}
		ea, eb = x.canon(sa, ea), x.canon(sb, eb)
		return Or(And(ea, eb), And(Not(ea), Not(eb), fe))
	case *types.Interface:
		if a.Op == OIte {
			return Ite(x.canon(sa, a.Args[0]), x.same(sa, a.Args[1], sb, b, gt), x.same(sa, a.Args[2], sb, b, gt))
		}
		if b.Op == OIte {
			return Ite(x.canon(sb, b.Args[0]), x.same(sa, a, sb, b.Args[1], gt), x.same(sa, a, sb, b.Args[2], gt))
		}
		if a.Op == OBox && b.Op == OBox && a.S == b.S {
			if t := x.e.typesByName[a.S]; t != nil {
				return x.same(sa, a.Args[0], sb, b.Args[0], t)
			}
		}
		ea, eb := x.errOfIfaceSt(sa, a), x.errOfIfaceSt(sb, b)
		if ea == nil || eb == nil {
			return plain
		}
		ea, eb = x.canon(sa, ea), x.canon(sb, eb)
		return Or(And(ea, eb), And(Not(ea), Not(eb), plain))
	case *types.Pointer:
		if a.Op == OFreshRef && b.Op == OFreshRef {
			ca, oka := sa.cells[a.N]
			cb, okb := sb.cells[b.N]
			if oka && okb && ca.val.Sort == cb.val.Sort {
				return x.same(sa, ca.val, sb, cb.val, u.Elem())
			}
		}
	case *types.Slice:
		pa, pb := seqParts(a), seqParts(b)
		if len(pa) == len(pb) && allUnits(pa) && allUnits(pb) {
			var fs []*Term
			for i := range pa {
				fs = append(fs, x.same(sa, pa[i].Args[0], sb, pb[i].Args[0], u.Elem()))
			}
			return And(fs...)
		}
	}
	return plain
}

func hasFreshRef(t *Term) bool {
	f := false
	collect([]*Term{t}, func(u *Term) {
		if u.Op == OFreshRef {
			f = true
		}
	})
	return f
}

// ---------------------------------------------------------------- contract application at call sites

// callPre states the implicit preconditions of a function at a call of it.
func (x *Exec) callPre(st *State, c *Contract, fn *ssa.Function, args []Val, pos token.Pos) {
	for i, p := range fn.Params {
		if x.quiet > 0 {
			break
		}
		switch p.Type().Underlying().(type) {
		case *types.Pointer:
			a := x.asAddr(st, args[i], p.Type())
			if a.base != nil && a.base.Op != OFreshRef {
				x.oblig(st, "pre", "non-nil "+p.Name()+" for "+shortName(fn), Not(Eq(a.base, Null)), pos)
			}
		case *types.Interface:
			if c != nil && c.NilOK[p.Name()] || emptyIface(p.Type()) || isErrorType(p.Type()) {
				continue
			}
			t := x.term(st, args[i])
			x.oblig(st, "pre", "non-nil "+p.Name()+" for "+shortName(fn), Not(IsNil(t)), pos)
		case *types.Slice:
			// elements that are visibly nil
			t := x.peek(st, args[i])
			for _, q := range seqParts(t) {
				if q.Op == OSeqUnit && q.Sort.Elem == IfaceS && !emptyIface(p.Type().Underlying().(*types.Slice).Elem()) {
					x.oblig(st, "pre", "no nil element in "+p.Name()+" for "+shortName(fn), Not(IsNil(q.Args[0])), pos)
				}
			}
		}
	}
	if c == nil {
		return
	}
	for _, rq := range c.Requires {
		r, why := x.pureQuiet(st, rq, args)
		if why != "" || len(r) != 1 {
			x.unsupported(st, "precondition "+rq.Name()+": "+why)
			continue
		}
		x.oblig(st, "pre", rq.Name()+" for "+shortName(fn), r[0], pos)
	}
}

func (x *Exec) applyContract(st *State, c *Contract, fn *ssa.Function, args []Val, pos token.Pos, k Kont) {
	e := x.e
	x.callPre(st, c, fn, args, pos)
	e.usedContracts[c.Target]++
	if c.Spec == nil {
		x.callFn(st, fn, args, nil, k) // ensures-only contracts: body is used
		return
	}
	x.quiet++
	saveSpec := x.inSpec
	x.inSpec++
	stack := x.stack
	x.callFn(st, c.Spec, args, nil, func(st *State, res []Val) {
		x.quiet--
		x.inSpec--
		save := x.stack
		x.stack = stack
		var out []Val
		for i, v := range res {
			out = append(out, x.abstractError(st, fn, args, i, v))
		}
		x.forkErr(st, out, fn, k)
		x.stack = save
		x.quiet++
		x.inSpec++
	})
	x.quiet--
	x.inSpec = saveSpec
}

// applySummary is a call seen through the contract alone: the result is an
// unknown function of the arguments of which only the postconditions are known
// (each is an obligation of the function called).
func (x *Exec) applySummary(st *State, fn *ssa.Function, args []Val, pos token.Pos, k Kont) {
	e := x.e
	c := e.contractFor(fn)
	x.callPre(st, c, fn, args, pos)
	name := shortName(fn)
	e.usedContracts[name]++
	var ts []*Term
	var ss []*Sort
	for i, a := range args {
		t := x.canon(st, x.contentTerm(st, a, fn, i))
		ts = append(ts, t)
		ss = append(ss, t.Sort)
	}
	sig := fn.Signature
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		t := App(UF(fmt.Sprintf("sum_%s_%d", mangle(name), i), e.sortOf(rt), ss...), ts...)
		if _, ok := e.varGo[t]; !ok {
			e.varGo[t] = rt
		}
		e.noteStatic(t, rt)
		res = append(res, t)
	}
	if c != nil && (x.generic && (x.use[name] || !x.isOpaque(name)) || !x.generic && !x.opaque[name]) {
		for _, en := range c.Ensures {
			if x.generic && e.specOnly[en] {
				continue
			}
			as := append(append([]Val{}, args...), res...)
			if n := en.Signature.Params().Len(); n < len(as) {
				as = as[:n]
			}
			x.assuming = true
			r, why := x.pureQuiet(st, en, as)
			x.assuming = false
			if why == "" && len(r) == 1 {
				// a result the postcondition gives outright is that value
				m := map[*Term]*Term{}
				for _, f := range conjuncts(r[0]) {
					if f.Op != OEq {
						continue
					}
					for j := range res {
						rt, ok := res[j].(*Term)
						if !ok || m[rt] != nil {
							continue
						}
						for a := 0; a < 2; a++ {
							if f.Args[a] == rt && !occurs(rt, f.Args[1-a]) {
								m[rt] = f.Args[1-a]
								break
							}
						}
					}
				}
				for j := range res {
					if rt, ok := res[j].(*Term); ok && m[rt] != nil {
						res[j] = m[rt]
					}
				}
				st.assume(Subst(r[0], m))
			}
		}
	}
	// an erroneous argument gives an erroneous result
	if _, ex := e.exemptFor("error", name); !ex && !(x.isOpaque(name) && e.unprovedError[name]) {
		bad, out := False, False
		for i := range res {
			if r := x.errOf(st, res[i].(*Term), sig.Results().At(i).Type()); r != nil {
				out = Or(out, r)
			}
		}
		if out != False {
			for i, p := range fn.Params {
				if !e.errCapable(p.Type()) || isErrorType(p.Type()) {
					continue
				}
				if _, ex := e.exemptFor("error", name+"#"+p.Name()); ex {
					continue
				}
				if r := x.errOf(st, x.contentOrTerm(st, args[i], fn, i, p.Type()), derefT(p.Type())); r != nil {
					bad = Or(bad, r)
				}
			}
			if bad != False {
				st.assume(Implies(bad, out))
			}
		}
	}
	if e.nonNil[name] && x.inSpec == 0 {
		st.assume(nonNilResult(res))
	}
	if _, ex := e.exemptFor("absent-result", name); !ex {
		for i := range res {
			if res[i].(*Term).Op != OApp {
				continue
			}
			if p := e.presentOrError(x, st, res[i].(*Term), sig.Results().At(i).Type()); p != nil {
				st.assume(p)
			}
		}
	}
	k(st, res)
}

// nonNilResult: the first result is there, or another one (an error) is.
func nonNilResult(res []Val) *Term {
	r := False
	for i := range res {
		if t := res[i].(*Term); t.Sort == IfaceS {
			r = Or(r, Not(IsNil(t)))
		}
	}
	return r
}

func conjuncts(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	return []*Term{t}
}

func occurs(a, in *Term) bool {
	f := false
	collect([]*Term{in}, func(u *Term) { f = f || u == a })
	return f
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) contentOrTerm(st *State, a Val, fn *ssa.Function, i int, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return x.contentTerm(st, a, fn, i)
	}
	return x.term(st, a)
}

func (x *Exec) forkErr(st *State, res []Val, fn *ssa.Function, k Kont) { k(st, res) }

func emptyIface(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

// abstractError: nothing is known about a result that carries an error, except that it does.
func (x *Exec) abstractError(st *State, fn *ssa.Function, args []Val, i int, v Val) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	gt := fn.Signature.Results().At(i).Type()
	switch gt.Underlying().(type) {
	case *types.Struct:
	default:
		return v
	}
	if t.Op != OMk {
		return v
	}
	er := x.errOf(st, t, gt)
	if er == nil || er == False {
		return v
	}
	d := st.decide(er)
	if d == False {
		return v
	}
	if d != True {
		return v // mixed: keep the specification's value (its error field decides)
	}
	// erroneous for certain: replace by an unknown erroneous value
	var ts []*Term
	var ss []*Sort
	for _, a := range args {
		at := x.peek(st, a)
		ts = append(ts, at)
		ss = append(ss, at.Sort)
	}
	s := t.Sort
	fs := make([]*Term, len(s.Fields))
	u := gt.Underlying().(*types.Struct)
	for j := range fs {
		if isErrorType(u.Field(j).Type()) && u.Field(j).Name() == "err" && Not(IsNil(Sel(t, j))) != False {
			fs[j] = Box("ext.error", App(UF(fmt.Sprintf("err_%s", mangle(shortName(fn))), opaque("error"), ss...), ts...))
			continue
		}
		fs[j] = App(UF(fmt.Sprintf("bad_%s_%d", mangle(shortName(fn)), j), s.Fields[j], ss...), ts...)
	}
	nv := Mk(s, fs...)
	if ne := x.errOf(st, nv, gt); ne != True {
		return v
	}
	return nv
}

// ---------------------------------------------------------------- verification of one function

func (e *Engine) entry(fn *ssa.Function, c *Contract) (*State, []Val) {
	st := e.BaseState()
	var args []Val
	for _, p := range fn.Params {
		s := e.sortOf(p.Type())
		v := Var("p_"+p.Name(), s)
		e.entryTerms = append(e.entryTerms, v)
		switch p.Type().Underlying().(type) {
		case *types.Pointer:
			st.assume(Not(Eq(v, Null)))
		case *types.Interface:
			if !(c != nil && c.NilOK[p.Name()]) && !emptyIface(p.Type()) && !isErrorType(p.Type()) {
				st.assume(Not(IsNil(v)))
			}
			e.noteStatic(v, p.Type())
		}
		e.varGo[v] = p.Type()
		args = append(args, v)
	}
	if fn.Signature.Recv() != nil {
		if pre := e.implicitPre(fn, args[0].(*Term)); pre != nil {
			st.assume(pre)
		}
	}
	return st, args
}

func (e *Engine) newExec(fn *ssa.Function, obls *[]*Obligation, why *string, pool *[]*Term) *Exec {
	x := &Exec{e: e, target: fn, name: shortName(fn), obls: obls, unsupp: why, pool: pool, noContract: map[*ssa.Function]bool{fn: true}}
	x.modAllow = func(root types.Type) bool {
		return typeName(root) == "CypherRenderer" || strings.HasPrefix(typeName(root), "map[")
	}
	return x
}

type wants struct {
	spec, err, panics, frame bool
}

// verify generates the obligations of one function.
func (e *Engine) verify(fn *ssa.Function, w wants) *TargetResult {
	name := shortName(fn)
	tr := &TargetResult{Fn: fn, Name: name, C: e.contracts[name]}
	why := ""
	e.entryTerms = nil
	st0, args := e.entry(fn, tr.C)
	var pool []*Term
	x := e.newExec(fn, &tr.Obls, &why, &pool)
	if tr.C != nil {
		x.opaque, x.use, x.generic = tr.C.Opaque, tr.C.Use, !w.spec
		if !w.spec {
			x.opaque = map[string]bool{}
			for t, v := range tr.C.Opaque {
				if !tr.C.Hide[t] {
					x.opaque[t] = v
				}
			}
		}
	}
	sig := fn.Signature
	// class invariants of inputs
	for i, p := range fn.Params {
		e.assumeInv(x, st0, args[i].(*Term), p.Type())
	}
	var reqs []*Term
	if tr.C != nil {
		for _, rq := range tr.C.Requires {
			r, wy := x.pureQuiet(st0, rq, args)
			if wy != "" || len(r) != 1 {
				tr.Unsupp = "precondition " + rq.Name() + ": " + wy
				return tr
			}
			reqs = append(reqs, r[0])
			st0.assume(r[0])
		}
	}
	// the specification first: its terms are the templates for loop invariants
	specRun := func(st *State) []Outcome {
		var outs []Outcome
		y := *x
		swhy := ""
		y.unsupp = &swhy
		y.quiet = 1
		y.inSpec = 1
		y.obls = nil
		y.stack = nil
		y.steps = 0
		y.callFn(st, tr.C.Spec, args, nil, func(s *State, res []Val) { outs = append(outs, Outcome{s, res}) })
		if swhy != "" && tr.Unsupp == "" {
			tr.Unsupp = "specification " + tr.C.Spec.Name() + ": " + swhy
		}
		return outs
	}
	hasSpec := w.spec && tr.C != nil && tr.C.Spec != nil
	if hasSpec {
		outs := specRun(st0.clone())
		feasible := 0
		for _, o := range outs {
			for _, r := range o.res {
				if t, ok := r.(*Term); ok {
					pool = append(pool, t)
				}
			}
			pool = append(pool, o.st.pc...)
			for _, c := range o.st.cells {
				_ = c
			}
			for _, ws := range o.st.heap {
				for _, wr := range ws {
					pool = append(pool, wr.val)
				}
			}
			feasible++
		}
		if feasible == 0 {
			tr.Obls = append(tr.Obls, &Obligation{Target: name, Kind: "vacuity", What: "the specification has no outcome", Goal: False, Pos: fn.Pos()})
		}
	}
	// error templates
	var errIn []*Term
	capable := false
	for i := 0; i < sig.Results().Len(); i++ {
		capable = capable || e.errCapable(sig.Results().At(i).Type())
	}
	if capable {
		for i, p := range fn.Params {
			if !e.errCapable(p.Type()) || isErrorType(p.Type()) {
				continue
			}
			if _, ex := e.exemptFor("error", name+"#"+p.Name()); ex {
				continue
			}
			t := x.errOf(st0, args[i].(*Term), p.Type())
			if t == nil {
				continue
			}
			errIn = append(errIn, t)
			pool = append(pool, t)
		}
	}
	if tr.C != nil {
		// the recursive functions and the quantified conditions on its arguments
		// a postcondition uses say what a loop gathers
		asked := map[*Term]bool{}
		for _, en := range tr.C.Ensures {
			if (!e.usesRec(en) || e.specOnly[en]) && !w.spec {
				continue
			}
			as := append([]Val{}, args...)
			results := map[*Term]bool{}
			for i := 0; i < sig.Results().Len(); i++ {
				r := Fresh("result", e.sortOf(sig.Results().At(i).Type()))
				results[r] = true
				as = append(as, r)
			}
			if n := en.Signature.Params().Len(); n < len(as) {
				as = as[:n]
			}
			r, w := x.pureQuiet(st0.clone(), en, as)
			if w != "" && loopDebug {
				fmt.Fprintln(os.Stderr, "templates:", en.Name(), w)
			}
			if w == "" && len(r) == 1 {
				collect(r, func(t *Term) {
					if t.Op == OApp && t.F.Rec != nil && !t.hasBound {
						pool = append(pool, t)
					}
					if (t.Op == OExists || t.Op == OForall) && !t.hasOuterBound() && len(asked) < 8 {
						mine := false
						collect([]*Term{t}, func(u *Term) { mine = mine || results[u] })
						if !mine && !asked[t] && !asked[Not(t)] {
							asked[t] = true
							pool = append(pool, t)
						}
					}
				})
			}
		}
	}
	var outs []Outcome
	x.callFn(st0.clone(), fn, args, nil, func(s *State, res []Val) { outs = append(outs, Outcome{s, res}) })
	tr.Paths = len(outs)
	if why != "" {
		tr.Unsupp = why
	}
	if len(outs) == 0 {
		tr.Obls = append(tr.Obls, &Obligation{Target: name, Kind: "panic", What: "no path returns", Goal: False, Pos: fn.Pos()})
	}
	for oi, o := range outs {
		tr.checkOutcome(e, x, o, oi, st0, args, w, specRun, errIn)
	}
	return tr
}

func (e *Engine) exemptFor(kind, name string) (string, bool) {
	r, ok := e.exempt[kind][name]
	return r, ok
}

func (tr *TargetResult) checkOutcome(e *Engine, x *Exec, o Outcome, oi int, st0 *State, args []Val, w wants, specRun func(*State) []Outcome, errIn []*Term) {
	fn := tr.Fn
	sig := fn.Signature
	name := tr.Name
	if o.st.pcset[False] {
		return
	}
	add := func(kind, what string, assume []*Term, goal *Term) {
		g := goal
		if d := o.st.decide(g); d == True {
			g = True
		}
		tr.Obls = append(tr.Obls, &Obligation{Target: name, Kind: kind, What: what, Assume: assume, Goal: g, Pos: fn.Pos()})
	}
	if w.spec && tr.C != nil && tr.C.Spec != nil {
		// run the specification under the path condition of this outcome, from the entry state
		s := st0.clone()
		for _, p := range o.st.pc {
			s.assume(p)
		}
		so := specRun(s)
		for si, q := range so {
			if q.st.pcset[False] {
				continue
			}
			var parts []string
			var goals []*Term
			for i := 0; i < sig.Results().Len(); i++ {
				a, b := x.term(o.st, o.res[i]), x.term(q.st, q.res[i])
				if a.Sort != b.Sort {
					goals = append(goals, False)
					parts = append(parts, fmt.Sprintf("result %d has another sort", i))
					continue
				}
				g := x.same(o.st, a, q.st, b, sig.Results().At(i).Type())
				goals = append(goals, g)
				parts = append(parts, fmt.Sprintf("result %d", i))
			}
			// content of pre-existing objects
			refs := map[*Term]bool{}
			for _, r := range append(append([]*Term{}, o.st.writes...), q.st.writes...) {
				refs[r] = true
			}
			sortsSeen := map[*Sort]bool{}
			for sx := range o.st.heap {
				sortsSeen[sx] = true
			}
			for sx := range q.st.heap {
				sortsSeen[sx] = true
			}
			for r := range refs {
				for sx := range sortsSeen {
					touched := false
					for _, ws := range [][]hwrite{o.st.heap[sx], q.st.heap[sx]} {
						for _, wr := range ws {
							if wr.ref == r {
								touched = true
							}
						}
					}
					if !touched {
						continue
					}
					a, b := x.canon(o.st, x.loadRef(o.st, r, sx)), x.canon(q.st, x.loadRef(q.st, r, sx))
					goals = append(goals, Eq(a, b))
					parts = append(parts, "state of "+r.String())
				}
			}
			for i, g := range goals {
				asm := append([]*Term{}, q.st.pc...)
				gg := g
				if d := q.st.decide(gg); d == True {
					gg = True
				}
				tr.Obls = append(tr.Obls, &Obligation{Target: name, Kind: "spec", What: fmt.Sprintf("%s is what the contract says (path %d/%d)", parts[i], oi, si), Assume: asm, Goal: gg, Pos: fn.Pos()})
			}
		}
	}
	if w.spec && tr.C != nil {
		for _, en := range tr.C.Ensures {
			var as []Val
			as = append(as, args...)
			for i := range o.res {
				as = append(as, o.res[i])
			}
			n := en.Signature.Params().Len()
			if n < len(as) {
				as = as[:n]
			}
			for i := range as {
				// the contract of an interface method, checked of an implementation
				if _, ok := en.Signature.Params().At(i).Type().Underlying().(*types.Interface); ok && i == 0 && sig.Recv() != nil {
					if _, isI := sig.Recv().Type().Underlying().(*types.Interface); !isI {
						e.noteType(typeName(sig.Recv().Type()), sig.Recv().Type())
						as[i] = Box(typeName(sig.Recv().Type()), x.term(o.st, as[i]))
					}
				}
			}
			r, why := x.pureQuiet(o.st, en, as)
			if why != "" || len(r) != 1 {
				tr.Unsupp = "postcondition " + en.Name() + ": " + why
				continue
			}
			if os.Getenv("VC_OUT") != "" {
				fmt.Println("OUT", oi, clip(fmt.Sprint(o.res)), "\n   PC", clip(fmt.Sprint(o.st.pc)), "\n   GOAL", clip(r[0].String()))
			}
			add("ensures", en.Name(), o.st.pc, r[0])
		}
	}
	if w.err && len(errIn) > 0 {
		if _, ex := e.exemptFor("error", name); !ex {
			res := False
			bad := false
			for i := 0; i < sig.Results().Len(); i++ {
				t := x.term(o.st, o.res[i])
				r := x.errOf(o.st, t, sig.Results().At(i).Type())
				if r == nil {
					bad = true
					continue
				}
				res = Or(res, r)
			}
			if bad && res == False {
				tr.Unsupp = "error of result cannot be evaluated"
			}
			for i, ei := range errIn {
				add("error", fmt.Sprintf("an erroneous input (%d) makes the result erroneous", i), o.st.pc, Implies(ei, res))
			}
		}
	}
	if w.panics {
		if e.nonNil[name] {
			var res []Val
			for i := range o.res {
				res = append(res, x.term(o.st, o.res[i]))
			}
			add("inv", "the result is not nil", o.st.pc, nonNilResult(res))
		}
		for i := range o.res {
			t := x.term(o.st, o.res[i])
			e.requireInv(x, o.st, t, sig.Results().At(i).Type(), func(what string, g *Term) { add("inv", what, o.st.pc, g) })
			if pr := e.presentOrError(x, o.st, t, sig.Results().At(i).Type()); pr != nil {
				if _, ex := e.exemptFor("absent-result", name); !ex {
					add("inv", "the result is present or carries an error", o.st.pc, pr)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- class invariants

func (e *Engine) assumeInv(x *Exec, st *State, t *Term, gt types.Type) {
	if p, ok := gt.Underlying().(*types.Pointer); ok && len(e.invs[typeName(p.Elem())]) > 0 {
		s := e.sortOf(p.Elem())
		for _, i := range e.invAt(x.loadRef(st, t, s), p.Elem()) {
			st.assume(i)
		}
	}
}

// requireInv: everything visible in a value that leaves a function satisfies its class invariant.
func (e *Engine) requireInv(x *Exec, st *State, t *Term, gt types.Type, f func(string, *Term)) {
	e.requireInvD(x, st, t, gt, f, 0, map[*Term]bool{})
}

func (e *Engine) requireInvD(x *Exec, st *State, t *Term, gt types.Type, f func(string, *Term), d int, seen map[*Term]bool) {
	if d > 12 || seen[t] || gt == nil {
		return
	}
	seen[t] = true
	switch t.Op {
	case OIte:
		e.requireInvD(x, st, t.Args[1], gt, func(s string, g *Term) { f(s, Implies(t.Args[0], g)) }, d+1, map[*Term]bool{})
		e.requireInvD(x, st, t.Args[2], gt, func(s string, g *Term) { f(s, Implies(Not(t.Args[0]), g)) }, d+1, map[*Term]bool{})
		return
	case OBox:
		return // checked where the value was put into the interface
	case OFreshRef:
		if p, ok := gt.Underlying().(*types.Pointer); ok {
			if c, ok := st.cells[t.N]; ok && c.val.Sort == e.sortOf(p.Elem()) {
				e.requireInvD(x, st, c.val, p.Elem(), f, d+1, seen)
			}
		}
		return
	}
	if p, ok := gt.Underlying().(*types.Pointer); ok {
		if len(e.invs[typeName(p.Elem())]) > 0 {
			s := e.sortOf(p.Elem())
			c := x.loadRef(st, t, s)
			if c.Op == OMk {
				for i, g := range e.invAt(c, p.Elem()) {
					f(e.invs[typeName(p.Elem())][i].Name()+" of "+typeName(gt), Implies(Not(Eq(t, Null)), g))
				}
			}
		}
		return
	}
	if t.Sort.K == SSeq {
		if sl, ok := gt.Underlying().(*types.Slice); ok {
			for _, p := range seqParts(t) {
				if p.Op == OSeqUnit {
					e.requireInvD(x, st, p.Args[0], sl.Elem(), f, d+1, seen)
				}
			}
		}
		return
	}
	if t.Op != OMk {
		return
	}
	for _, p := range e.invTemplates(gt) {
		f(p.name, Subst(p.body, map[*Term]*Term{p.v: t}))
	}
	if u, ok := gt.Underlying().(*types.Struct); ok && !e.isOpaqueNamedT(gt) {
		for i := 0; i < u.NumFields() && i < len(t.Args); i++ {
			e.requireInvD(x, st, Sel(t, i), u.Field(i).Type(), f, d+1, seen)
		}
	}
}

func ifaceMethods(t types.Type) []string {
	var out []string
	if it, ok := t.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			out = append(out, it.Method(i).Name())
		}
	}
	return out
}

// usesRec tells whether the specification function calls a recursive one.
func (e *Engine) usesRec(fn *ssa.Function) bool {
	if r, ok := e.recUsers[fn]; ok {
		return r
	}
	if e.recUsers == nil {
		e.recUsers = map[*ssa.Function]bool{}
	}
	e.recUsers[fn] = false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && g.Pkg == e.pkg && (e.recs[g] != nil || strings.HasPrefix(g.Name(), "spec") && e.usesRec(g)) {
					e.recUsers[fn] = true
				}
			}
		}
	}
	return e.recUsers[fn]
}
