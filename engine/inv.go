package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- Go types of terms

// goType is the static Go type of a term where the term's shape tells it.
func (e *Engine) goType(t *Term) types.Type {
	if g, ok := e.varGo[t]; ok {
		return g
	}
	if g, ok := e.staticIface[t]; ok {
		return g
	}
	switch t.Op {
	case OSel:
		if g, _ := t.Args[0].Sort.Go.(types.Type); g != nil {
			if st, ok := g.Underlying().(*types.Struct); ok && int(t.N) < st.NumFields() {
				return st.Field(int(t.N)).Type()
			}
		}
	case OSeqNth:
		if g := e.goType(t.Args[0]); g != nil {
			switch u := g.Underlying().(type) {
			case *types.Slice:
				return u.Elem()
			case *types.Array:
				return u.Elem()
			}
		}
	case OSeqExtract, OSeqUpdate:
		return e.goType(t.Args[0])
	case OUnbox, OBox:
		return e.typesByName[t.S]
	case OApp:
		if t.F.Rec != nil && t.F.Rec.fn.Signature.Results().Len() == 1 {
			return t.F.Rec.fn.Signature.Results().At(0).Type()
		}
	}
	if t.Sort.K == SStruct {
		if g, ok := t.Sort.Go.(types.Type); ok {
			return g
		}
	}
	return nil
}

// ---- class invariants and error flags as templates over one value

type tmpl struct {
	v    *Term
	body *Term
	name string
}

func (e *Engine) invTemplates(gt types.Type) []*tmpl {
	n := typeName(gt)
	if t, ok := e.invTmpl[n]; ok {
		return t
	}
	e.invTmpl[n] = nil
	var out []*tmpl
	for _, fn := range e.invs[n] {
		s := e.sortOf(gt)
		v := Var("inv_"+mangle(n), s)
		r, why := e.evalPure(fn, []Val{v}, nil)
		if why != "" || len(r) != 1 {
			e.invProblems = append(e.invProblems, fn.Name()+": "+why)
			continue
		}
		out = append(out, &tmpl{v, r[0], fn.Name()})
	}
	e.invTmpl[n] = out
	return out
}

func (e *Engine) invAt(t *Term, gt types.Type) []*Term {
	var out []*Term
	for _, p := range e.invTemplates(gt) {
		out = append(out, Subst(p.body, map[*Term]*Term{p.v: t}))
	}
	return out
}

// errTemplate: does a struct value carry an error, by its own GetError or err field
func (e *Engine) errTemplate(gt types.Type) *tmpl {
	n := typeName(gt)
	if t, ok := e.errTmpl[n]; ok {
		return t
	}
	e.errTmpl[n] = nil
	s := e.sortOf(gt)
	if s.K != SStruct {
		return nil
	}
	v := Var("ev_"+mangle(n), s)
	why := ""
	x := &Exec{e: e, name: "pure", quiet: 1, unsupp: &why, noContract: map[*ssa.Function]bool{}, inSpec: 1}
	r := x.errOf(NewState(), v, gt)
	if r == nil {
		return nil
	}
	t := &tmpl{v, r, ""}
	e.errTmpl[n] = t
	return t
}

func (e *Engine) errAt(t *Term, gt types.Type) *Term {
	if t.Sort == IfaceS {
		if gt != nil && isErrorType(gt) {
			return Not(IsNil(t))
		}
		return e.errOfIface(t)
	}
	if gt == nil || t.Sort.K != SStruct {
		return nil
	}
	p := e.errTemplate(gt)
	if p == nil {
		return nil
	}
	return Subst(p.body, map[*Term]*Term{p.v: t})
}

// valueAxioms: what is known of a value from its type alone.
//   - a value of a struct type satisfies its class invariant (checked wherever one is made)
//   - a list of elements holds no nil element (assumed of inputs)
//   - an interface method of an erroneous value, or with an erroneous argument, gives an
//     erroneous result (checked of every implementation)
func (e *Engine) valueAxioms(t *Term) []*Term {
	if t.hasBound || e.inInv > 0 {
		return nil
	}
	var out []*Term
	if t.Sort.K == SStruct && t.Op != OMk && t.Op != OIte && t.Sort.Go != nil {
		e.inInv++
		if g, ok := t.Sort.Go.(types.Type); ok {
			for _, i := range e.invAt(t, g) {
				if i != True {
					out = append(out, i)
				}
			}
		}
		e.inInv--
	}
	filled := t.Op != OSeqNth || !madeUp(t.Args[0])
	if filled && (t.Op == OVar || t.Op == OSeqNth) {
		if g := e.varGo[t]; g != nil || t.Op == OSeqNth {
			if g == nil {
				g = e.goType(t)
			}
			if g != nil {
				why := ""
				x := &Exec{e: e, name: "pure", quiet: 1, unsupp: &why, noContract: map[*ssa.Function]bool{}, inSpec: 1}
				if p := e.presentOrError(x, NewState(), t, g); p != nil {
					out = append(out, p)
				}
			}
		}
	}
	if filled && t.Op == OSeqNth && t.Sort == IfaceS {
		if g := e.goType(t); g != nil && !emptyIface(g) && !isErrorType(g) {
			if it, ok := g.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				out = append(out, Implies(And(Le(IntC(0), t.Args[1]), Lt(t.Args[1], SeqLen(t.Args[0]))), Not(IsNil(t))))
			}
		}
	}
	if t.Op == OApp && t.F.Method != "" && strings.HasPrefix(t.F.Name, "m_") {
		e.inInv++
		out = append(out, e.methodFacts(t)...)
		e.inInv--
	}
	if t.Op == OApp && t.F.Method != "" && strings.HasPrefix(t.F.Name, "m_") && (!pureMethods[t.F.Method] || t.F.Method == "GetRequiredSymbolicName" || t.F.Method == "GetSymbolicName") {
		if _, ex := e.exempt["error"]["*."+t.F.Method]; !ex {
			gt := e.goType(t)
			e.inInv++
			if gt != nil && e.errCapable(gt) {
				if r := e.errAt(t, gt); r != nil {
					bad := e.errOfIface(t.Args[0])
					for _, a := range t.Args[1:] {
						if a.Sort == IfaceS || a.Sort.K == SStruct {
							if r := e.errAt(a, e.goType(a)); r != nil {
								bad = Or(bad, r)
							}
						}
					}
					out = append(out, Implies(bad, r))
				}
			}
			e.inInv--
		}
	}
	return out
}

// ifaceTemplate is the postcondition of an interface method over variables
// that stand for the receiver, the arguments and the result.
type ifaceTemplate struct {
	vars []*Term
	body *Term
}

// methodFacts: what the contracts of interface methods say of one call.
func (e *Engine) methodFacts(t *Term) []*Term {
	fns := e.ifaceEns[t.F.Method]
	if len(fns) == 0 {
		return nil
	}
	key := t.F.Name
	ts, ok := e.ifaceTmpl[key]
	if !ok {
		e.ifaceTmpl[key] = nil
		for _, fn := range fns {
			ps := fn.Signature.Params()
			if ps.Len() < len(t.Args)+1 {
				continue
			}
			var sorts []*Sort
			for i := 0; i < ps.Len(); i++ {
				sorts = append(sorts, e.sortOf(ps.At(i).Type()))
			}
			if methodUF(t.F.Method, 0, t.Sort, sorts[1:len(t.Args)]) != t.F.Name {
				continue // facts are stated with the first result
			}
			var vs []*Term
			var as []Val
			fits := true
			for i := 0; i < ps.Len(); i++ {
				s := sorts[i]
				want := s
				if i < len(t.Args) {
					want = t.Args[i].Sort
				} else if i == len(t.Args) {
					want = t.Sort
				}
				if s != want {
					fits = false
					break
				}
				v := Var("mf_"+mangle(fn.Name())+"_"+ps.At(i).Name(), s)
				vs = append(vs, v)
				as = append(as, v)
			}
			if !fits {
				continue
			}
			r, why := e.evalPure(fn, as, nil)
			if why != "" || len(r) != 1 {
				e.invProblems = append(e.invProblems, fn.Name()+": "+why)
				continue
			}
			ts = append(ts, &ifaceTemplate{vs, r[0]})
		}
		e.ifaceTmpl[key] = ts
	}
	var out []*Term
	for _, p := range ts {
		m := map[*Term]*Term{}
		for i, v := range p.vars {
			if i < len(t.Args) {
				m[v] = t.Args[i]
			} else if i == len(t.Args) {
				m[v] = t
			} else {
				var as []*Sort
				for _, a := range t.Args {
					as = append(as, a.Sort)
				}
				f := UF(methodUF(t.F.Method, i-len(t.Args), v.Sort, as[1:]), v.Sort, as...)
				f.Method = t.F.Method
				m[v] = App(f, t.Args...)
			}
		}
		out = append(out, Implies(Not(IsNil(t.Args[0])), Subst(p.body, m)))
	}
	return out
}

// implicitPre is the precondition of accept, enter and leave of an element:
// it carries no error and, unless absent values of the type are rendered, is present.
func (e *Engine) implicitPre(fn *ssa.Function, recv *Term) *Term {
	if !isVisitMethod(fn) {
		return nil
	}
	return e.acceptable(fn.Signature.Recv().Type(), recv)
}

func isVisitMethod(fn *ssa.Function) bool {
	n := fn.Name()
	if n != "accept" && n != "enter" && n != "leave" || fn.Signature.Recv() == nil {
		return false
	}
	return fn.Signature.Params().Len() == 1 && typeName(fn.Signature.Params().At(0).Type()) == "*CypherRenderer"
}

func (e *Engine) acceptable(gt types.Type, v *Term) *Term {
	st, ok := gt.Underlying().(*types.Struct)
	if !ok || v.Sort.K != SStruct {
		return nil
	}
	r := True
	for i := 0; i < st.NumFields(); i++ {
		switch {
		case st.Field(i).Name() == "err" && isErrorType(st.Field(i).Type()):
			r = And(r, IsNil(Sel(v, i)))
		case st.Field(i).Name() == "notNil" && v.Sort.Fields[i] == Bool:
			if _, ok := e.exempt["absent"][typeName(gt)]; !ok {
				r = And(r, Sel(v, i))
			}
		}
	}
	return r
}

// presentOrError: a value the package hands out is present, or carries an error.
func (e *Engine) presentOrError(x *Exec, st *State, t *Term, gt types.Type) *Term {
	if e.inInv > 0 || isErrorType(gt) || emptyIface(gt) {
		return nil
	}
	switch gt.Underlying().(type) {
	case *types.Struct, *types.Interface:
	default:
		return nil
	}
	m := e.methodOn(gt, "isNotNil")
	if m == nil {
		if it, ok := gt.Underlying().(*types.Interface); !ok || !hasMethod(it, "isNotNil") || !hasMethod(it, "GetError") {
			return nil
		}
	} else if _, ok := gt.Underlying().(*types.Struct); ok && e.methodOn(gt, "GetError") == nil {
		return nil
	}
	er := x.errOf(st, t, gt)
	pr := e.presentOf(x, st, t, gt)
	if er == nil || pr == nil {
		return nil
	}
	r := Or(er, pr)
	if t.Sort == IfaceS {
		r = Or(IsNil(t), r)
	}
	return r
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func (e *Engine) presentOf(x *Exec, st *State, t *Term, gt types.Type) *Term {
	if t.Sort == IfaceS {
		switch t.Op {
		case ONil:
			return True
		case OIte:
			a, b := e.presentOf(x, st, t.Args[1], gt), e.presentOf(x, st, t.Args[2], gt)
			if a == nil || b == nil {
				return nil
			}
			return Ite(t.Args[0], a, b)
		case OBox:
			if g := e.typesByName[t.S]; g != nil {
				return e.presentOf(x, st, t.Args[0], g)
			}
			return nil
		}
		f := UF("m_isNotNil_"+mangle(Bool.key()), Bool, IfaceS)
		f.Method = "isNotNil"
		return App(f, t)
	}
	m := e.methodOn(gt, "isNotNil")
	if m == nil {
		return nil
	}
	r, why := x.pureQuiet(st, m, []Val{x.rich(st, t)})
	if why != "" || len(r) != 1 {
		return nil
	}
	return r[0]
}
