package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Val interface{}

type pathElem struct {
	field int
	idx   *Term // array / slice index when non-nil
}

// Addr is a pointer value: a base object and a path into it.
type Addr struct {
	base *Term // Ref term; nil for a read-only snapshot
	snap *Term // snapshot value (pointer into a foreign slice)
	root types.Type
	path []pathElem
}

// SliceCell is a slice that covers the whole of an array object created here.
type SliceCell struct {
	base *Term
	elem types.Type
	n    *Term // nil: whole
}

type Tuple []Val

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type StrIter struct {
	s   *Term
	pos *Term
}
type MapIter struct{ m *Term }

// Opq is a value outside the modelled fragment.
type Opq struct{ why string }

// ---------------------------------------------------------------- state

type cell struct {
	val    *Term
	frozen bool // aliased by a slice value stored elsewhere
}

type hwrite struct {
	ref *Term
	val *Term
}

type State struct {
	pc     []*Term
	pcset  map[*Term]bool
	tags   map[*Term]string
	cells  map[int64]cell
	heap   map[*Sort][]hwrite
	owned  map[*Term]bool
	vmap   map[*Term]Val // ref terms stored in memory -> rich pointer values
	fns    map[*Term]*Closure
	writes []*Term // foreign refs written (in order)
	trace  []string
}

func NewState() *State {
	return &State{pcset: map[*Term]bool{}, tags: map[*Term]string{}, cells: map[int64]cell{}, heap: map[*Sort][]hwrite{}, owned: map[*Term]bool{}, vmap: map[*Term]Val{}, fns: map[*Term]*Closure{}}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], pcset: make(map[*Term]bool, len(s.pcset)+4), tags: make(map[*Term]string, len(s.tags)+2),
		cells: make(map[int64]cell, len(s.cells)), heap: make(map[*Sort][]hwrite, len(s.heap)), owned: make(map[*Term]bool, len(s.owned)),
		vmap: s.vmap, fns: s.fns, writes: s.writes[:len(s.writes):len(s.writes)], trace: s.trace[:len(s.trace):len(s.trace)]}
	for k, v := range s.pcset {
		n.pcset[k] = v
	}
	for k, v := range s.tags {
		n.tags[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v[:len(v):len(v)]
	}
	for k, v := range s.owned {
		n.owned[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True || s.pcset[t] {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if t.Op == OOr { // unit propagation
		var keep []*Term
		for _, a := range t.Args {
			d := s.decide(a)
			if d == True {
				return
			}
			if d != False {
				keep = append(keep, a)
			}
		}
		if len(keep) < len(t.Args) {
			if len(keep) == 0 {
				s.pc = append(s.pc, False)
				s.pcset[False] = true
				return
			}
			s.assume(Or(keep...))
			return
		}
	}
	s.pcset[t] = true
	s.pc = append(s.pc, t)
	if t.Op == OEq {
		a, b := t.Args[0], t.Args[1]
		if a.Op == OTag && b.Op == OIntC {
			s.tags[a.Args[0]] = tagNames[b.N]
		} else if b.Op == OTag && a.Op == OIntC {
			s.tags[b.Args[0]] = tagNames[a.N]
		}
		if a.Op == ONil {
			s.tags[b] = "<nil>"
		} else if b.Op == ONil {
			s.tags[a] = "<nil>"
		}
	}
}

// decide evaluates a condition under the path condition; nil when unknown.
func (s *State) decide(t *Term) *Term {
	switch t {
	case True, False:
		return t
	}
	if s.pcset[t] {
		return True
	}
	if s.pcset[False] {
		return True
	}
	n := Not(t)
	if s.pcset[n] {
		return False
	}
	switch t.Op {
	case OAnd:
		all := true
		for _, a := range t.Args {
			d := s.decide(a)
			if d == False {
				return False
			}
			if d != True {
				all = false
			}
		}
		if all {
			return True
		}
	case OOr:
		all := true
		for _, a := range t.Args {
			d := s.decide(a)
			if d == True {
				return True
			}
			if d != False {
				all = false
			}
		}
		if all {
			return False
		}
	case ONot:
		d := s.decide(t.Args[0])
		if d == True {
			return False
		}
		if d == False {
			return True
		}
	case OEq:
		a, b := t.Args[0], t.Args[1]
		if b.Op == OTag {
			a, b = b, a
		}
		if a.Op == OTag && b.Op == OIntC {
			x := a.Args[0]
			if tn, ok := s.tags[x]; ok {
				return BoolT(tn == tagNames[b.N])
			}
			if b.N > 0 && s.pcset[IsNil(x)] {
				return False
			}
			if b.N == 0 {
				return s.decide(IsNil(x))
			}
		}
		if b.Op == ONil {
			a, b = b, a
		}
		if a.Op == ONil {
			if tn, ok := s.tags[b]; ok {
				return BoolT(tn == "<nil>")
			}
		}
		if a.Sort == Int {
			// equality with another known constant
			if a.Op == OIntC || b.Op == OIntC {
				x, c := a, b
				if x.Op == OIntC {
					x, c = c, x
				}
				for _, p := range s.pc {
					if p.Op == OEq && (p.Args[0] == x && p.Args[1].Op == OIntC && p.Args[1] != c || p.Args[1] == x && p.Args[0].Op == OIntC && p.Args[0] != c) {
						return False
					}
				}
			}
		}
		if a.Sort == Str && (a.Op == OStrC || b.Op == OStrC) {
			x, c := a, b
			if x.Op == OStrC {
				x, c = c, x
			}
			for _, p := range s.pc {
				if p.Op == OEq && (p.Args[0] == x && p.Args[1].Op == OStrC && p.Args[1] != c || p.Args[1] == x && p.Args[0].Op == OStrC && p.Args[0] != c) {
					return False
				}
			}
		}
	case OLe0:
		// facts of the form c1 <= 0 with the same linear part
		ts, cs, k := linOf(t.Args[0])
		for _, p := range s.pc {
			var l *Term
			if p.Op == OLe0 {
				l = p.Args[0]
			} else if p.Op == OEq && p.Args[0].Sort == Int {
				d := Sub(p.Args[0], p.Args[1])
				// two inequalities
				for _, dd := range []*Term{d, Scale(d, -1)} {
					df := Sub(t.Args[0], dd)
					if df.Op == OIntC && df.N <= 0 {
						return True
					}
					sm := Add(t.Args[0], dd)
					if sm.Op == OIntC && sm.N > 0 {
						return False
					}
				}
				continue
			} else {
				continue
			}
			d := Sub(t.Args[0], l)
			if d.Op == OIntC && d.N <= 0 { // t <= l <= 0
				return True
			}
			sum := Add(t.Args[0], l)
			if sum.Op == OIntC && sum.N > 0 { // t = c - l >= c > 0
				return False
			}
		}
		_ = ts
		_ = cs
		_ = k
	}
	return nil
}

// ---------------------------------------------------------------- sorts of Go types

func (e *Engine) isOpaqueNamed(n *types.Named) bool {
	p := n.Obj().Pkg()
	return p != nil && p != e.tpkg
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == modPath {
			return ""
		}
		return p.Path()
	})
}

func (e *Engine) sortOf(t types.Type) *Sort {
	if s, ok := e.sortCache[t]; ok {
		return s
	}
	s := e.sortOf1(t)
	e.sortCache[t] = s
	return s
}

func (e *Engine) sortOf1(t types.Type) *Sort {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Named:
		if st, ok := u.Underlying().(*types.Struct); ok {
			name := typeName(u)
			if name == "strings.Builder" {
				return e.builderSort()
			}
			if e.isOpaqueNamed(u) {
				return opaque(name)
			}
			return e.structSort(mangle(name), st, u)
		}
		if e.isOpaqueNamed(u) {
			switch u.Underlying().(type) {
			case *types.Interface:
				return IfaceS
			case *types.Basic:
				return e.sortOf(u.Underlying())
			}
			return opaque(typeName(u))
		}
		return e.sortOf(u.Underlying())
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool
		case u.Info()&types.IsInteger != 0:
			return Int
		case u.Info()&types.IsString != 0:
			return Str
		case u.Kind() == types.UntypedNil:
			return IfaceS
		case u.Kind() == types.UnsafePointer:
			return RefS
		}
		return opaque(u.Name())
	case *types.Struct:
		return e.structSort("anon_"+mangle(typeName(t)), u, t)
	case *types.Pointer:
		return RefS
	case *types.Interface:
		return IfaceS
	case *types.Slice:
		return seqOf(e.sortOf(u.Elem()))
	case *types.Array:
		return seqOf(e.sortOf(u.Elem()))
	case *types.Map:
		return RefS
	case *types.Signature:
		return opaque("func")
	case *types.Chan:
		return opaque("chan")
	case *types.Tuple:
		return opaque("tuple")
	}
	return opaque(typeName(t))
}

func (e *Engine) builderSort() *Sort {
	return mkSort(&Sort{K: SStruct, Name: "strings_Builder", Fields: []*Sort{Str}, FNames: []string{"s"}})
}

func (e *Engine) structSort(name string, st *types.Struct, t types.Type) *Sort {
	if s, ok := sorts["S_"+name]; ok {
		return s
	}
	s := mkSort(&Sort{K: SStruct, Name: name, Go: t})
	for i := 0; i < st.NumFields(); i++ {
		s.Fields = append(s.Fields, e.sortOf(st.Field(i).Type()))
		s.FNames = append(s.FNames, st.Field(i).Name())
	}
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) mapSort(t types.Type) *Sort {
	m := t.Underlying().(*types.Map)
	return mapOf(e.sortOf(m.Key()), e.sortOf(m.Elem()))
}

// ---------------------------------------------------------------- conversion

// term converts a value to a first-order term. Slices over objects created in
// this execution are read out; the object is frozen (a later write is reported).
func (x *Exec) term(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case Addr:
		if v.base != nil && len(v.path) == 0 {
			return v.base
		}
		// pointer into the middle of something: identified by a reference term
		r := FreshRef("interior")
		st.vmap[r] = v
		return r
	case SliceCell:
		c := st.cells[v.base.N]
		c.frozen = true
		st.cells[v.base.N] = c
		st.owned[c.val] = true
		return c.val
	case *Closure:
		name := "fn_" + v.fn.String()
		if len(v.bind) > 0 {
			freshCtr++
			name += "#" + strconv.Itoa(freshCtr)
		}
		t := Var(name, opaque("func"))
		st.fns[t] = v
		return t
	case Opq:
		x.unsupported(st, v.why)
		return Fresh("opq", IfaceS)
	}
	x.unsupported(st, fmt.Sprintf("value %T as term", v))
	return Fresh("opq", IfaceS)
}

func (x *Exec) termAs(st *State, v Val, s *Sort) *Term {
	t := x.term(st, v)
	if t.Sort != s {
		x.unsupported(st, fmt.Sprintf("sort %v where %v expected", t.Sort, s))
		return Fresh("opq", s)
	}
	return t
}

// peek reads a value as a term without freezing anything.
func (x *Exec) peek(st *State, v Val) *Term {
	if c, ok := v.(SliceCell); ok {
		return st.cells[c.base.N].val
	}
	return x.term(st, v)
}

// ---------------------------------------------------------------- memory

func (x *Exec) heap0(s *Sort, ref *Term) *Term {
	return App(UF("heap0_"+mangle(s.key()), s, RefS), ref)
}

// content of object ref of sort s
func (x *Exec) loadRef(st *State, ref *Term, s *Sort) *Term {
	if ref.Op == OFreshRef {
		c, ok := st.cells[ref.N]
		if !ok {
			x.unsupported(st, "load of unknown object")
			return Fresh("opq", s)
		}
		if c.val.Sort != s {
			x.unsupported(st, fmt.Sprintf("load sort %v from object of sort %v", s, c.val.Sort))
			return Fresh("opq", s)
		}
		return c.val
	}
	if ref.Op == OIte {
		return Ite(ref.Args[0], x.loadRef(st, ref.Args[1], s), x.loadRef(st, ref.Args[2], s))
	}
	ws := st.heap[s]
	var r *Term = x.heap0(s, ref)
	for _, w := range ws {
		r = Ite(Eq(w.ref, ref), w.val, r)
	}
	return r
}

func (x *Exec) storeRef(st *State, ref *Term, v *Term) {
	if ref.Op == OFreshRef {
		c := st.cells[ref.N]
		if c.frozen && c.val.Sort.K == SSeq && c.val != v {
			x.unsupported(st, "write to an array whose slice was stored elsewhere")
		}
		c.val = v
		st.cells[ref.N] = c
		return
	}
	if ref.Op == OIte {
		a, b := x.loadRef(st, ref.Args[1], v.Sort), x.loadRef(st, ref.Args[2], v.Sort)
		x.storeRef(st, ref.Args[1], Ite(ref.Args[0], v, a))
		x.storeRef(st, ref.Args[2], Ite(ref.Args[0], b, v))
		return
	}
	st.writes = append(st.writes, ref)
	ws := st.heap[v.Sort]
	var out []hwrite
	for _, w := range ws {
		if w.ref != ref {
			out = append(out, w)
		}
	}
	st.heap[v.Sort] = append(out, hwrite{ref, v})
}

func (x *Exec) alloc(st *State, tn string, v *Term) *Term {
	r := FreshRef(tn)
	st.cells[r.N] = cell{val: v}
	return r
}

func project(t *Term, p []pathElem) *Term {
	for _, e := range p {
		if e.idx != nil {
			t = SeqNth(t, e.idx)
		} else {
			t = Sel(t, e.field)
		}
	}
	return t
}

func inject(t *Term, p []pathElem, v *Term) *Term {
	if len(p) == 0 {
		return v
	}
	e := p[0]
	if e.idx != nil {
		return SeqUpdate(t, e.idx, inject(SeqNth(t, e.idx), p[1:], v))
	}
	return Upd(t, e.field, inject(Sel(t, e.field), p[1:], v))
}

func (x *Exec) rootSort(a Addr) *Sort {
	if a.base != nil && a.base.Op == OFreshRef {
		if c, ok := x.curCells[a.base.N]; ok {
			return c
		}
	}
	return x.e.sortOf(a.root)
}

func (x *Exec) asAddr(st *State, v Val, pt types.Type) Addr {
	switch v := v.(type) {
	case Addr:
		return v
	case *Term:
		if rv, ok := st.vmap[v]; ok {
			if a, ok := rv.(Addr); ok {
				return a
			}
		}
		return Addr{base: v, root: deref(pt)}
	}
	x.unsupported(st, fmt.Sprintf("address from %T", v))
	return Addr{base: Fresh("opq", RefS), root: deref(pt)}
}

func (x *Exec) load(st *State, a Addr, elem types.Type) Val {
	if a.snap != nil {
		return project(a.snap, a.path)
	}
	s := x.e.sortOf(a.root)
	if a.base.Op == OFreshRef {
		if c, ok := st.cells[a.base.N]; ok {
			s = c.val.Sort
		}
	}
	t := project(x.loadRef(st, a.base, s), a.path)
	if t.Sort == RefS {
		if rv, ok := st.vmap[t]; ok {
			return rv
		}
	}
	if t.Sort.K == SOpaque && t.Sort.Name == "func" {
		if c, ok := st.fns[t]; ok {
			return c
		}
	}
	return t
}

func (x *Exec) store(st *State, a Addr, v *Term, pos token.Pos) {
	if a.snap != nil {
		x.oblig(st, "frame", "write to an element of a list owned by somebody else", False, pos)
		return
	}
	s := x.e.sortOf(a.root)
	if a.base.Op == OFreshRef {
		if c, ok := st.cells[a.base.N]; ok {
			s = c.val.Sort
		}
	} else {
		x.frameWrite(st, a.base, a.root, pos)
	}
	cur := x.loadRef(st, a.base, s)
	if len(a.path) == 0 && v.Sort != cur.Sort {
		x.unsupported(st, "store sort")
		return
	}
	x.storeRef(st, a.base, inject(cur, a.path, v))
}

// ---------------------------------------------------------------- execution

type Outcome struct {
	st  *State
	res []Val
}

// Exec is one symbolic execution (of code or of a specification).
type Exec struct {
	e            *Engine
	target       *ssa.Function
	name         string
	quiet        int // >0: obligations are not recorded (specifications, dry runs)
	obls         *[]*Obligation
	opaque       map[string]bool
	use          map[string]bool // see Contract.Use
	generic      bool            // no postcondition is being checked
	assuming     bool            // a postcondition is being assumed of a callee
	pool         *[]*Term        // template pool: specification terms to build loop invariants from
	stack        []*ssa.Function
	curCells     map[int64]*Sort
	modAllow     func(root types.Type) bool
	steps        int
	paths        int
	qdepth       int
	unsupp       *string
	loopMode     *loopRun
	noContract   map[*ssa.Function]bool
	ignorePanics bool
	loopCache    map[string]*loopSummary
	inSpec       int
}

type errUnsupported struct{ why string }

func (x *Exec) unsupported(st *State, why string) {
	if x.unsupp != nil && *x.unsupp == "" {
		*x.unsupp = why
	}
}

func (x *Exec) oblig(st *State, kind, what string, goal *Term, pos token.Pos) {
	if x.quiet > 0 {
		return
	}
	if d := st.decide(goal); d != nil {
		goal = d
	}
	o := &Obligation{Target: x.name, Kind: kind, What: what, Assume: append([]*Term{}, st.pc...), Goal: goal, Pos: pos, Trace: st.trace}
	*x.obls = append(*x.obls, o)
}

// need emits an obligation that cond holds here and then assumes it.
func (x *Exec) need(st *State, what string, cond *Term, pos token.Pos) {
	if !x.ignorePanics {
		x.oblig(st, "panic", what, cond, pos)
	}
	st.assume(cond)
}

func (x *Exec) frameWrite(st *State, base *Term, root types.Type, pos token.Pos) {
	if x.modAllow != nil && x.modAllow(root) {
		return
	}
	x.oblig(st, "frame", "write to a "+typeName(root)+" that existed before the call", False, pos)
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	bind     []Val
	info     *fnInfo
	unrolled map[*ssa.BasicBlock]int
	inLoop   map[*ssa.BasicBlock]*loopRun // loops currently executed by invariant
	mode     int
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.unrolled = map[*ssa.BasicBlock]int{}
	for k, v := range f.unrolled {
		n.unrolled[k] = v
	}
	n.inLoop = map[*ssa.BasicBlock]*loopRun{}
	for k, v := range f.inLoop {
		n.inLoop[k] = v
	}
	return &n
}

type Kont func(st *State, res []Val)

type fnInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

func (e *Engine) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	info := &fnInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				body := info.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					info.headers[s] = body
				}
				var work []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range c.Preds {
						if !body[p] {
							body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	e.infos[fn] = info
	return info
}

const maxDepth = 60
const maxSteps = 600000

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, k Kont) {
	if len(fn.Blocks) == 0 {
		x.unsupported(st, "no body: "+fn.String())
		k(st, x.havocResults(st, fn.Signature, "nobody"))
		return
	}
	cnt := 0
	for _, f := range x.stack {
		if f == fn {
			cnt++
		}
	}
	if cnt >= 3 || len(x.stack) > maxDepth {
		x.oblig(st, "panic", "unbounded recursion of "+e_fname(fn), False, fn.Pos())
		return
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, bind: bind, info: x.e.fnInfo(fn), unrolled: map[*ssa.BasicBlock]int{}, inLoop: map[*ssa.BasicBlock]*loopRun{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	old := x.stack
	x.stack = append(old[:len(old):len(old)], fn)
	x.block(st, fr, fn.Blocks[0], nil, func(st *State, res []Val) {
		save := x.stack
		x.stack = old
		k(st, res)
		x.stack = save
	})
	x.stack = old
}

func e_fname(fn *ssa.Function) string { return shortName(fn) }

func (x *Exec) havocResults(st *State, sig *types.Signature, tag string) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, Fresh(tag, x.e.sortOf(sig.Results().At(i).Type())))
	}
	return out
}

func (x *Exec) block(st *State, fr *Frame, b, prev *ssa.BasicBlock, k Kont) {
	if prev != nil && len(fr.inLoop) > 0 {
		for h, run := range fr.inLoop {
			if run.body[prev] && !run.body[b] {
				nf := fr.clone()
				delete(nf.inLoop, h)
				st, fr = x.leaveLoop(st, nf, run)
				if st.pcset[False] {
					return
				}
			}
		}
	}
	if body, isH := fr.info.headers[b]; isH {
		if x.enterHeader(st, fr, b, prev, body, k) {
			return
		}
	}
	x.blockBody(st, fr, b, prev, k)
}

func (x *Exec) evalPhis(st *State, fr *Frame, b, prev *ssa.BasicBlock) []Val {
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
			break
		}
	}
	var vals []Val
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.value(st, fr, phi.Edges[idx]))
	}
	return vals
}

func (x *Exec) setPhis(fr *Frame, b *ssa.BasicBlock, vals []Val) {
	for i, v := range vals {
		fr.env[b.Instrs[i].(*ssa.Phi)] = v
	}
}

func (x *Exec) blockBody(st *State, fr *Frame, b, prev *ssa.BasicBlock, k Kont) {
	i := 0
	if prev != nil {
		vals := x.evalPhis(st, fr, b, prev)
		x.setPhis(fr, b, vals)
		i = len(vals)
	} else {
		for i < len(b.Instrs) {
			if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
				break
			}
			i++
		}
	}
	x.instrs(st, fr, b, i, k)
}

func (x *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int, k Kont) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > maxSteps {
			x.unsupported(st, "too many steps")
			return
		}
		if st.pcset[False] {
			return
		}
		ins := b.Instrs[i]
		switch ins := ins.(type) {
		case *ssa.Jump:
			x.block(st, fr, b.Succs[0], b, k)
			return
		case *ssa.If:
			c := x.termAs(st, x.value(st, fr, ins.Cond), Bool)
			x.branch(st, c, func(st *State, t bool) {
				nfr := fr.clone()
				if t {
					x.block(st, nfr, b.Succs[0], b, k)
				} else {
					x.block(st, nfr, b.Succs[1], b, k)
				}
			})
			return
		case *ssa.Return:
			var res []Val
			for _, r := range ins.Results {
				res = append(res, x.value(st, fr, r))
			}
			x.paths++
			k(st, res)
			return
		case *ssa.Panic:
			x.need(st, "explicit panic", False, ins.Pos())
			return
		case *ssa.Call:
			nxt := i + 1
			first := true
			_ = first
			x.call(st, fr, ins, func(st2 *State, res []Val) {
				nfr := fr.clone()
				switch len(res) {
				case 0:
				case 1:
					nfr.env[ins] = res[0]
				default:
					nfr.env[ins] = Tuple(res)
				}
				x.instrs(st2, nfr, b, nxt, k)
			})
			return
		case *ssa.TypeAssert:
			nxt := i + 1
			x.typeAssert(st, fr, ins, func(st2 *State, v Val) {
				nfr := fr.clone()
				nfr.env[ins] = v
				x.instrs(st2, nfr, b, nxt, k)
			})
			return
		case *ssa.Next:
			nxt := i + 1
			x.next(st, fr, ins, func(st2 *State, v Val) {
				nfr := fr.clone()
				nfr.env[ins] = v
				x.instrs(st2, nfr, b, nxt, k)
			})
			return
		case *ssa.Store:
			a := x.asAddr(st, x.value(st, fr, ins.Addr), ins.Addr.Type())
			x.nilCheck(st, a, ins.Pos())
			v := x.value(st, fr, ins.Val)
			t := x.term(st, v)
			x.store(st, a, t, ins.Pos())
		case *ssa.MapUpdate:
			x.mapUpdate(st, fr, ins)
		case *ssa.DebugRef:
		case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.RunDefers:
			x.unsupported(st, fmt.Sprintf("%T", ins))
			return
		default:
			v, ok := ins.(ssa.Value)
			if !ok {
				x.unsupported(st, fmt.Sprintf("%T", ins))
				return
			}
			fr.env[v] = x.eval(st, fr, v)
		}
	}
}

func (x *Exec) branch(st *State, c *Term, f func(st *State, t bool)) {
	if d := st.decide(c); d != nil {
		f(st, d == True)
		return
	}
	s2 := st.clone()
	s2.assume(c)
	if !s2.pcset[False] {
		f(s2, true)
	}
	s3 := st.clone()
	s3.assume(Not(c))
	if !s3.pcset[False] {
		f(s3, false)
	}
}

func (x *Exec) nilCheck(st *State, a Addr, pos token.Pos) {
	if a.snap != nil || a.base == nil || a.base.Op == OFreshRef {
		return
	}
	x.need(st, "nil pointer dereference", Not(Eq(a.base, Null)), pos)
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	s := x.e.sortOf(t)
	if c.Value == nil {
		return ZeroTerm(s)
	}
	switch s.K {
	case SBool:
		return BoolT(constant.BoolVal(c.Value))
	case SInt:
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return IntC(v)
		}
		return Var("bigint_"+mangle(c.Value.ExactString()), Int)
	case SStr:
		return StrC(constant.StringVal(c.Value))
	}
	return Var("const_"+mangle(c.Value.ExactString()), s)
}

func (x *Exec) value(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return x.e.globalAddr(v)
	case *ssa.Builtin:
		return v
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	x.unsupported(st, fmt.Sprintf("unbound value %s in %s", v.Name(), fr.fn.Name()))
	return Fresh("unbound", x.e.sortOf(v.Type()))
}

func (x *Exec) eval(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Alloc:
		el := deref(v.Type())
		if at, ok := el.Underlying().(*types.Array); ok {
			r := x.alloc(st, typeName(el), Zeros(x.e.sortOf(at.Elem()), IntC(at.Len())))
			return Addr{base: r, root: el}
		}
		r := x.alloc(st, typeName(el), ZeroTerm(x.e.sortOf(el)))
		return Addr{base: r, root: el}
	case *ssa.BinOp:
		return x.binop(st, fr, v)
	case *ssa.UnOp:
		o := x.value(st, fr, v.X)
		switch v.Op {
		case token.MUL:
			a := x.asAddr(st, o, v.X.Type())
			x.nilCheck(st, a, v.Pos())
			return x.load(st, a, v.Type())
		case token.NOT:
			return Not(x.termAs(st, o, Bool))
		case token.SUB:
			t := x.term(st, o)
			if t.Sort == Int {
				return Scale(t, -1)
			}
			return App(UF("neg_"+t.Sort.key(), t.Sort, t.Sort), t)
		}
		x.unsupported(st, "unop "+v.Op.String())
		return Fresh("opq", x.e.sortOf(v.Type()))
	case *ssa.ChangeInterface:
		return x.value(st, fr, v.X)
	case *ssa.ChangeType:
		return x.value(st, fr, v.X)
	case *ssa.Convert:
		return x.convert(st, fr, v)
	case *ssa.MakeInterface:
		o := x.value(st, fr, v.X)
		tn := typeName(v.X.Type())
		x.e.noteType(tn, v.X.Type())
		if _, ok := v.X.Type().Underlying().(*types.Interface); ok {
			return o
		}
		if tn == "error" {
			return o
		}
		bt := x.term(st, o)
		if x.quiet == 0 && !bt.hasBound {
			x.e.requireInv(x, st, bt, v.X.Type(), func(what string, g *Term) { x.oblig(st, "inv", what, g, v.Pos()) })
		}
		return Box(tn, bt)
	case *ssa.Extract:
		t := x.value(st, fr, v.Tuple)
		if tp, ok := t.(Tuple); ok {
			return tp[v.Index]
		}
		x.unsupported(st, "extract")
		return Fresh("opq", x.e.sortOf(v.Type()))
	case *ssa.Field:
		t := x.term(st, x.value(st, fr, v.X))
		return x.rich(st, Sel(t, v.Field))
	case *ssa.FieldAddr:
		a := x.asAddr(st, x.value(st, fr, v.X), v.X.Type())
		x.nilCheck(st, a, v.Pos())
		a.path = append(append([]pathElem{}, a.path...), pathElem{field: v.Field})
		return a
	case *ssa.Index:
		o := x.value(st, fr, v.X)
		i := x.termAs(st, x.value(st, fr, v.Index), Int)
		t := x.peek(st, o)
		if t.Sort == Str {
			x.need(st, "string index in range", And(Le(IntC(0), i), Lt(i, StrLen(t))), v.Pos())
			return x.e.strAt(t, i)
		}
		x.need(st, "index in range", And(Le(IntC(0), i), Lt(i, SeqLen(t))), v.Pos())
		return x.rich(st, SeqNth(t, i))
	case *ssa.IndexAddr:
		o := x.value(st, fr, v.X)
		i := x.termAs(st, x.value(st, fr, v.Index), Int)
		switch o := o.(type) {
		case SliceCell:
			n := SeqLen(st.cells[o.base.N].val)
			x.need(st, "index in range", And(Le(IntC(0), i), Lt(i, n)), v.Pos())
			return Addr{base: o.base, root: types.NewArray(o.elem, 0), path: []pathElem{{idx: i}}}
		case Addr:
			// pointer to array
			a := o
			if at, ok := deref(v.X.Type()).Underlying().(*types.Array); ok {
				x.need(st, "index in range", And(Le(IntC(0), i), Lt(i, IntC(at.Len()))), v.Pos())
			}
			a.path = append(append([]pathElem{}, a.path...), pathElem{idx: i})
			return a
		case *Term:
			if o.Sort.K == SSeq {
				x.need(st, "index in range", And(Le(IntC(0), i), Lt(i, SeqLen(o))), v.Pos())
				return Addr{snap: o, root: v.X.Type(), path: []pathElem{{idx: i}}}
			}
		}
		x.unsupported(st, fmt.Sprintf("indexaddr on %T", o))
		return Addr{snap: Fresh("opq", x.e.sortOf(deref(v.Type()))), root: deref(v.Type())}
	case *ssa.Lookup:
		o := x.value(st, fr, v.X)
		if _, ok := v.X.Type().Underlying().(*types.Map); !ok {
			t := x.term(st, o)
			i := x.termAs(st, x.value(st, fr, v.Index), Int)
			x.need(st, "string index in range", And(Le(IntC(0), i), Lt(i, StrLen(t))), v.Pos())
			return x.e.strAt(t, i)
		}
		m := x.mapContent(st, o, v.X.Type())
		kk := x.term(st, x.value(st, fr, v.Index))
		opt := Select(m, kk)
		zero := ZeroTerm(m.Sort.Elem)
		val := Ite(IsSome(opt), OptVal(opt), zero)
		if v.CommaOk {
			return Tuple{x.rich(st, val), IsSome(opt)}
		}
		return x.rich(st, val)
	case *ssa.MakeSlice:
		n := x.termAs(st, x.value(st, fr, v.Len), Int)
		el := v.Type().Underlying().(*types.Slice).Elem()
		x.need(st, "make with non-negative length", Le(IntC(0), n), v.Pos())
		es := x.e.sortOf(el)
		if n.Op == OIntC && n.N == 0 {
			return SeqEmpty(es)
		}
		r := x.alloc(st, "[]"+typeName(el), Zeros(es, n))
		return SliceCell{base: r, elem: el}
	case *ssa.MakeMap:
		s := x.e.mapSort(v.Type())
		return x.alloc(st, "map", MapEmpty(s))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range v.Bindings {
			bs = append(bs, x.value(st, fr, b))
		}
		return &Closure{fn: v.Fn.(*ssa.Function), bind: bs}
	case *ssa.Slice:
		return x.slice(st, fr, v)
	case *ssa.Range:
		o := x.value(st, fr, v.X)
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			return MapIter{x.mapContent(st, o, v.X.Type())}
		}
		// the iterator's position lives in a cell so that loops can havoc it
		r := x.alloc(st, "striter", IntC(0))
		return StrIter{s: x.term(st, o), pos: r}
	}
	x.unsupported(st, fmt.Sprintf("instruction %T", v))
	return Fresh("opq", x.e.sortOf(v.Type()))
}

// rich recovers engine-level values behind reference and function terms
func (x *Exec) rich(st *State, t *Term) Val {
	if t.Sort == RefS {
		if rv, ok := st.vmap[t]; ok {
			return rv
		}
	}
	if t.Sort.K == SOpaque && t.Sort.Name == "func" {
		if c, ok := st.fns[t]; ok {
			return c
		}
	}
	return t
}

func (x *Exec) mapContent(st *State, o Val, mt types.Type) *Term {
	s := x.e.mapSort(mt)
	r := x.term(st, o)
	if r == Null {
		return MapEmpty(s)
	}
	return x.loadRef(st, r, s)
}

func (x *Exec) mapUpdate(st *State, fr *Frame, ins *ssa.MapUpdate) {
	r := x.term(st, x.value(st, fr, ins.Map))
	s := x.e.mapSort(ins.Map.Type())
	x.need(st, "write to nil map", Not(Eq(r, Null)), ins.Pos())
	kk := x.term(st, x.value(st, fr, ins.Key))
	vv := x.term(st, x.value(st, fr, ins.Value))
	if r.Op != OFreshRef {
		x.frameWrite(st, r, ins.Map.Type(), ins.Pos())
	}
	x.storeRef(st, r, MapStore(x.loadRef(st, r, s), kk, Some(vv)))
}

func (x *Exec) slice(st *State, fr *Frame, v *ssa.Slice) Val {
	o := x.value(st, fr, v.X)
	var lo, hi, mx *Term
	if v.Low != nil {
		lo = x.termAs(st, x.value(st, fr, v.Low), Int)
	}
	if v.High != nil {
		hi = x.termAs(st, x.value(st, fr, v.High), Int)
	}
	if v.Max != nil {
		mx = x.termAs(st, x.value(st, fr, v.Max), Int)
	}
	if lo == nil {
		lo = IntC(0)
	}
	if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
		a := x.asAddr(st, o, v.X.Type())
		at := deref(v.X.Type()).Underlying().(*types.Array)
		if a.base != nil && a.base.Op == OFreshRef && len(a.path) == 0 && v.Low == nil && (v.High == nil || hi == IntC(at.Len())) {
			return SliceCell{base: a.base, elem: at.Elem()}
		}
		o = x.load(st, a, nil)
		if a.base != nil && a.base.Op == OFreshRef {
			c := st.cells[a.base.N]
			c.frozen = true
			st.cells[a.base.N] = c
		}
	}
	if sc, ok := o.(SliceCell); ok && v.Low == nil && v.High == nil {
		return sc
	}
	t := x.term(st, o)
	if t.Sort == Str {
		n := StrLen(t)
		if hi == nil {
			hi = n
		}
		x.need(st, "string slice in range", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)), v.Pos())
		if lo == IntC(0) && hi == n {
			return t
		}
		return App(BF("str.substr", Str, Str, Int, Int), t, lo, Sub(hi, lo))
	}
	n := SeqLen(t)
	if hi == nil {
		hi = n
	}
	// Go allows hi up to cap; we require len (stronger)
	x.need(st, "slice bounds in range", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)), v.Pos())
	r := SeqExtract(t, lo, Sub(hi, lo))
	if r.Op == OSeqEmpty {
		if mx != hi {
			// s[:0] keeps the capacity of s: appending would overwrite s
			if n == IntC(0) || st.owned[t] {
				return r
			}
			r2 := mk(OSeqExtract, t.Sort, t, lo, IntC(0))
			_ = r2
			x.markShared(st, r)
		}
		return r
	}
	if mx != nil && mx == hi {
		st.owned[r] = true // clipped: the next append copies
	} else if r != t {
		if st.owned[t] {
			st.owned[r] = true
		} else {
			delete(st.owned, r)
		}
	}
	return r
}

func (x *Exec) markShared(st *State, t *Term) {}

func (x *Exec) convert(st *State, fr *Frame, v *ssa.Convert) Val {
	o := x.value(st, fr, v.X)
	from, to := v.X.Type().Underlying(), v.Type().Underlying()
	fs, ts := x.e.sortOf(v.X.Type()), x.e.sortOf(v.Type())
	if fs == ts {
		if fs.K == SSeq {
			return o
		}
		return o
	}
	t := x.term(st, o)
	if fs == Int && ts == Str {
		return x.e.runeStr(t)
	}
	_ = from
	if sl, ok := to.(*types.Slice); ok && fs == Str {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return App(UF("runes", ts, Str), t)
		}
	}
	return App(UF("conv_"+mangle(fs.key())+"_"+mangle(ts.key()), ts, fs), t)
}

func (x *Exec) binop(st *State, fr *Frame, v *ssa.BinOp) Val {
	av, bv := x.value(st, fr, v.X), x.value(st, fr, v.Y)
	if v.Op == token.EQL || v.Op == token.NEQ {
		t := x.equal(st, av, bv, v)
		if v.Op == token.NEQ {
			t = Not(t)
		}
		return t
	}
	a, b := x.term(st, av), x.term(st, bv)
	switch a.Sort {
	case Int:
		switch v.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.QUO, token.REM:
			x.need(st, "division by zero", Not(Eq(b, IntC(0))), v.Pos())
			if a.Op == OIntC && b.Op == OIntC {
				if v.Op == token.QUO {
					return IntC(a.N / b.N)
				}
				return IntC(a.N % b.N)
			}
			if v.Op == token.REM && b.Op == OIntC && b.N > 0 {
				if nonneg(a) {
					return App(BF("mod", Int, Int, Int), a, b)
				}
				return Ite(Le(IntC(0), a), App(BF("mod", Int, Int, Int), a, b), Scale(App(BF("mod", Int, Int, Int), Scale(a, -1), b), -1))
			}
			if v.Op == token.QUO && b.Op == OIntC && b.N > 0 {
				// an exact multiple
				ts, cs, c := linOf(a)
				m, exact := map[*Term]int64{}, c%b.N == 0
				for i, t := range ts {
					m[t] = cs[i] / b.N
					exact = exact && cs[i]%b.N == 0
				}
				if exact {
					return mkLin(m, c/b.N)
				}
			}
			if v.Op == token.QUO && b.Op == OIntC && b.N > 0 && nonneg(a) {
				return App(BF("div", Int, Int, Int), a, b)
			}
			return App(UF("go_"+v.Op.String(), Int, Int, Int), a, b)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			if v.Op == token.AND && b.Op == OIntC && b.N == 1 && nonneg(a) {
				return App(BF("mod", Int, Int, Int), a, IntC(2))
			}
			return App(UF("go_bit_"+mangle(v.Op.String()), Int, Int, Int), a, b)
		}
	case Str:
		switch v.Op {
		case token.ADD:
			return Concat(a, b)
		case token.LSS:
			return App(BF("str.<", Bool, Str, Str), a, b)
		case token.LEQ:
			return App(BF("str.<=", Bool, Str, Str), a, b)
		case token.GTR:
			return App(BF("str.<", Bool, Str, Str), b, a)
		case token.GEQ:
			return App(BF("str.<=", Bool, Str, Str), b, a)
		}
	}
	switch v.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		// floating point and other orders: canonical uninterpreted
		op := v.Op
		if op == token.GTR {
			op, a, b = token.LSS, b, a
		}
		if op == token.GEQ {
			op, a, b = token.LEQ, b, a
		}
		n := "lt_"
		if op == token.LEQ {
			n = "le_"
		}
		return App(UF(n+mangle(a.Sort.key()), Bool, a.Sort, b.Sort), a, b)
	}
	return App(UF("op_"+mangle(v.Op.String())+"_"+mangle(a.Sort.key()), x.e.sortOf(v.Type()), a.Sort, b.Sort), a, b)
}

func (x *Exec) equal(st *State, av, bv Val, v *ssa.BinOp) *Term {
	// comparisons with nil
	isNilC := func(z ssa.Value) bool {
		c, ok := z.(*ssa.Const)
		return ok && c.Value == nil
	}
	for i := 0; i < 2; i++ {
		if isNilC(v.Y) {
			switch a := av.(type) {
			case Addr, SliceCell, *Closure:
				return False
			case *Term:
				if a.Sort.K == SSeq {
					return x.e.sliceIsNil(a)
				}
			}
		}
		av, bv = bv, av
		v = &ssa.BinOp{Op: v.Op, X: v.Y, Y: v.X}
	}
	a, b := x.term(st, av), x.term(st, bv)
	if a.Sort != b.Sort {
		if b.Sort == IfaceS { // interface against concrete
			a, b = b, a
			v = &ssa.BinOp{Op: v.Op, X: v.Y, Y: v.X}
		}
		if a.Sort == IfaceS {
			return Eq(a, Box(typeName(v.Y.Type()), b))
		}
		x.unsupported(st, "comparison of different sorts")
		return Fresh("cmp", Bool)
	}
	if a.Sort.K == SOpaque && strings.HasPrefix(a.Sort.Name, "float") {
		return App(UF("eq_"+a.Sort.Name, Bool, a.Sort, a.Sort), a, b)
	}
	return Eq(a, b)
}

// a slice that is known to be empty may or may not be nil
func (e *Engine) sliceIsNil(a *Term) *Term {
	if a.Op == OSeqEmpty {
		return True
	}
	n := Eq(SeqLen(a), IntC(0))
	if n == False {
		return False
	}
	return And(n, App(UF("isnil_"+mangle(a.Sort.key()), Bool, a.Sort), a))
}

func (x *Exec) typeAssert(st *State, fr *Frame, v *ssa.TypeAssert, k func(*State, Val)) {
	o := x.termAs(st, x.value(st, fr, v.X), IfaceS)
	var ok *Term
	var val func(st *State) Val
	var zero *Term
	if it, isI := v.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.e.implements(o, v.AssertedType, it)
		val = func(*State) Val { return o }
		zero = NilI
	} else {
		tn := typeName(v.AssertedType)
		x.e.noteType(tn, v.AssertedType)
		s := x.e.sortOf(v.AssertedType)
		ok = Eq(Tag(o), IntC(tagID(tn)))
		val = func(st *State) Val { return x.rich(st, Unbox(tn, s, o)) }
		zero = ZeroTerm(s)
	}
	if !v.CommaOk {
		x.need(st, "type assertion to "+typeName(v.AssertedType), ok, v.Pos())
		k(st, val(st))
		return
	}
	x.branch(st, ok, func(st *State, t bool) {
		if t {
			k(st, Tuple{val(st), True})
		} else {
			k(st, Tuple{zero, False})
		}
	})
}

func (x *Exec) next(st *State, fr *Frame, v *ssa.Next, k func(*State, Val)) {
	it := x.value(st, fr, v.Iter)
	if si, ok := it.(StrIter); ok {
		pos := st.cells[si.pos.N].val
		n := x.e.runeCount(si.s)
		x.branch(st, Lt(pos, n), func(st *State, t bool) {
			if !t {
				k(st, Tuple{False, IntC(0), IntC(0)})
				return
			}
			c := st.cells[si.pos.N]
			c.val = Add(pos, IntC(1))
			st.cells[si.pos.N] = c
			k(st, Tuple{True, x.e.byteOff(si.s, pos), x.e.runeAt(si.s, pos)})
		})
		return
	}
	x.unsupported(st, "range over map")
}

// ---------------------------------------------------------------- interfaces

func (e *Engine) noteType(tn string, t types.Type) {
	if _, ok := e.typesByName[tn]; !ok {
		e.typesByName[tn] = t
	}
}

func (e *Engine) implements(o *Term, at types.Type, it *types.Interface) *Term {
	if it.NumMethods() == 0 {
		return Not(IsNil(o))
	}
	name := typeName(at)
	f := UF("impl_"+mangle(name), Bool, Int)
	e.implIfaces[f.Name] = it
	t := Tag(o)
	if t.Op == OIntC {
		return e.implTag(f, t.N)
	}
	if t.Op == OIte {
		return Ite(o.Args[0], e.implements(o.Args[1], at, it), e.implements(o.Args[2], at, it))
	}
	// known static interface type that already implies it
	if st := e.goType(o); st != nil {
		if types.Implements(st, it) {
			return Not(IsNil(o))
		}
	}
	return App(f, t)
}

func (e *Engine) implTag(f *FuncDecl, id int64) *Term {
	if id == 0 {
		return False
	}
	it := e.implIfaces[f.Name]
	t := e.typesByName[tagNames[id]]
	if t == nil {
		return App(f, IntC(id))
	}
	return BoolT(types.Implements(t, it))
}

func (e *Engine) methodOn(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// pureMethods can be applied inside formulas
var pureMethods = map[string]bool{"GetError": true, "getKey": true, "isNotNil": true, "GetExpressionType": true, "getConditionType": true,
	"getRequiredSymbolicName": true, "getSymbolicName": true, "getAlias": true, "GetRequiredSymbolicName": true, "GetSymbolicName": true, "isAggregate": true, "getImplementationName": true, "isPatternElement": true, "getStatementType": true}

func (e *Engine) staticMethod(tn, method string, args []*Term) *Term {
	t := e.typesByName[tn]
	if t == nil || !pureMethods[method] {
		return nil
	}
	fn := e.methodOn(t, method)
	if fn == nil {
		return nil
	}
	s := e.sortOf(t)
	vs := []Val{Unbox(tn, s, args[0])}
	for _, a := range args[1:] {
		vs = append(vs, a)
	}
	r, err := e.evalPure(fn, vs, nil)
	if err != "" || len(r) != 1 {
		return nil
	}
	return r[0]
}

func (x *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos, k Kont) {
	recv := x.termAs(st, x.value(st, fr, c.Value), IfaceS)
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.value(st, fr, a))
	}
	x.need(st, "call of "+c.Method.Name()+" on nil interface", Not(IsNil(recv)), pos)
	x.invokeOn(st, recv, c.Method, c.Value.Type(), args, pos, k)
}

func (x *Exec) invokeOn(st *State, recv *Term, m *types.Func, it types.Type, args []Val, pos token.Pos, k Kont) {
	name := m.Name()
	if recv.Op == OIte {
		x.branch(st, recv.Args[0], func(st *State, t bool) {
			r := recv.Args[1]
			if !t {
				r = recv.Args[2]
			}
			x.invokeOn(st, r, m, it, args, pos, k)
		})
		return
	}
	sig := m.Type().(*types.Signature)
	// state transformers over the renderer are abstract at every call site
	if (name == "accept" || name == "enter" || name == "leave") && sig.Params().Len() == 1 {
		if x.quiet == 0 {
			if er := x.errOfIfaceSt(st, recv); er != nil {
				pr := x.e.presentOf(x, st, recv, nil)
				if pr == nil {
					pr = True
				}
				x.oblig(st, "pre", name+" is called on a present element without error", And(Not(er), pr), pos)
			}
		}
		x.transformer("i"+name, st, recv, args[0], sig.Params().At(0).Type(), pos)
		k(st, nil)
		return
	}
	summary := x.e.summaries[typeName(it)+"."+name] || x.isOpaque(typeName(it)+"."+name)
	if summary {
		recv = x.canon(st, recv)
		x.e.usedContracts[typeName(it)+"."+name]++
	}
	tn := ""
	if summary {
	} else if recv.Op == OBox {
		tn = recv.S
	} else if t, ok := st.tags[recv]; ok {
		tn = t
	}
	if tn != "" {
		if t := x.e.typesByName[tn]; t != nil {
			if fn := x.e.methodOn(t, name); fn != nil {
				rv := x.rich(st, Unbox(tn, x.e.sortOf(t), recv))
				x.callStatic(st, fn, append([]Val{rv}, args...), nil, pos, k)
				return
			}
		}
	}
	if cl := x.e.closedWorld(it); cl != nil && !pureMethods[name] && !summary {
		// every dynamic type an implementation in this package can have
		rest := st
		for i, t := range cl {
			tn := typeName(t)
			x.e.noteType(tn, t)
			cond := Eq(Tag(recv), IntC(tagID(tn)))
			cur := rest
			if i < len(cl)-1 {
				cur = rest.clone()
			}
			cur.assume(cond)
			if !cur.pcset[False] {
				if fn := x.e.methodOn(t, name); fn != nil {
					rv := x.rich(cur, Unbox(tn, x.e.sortOf(t), recv))
					x.callStatic(cur, fn, append([]Val{rv}, args...), nil, pos, k)
				}
			}
			if i < len(cl)-1 {
				rest.assume(Not(cond))
				if rest.pcset[False] {
					return
				}
			}
		}
		return
	}
	// unknown dynamic type: the interface contract says only that the method is a function of its arguments
	as := []*Sort{IfaceS}
	ts := []*Term{recv}
	for _, a := range args {
		t := x.term(st, a)
		as = append(as, t.Sort)
		ts = append(ts, t)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		n := methodUF(name, i, x.e.sortOf(rt), as[1:])
		f := UF(n, x.e.sortOf(rt), as...)
		f.Method = name
		r := App(f, ts...)
		x.e.noteStatic(r, rt)
		res = append(res, r)
	}
	k(st, res)
}

// methodUF names the function that stands for result i of an interface method.
func methodUF(name string, i int, r *Sort, args []*Sort) string {
	n := "m_" + name
	if i > 0 {
		n += "_" + strconv.Itoa(i)
	}
	n += "_" + mangle(r.key())
	for _, s := range args {
		n += "_" + mangle(s.key())
	}
	return n
}

func (e *Engine) noteStatic(t *Term, gt types.Type) {
	if t.Sort == IfaceS {
		if it, ok := gt.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			if _, ok := e.staticIface[t]; !ok {
				e.staticIface[t] = gt
			}
		}
	}
}

// transformer applies an abstract state transformer (accept/enter/leave of an
// element on a renderer) to the renderer object behind ptr.
func (x *Exec) transformer(kind string, st *State, v *Term, ptr Val, pt types.Type, pos token.Pos) {
	a := x.asAddr(st, ptr, pt)
	x.nilCheck(st, a, pos)
	cur := x.term(st, x.load(st, a, nil))
	f := UF("tr_"+kind, cur.Sort, IfaceS, cur.Sort)
	nv := App(f, v, cur)
	if a.base != nil && a.base.Op != OFreshRef {
		x.storeRef(st, a.base, inject(x.loadRef(st, a.base, x.e.sortOf(a.root)), a.path, nv))
		return
	}
	x.store(st, a, nv, pos)
}

// ---------------------------------------------------------------- calls

func (x *Exec) call(st *State, fr *Frame, ins *ssa.Call, k Kont) {
	c := ins.Call
	if c.IsInvoke() {
		x.invoke(st, fr, &c, ins.Pos(), k)
		return
	}
	fv := x.value(st, fr, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.value(st, fr, a))
	}
	switch f := fv.(type) {
	case *ssa.Builtin:
		x.builtin(st, fr, f, ins, args, k)
		return
	case *Closure:
		x.callStatic(st, f.fn, args, f.bind, ins.Pos(), k)
		return
	case *Term:
		// unknown function value
		var as []*Sort
		var ts []*Term
		as = append(as, f.Sort)
		ts = append(ts, f)
		for _, a := range args {
			t := x.term(st, a)
			as = append(as, t.Sort)
			ts = append(ts, t)
		}
		var res []Val
		for i := 0; i < c.Signature().Results().Len(); i++ {
			s := x.e.sortOf(c.Signature().Results().At(i).Type())
			n := "apply"
			for _, q := range as {
				n += "_" + mangle(q.key())
			}
			res = append(res, App(UF(n+"_"+strconv.Itoa(i)+mangle(s.key()), s, as...), ts...))
		}
		k(st, res)
		return
	}
	x.unsupported(st, fmt.Sprintf("call of %T", fv))
	k(st, x.havocResults(st, c.Signature(), "call"))
}

func (x *Exec) builtin(st *State, fr *Frame, f *ssa.Builtin, ins *ssa.Call, args []Val, k Kont) {
	switch f.Name() {
	case "len":
		if _, ok := ins.Call.Args[0].Type().Underlying().(*types.Map); ok {
			m := x.mapContent(st, args[0], ins.Call.Args[0].Type())
			k(st, []Val{App(UF("maplen_"+mangle(m.Sort.key()), Int, m.Sort), m)})
			return
		}
		t := x.peek(st, args[0])
		if t.Sort == Str {
			k(st, []Val{StrLen(t)})
			return
		}
		if t.Sort.K == SSeq {
			k(st, []Val{SeqLen(t)})
			return
		}
	case "cap":
		t := x.peek(st, args[0])
		if t.Sort.K == SSeq {
			c := App(UF("cap_"+mangle(t.Sort.key()), Int, t.Sort), t)
			st.assume(Le(SeqLen(t), c))
			k(st, []Val{c})
			return
		}
	case "append":
		a := x.peek(st, args[0])
		b := x.peek(st, args[1])
		if x.quiet == 0 && b.Sort.K == SSeq && b.Sort.Elem == IfaceS {
			if sl, ok := ins.Call.Args[0].Type().Underlying().(*types.Slice); ok && !emptyIface(sl.Elem()) {
				for _, p := range seqParts(b) {
					if p.Op == OSeqUnit && !p.hasBound {
						x.oblig(st, "inv", "no nil element is put into a list", Not(IsNil(p.Args[0])), ins.Pos())
					}
				}
			}
		}
		if b.Sort == Str {
			x.unsupported(st, "append string to bytes")
		}
		if _, ok := args[0].(SliceCell); ok {
			// whole fresh array: no spare capacity shared
			r := SeqConcat(a.Sort, a, b)
			st.owned[r] = true
			k(st, []Val{r})
			return
		}
		r := SeqConcat(a.Sort, a, b)
		if r != a || b.Op != OSeqEmpty {
			if !st.owned[a] && a.Op != OSeqEmpty {
				x.oblig(st, "frame", "append to a list that is reachable from elsewhere (its spare capacity is shared)", Or(Eq(SeqLen(a), IntC(0)), Eq(SeqLen(b), IntC(0))), ins.Pos())
			}
			delete(st.owned, a)
		}
		st.owned[r] = true
		k(st, []Val{r})
		return
	case "copy":
		if d, ok := args[0].(SliceCell); ok {
			src := x.peek(st, args[1])
			c := st.cells[d.base.N]
			n := SeqLen(c.val)
			m := SeqLen(src)
			if n == m {
				x.storeRef(st, d.base, src)
			} else {
				le := Le(m, n)
				r := Ite(le, SeqConcat(src.Sort, src, SeqExtract(c.val, m, Sub(n, m))), SeqExtract(src, IntC(0), n))
				if le == True {
					r = SeqConcat(src.Sort, src, SeqExtract(c.val, m, Sub(n, m)))
				}
				x.storeRef(st, d.base, r)
			}
			k(st, []Val{Ite(Le(m, n), m, n)})
			return
		}
		if d, ok := args[0].(*Term); ok && d.Op == OSeqEmpty {
			k(st, []Val{IntC(0)})
			return
		}
		x.oblig(st, "frame", "copy into a list owned by somebody else", Eq(SeqLen(x.peek(st, args[0])), IntC(0)), ins.Pos())
		k(st, []Val{Fresh("copied", Int)})
		return
	case "delete":
		mt := ins.Call.Args[0].Type()
		s := x.e.mapSort(mt)
		r := x.term(st, args[0])
		kk := x.term(st, args[1])
		if r.Op != OFreshRef {
			x.frameWrite(st, r, mt, ins.Pos())
		}
		x.storeRef(st, r, MapStore(x.loadRef(st, r, s), kk, None(s.Elem)))
		k(st, nil)
		return
	case "print", "println":
		k(st, nil)
		return
	case "ssa:wrapnilchk":
		a := x.asAddr(st, args[0], ins.Call.Args[0].Type())
		x.nilCheck(st, a, ins.Pos())
		k(st, []Val{args[0]})
		return
	}
	x.unsupported(st, "builtin "+f.Name())
	var res []Val
	if ins.Type() != nil {
		if _, isT := ins.Type().(*types.Tuple); !isT {
			res = []Val{Fresh("bi", x.e.sortOf(ins.Type()))}
		}
	}
	k(st, res)
}

func (x *Exec) callStatic(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, k Kont) {
	if x.intrinsic(st, fn, args, pos, k) {
		return
	}
	if fn.Pkg != nil && fn.Pkg != x.e.pkg && !x.e.inlineExternal(fn) {
		x.external(st, fn, args, pos, k)
		return
	}
	// methods of elements on a renderer are abstract transformers
	if recv := fn.Signature.Recv(); recv != nil && !x.noContract[fn] {
		n := fn.Name()
		if fn.Signature.Params().Len() == 1 && typeName(fn.Signature.Params().At(0).Type()) == "*CypherRenderer" && (n == "accept" || n == "enter" || n == "leave") {
			tn := typeName(recv.Type())
			x.e.noteType(tn, recv.Type())
			if pre := x.e.implicitPre(fn, x.term(st, args[0])); pre != nil {
				x.oblig(st, "pre", shortName(fn)+" is called on a present value without error", pre, pos)
			}
			v := Box(tn, x.term(st, args[0]))
			x.transformer("i"+n, st, v, args[1], fn.Signature.Params().At(0).Type(), pos)
			k(st, nil)
			return
		}
		if typeName(recv.Type()) == "*CypherRenderer" && (n == "enter" || n == "leave" || x.e.transformers[shortName(fn)] && fn != x.target) && fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 0 {
			v := x.termAs(st, args[1], IfaceS)
			x.transformer("r"+n, st, v, args[0], recv.Type(), pos)
			k(st, nil)
			return
		}
	}
	if rf := x.e.recs[fn]; rf != nil {
		x.callRec(st, rf, args, pos, k)
		return
	}
	if (x.e.summaries[shortName(fn)] || x.isOpaque(shortName(fn)) && fn != x.target) && fn.Synthetic == "" {
		x.applySummary(st, fn, args, pos, k)
		return
	}
	if c := x.e.contractFor(fn); c != nil && !x.noContract[fn] && fn != x.target {
		x.applyContract(st, c, fn, args, pos, k)
		return
	}
	x.callFn(st, fn, args, bind, k)
}

func (x *Exec) isOpaque(name string) bool {
	_, ok := x.opaque[name]
	return ok
}

// evalPure runs a side-effect free function and merges its outcomes.
func (e *Engine) evalPure(fn *ssa.Function, args []Val, bind []Val) ([]*Term, string) {
	why := ""
	x := &Exec{e: e, name: "pure", quiet: 1, unsupp: &why, noContract: map[*ssa.Function]bool{}, inSpec: 1}
	return x.pure(NewState(), fn, args, bind)
}

func (x *Exec) pure(st *State, fn *ssa.Function, args []Val, bind []Val) ([]*Term, string) {
	base := len(st.pc)
	s0 := st.clone()
	var outs []Outcome
	x.quiet++
	x.callStatic(s0, fn, args, bind, token.NoPos, func(s *State, res []Val) { outs = append(outs, Outcome{s, res}) })
	x.quiet--
	if len(outs) == 0 {
		return nil, "no outcome of " + fn.String()
	}
	n := len(outs[0].res)
	res := make([]*Term, n)
	for i := 0; i < n; i++ {
		for j := len(outs) - 1; j >= 0; j-- {
			t := x.term(outs[j].st, outs[j].res[i])
			if res[i] == nil {
				res[i] = t
				continue
			}
			if t.Sort != res[i].Sort {
				return nil, "merge sorts"
			}
			res[i] = Ite(And(outs[j].st.pc[base:]...), t, res[i])
		}
	}
	why := ""
	if x.unsupp != nil {
		why = *x.unsupp
	}
	return res, why
}

func shortName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return typeName(t) + "." + fn.Name()
	}
	if fn.Parent() != nil {
		return shortName(fn.Parent()) + "$" + fn.Name()
	}
	return fn.Name()
}

func sortedInts(m map[int64]cell) []int64 {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}
