package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A loop whose trip count is not syntactically known is cut at its header:
// its modified values ("slots") are replaced by candidate closed forms in a
// ghost iteration counter K taken from the specification's own terms
// (prefix-recursive functions and bounded quantifiers), and each candidate has
// to be proved to hold initially and to be preserved by one arbitrary
// iteration. Candidates that are not preserved are dropped (Houdini).

type loopRun struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	K      *Term
	onBack func(st *State, fr *Frame, phis []Val)
	final  bool
}

type loopSummary struct{}

type slotKind int

const (
	slotPhi slotKind = iota
	slotCell
	slotHeap
)

type slot struct {
	kind   slotKind
	phi    int
	cell   int64
	ref    *Term
	sort   *Sort
	init   *Term
	affine *int64 // step
	cands  []cand
	choice int // index in cands; len(cands) = unconstrained
	fresh  *Term
	owned  bool
	// of a struct or error slot: the leaves the loop changes, when not all are
	changed [][]int
}

type cand struct {
	name string
	f    func(k *Term) *Term
}

type pred struct {
	name string
	f    func(k *Term) *Term
	// a predicate over one slot: its value v after k iterations
	s *slot
	g func(v, k *Term) *Term
	// keys made in an iteration are named by the iteration they were made in
	keys func(t, k *Term) *Term
}

func (p pred) at(v, k *Term) *Term {
	if p.s == nil {
		return p.f(k)
	}
	return p.g(v, k)
}

// unknown is a value of the slot of which nothing is known but the fields the
// loop leaves as they are.
func (s *slot) unknown() *Term {
	v := Fresh("lv", s.sort)
	v.raw = madeUp(s.init)
	if s.sort.K != SStruct || len(s.changed) == 0 {
		return v
	}
	r := s.init
	for _, path := range s.changed {
		r = injectPath(r, path, selPath(v, path))
	}
	return r
}

// madeUp: the list has, or may have, places that were never filled.
func madeUp(t *Term) bool {
	found := false
	collect([]*Term{t}, func(u *Term) {
		found = found || u.raw || u.Op == OApp && strings.HasPrefix(u.F.Name, "zeros_")
	})
	return found
}

func injectPath(t *Term, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return Upd(t, path[0], injectPath(Sel(t, path[0]), path[1:], v))
}

func selPath(t *Term, path []int) *Term {
	for _, i := range path {
		t = Sel(t, i)
	}
	return t
}

// changedLeaves collects the paths at which two values may differ.
func changedLeaves(a, b *Term, path []int, out *[][]int, depth int) {
	if a == b {
		return
	}
	if a.Sort.K == SStruct && depth > 0 {
		for i := range a.Sort.Fields {
			changedLeaves(Sel(a, i), Sel(b, i), append(append([]int{}, path...), i), out, depth-1)
		}
		return
	}
	for _, p := range *out {
		if fmt.Sprint(p) == fmt.Sprint(path) {
			return
		}
	}
	*out = append(*out, path)
}

// errPreds: an error kept in a variable or a field is there exactly when an
// earlier iteration met what a quantified template speaks of.
func (x *Exec) errPreds(slots []*slot) []pred {
	var out []pred
	_, quants := x.templates()
	for _, s := range slots {
		s := s
		for _, path := range s.changed {
			path := path
			init := selPath(s.init, path)
			if init.Sort != IfaceS {
				continue
			}
			out = append(out, pred{name: "error stays", s: s, g: func(v, k *Term) *Term {
				return Or(IsNil(init), Eq(selPath(v, path), init))
			}})
			for _, q := range quants {
				q := q
				if q.Op == OForall {
					q = Not(q)
				}
				if quantAt(q, IntC(1)) == nil {
					continue
				}
				out = append(out, pred{name: "error if any", s: s, g: func(v, k *Term) *Term {
					return Or(Not(IsNil(selPath(v, path))), Not(quantAt(q, k)))
				}}, pred{name: "error only if any", s: s, g: func(v, k *Term) *Term {
					return Or(IsNil(selPath(v, path)), Not(IsNil(init)), quantAt(q, k))
				}})
			}
		}
	}
	return out
}

func (s *slot) valueAt(k *Term) *Term {
	if s.affine != nil {
		return Add(s.init, Scale(k, *s.affine))
	}
	if s.choice < len(s.cands) {
		return s.cands[s.choice].f(k)
	}
	return s.fresh
}

func (x *Exec) slotNow(st *State, s *slot, phis []Val) *Term {
	switch s.kind {
	case slotPhi:
		return x.peek(st, phis[s.phi])
	case slotCell:
		return st.cells[s.cell].val
	}
	return x.loadRef(st, s.ref, s.sort)
}

var loopDebug = os.Getenv("VC_LOOPS") != ""

// headerDecided evaluates the loop condition for the current values when the
// header is simple; nil when it cannot be decided by simplification.
func (x *Exec) headerDecided(st *State, fr *Frame, b, prev *ssa.BasicBlock) bool {
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, ins := range b.Instrs {
		switch ins.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.Next, *ssa.Extract, *ssa.DebugRef:
		case *ssa.Call:
			if bi, ok := ins.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	s2 := st.clone()
	f2 := fr.clone()
	x.quiet++
	defer func() { x.quiet-- }()
	vals := x.evalPhis(s2, f2, b, prev)
	x.setPhis(f2, b, vals)
	for _, ins := range b.Instrs[len(vals):] {
		switch ins := ins.(type) {
		case *ssa.If, *ssa.DebugRef:
		case *ssa.Next:
			it := x.value(s2, f2, ins.Iter)
			si, ok := it.(StrIter)
			if !ok {
				return false
			}
			pos := s2.cells[si.pos.N].val
			c := Lt(pos, x.e.runeCount(si.s))
			if c != True && c != False {
				return false
			}
			f2.env[ins] = Tuple{c, IntC(0), IntC(0)}
		case *ssa.Call:
			t := x.peek(s2, x.value(s2, f2, ins.Call.Args[0]))
			if t.Sort == Str {
				f2.env[ins] = StrLen(t)
			} else if t.Sort.K == SSeq {
				f2.env[ins] = SeqLen(t)
			} else {
				return false
			}
		case ssa.Value:
			f2.env[ins] = x.eval(s2, f2, ins)
		}
	}
	c := x.value(s2, f2, last.Cond)
	t, ok := c.(*Term)
	return ok && (t == True || t == False)
}

func (x *Exec) enterHeader(st *State, fr *Frame, b, prev *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, k Kont) bool {
	if run := fr.inLoop[b]; run != nil && body[prev] {
		run.onBack(st, fr, x.evalPhis(st, fr, b, prev))
		return true
	}
	if fr.unrolled[b] < 200 && x.headerDecided(st, fr, b, prev) {
		fr.unrolled[b]++
		return false
	}
	x.loopByInvariant(st, fr, b, prev, body, k)
	return true
}

func (x *Exec) loopByInvariant(st *State, fr *Frame, b, prev *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, k Kont) {
	phis0 := x.evalPhis(st, fr, b, prev)
	K := Fresh("k", Int)
	var slots []*slot
	for i, v := range phis0 {
		t, ok := v.(*Term)
		if !ok {
			if sc, isSC := v.(SliceCell); isSC {
				t = x.term(st, sc)
			} else {
				continue
			}
		}
		slots = append(slots, &slot{kind: slotPhi, phi: i, sort: t.Sort, init: t, owned: st.owned[t] || t.Op == OSeqEmpty})
	}

	type back struct {
		st   *State
		phis []Val
	}
	// run executes one arbitrary iteration from the header
	run := func(preds []pred, final bool, kk Kont) []back {
		var backs []back
		s2 := st.clone()
		f2 := fr.clone()
		vals := append([]Val{}, phis0...)
		for _, s := range slots {
			if s.affine == nil && s.choice >= len(s.cands) {
				s.fresh = s.unknown()
			}
			v := s.valueAt(K)
			if s.owned {
				s2.owned[v] = true
			}
			switch s.kind {
			case slotPhi:
				vals[s.phi] = x.rich(s2, v)
				if s.sort == IfaceS {
					x.e.noteStatic(v, b.Instrs[s.phi].(*ssa.Phi).Type())
				}
			case slotCell:
				c := s2.cells[s.cell]
				c.val = v
				s2.cells[s.cell] = c
			case slotHeap:
				x.storeRef(s2, s.ref, v)
			}
		}
		for _, p := range preds {
			if p.s == nil {
				s2.assume(p.f(K))
				continue
			}
			v := p.s.valueAt(K)
			s2.assume(p.g(v, K))
		}
		x.setPhis(f2, b, vals)
		lr := &loopRun{header: b, body: body, K: K, final: final}
		lr.onBack = func(s3 *State, f3 *Frame, ph []Val) {
			if s3.pcset[False] {
				return
			}
			backs = append(backs, back{s3, ph})
		}
		f2.inLoop[b] = lr
		if !final {
			x.quiet++
		}
		x.instrs(s2, f2, b, len(phis0), kk)
		if !final {
			x.quiet--
		}
		return backs
	}

	drop := func(st *State, res []Val) {}
	// 1. discover what the loop changes
	for iter := 0; iter < 8; iter++ {
		for _, s := range slots {
			s.cands = nil
			s.choice = 0
		}
		backs := run(nil, false, drop)
		grew := false
		have := map[int64]bool{}
		haveRef := map[*Term]bool{}
		for _, s := range slots {
			if s.kind == slotCell {
				have[s.cell] = true
			}
			if s.kind == slotHeap {
				haveRef[s.ref] = true
			}
		}
		for _, bk := range backs {
			for n, c := range bk.st.cells {
				if o, ok := st.cells[n]; ok && o.val != c.val && !have[n] {
					have[n] = true
					grew = true
					slots = append(slots, &slot{kind: slotCell, cell: n, sort: c.val.Sort, init: o.val, owned: st.owned[o.val] || o.val.Op == OSeqEmpty || true})
				}
			}
			for s, ws := range bk.st.heap {
				for _, w := range ws {
					if !haveRef[w.ref] && x.loadRef(st, w.ref, s) != w.val {
						haveRef[w.ref] = true
						grew = true
						slots = append(slots, &slot{kind: slotHeap, ref: w.ref, sort: s, init: x.loadRef(st, w.ref, s)})
					}
				}
			}
			for i, v := range bk.phis {
				if _, isT := phis0[i].(*Term); !isT {
					if _, isSC := phis0[i].(SliceCell); !isSC && fmt.Sprint(v) != fmt.Sprint(phis0[i]) {
						x.unsupported(st, "loop-carried pointer "+b.Instrs[i].(*ssa.Phi).Comment)
					}
				}
			}
		}
		if !grew {
			// affine slots
			changed := false
			for _, s := range slots {
				if s.sort != Int || s.affine != nil || len(backs) == 0 {
					continue
				}
				var step *int64
				ok := true
				for _, bk := range backs {
					d := Sub(x.slotNow(bk.st, s, bk.phis), s.fresh)
					if d.Op != OIntC || step != nil && *step != d.N {
						ok = false
						break
					}
					n := d.N
					step = &n
				}
				if ok {
					s.affine = step
					changed = true
				}
			}
			if !changed {
				break
			}
			if iter >= 7 {
				break
			}
		}
	}

	// fields of a struct that no iteration changes keep their values
	{
		backs := run(nil, false, drop)
		for _, s := range slots {
			if s.affine != nil || len(backs) == 0 || s.sort.K != SStruct && s.sort != IfaceS {
				continue
			}
			if s.sort == IfaceS && (s.kind != slotPhi || !isErrorType(b.Instrs[s.phi].(*ssa.Phi).Type())) {
				continue
			}
			var ch [][]int
			for _, bk := range backs {
				changedLeaves(s.fresh, x.slotNow(bk.st, s, bk.phis), nil, &ch, 3)
			}
			s.changed = ch
		}
	}

	// 2. candidates
	var preds []pred
	for _, s := range slots {
		if s.affine != nil {
			continue
		}
		s.cands = x.candidates(st, s)
		s.choice = 0
		// keep those that hold initially
		var keep []cand
		for _, c := range s.cands {
			v0 := c.f(IntC(0))
			if v0 == nil || v0.Sort != s.sort {
				continue
			}
			g := Eq(eraseKeys(v0), eraseKeys(s.init))
			if st.decide(g) == True || x.e.proveQuick(st.pc, g) {
				keep = append(keep, c)
			} else if loopDebug {
				fmt.Fprintf(os.Stderr, "  [loop %s] cand %s not initial: %v vs %v\n", fr.fn.Name(), c.name, v0, s.init)
			}
		}
		s.cands = keep
	}
	preds = append(preds, x.predCandidates(st)...)
	preds = append(preds, x.errPreds(slots)...)

	check := func() (bad map[*slot]bool, badPred map[int]bool, backs []back) {
		bad, badPred = map[*slot]bool{}, map[int]bool{}
		// bounds on K from the conditions under which another iteration starts
		backs = run(preds, false, drop)
		if loopDebug {
			fmt.Fprintf(os.Stderr, "  [loop %s] check: %d backs, %d preds\n", fr.fn.Name(), len(backs), len(preds))
		}
		for _, bk := range backs {
			for _, s := range slots {
				if s.affine != nil || s.choice >= len(s.cands) || bad[s] {
					continue
				}
				now := x.slotNow(bk.st, s, bk.phis)
				want := s.cands[s.choice].f(Add(K, IntC(1)))
				g := Eq(eraseKeys(now), eraseKeys(want))
				if bk.st.decide(g) != True && !x.e.proveQuick(bk.st.pc, g) {
					bad[s] = true
					if loopDebug {
						fmt.Fprintf(os.Stderr, "  [loop %s] cand %s not preserved:\n     now  %v\n     want %v\n     pc %v\n", fr.fn.Name(), s.cands[s.choice].name, now, want, bk.st.pc)
					}
				}
			}
			for i, p := range preds {
				if badPred[i] {
					continue
				}
				var g *Term
				if p.s == nil {
					g = p.f(Add(K, IntC(1)))
				} else {
					now := x.slotNow(bk.st, p.s, bk.phis)
					if p.keys != nil {
						now = p.keys(now, K)
					}
					g = p.g(now, Add(K, IntC(1)))
				}
				if bk.st.decide(g) != True && !x.e.proveQuick(bk.st.pc, g) {
					badPred[i] = true
					if loopDebug {
						fmt.Fprintf(os.Stderr, "  [loop %s] pred %s not preserved: %v\n", fr.fn.Name(), p.name, g)
						if d := os.Getenv("VC_DUMPP"); d != "" {
							as, g2 := instantiate(bk.st.pc, g)
							ax := x.e.groundAxioms(append(append([]*Term{}, as...), g2))
							os.WriteFile(d, []byte(smtScript(append(append([]*Term{}, as...), ax...), g2, "z3")+"(check-sat)\n"), 0o644)
						}
					}
				}
			}
			for _, s := range slots {
				if s.owned && s.sort.K == SSeq {
					if now := x.slotNow(bk.st, s, bk.phis); !bk.st.owned[now] && now.Op != OSeqEmpty && now != s.valueAt(K) {
						if s.kind == slotPhi {
							s.owned = false
						}
					}
				}
			}
		}
		return
	}

	// bound predicates
	{
		for _, s := range slots {
			s.choice = len(s.cands)
		}
		backs := run(nil, false, drop)
		seen := map[*Term]bool{}
		for bi, bk := range backs {
			cur := map[*Term]bool{}
			for _, l := range bk.st.pc[min(len(st.pc), len(bk.st.pc)):] {
				if l.Op != OLe0 {
					continue
				}
				ts, cs, _ := linOf(l.Args[0])
				hit := false
				for i, t := range ts {
					if t == K && cs[i] > 0 {
						hit = true
					}
				}
				if hit {
					cur[l.Args[0]] = true
				}
			}
			if bi == 0 {
				seen = cur
			} else {
				for t := range seen {
					if !cur[t] {
						delete(seen, t)
					}
				}
			}
		}
		for l := range seen {
			l := l
			p := pred{name: "bound", f: func(k *Term) *Term { return Le0(Subst(l, map[*Term]*Term{K: Sub(k, IntC(1))})) }}
			g := p.f(IntC(0))
			if st.decide(g) == True || x.e.proveQuick(st.pc, g) {
				preds = append(preds, p)
			}
		}
		var bs []backEdge
		for _, bk := range backs {
			bs = append(bs, backEdge{bk.st, bk.phis})
		}
		preds = append(preds, x.shapePreds(st, slots, bs, K)...)
		for _, s := range slots {
			s.choice = 0
		}
	}
	// predicates must hold initially
	{
		var keep []pred
		for _, p := range preds {
			var g *Term
			if p.s == nil {
				g = p.f(IntC(0))
			} else {
				g = p.g(p.s.init, IntC(0))
			}
			if st.decide(g) == True || x.e.proveQuick(st.pc, g) {
				keep = append(keep, p)
			}
		}
		preds = keep
	}

	// 3. Houdini
	var dims []*slot
	for _, s := range slots {
		if s.affine == nil && len(s.cands) > 0 {
			dims = append(dims, s)
		}
	}
	basePreds := preds
	found := false
	tries := 0
	var best []int
	bestN := -1
	var bestPreds []pred
	var search func(i int)
	attempt := func() bool {
		tries++
		preds = basePreds
		for {
			bad, badPred, _ := check()
			if len(badPred) > 0 {
				var keep []pred
				for i, p := range preds {
					if !badPred[i] {
						keep = append(keep, p)
					}
				}
				preds = keep
				continue
			}
			n := 0
			for _, s := range dims {
				if !bad[s] && s.choice < len(s.cands) {
					n++
				}
			}
			if len(bad) == 0 {
				if n > bestN {
					bestN = n
					best = nil
					for _, s := range dims {
						best = append(best, s.choice)
					}
					bestPreds = preds
				}
				return n == len(dims)
			}
			// bad slots become unconstrained in this attempt to see what survives
			return false
		}
	}
	search = func(i int) {
		if found || tries > 40 {
			return
		}
		if i == len(dims) {
			if attempt() {
				found = true
			}
			return
		}
		for c := 0; c < len(dims[i].cands); c++ {
			dims[i].choice = c
			search(i + 1)
			if found {
				return
			}
		}
	}
	search(0)
	if !found {
		// one slot at a time, the others unconstrained; then the surviving ones together
		surv := map[*slot]int{}
		for _, s := range dims {
			for _, o := range dims {
				o.choice = len(o.cands)
			}
			for c := range s.cands {
				s.choice = c
				preds = basePreds
				ok := false
				for {
					bad, badPred, _ := check()
					if len(badPred) > 0 {
						var keep []pred
						for i, p := range preds {
							if !badPred[i] {
								keep = append(keep, p)
							}
						}
						preds = keep
						continue
					}
					ok = len(bad) == 0
					break
				}
				if ok {
					surv[s] = c
					break
				}
			}
		}
		for _, s := range dims {
			s.choice = len(s.cands)
			if c, ok := surv[s]; ok {
				s.choice = c
			}
		}
		preds = basePreds
		for {
			bad, badPred, _ := check()
			if len(bad) == 0 && len(badPred) == 0 {
				break
			}
			for s := range bad {
				s.choice = len(s.cands)
			}
			var keep []pred
			for i, p := range preds {
				if !badPred[i] {
					keep = append(keep, p)
				}
			}
			preds = keep
		}
		_ = best
		_ = bestPreds
	}
	x.e.loopStats.loops++
	if loopDebug {
		for _, s := range slots {
			n := "free"
			if s.affine != nil {
				n = fmt.Sprintf("affine %d", *s.affine)
			} else if s.choice < len(s.cands) {
				n = s.cands[s.choice].name
			}
			fmt.Fprintf(os.Stderr, "[loop %s] slot kind=%d phi=%d %v: %s\n", fr.fn.Name(), s.kind, s.phi, s.sort, n)
		}
		for _, p := range preds {
			if p.s == nil {
				fmt.Fprintf(os.Stderr, "[loop %s] pred %s %v\n", fr.fn.Name(), p.name, p.f(K))
			} else {
				fmt.Fprintf(os.Stderr, "[loop %s] pred %s %v\n", fr.fn.Name(), p.name, p.g(p.s.valueAt(K), K))
			}
		}
	}
	if os.Getenv("VC_VAC") != "" {
		// can there be a second iteration?
		alive, n := false, 0
		for _, bk := range run(preds, false, drop) {
			n++
			alive = alive || !x.e.proveQuick(bk.st.pc, False)
		}
		if n > 0 && !alive {
			fmt.Fprintf(os.Stderr, "[loop %s] VACUOUS: no iteration is followed by another\n", fr.fn.Name())
		}
	}
	// 4. the arbitrary iteration, with obligations, and the exits
	run(preds, true, k)
}

// leaveLoop is called when control leaves the body of an invariant loop.
func (x *Exec) leaveLoop(st *State, fr *Frame, run *loopRun) (*State, *Frame) {
	// K <= n and n <= K in the path condition: K is n
	K := run.K
	var le, ge []*Term
	for _, l := range st.pc {
		if l.Op != OLe0 {
			continue
		}
		ts, cs, _ := linOf(l.Args[0])
		for i, t := range ts {
			if t == K {
				if cs[i] == 1 {
					le = append(le, l.Args[0])
				} else if cs[i] == -1 {
					ge = append(ge, l.Args[0])
				}
			}
		}
	}
	for _, a := range le {
		for _, b := range ge {
			if s := Add(a, b); s.Op == OIntC && s.N == 0 {
				n := Sub(K, a) // a = K - n
				return x.substState(st, fr, K, n)
			}
		}
	}
	// n == 0 style exits: K - 0 >= ... handled by the solver
	return st, fr
}

func (x *Exec) substState(st *State, fr *Frame, K, n *Term) (*State, *Frame) {
	m := map[*Term]*Term{K: n}
	s2 := st.clone()
	s2.pc = nil
	s2.pcset = map[*Term]bool{}
	s2.tags = map[*Term]string{}
	for _, p := range st.pc {
		s2.assume(Subst(p, m))
	}
	for k, c := range s2.cells {
		c.val = Subst(c.val, m)
		s2.cells[k] = c
	}
	for s, ws := range s2.heap {
		var out []hwrite
		for _, w := range ws {
			out = append(out, hwrite{Subst(w.ref, m), Subst(w.val, m)})
		}
		s2.heap[s] = out
	}
	ow := map[*Term]bool{}
	for t, b := range s2.owned {
		ow[Subst(t, m)] = b
	}
	s2.owned = ow
	f2 := fr.clone()
	var sv func(v Val) Val
	sv = func(v Val) Val {
		switch v := v.(type) {
		case *Term:
			return Subst(v, m)
		case Tuple:
			o := make(Tuple, len(v))
			for i := range v {
				o[i] = sv(v[i])
			}
			return o
		case Addr:
			a := v
			if a.snap != nil {
				a.snap = Subst(a.snap, m)
			}
			if a.base != nil {
				a.base = Subst(a.base, m)
			}
			a.path = nil
			for _, p := range v.path {
				if p.idx != nil {
					p.idx = Subst(p.idx, m)
				}
				a.path = append(a.path, p)
			}
			return a
		}
		return v
	}
	for k, v := range f2.env {
		f2.env[k] = sv(v)
	}
	return s2, f2
}

// ---------------------------------------------------------------- candidates

type tmplRec struct {
	t *Term // application of a recursive spec function
}

func (x *Exec) templates() (recs []*Term, quants []*Term) {
	if x.pool == nil {
		return
	}
	seenR := map[string]bool{}
	seenQ := map[*Term]bool{}
	collect(*x.pool, func(t *Term) {
		if t.Op == OApp && t.F.Rec != nil && !t.hasBound {
			key := t.F.Name
			for i, a := range t.Args[:len(t.Args)-1] {
				if i == t.F.Rec.StateArg {
					continue
				}
				key += fmt.Sprintf(",%d", a.ID)
			}
			if !seenR[key] {
				seenR[key] = true
				recs = append(recs, t)
			}
		}
		if (t.Op == OExists || t.Op == OForall) && !t.hasOuterBound() && !seenQ[t] {
			seenQ[t] = true
			quants = append(quants, t)
		}
	})
	return
}

func (t *Term) hasOuterBound() bool {
	// bound variables other than its own
	own := t.Args[0]
	found := false
	collect([]*Term{t.Args[1]}, func(u *Term) {
		if u.Op == OBound && u != own && u.N < own.N {
			found = true
		}
	})
	return found
}

// quantAt replaces the range bound n of a quantifier by k.
func quantAt(q *Term, k *Term) *Term {
	b := q.Args[0]
	body := q.Args[1]
	op := OAnd
	if q.Op == OForall {
		op = OOr
	}
	parts := []*Term{body}
	if body.Op == op {
		parts = body.Args
	}
	var rest []*Term
	hit := false
	for _, p := range parts {
		lit := p
		if q.Op == OForall {
			lit = Not(p)
		}
		if lit.Op == OLe0 && !hit {
			ts, cs, _ := linOf(lit.Args[0])
			for i, t := range ts {
				if t == b && cs[i] == 1 {
					hit = true
				}
			}
			if hit {
				continue
			}
		}
		rest = append(rest, p)
	}
	if !hit {
		return nil
	}
	lt := Lt(b, k)
	if k.Op == OIntC && k.N == 0 {
		lt = False
	}
	if q.Op == OExists {
		if lt == False {
			return False
		}
		return Exists(b, And(append([]*Term{lt}, rest...)...))
	}
	if lt == False {
		return True
	}
	return Forall(b, Or(append([]*Term{Not(lt)}, rest...)...))
}

func (x *Exec) candidates(st *State, s *slot) []cand {
	var out []cand
	recs, quants := x.templates()
	for _, t := range recs {
		t := t
		at := func(k *Term) *Term {
			args := append([]*Term{}, t.Args...)
			args[len(args)-1] = k
			return x.e.recApp(t.F, args)
		}
		if t.F.Rec.StateArg >= 0 {
			if t.Sort == s.sort {
				out = append(out, cand{"state " + t.F.Name, func(k *Term) *Term {
					args := append([]*Term{}, t.Args...)
					args[len(args)-1] = k
					args[t.F.Rec.StateArg] = s.init
					return x.e.recApp(t.F, args)
				}})
			}
			continue
		}
		if t.Sort != s.sort {
			continue
		}
		if t.Sort.K == SSeq {
			out = append(out, cand{"append " + t.F.Name, func(k *Term) *Term { return SeqConcat(s.sort, s.init, at(k)) }})
			if t.F.Rec.LenK {
				out = append(out, cand{"fill " + t.F.Name, func(k *Term) *Term {
					return SeqConcat(s.sort, at(k), SeqExtract(s.init, k, Sub(SeqLen(s.init), k)))
				}})
			}
		} else if t.Sort == Str {
			out = append(out, cand{"concat " + t.F.Name, func(k *Term) *Term { return Concat(s.init, at(k)) }})
		}
		out = append(out, cand{"fold " + t.F.Name, at})
	}
	if s.sort.K == SSeq && s.kind == slotCell {
		// element-wise copies: prefix of another list of the same sort
		var plain, behind []cand
		seqs := x.poolSeqs(s.sort)
		for _, t := range seqs {
			t := t
			plain = append(plain, cand{"copy", func(k *Term) *Term {
				return SeqConcat(s.sort, SeqExtract(t, IntC(0), k), SeqExtract(s.init, k, Sub(SeqLen(s.init), k)))
			}})
			// the same behind a prefix of the length of yet another list
			for _, u := range seqs {
				off := SeqLen(u)
				if u == t || off.Op == OIntC {
					continue
				}
				behind = append(behind, cand{"copyat", func(k *Term) *Term {
					at := Add(off, k)
					return SeqConcat(s.sort, SeqExtract(s.init, IntC(0), off), SeqExtract(t, IntC(0), k), SeqExtract(s.init, at, Sub(SeqLen(s.init), at)))
				}})
			}
		}
		if s.init.Op == OApp {
			out = append(append(out, plain...), behind...)
		} else {
			out = append(append(out, behind...), plain...)
		}
	}
	if s.sort.K == SSeq && s.kind == slotPhi {
		for _, t := range x.poolSeqs(s.sort) {
			t := t
			out = append(out, cand{"appendcopy", func(k *Term) *Term {
				return SeqConcat(s.sort, s.init, SeqExtract(t, IntC(0), k))
			}})
		}
	}
	if s.sort == Bool {
		for _, q := range quants {
			q := q
			out = append(out, cand{"quant", func(k *Term) *Term { return quantAt(q, k) }})
			out = append(out, cand{"nquant", func(k *Term) *Term {
				r := quantAt(q, k)
				if r == nil {
					return nil
				}
				return Not(r)
			}})
		}
	}
	if s.sort == Str {
		out = append(out, x.strCands(st, s)...)
	}
	if s.sort == x.e.builderSort() {
		// a strings.Builder: what its text may be
		text := &slot{kind: s.kind, sort: Str, init: Sel(s.init, 0)}
		for _, c := range x.candidates(st, text) {
			c := c
			if c.name == "const" {
				continue
			}
			out = append(out, cand{c.name, func(k *Term) *Term {
				if v := c.f(k); v != nil {
					return Mk(s.sort, v)
				}
				return nil
			}})
		}
	}
	if s.sort.K == SStruct && s.sort != x.e.builderSort() && len(recs) > 0 {
		// one field collects, the others stay
		for i := range s.sort.Fields {
			i := i
			use := false
			for _, t := range recs {
				use = use || t.Sort == s.sort.Fields[i] && t.F.Rec.StateArg < 0
			}
			if !use {
				continue
			}
			field := &slot{kind: slotPhi, sort: s.sort.Fields[i], init: Sel(s.init, i)}
			for _, c := range x.candidates(st, field) {
				c := c
				if c.name == "const" || c.name == "appendcopy" {
					continue
				}
				out = append(out, cand{"field " + c.name, func(k *Term) *Term {
					v := c.f(k)
					if v == nil {
						return nil
					}
					args := make([]*Term, len(s.sort.Fields))
					for j := range args {
						args[j] = Sel(s.init, j)
					}
					args[i] = v
					return Mk(s.sort, args...)
				}})
			}
		}
	}
	out = append(out, cand{"const", func(k *Term) *Term { return s.init }})
	return out
}

// poolSeqs lists input sequences of a sort that a loop may be copying
func (x *Exec) poolSeqs(s *Sort) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.Sort == s && !seen[t] && (t.Op == OVar || t.Op == OSel || t.Op == OSeqExtract) && len(out) < 6 && !t.hasBound {
			seen[t] = true
			out = append(out, t)
		}
	}
	var fields func(t *Term, d int)
	fields = func(t *Term, d int) {
		add(t)
		if t.Sort.K == SStruct && d > 0 {
			for i := range t.Sort.Fields {
				if f := Sel(t, i); f.Sort.K == SSeq || f.Sort.K == SStruct {
					fields(f, d-1)
				}
			}
		}
	}
	for _, t := range x.e.entryTerms {
		fields(t, 2)
	}
	if x.pool != nil {
		collect(*x.pool, add)
	}
	return out
}

func (x *Exec) predCandidates(st *State) []pred {
	var out []pred
	_, quants := x.templates()
	for _, q := range quants {
		q := q
		if quantAt(q, IntC(1)) == nil {
			continue
		}
		for _, neg := range []bool{true, false} {
			neg := neg
			out = append(out, pred{name: "quant", f: func(k *Term) *Term {
				r := quantAt(q, k)
				if neg {
					return Not(r)
				}
				return r
			}})
		}
	}
	return out
}

// ---------------------------------------------------------------- recursive spec functions

type RecFn struct {
	fn       *ssa.Function
	decl     *FuncDecl
	LenK     bool
	opaque   map[string]bool // of the file of the definition
	StateArg int             // index of the renderer-content argument, or -1
	PtrParam int             // index of the pointer parameter, or -1
}

func (e *Engine) declareRec(fn *ssa.Function, lenK bool, opaque map[string]bool) {
	rf := &RecFn{fn: fn, LenK: lenK, opaque: opaque, StateArg: -1, PtrParam: -1}
	var as []*Sort
	var ret *Sort
	for i, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && strings.HasSuffix(typeName(p.Type()), "CypherRenderer") {
			rf.StateArg = i
			rf.PtrParam = i
			as = append(as, e.sortOf(pt.Elem()))
			ret = e.sortOf(pt.Elem())
			continue
		}
		as = append(as, e.sortOf(p.Type()))
	}
	if fn.Signature.Results().Len() == 1 {
		ret = e.sortOf(fn.Signature.Results().At(0).Type())
	}
	rf.decl = UF("rec_"+fn.Name(), ret, as...)
	rf.decl.Rec = rf
	e.recs[fn] = rf
}

// recApp builds an application, unfolding literal iteration counts.
func (e *Engine) recApp(f *FuncDecl, args []*Term) *Term {
	k := args[len(args)-1]
	if k.Op == OIntC && k.N <= 12 {
		t := App(f, args...)
		if r := e.recBody(t); r != nil {
			return r
		}
		return t
	}
	return App(f, args...)
}

func (x *Exec) callRec(st *State, rf *RecFn, args []Val, pos interface{}, k Kont) {
	var ts []*Term
	var addr Addr
	for i, a := range args {
		if i == rf.PtrParam {
			addr = x.asAddr(st, a, rf.fn.Params[i].Type())
			ts = append(ts, x.term(st, x.load(st, addr, nil)))
			continue
		}
		ts = append(ts, x.termAs(st, a, rf.decl.Args[i]))
	}
	r := x.e.recApp(rf.decl, ts)
	if x.pool != nil && x.inSpec > 0 {
		*x.pool = append(*x.pool, r)
	}
	if rf.PtrParam >= 0 {
		x.storeRefAddr(st, addr, r)
		k(st, nil)
		return
	}
	k(st, []Val{x.rich(st, r)})
}

func (x *Exec) storeRefAddr(st *State, a Addr, v *Term) {
	if a.base == nil {
		x.unsupported(st, "store through snapshot in specification")
		return
	}
	s := x.e.sortOf(a.root)
	if a.base.Op == OFreshRef {
		s = st.cells[a.base.N].val.Sort
	}
	x.storeRef(st, a.base, inject(x.loadRef(st, a.base, s), a.path, v))
}

// recBody evaluates the defining equation of an application.
func (e *Engine) recBody(t *Term) *Term {
	if r, ok := e.recMemo[t]; ok {
		return r
	}
	rf := t.F.Rec
	why := ""
	x := &Exec{e: e, name: "rec", quiet: 1, unsupp: &why, noContract: map[*ssa.Function]bool{}, inSpec: 1, ignorePanics: true, opaque: rf.opaque}
	st := NewState()
	var args []Val
	var ptr *Term
	for i, a := range t.Args {
		if i == rf.PtrParam {
			ptr = x.alloc(st, "renderer", a)
			args = append(args, Addr{base: ptr, root: deref(rf.fn.Params[i].Type())})
			continue
		}
		args = append(args, a)
	}
	var outs []Outcome
	x.callFn(st, rf.fn, args, nil, func(s *State, res []Val) { outs = append(outs, Outcome{s, res}) })
	var r *Term
	for j := len(outs) - 1; j >= 0; j-- {
		var v *Term
		if ptr != nil {
			v = outs[j].st.cells[ptr.N].val
		} else {
			v = x.term(outs[j].st, outs[j].res[0])
		}
		if r == nil {
			r = v
		} else {
			r = Ite(And(outs[j].st.pc...), v, r)
		}
	}
	if why != "" {
		// a path without a meaning: no equation
		if loopDebug {
			fmt.Fprintln(os.Stderr, "recBody:", t.F.Name, why)
		}
		r = nil
	}
	e.recMemo[t] = r
	return r
}

func (e *Engine) unfoldRec(t *Term) *Term {
	r := e.recBody(t)
	if r == nil {
		return nil
	}
	return Eq(t, r)
}
