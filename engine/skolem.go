package main

import "fmt"

var skolemN int

// instantiate removes the outer universal quantifiers of the goal and the outer
// existential ones of the assumptions (fresh constants), and adds the instances of
// the remaining quantifiers at those constants, so that the background axioms,
// which are instantiated on ground terms only, apply to them.
func instantiate(assume []*Term, goal *Term) ([]*Term, *Term) {
	as, g := instantiate1(assume, goal)
	ts := expandNth(append(append([]*Term{}, as...), g))
	return ts[:len(ts)-1], ts[len(ts)-1]
}

func instantiate1(assume []*Term, goal *Term) ([]*Term, *Term) {
	var sks []*Term
	fresh := func() *Term {
		skolemN++
		s := Var(fmt.Sprintf("sk!%d", skolemN), Int)
		sks = append(sks, s)
		return s
	}
	inst := func(q, at *Term) *Term { return Subst(q.Args[1], map[*Term]*Term{q.Args[0]: at}) }
	has := false
	for _, a := range append(append([]*Term{}, assume...), goal) {
		if a.hasBound {
			has = true
		}
	}
	if !has {
		return assume, goal
	}
	var parts func(t *Term) []*Term
	parts = func(t *Term) []*Term {
		if t.Op == OOr {
			var out []*Term
			for _, a := range t.Args {
				out = append(out, parts(a)...)
			}
			return out
		}
		return []*Term{t}
	}
	gs := parts(goal)
	var ng []*Term
	var ex []*Term
	// inside and/or as well
	var skG, skA func(t *Term) *Term
	skG = func(t *Term) *Term {
		switch {
		case !t.hasBound:
			return t
		case t.Op == OAnd || t.Op == OOr:
			fs := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				fs[i] = skG(a)
			}
			if t.Op == OAnd {
				return And(fs...)
			}
			return Or(fs...)
		case t.Op == OForall:
			s := fresh()
			return Or(Lt(s, IntC(0)), inst(t, s))
		case t.Op == ONot && t.Args[0].Op == OExists:
			s := fresh()
			return Or(Lt(s, IntC(0)), Not(inst(t.Args[0], s)))
		}
		return t
	}
	skA = func(t *Term) *Term {
		switch {
		case !t.hasBound:
			return t
		case t.Op == OAnd || t.Op == OOr:
			fs := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				fs[i] = skA(a)
			}
			if t.Op == OAnd {
				return And(fs...)
			}
			return Or(fs...)
		case t.Op == OExists:
			s := fresh()
			return And(Le(IntC(0), s), inst(t, s))
		case t.Op == ONot && t.Args[0].Op == OForall:
			s := fresh()
			return And(Le(IntC(0), s), Not(inst(t.Args[0], s)))
		}
		return t
	}
	for _, g := range gs {
		switch {
		case g.Op == OAnd:
			ng = append(ng, skG(g))
		case g.Op == OForall:
			s := fresh()
			ng = append(ng, Lt(s, IntC(0)), inst(g, s))
		case g.Op == ONot && g.Args[0].Op == OExists:
			s := fresh()
			ng = append(ng, Lt(s, IntC(0)), Not(inst(g.Args[0], s)))
		case g.Op == OExists:
			ex = append(ex, g)
			ng = append(ng, g)
		case g.Op == ONot && g.Args[0].Op == OForall:
			ng = append(ng, g)
			ex = append(ex, g)
		default:
			ng = append(ng, g)
		}
	}
	var na, all []*Term
	var conj func(t *Term)
	conj = func(t *Term) {
		if t.Op == OAnd {
			for _, a := range t.Args {
				conj(a)
			}
			return
		}
		switch {
		case t.Op == OExists:
			s := fresh()
			na = append(na, Le(IntC(0), s), inst(t, s))
		case t.Op == ONot && t.Args[0].Op == OForall:
			s := fresh()
			na = append(na, Le(IntC(0), s), Not(inst(t.Args[0], s)))
		case t.Op == OForall || t.Op == ONot && t.Args[0].Op == OExists:
			all = append(all, t)
			na = append(na, t)
		case t.Op == OOr:
			na = append(na, skA(t))
		default:
			na = append(na, t)
		}
	}
	for _, a := range assume {
		conj(a)
	}
	if len(sks) > 6 {
		sks = sks[:6]
	}
	for _, t := range all {
		q := t
		if t.Op == ONot {
			q = t.Args[0]
		}
		var at []*Term
		for _, c := range append([]int64{0}, offsets(q)...) {
			for _, s := range sks {
				at = append(at, Sub(s, IntC(c)))
			}
		}
		at = append(at, lasts(q)...)
		for _, s := range at {
			if t.Op == OForall {
				na = append(na, Or(Lt(s, IntC(0)), inst(t, s)))
			} else {
				na = append(na, Or(Lt(s, IntC(0)), Not(inst(t.Args[0], s))))
			}
		}
	}
	for _, t := range ex {
		q := t
		if t.Op == ONot {
			q = t.Args[0]
		}
		for _, s := range append(append([]*Term{}, sks...), lasts(q)...) {
			if t.Op == OExists {
				ng = append(ng, And(Le(IntC(0), s), inst(t, s)))
			} else {
				ng = append(ng, And(Le(IntC(0), s), Not(inst(t.Args[0], s))))
			}
		}
	}
	return na, Or(ng...)
}

// expandNth replaces the elements of joined and updated sequences by the elements
// of their parts, so that the solvers need no sequence reasoning for them.
func expandNth(ts []*Term) []*Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	var at func(s, i *Term) *Term
	at = func(s, i *Term) *Term {
		switch s.Op {
		case OSeqUpdate:
			return Ite(Eq(s.Args[1], i), s.Args[2], at(s.Args[0], i))
		case OSeqConcat:
			n := len(s.Args)
			if n > 6 {
				break
			}
			offs := make([]*Term, n)
			off := i
			for k, p := range s.Args {
				offs[k] = off
				off = Sub(off, SeqLen(p))
			}
			r := at(s.Args[n-1], offs[n-1])
			for k := n - 2; k >= 0; k-- {
				r = Ite(Lt(offs[k], SeqLen(s.Args[k])), at(s.Args[k], offs[k]), r)
			}
			return r
		case OIte:
			return Ite(s.Args[0], at(s.Args[1], i), at(s.Args[2], i))
		}
		return SeqNth(s, i)
	}
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if t.Op == OSeqNth {
			r = at(args[0], args[1])
		} else if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = rec(t)
	}
	return out
}

// offsets are the constants c other than 0 for which the quantified formula speaks
// of the element at index b+c.
func offsets(q *Term) []int64 {
	var out []int64
	b := q.Args[0]
	collectAll(q.Args[1], func(t *Term) {
		if t.Op != OSeqNth || !t.Args[1].hasBound {
			return
		}
		ts, cs, c := linOf(t.Args[1])
		if c == 0 || len(ts) != 1 || ts[0] != b || cs[0] != 1 || len(out) > 2 {
			return
		}
		for _, o := range out {
			if o == c {
				return
			}
		}
		out = append(out, c)
	})
	return out
}

// lasts are the greatest values the bounds in the quantified formula leave to its variable.
func lasts(q *Term) []*Term {
	var out []*Term
	b := q.Args[0]
	var visit func(t *Term)
	visit = func(t *Term) {
		if t.Op == OOr || t.Op == OAnd {
			for _, a := range t.Args {
				visit(a)
			}
			return
		}
		if t.Op != OLe0 || len(out) > 1 {
			return
		}
		ts, cs, c := linOf(t.Args[0])
		rest := IntC(c)
		hit := false
		for i := range ts {
			if ts[i] == b {
				if cs[i] != -1 {
					return
				}
				hit = true
				continue
			}
			if ts[i].hasBound {
				return
			}
			rest = Add(rest, Scale(ts[i], cs[i]))
		}
		if hit && !rest.isConst() {
			out = append(out, Sub(rest, IntC(1)))
		}
	}
	visit(q.Args[1])
	return out
}

// collectAll visits every subterm, below quantifiers as well.
func collectAll(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}
