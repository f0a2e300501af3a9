package main

import (
	"fmt"
	"strconv"
	"strings"
)

type backEdge struct {
	st   *State
	phis []Val
}

var shapeN int

// shapePreds proposes invariants from what one arbitrary iteration does:
//   - the length of a list that is filled or appended to,
//   - the elements put in by earlier iterations,
//   - the conditions under which earlier iterations reached the next one.
//
// Each is only a proposal: it is kept when it holds initially and is preserved.
func (x *Exec) shapePreds(st *State, slots []*slot, backs []backEdge, K *Term) []pred {
	if len(backs) == 0 || len(backs) > 24 {
		return nil
	}
	var out []pred
	if len(backs) > 1 {
		var live []backEdge
		for _, b := range backs {
			if !x.e.proveQuick(b.st.pc, False) {
				live = append(live, b)
			}
		}
		backs = live
		if len(backs) == 0 {
			return nil
		}
	}
	fresh := map[*Term]bool{}
	for _, s := range slots {
		if s.affine == nil && s.fresh != nil {
			fresh[s.fresh] = true
		}
	}
	mentions := func(t *Term) bool {
		hit := false
		collect([]*Term{t}, func(u *Term) {
			if fresh[u] || u.Op == OFreshRef && st.cells[u.N].val == nil {
				hit = true
			}
		})
		return hit
	}
	// conditions of each iteration that do not speak of loop-carried values
	common := map[*Term]int{}
	for _, b := range backs {
		for _, c := range b.st.pc[min(len(st.pc), len(b.st.pc)):] {
			common[c]++
		}
	}
	var shared []*Term
	conds := make([]*Term, len(backs))
	for i, b := range backs {
		var cs []*Term
		for _, c := range b.st.pc[min(len(st.pc), len(b.st.pc)):] {
			if c.hasBound || mentions(c) || keyAfter(c, K) {
				continue
			}
			if common[c] == len(backs) {
				if i == 0 {
					shared = append(shared, c)
				}
				continue
			}
			cs = append(cs, c)
		}
		if len(cs) > 14 {
			cs = cs[:14]
		}
		conds[i] = And(cs...)
	}
	at := func(t, b *Term) *Term { return Subst(t, map[*Term]*Term{K: b}) }
	bv := func() *Term { return Bound(60+x.e.qdepth, Int) }
	all := And(append(shared, Or(conds...))...)
	if all != True && all != False {
		out = append(out, pred{name: "earlier iterations passed", f: func(k *Term) *Term {
			b := bv()
			return Forall(b, Or(Lt(b, IntC(0)), Not(Lt(b, k)), at(all, b)))
		}})
	}
	for _, s := range slots {
		s := s
		if s.affine != nil || s.fresh == nil {
			continue
		}
		if s.sort == IfaceS {
			out = append(out, pred{name: "not nil", s: s, g: func(v, k *Term) *Term { return Not(IsNil(v)) }})
			continue
		}
		if s.sort.K != SSeq {
			continue
		}
		out = append(out, pred{name: "same length", s: s, g: func(v, k *Term) *Term { return Eq(SeqLen(v), SeqLen(s.init)) }})
		out = append(out, pred{name: "grows by one", s: s, g: func(v, k *Term) *Term { return Eq(SeqLen(v), Add(SeqLen(s.init), k)) }})
		if init := s.init; init != nil && SeqLen(init) != IntC(0) {
			out = append(out, pred{name: "what was there stays", s: s, g: func(v, k *Term) *Term {
				var fs []*Term
				i := 0
				for _, p := range seqParts(init) {
					if p.Op != OSeqUnit {
						break
					}
					fs = append(fs, Eq(SeqNth(v, IntC(int64(i))), p.Args[0]))
					i++
				}
				if SeqLen(init) != IntC(int64(i)) {
					b := bv()
					fs = append(fs, Forall(b, Or(Lt(b, IntC(0)), Not(Lt(b, SeqLen(init))), Eq(SeqNth(v, b), SeqNth(init, b)))))
				}
				return And(append(fs, Not(Lt(SeqLen(v), SeqLen(init))))...)
			}})
		}
		if s.sort.Elem == IfaceS {
			out = append(out, pred{name: "no nil elements", s: s, g: func(v, k *Term) *Term {
				b := bv()
				return Forall(b, Or(Lt(b, IntC(0)), Not(Lt(b, SeqLen(v))), Not(IsNil(SeqNth(v, b)))))
			}})
		}
		// elements
		var elems []*Term
		var cds []*Term
		var off, fillOff *Term
		ok := true
		shapeN++
		id := shapeN
		keys := func(t, k *Term) *Term {
			n := 0
			m := map[*Term]*Term{}
			var visit func(u *Term)
			seen := map[*Term]bool{}
			visit = func(u *Term) {
				if seen[u] || !u.hasFreshKey {
					return
				}
				seen[u] = true
				if u.Op == OFreshKey && u.N > numberOf(K) {
					m[u] = App(UF(fmt.Sprintf("iterkey_%d_%d", id, n), Str, Int), k)
					n++
					return
				}
				for _, a := range u.Args {
					visit(a)
				}
			}
			visit(t)
			if n == 0 {
				return t
			}
			return Subst(t, m)
		}
		for i, b := range backs {
			now := x.slotNow(b.st, s, b.phis)
			var el, o *Term
			switch {
			case now.Op == OSeqUpdate && now.Args[0] == s.fresh:
				el, o = now.Args[2], Sub(now.Args[1], K)
			case now.Op == OSeqConcat && len(now.Args) == 2 && now.Args[0] == s.fresh && now.Args[1].Op == OSeqUnit:
				el, o = now.Args[1].Args[0], SeqLen(s.init)
			}
			if el != nil && o != nil {
				dep := false
				collect([]*Term{o}, func(u *Term) { dep = dep || u == K || fresh[u] })
				if !dep {
					fillOff = o
				}
			}
			if el == nil || mentions(el) || el.hasBound || o == nil || (off != nil && off != o) {
				ok = false
				break
			}
			dep := false
			collect([]*Term{o}, func(u *Term) { dep = dep || u == K || fresh[u] })
			if dep {
				ok = false
				break
			}
			off = o
			elems = append(elems, keys(el, K))
			cds = append(cds, conds[i])
		}
		if fillOff != nil && s.sort.Elem == IfaceS {
			fo := fillOff
			out = append(out, pred{name: "no nil elements so far", s: s, g: func(v, k *Term) *Term {
				b := bv()
				return Forall(b, Or(Lt(b, IntC(0)), Not(Lt(b, k)), Not(IsNil(SeqNth(v, Add(fo, b))))))
			}})
		}
		if !ok || off == nil {
			continue
		}
		off0 := off
		out = append(out, pred{name: "elements", s: s, keys: keys, g: func(v, k *Term) *Term {
			b := bv()
			var alts []*Term
			for i := range elems {
				if i > 0 && elems[i] == elems[0] && len(cds) == 2 {
					continue
				}
				c := True
				if len(elems) > 1 {
					c = at(cds[i], b)
				}
				alts = append(alts, And(c, Eq(SeqNth(v, Add(off0, b)), at(elems[i], b))))
			}
			return Forall(b, Or(Lt(b, IntC(0)), Not(Lt(b, k)), Or(alts...)))
		}})
	}
	return out
}

func numberOf(k *Term) int64 {
	n, _ := strconv.ParseInt(k.S[strings.LastIndexByte(k.S, '!')+1:], 10, 64)
	return n
}

// keyAfter: does the term mention a key made after the variable.
func keyAfter(t, k *Term) bool {
	if !t.hasFreshKey {
		return false
	}
	hit := false
	n := numberOf(k)
	collect([]*Term{t}, func(u *Term) { hit = hit || u.Op == OFreshKey && u.N > n })
	return hit
}
