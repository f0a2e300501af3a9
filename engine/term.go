package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SStr
	SIface
	SRef
	SStruct
	SSeq
	SMap
	SOpt
	SOpaque
)

type Sort struct {
	K      SortKind
	Name   string // struct / opaque name
	Elem   *Sort
	Key    *Sort
	Fields []*Sort
	FNames []string
	Go     any // types.Type for structs
}

var (
	sorts  = map[string]*Sort{}
	Bool   = mkSort(&Sort{K: SBool})
	Int    = mkSort(&Sort{K: SInt})
	Str    = mkSort(&Sort{K: SStr})
	IfaceS = mkSort(&Sort{K: SIface})
	RefS   = mkSort(&Sort{K: SRef})
)

func (s *Sort) key() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SStr:
		return "String"
	case SIface:
		return "Iface"
	case SRef:
		return "Ref"
	case SStruct:
		return "S_" + s.Name
	case SSeq:
		return "(Seq " + s.Elem.key() + ")"
	case SMap:
		return "(Array " + s.Key.key() + " " + optOf(s.Elem).key() + ")"
	case SOpt:
		return "Opt_" + mangle(s.Elem.key())
	case SOpaque:
		return "O_" + s.Name
	}
	panic("sort")
}

func (s *Sort) String() string { return s.key() }

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
		} else if c == '.' || c == '/' || c == '-' || c == '*' || c == '(' || c == ')' || c == ' ' || c == '[' || c == ']' {
			b.WriteRune('_')
		} else {
			fmt.Fprintf(&b, "x%x", c)
		}
	}
	return b.String()
}

func mkSort(s *Sort) *Sort {
	k := s.key()
	if o, ok := sorts[k]; ok {
		return o
	}
	sorts[k] = s
	return s
}
func seqOf(e *Sort) *Sort      { return mkSort(&Sort{K: SSeq, Elem: e}) }
func optOf(e *Sort) *Sort      { return mkSort(&Sort{K: SOpt, Elem: e}) }
func mapOf(k, e *Sort) *Sort   { return mkSort(&Sort{K: SMap, Key: k, Elem: e}) }
func opaque(name string) *Sort { return mkSort(&Sort{K: SOpaque, Name: mangle(name)}) }

// ---------------------------------------------------------------- terms

type Op int

const (
	OTrue Op = iota
	OFalse
	ONot
	OAnd
	OOr
	OEq
	OIte
	OIntC
	OLin // linear sum: args a_i with coefs; Int const
	OLe0 // lin <= 0
	OMul
	OStrC
	OConcat
	OVar
	OBound
	OApp // uninterpreted or builtin function
	OMk
	OSel
	OBox
	OUnbox
	OTag
	ONil // nil iface
	ONull
	OFreshRef
	OFreshKey
	OSeqEmpty
	OSeqUnit
	OSeqConcat
	OSeqLen
	OSeqNth
	OSeqExtract
	OSeqUpdate
	OMapEmpty
	OMapStore
	OSelect
	ONone
	OSome
	OIsSome
	OOptVal
	OExists
	OForall
)

type FuncDecl struct {
	Name    string
	Args    []*Sort
	Ret     *Sort
	Builtin bool
	Rec     *RecFn // set for recursive specification functions
	Method  string // interface method name for method UFs
}

type Term struct {
	Op          Op
	Args        []*Term
	Coefs       []int64
	N           int64
	S           string
	F           *FuncDecl
	Sort        *Sort
	ID          int
	hasFreshKey bool
	raw         bool // an unknown list that began as a made one
	hasBound    bool
	neg         *Term // its negation, once computed
}

var (
	termTab   = map[string]*Term{}
	nterms    int
	internBuf []byte
)

func intern(t *Term) *Term {
	b := internBuf[:0]
	b = strconv.AppendInt(b, int64(t.Op), 10)
	for _, a := range t.Args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.ID), 10)
	}
	for _, c := range t.Coefs {
		b = append(b, 'c')
		b = strconv.AppendInt(b, c, 10)
	}
	b = append(b, '#')
	b = strconv.AppendInt(b, t.N, 10)
	b = append(b, '|')
	if t.F != nil {
		b = append(b, t.F.Name...)
	}
	b = append(b, '|')
	b = append(b, t.Sort.key()...)
	b = append(b, '|')
	b = append(b, t.S...)
	internBuf = b
	if o, ok := termTab[string(b)]; ok {
		return o
	}
	k := string(b)
	nterms++
	t.ID = nterms
	t.hasFreshKey = t.Op == OFreshKey
	t.hasBound = t.Op == OBound
	for _, a := range t.Args {
		t.hasFreshKey = t.hasFreshKey || a.hasFreshKey
		t.hasBound = t.hasBound || a.hasBound
	}
	termTab[k] = t
	return t
}

func mk(op Op, s *Sort, args ...*Term) *Term { return intern(&Term{Op: op, Args: args, Sort: s}) }

var (
	True  = mk(OTrue, Bool)
	False = mk(OFalse, Bool)
	NilI  = mk(ONil, IfaceS)
	Null  = mk(ONull, RefS)
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntC(n int64) *Term          { return intern(&Term{Op: OIntC, N: n, Sort: Int}) }
func StrC(s string) *Term         { return intern(&Term{Op: OStrC, S: s, Sort: Str}) }
func Var(n string, s *Sort) *Term { return intern(&Term{Op: OVar, S: n, Sort: s}) }
func Bound(n int, s *Sort) *Term {
	return intern(&Term{Op: OBound, N: int64(n), S: "b" + strconv.Itoa(n), Sort: s})
}

var freshCtr int

func Fresh(prefix string, s *Sort) *Term {
	freshCtr++
	return Var(prefix+"!"+strconv.Itoa(freshCtr), s)
}
func FreshRef(tn string) *Term {
	freshCtr++
	return intern(&Term{Op: OFreshRef, N: int64(freshCtr), S: tn, Sort: RefS})
}

// a fresh, never used before element key; in comparisons all of them are the same
func FreshKey() *Term {
	freshCtr++
	return intern(&Term{Op: OFreshKey, N: int64(freshCtr), Sort: Str})
}

var anyKey = intern(&Term{Op: OFreshKey, N: 0, Sort: Str})

func (t *Term) isConst() bool {
	return t.Op == OIntC || t.Op == OStrC || t.Op == OTrue || t.Op == OFalse
}

func Not(a *Term) *Term {
	if a.neg == nil {
		a.neg = not(a)
	}
	return a.neg
}

func not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.Args[0]
	case OLe0: // not (l <= 0)  ==  l >= 1 == -l+1 <= 0
		return Le0(Add(Scale(a.Args[0], -1), IntC(1)))
	case OAnd:
		xs := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			xs[i] = Not(x)
		}
		return Or(xs...)
	case OOr:
		xs := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			xs[i] = Not(x)
		}
		return And(xs...)
	case OExists:
		return intern(&Term{Op: OForall, Args: []*Term{a.Args[0], Not(a.Args[1])}, Sort: Bool})
	case OForall:
		return intern(&Term{Op: OExists, Args: []*Term{a.Args[0], Not(a.Args[1])}, Sort: Bool})
	}
	return mk(ONot, Bool, a)
}

func nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero || seen[Not(x)] {
			return false
		}
		if x.Op == op {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk(op, Bool, out...)
}
func And(xs ...*Term) *Term { return nary(OAnd, True, False, xs) }
func Or(xs ...*Term) *Term {
	r := nary(OOr, False, True, xs)
	if r.Op != OOr {
		return r
	}
	// absorption: (A and not x) or x  ->  A or x
	lit := map[*Term]bool{}
	for _, x := range r.Args {
		if x.Op != OAnd {
			lit[x] = true
		}
	}
	if len(lit) > 0 {
		changed := false
		out := []*Term{}
		for _, x := range r.Args {
			if x.Op == OAnd {
				keep := []*Term{}
				absorbed := false
				for _, y := range x.Args {
					if lit[y] {
						absorbed = true
						break
					}
					if lit[Not(y)] {
						changed = true
						continue
					}
					keep = append(keep, y)
				}
				if absorbed {
					changed = true
					continue
				}
				out = append(out, And(keep...))
			} else {
				out = append(out, x)
			}
		}
		if changed {
			return Or(out...)
		}
	}
	return r
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == Bool {
		return Or(And(c, a), And(Not(c), b))
	}
	if a.Op == OIte && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == OIte && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if a.Op == OMk && b.Op == OMk && a.Sort == b.Sort {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = Ite(c, a.Args[i], b.Args[i])
		}
		return Mk(a.Sort, args...)
	}
	return mk(OIte, a.Sort, c, a, b)
}

// ---- integers

func linOf(t *Term) (ts []*Term, cs []int64, k int64) {
	switch t.Op {
	case OIntC:
		return nil, nil, t.N
	case OLin:
		return t.Args, t.Coefs, t.N
	}
	return []*Term{t}, []int64{1}, 0
}

func mkLin(m map[*Term]int64, k int64) *Term {
	var ts []*Term
	for t, c := range m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return IntC(k)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	if len(ts) == 1 && k == 0 && m[ts[0]] == 1 {
		return ts[0]
	}
	cs := make([]int64, len(ts))
	for i, t := range ts {
		cs[i] = m[t]
	}
	return intern(&Term{Op: OLin, Args: ts, Coefs: cs, N: k, Sort: Int})
}

func linComb(a *Term, ca int64, b *Term, cb int64) *Term {
	m := map[*Term]int64{}
	ts, cs, k := linOf(a)
	for i, t := range ts {
		m[t] += cs[i] * ca
	}
	k *= ca
	ts, cs, k2 := linOf(b)
	for i, t := range ts {
		m[t] += cs[i] * cb
	}
	return mkLin(m, k+k2*cb)
}
func Add(a, b *Term) *Term         { return linComb(a, 1, b, 1) }
func Sub(a, b *Term) *Term         { return linComb(a, 1, b, -1) }
func Scale(a *Term, c int64) *Term { return linComb(a, c, IntC(0), 0) }
func Mul(a, b *Term) *Term {
	if a.Op == OIntC {
		return Scale(b, a.N)
	}
	if b.Op == OIntC {
		return Scale(a, b.N)
	}
	return mk(OMul, Int, a, b)
}

// nonneg reports terms known to be >= 0
func nonneg(t *Term) bool {
	switch t.Op {
	case OSeqLen:
		return true
	case OApp:
		return t.F.Name == "str.len"
	case OVar:
		return strings.HasPrefix(t.S, "k!")
	case OBound:
		return true
	}
	return false
}

func Le0(l *Term) *Term {
	if l.Op == OIntC {
		return BoolT(l.N <= 0)
	}
	ts, cs, k := linOf(l)
	// decide by nonnegativity
	allNeg, allPos := true, true
	for i, t := range ts {
		if !nonneg(t) {
			allNeg, allPos = false, false
			break
		}
		if cs[i] > 0 {
			allNeg = false
		} else {
			allPos = false
		}
	}
	if allNeg && k <= 0 {
		return True
	}
	if allPos && k > 0 {
		return False
	}
	// len(x) <= 0  is  len(x) == 0
	if allPos && k == 0 && len(ts) == 1 {
		return Eq(ts[0], IntC(0))
	}
	// -len(x) + 1 <= 0 is  not len(x)==0
	if allNeg && k == 1 && len(ts) == 1 && cs[0] == -1 {
		return Not(Eq(ts[0], IntC(0)))
	}
	return mk(OLe0, Bool, l)
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(Add(Sub(a, b), IntC(1))) }

// ---- equality

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %v %v: %v = %v", a.Sort, b.Sort, a, b))
	}
	if a.Sort == Bool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	if a.Sort == Int {
		d := Sub(a, b)
		if d.Op == OIntC {
			return BoolT(d.N == 0)
		}
		ts, cs, k := linOf(d)
		allNeg, allPos := k <= 0, k >= 0
		for i, t := range ts {
			if !nonneg(t) {
				allNeg, allPos = false, false
			} else if cs[i] > 0 {
				allNeg = false
			} else {
				allPos = false
			}
		}
		if k != 0 && (allNeg || allPos) {
			return False
		}
		if k == 0 && (allNeg || allPos) && len(ts) > 1 {
			xs := []*Term{}
			for _, t := range ts {
				xs = append(xs, Eq(t, IntC(0)))
			}
			return And(xs...)
		}
	}
	if a.isConst() && b.isConst() {
		return False
	}
	if a.Op == OIte && (b.isConst() || b.Op == OMk || b.Op == OBox || b.Op == ONil || b.Op == OSeqEmpty || b.Op == ONull || b.Op == OFreshRef) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == OIte && (a.isConst() || a.Op == OMk || a.Op == OBox || a.Op == ONil || a.Op == OSeqEmpty || a.Op == ONull || a.Op == OFreshRef) {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	switch a.Sort.K {
	case SStr:
		if r := eqStr(a, b); r != nil {
			return r
		}
	case SStruct:
		if a.Op == OMk || b.Op == OMk {
			xs := []*Term{}
			for i := range a.Sort.Fields {
				xs = append(xs, Eq(Sel(a, i), Sel(b, i)))
			}
			return And(xs...)
		}
	case SIface:
		if a.Op == OBox && b.Op == OBox {
			if a.S != b.S {
				return False
			}
			return Eq(a.Args[0], b.Args[0])
		}
		if a.Op == OBox && b.Op == ONil || a.Op == ONil && b.Op == OBox {
			return False
		}
	case SRef:
		if a.Op == OFreshRef && b.Op != OIte || b.Op == OFreshRef && a.Op != OIte {
			return False
		}
	case SSeq:
		if r := eqSeq(a, b); r != nil {
			return r
		}
	case SOpt:
		if a.Op == OSome && b.Op == OSome {
			return Eq(a.Args[0], b.Args[0])
		}
		if a.Op == OSome && b.Op == ONone || a.Op == ONone && b.Op == OSome {
			return False
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OEq, Bool, a, b)
}

func eqStr(a, b *Term) *Term {
	if a.Op == OFreshKey || b.Op == OFreshKey {
		x, y := a, b
		if a.Op != OFreshKey {
			x, y = b, a
		}
		if x.N > 0 && !(y.Op == OFreshKey && y.N == 0) && y.Op != OIte && y.Op != OConcat {
			return False // a fresh key differs from every value that existed before and from constants
		}
	}
	pa, pb := strParts(a), strParts(b)
	// strip common prefix / suffix
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.Op == OStrC && y.Op == OStrC {
			n := 0
			for n < len(x.S) && n < len(y.S) && x.S[n] == y.S[n] {
				n++
			}
			if n < len(x.S) && n < len(y.S) {
				return False
			}
			changed = true
			pa = append([]*Term{}, pa...)
			pb = append([]*Term{}, pb...)
			if n == len(x.S) {
				pa = pa[1:]
			} else {
				pa[0] = StrC(x.S[n:])
			}
			if n == len(y.S) {
				pb = pb[1:]
			} else {
				pb[0] = StrC(y.S[n:])
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.Op == OStrC && y.Op == OStrC {
			n := 0
			for n < len(x.S) && n < len(y.S) && x.S[len(x.S)-1-n] == y.S[len(y.S)-1-n] {
				n++
			}
			if n < len(x.S) && n < len(y.S) {
				return False
			}
			changed = true
			pa = append([]*Term{}, pa...)
			pb = append([]*Term{}, pb...)
			if n == len(x.S) {
				pa = pa[:len(pa)-1]
			} else {
				pa[len(pa)-1] = StrC(x.S[:len(x.S)-n])
			}
			if n == len(y.S) {
				pb = pb[:len(pb)-1]
			} else {
				pb[len(pb)-1] = StrC(y.S[:len(y.S)-n])
			}
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return True
	}
	if len(pa) == 0 || len(pb) == 0 {
		rest := pa
		if len(pa) == 0 {
			rest = pb
		}
		xs := []*Term{}
		for _, p := range rest {
			if p.Op == OStrC && p.S != "" {
				return False
			}
			if p.Op != OStrC {
				if len(rest) == 1 && !changed {
					return nil
				}
				xs = append(xs, Eq(p, StrC("")))
			}
		}
		return And(xs...)
	}
	if changed {
		return Eq(Concat(pa...), Concat(pb...))
	}
	return nil
}

// ---- strings

func strParts(t *Term) []*Term {
	if t.Op == OConcat {
		return t.Args
	}
	if t.Op == OStrC && t.S == "" {
		return nil
	}
	return []*Term{t}
}

func Concat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		for _, p := range strParts(x) {
			if p.Op == OStrC && len(out) > 0 && out[len(out)-1].Op == OStrC {
				out[len(out)-1] = StrC(out[len(out)-1].S + p.S)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return StrC("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OConcat, Str, out...)
}

var fdecls = map[string]*FuncDecl{}

func UF(name string, ret *Sort, args ...*Sort) *FuncDecl {
	if f, ok := fdecls[name]; ok {
		return f
	}
	f := &FuncDecl{Name: name, Args: args, Ret: ret}
	fdecls[name] = f
	return f
}
func BF(name string, ret *Sort, args ...*Sort) *FuncDecl {
	f := UF(name, ret, args...)
	f.Builtin = true
	return f
}
func App(f *FuncDecl, args ...*Term) *Term {
	if len(args) != len(f.Args) {
		panic("arity " + f.Name)
	}
	for i, a := range args {
		if a.Sort != f.Args[i] {
			panic(fmt.Sprintf("arg sort %s[%d]: %v want %v", f.Name, i, a.Sort, f.Args[i]))
		}
	}
	return intern(&Term{Op: OApp, F: f, Args: args, Sort: f.Ret})
}

func StrLen(t *Term) *Term {
	switch t.Op {
	case OStrC:
		return IntC(int64(len(t.S)))
	case OConcat:
		r := IntC(0)
		for _, a := range t.Args {
			r = Add(r, StrLen(a))
		}
		return r
	}
	return App(BF("str.len", Int, Str), t)
}

// ---- structs

func Mk(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("mk arity " + s.Name)
	}
	for i, a := range args {
		if a.Sort != s.Fields[i] {
			panic(fmt.Sprintf("mk %s.%s: sort %v want %v", s.Name, s.FNames[i], a.Sort, s.Fields[i]))
		}
	}
	if len(args) > 0 && args[0].Op == OSel && args[0].N == 0 && args[0].Args[0].Sort == s {
		base := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != OSel || a.N != int64(i) || a.Args[0] != base {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	return mk(OMk, s, args...)
}
func Sel(t *Term, i int) *Term {
	switch t.Op {
	case OMk:
		return t.Args[i]
	case OIte:
		return Ite(t.Args[0], Sel(t.Args[1], i), Sel(t.Args[2], i))
	}
	if t.Sort.K != SStruct {
		panic("sel on " + t.Sort.key())
	}
	return intern(&Term{Op: OSel, N: int64(i), Args: []*Term{t}, Sort: t.Sort.Fields[i]})
}
func Upd(t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(t.Sort.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = Sel(t, j)
		}
	}
	return Mk(t.Sort, args...)
}

// ---- interfaces

// tags: dense ids for dynamic types
var (
	tagIDs   = map[string]int64{}
	tagNames = []string{"<nil>"}
	tagSort  = map[string]*Sort{}
)

func tagID(name string) int64 {
	if id, ok := tagIDs[name]; ok {
		return id
	}
	id := int64(len(tagNames))
	tagIDs[name] = id
	tagNames = append(tagNames, name)
	return id
}

func Box(tn string, v *Term) *Term {
	tagID(tn)
	if o, ok := tagSort[tn]; ok && o != v.Sort {
		panic("box sort mismatch " + tn)
	}
	tagSort[tn] = v.Sort
	return intern(&Term{Op: OBox, S: tn, Args: []*Term{v}, Sort: IfaceS})
}
func Unbox(tn string, s *Sort, v *Term) *Term {
	tagID(tn)
	tagSort[tn] = s
	if v.Op == OBox && v.S == tn {
		return v.Args[0]
	}
	if v.Op == OIte {
		return Ite(v.Args[0], Unbox(tn, s, v.Args[1]), Unbox(tn, s, v.Args[2]))
	}
	return intern(&Term{Op: OUnbox, S: tn, Args: []*Term{v}, Sort: s})
}
func Tag(v *Term) *Term {
	switch v.Op {
	case OBox:
		return IntC(tagID(v.S))
	case ONil:
		return IntC(0)
	case OIte:
		return Ite(v.Args[0], Tag(v.Args[1]), Tag(v.Args[2]))
	}
	return mk(OTag, Int, v)
}

// IsNil is the canonical nil test on interfaces
func IsNil(v *Term) *Term { return Eq(v, NilI) }

// ---- sequences

func seqParts(t *Term) []*Term {
	if t.Op == OSeqConcat {
		return t.Args
	}
	if t.Op == OSeqEmpty {
		return nil
	}
	return []*Term{t}
}
func SeqEmpty(elem *Sort) *Term { return mk(OSeqEmpty, seqOf(elem)) }
func SeqUnit(v *Term) *Term     { return mk(OSeqUnit, seqOf(v.Sort), v) }
func SeqConcat(s *Sort, xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		for _, p := range seqParts(x) {
			// merge adjacent extracts of the same sequence
			if n := len(out); n > 0 && p.Op == OSeqExtract && out[n-1].Op == OSeqExtract && out[n-1].Args[0] == p.Args[0] &&
				Add(out[n-1].Args[1], out[n-1].Args[2]) == p.Args[1] {
				q := SeqExtract(p.Args[0], out[n-1].Args[1], Add(out[n-1].Args[2], p.Args[2]))
				out = out[:n-1]
				out = append(out, seqParts(q)...)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return SeqEmpty(s.Elem)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OSeqConcat, s, out...)
}
func SeqOf(elem *Sort, xs ...*Term) *Term {
	us := make([]*Term, len(xs))
	for i, x := range xs {
		us[i] = SeqUnit(x)
	}
	return SeqConcat(seqOf(elem), us...)
}
func SeqLen(t *Term) *Term {
	switch t.Op {
	case OSeqEmpty:
		return IntC(0)
	case OSeqUnit:
		return IntC(1)
	case OSeqConcat:
		r := IntC(0)
		for _, a := range t.Args {
			r = Add(r, SeqLen(a))
		}
		return r
	case OSeqUpdate:
		return SeqLen(t.Args[0])
	case OSeqExtract:
		if extractInRange(t.Args[0], t.Args[1], t.Args[2]) {
			return t.Args[2]
		}
	case OIte:
		return Ite(t.Args[0], SeqLen(t.Args[1]), SeqLen(t.Args[2]))
	case OApp:
		if t.F.Rec != nil && t.F.Rec.LenK {
			return t.Args[len(t.Args)-1]
		}
		if t.F.Name == "runes" {
			return runeCount(t.Args[0])
		}
		if t.F.Name == "seq.zeros" || strings.HasPrefix(t.F.Name, "zeros_") {
			return t.Args[0]
		}
	}
	if fixLen >= 0 && inputLeaf(t) {
		return IntC(fixLen)
	}
	return mk(OSeqLen, Int, t)
}

// fixLen, when not negative, is the length every list among the inputs has:
// loops over them are then unrolled instead of cut at an invariant. It is used
// only to refute an obligation whose loop has no known invariant.
var fixLen int64 = -1

// inputLeaf: a list that is part of an argument of the function.
func inputLeaf(t *Term) bool {
	if t.Sort.K != SSeq {
		return false
	}
	for {
		switch t.Op {
		case OVar:
			return strings.HasPrefix(t.S, "p_")
		case OSel, OUnbox, OSeqNth, OSelect, OOptVal:
			t = t.Args[0]
		case OApp:
			return strings.HasPrefix(t.F.Name, "heap0_")
		default:
			return false
		}
	}
}

// extracts are only built by the executor with bounds checked (an obligation),
// so the length of an extract is its length argument
func extractInRange(s, lo, n *Term) bool { return true }

func SeqNth(t *Term, i *Term) *Term {
	switch t.Op {
	case OSeqUnit:
		return t.Args[0]
	case OSeqConcat:
		off := i
		for _, p := range t.Args {
			if p.Op == OSeqUnit {
				if off.Op == OIntC && off.N == 0 {
					return p.Args[0]
				}
			}
			l := SeqLen(p)
			in := Lt(off, l)
			lo := Le(IntC(0), off)
			if in == True && lo == True {
				return SeqNth(p, off)
			}
			if in == False {
				off = Sub(off, l)
				continue
			}
			break
		}
	case OSeqExtract:
		return SeqNth(t.Args[0], Add(t.Args[1], i))
	case OSeqUpdate:
		if e := Eq(t.Args[1], i); e == True {
			return t.Args[2]
		} else if e == False {
			return SeqNth(t.Args[0], i)
		}
	case OIte:
		return Ite(t.Args[0], SeqNth(t.Args[1], i), SeqNth(t.Args[2], i))
	case OApp:
		if strings.HasPrefix(t.F.Name, "zeros_") {
			return ZeroTerm(t.Sort.Elem)
		}
		if t.F.Name == "runes" {
			return runeAt(t.Args[0], i)
		}
	}
	return mk(OSeqNth, t.Sort.Elem, t, i)
}
func SeqExtract(t, lo, n *Term) *Term {
	if n.Op == OIntC && n.N == 0 {
		return SeqEmpty(t.Sort.Elem)
	}
	if lo.Op == OIntC && lo.N == 0 && n == SeqLen(t) {
		return t
	}
	if t.Op == OSeqConcat {
		// drop whole leading parts
		off := lo
		for idx, p := range t.Args {
			l := SeqLen(p)
			if off.Op == OIntC && off.N == 0 {
				// take whole parts while possible
				rest := n
				var taken []*Term
				for _, q := range t.Args[idx:] {
					if rest.Op == OIntC && rest.N == 0 {
						break
					}
					ql := SeqLen(q)
					d := Sub(rest, ql)
					if Le(IntC(0), d) == True {
						taken = append(taken, q)
						rest = d
						continue
					}
					if q.Op != OSeqUnit && Le(rest, ql) == True {
						taken = append(taken, SeqExtract(q, IntC(0), rest))
						rest = IntC(0)
						break
					}
					taken = nil
					break
				}
				if rest.Op == OIntC && rest.N == 0 {
					return SeqConcat(t.Sort, taken...)
				}
				break
			}
			d := Sub(off, l)
			if Le(IntC(0), d) == True {
				off = d
				continue
			}
			break
		}
	}
	if t.Op == OSeqExtract {
		return SeqExtract(t.Args[0], Add(t.Args[1], lo), n)
	}
	return mk(OSeqExtract, t.Sort, t, lo, n)
}
func SeqUpdate(t, i, v *Term) *Term {
	switch t.Op {
	case OSeqUnit:
		if i.Op == OIntC && i.N == 0 {
			return SeqUnit(v)
		}
	case OSeqConcat:
		off := i
		for idx, p := range t.Args {
			l := SeqLen(p)
			in := Lt(off, l)
			if in == True && Le(IntC(0), off) == True {
				args := append([]*Term{}, t.Args...)
				args[idx] = SeqUpdate(p, off, v)
				return SeqConcat(t.Sort, args...)
			}
			if in == False {
				off = Sub(off, l)
				continue
			}
			// off == 0 at an extract whose non-emptiness is not syntactic
			if off.Op == OIntC && off.N == 0 && (p.Op == OSeqExtract || p.Op == OApp) {
				args := append([]*Term{}, t.Args...)
				args[idx] = SeqUpdate(p, off, v)
				return SeqConcat(t.Sort, args...)
			}
			break
		}
	case OSeqExtract:
		if i.Op == OIntC && i.N == 0 {
			return SeqConcat(t.Sort, SeqUnit(v), SeqExtract(t.Args[0], Add(t.Args[1], IntC(1)), Sub(t.Args[2], IntC(1))))
		}
	case OApp:
		if strings.HasPrefix(t.F.Name, "zeros_") && i.Op == OIntC && i.N == 0 {
			return SeqConcat(t.Sort, SeqUnit(v), SeqExtract(t, IntC(1), Sub(t.Args[0], IntC(1))))
		}
	}
	return mk(OSeqUpdate, t.Sort, t, i, v)
}

// Zeros is a sequence of n zero values
func Zeros(elem *Sort, n *Term) *Term {
	if n.Op == OIntC && n.N <= 64 {
		us := []*Term{}
		for i := int64(0); i < n.N; i++ {
			us = append(us, SeqUnit(ZeroTerm(elem)))
		}
		return SeqConcat(seqOf(elem), us...)
	}
	return App(UF("zeros_"+mangle(elem.key()), seqOf(elem), Int), n)
}

func eqSeq(a, b *Term) *Term {
	pa, pb := seqParts(a), seqParts(b)
	changed := false
	acc := []*Term{}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.Op == OSeqUnit && y.Op == OSeqUnit {
			e := Eq(x.Args[0], y.Args[0])
			if e == False {
				return False
			}
			acc = append(acc, e)
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.Op == OSeqUnit && y.Op == OSeqUnit {
			e := Eq(x.Args[0], y.Args[0])
			if e == False {
				return False
			}
			acc = append(acc, e)
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return And(acc...)
	}
	if len(pa) == 0 || len(pb) == 0 {
		rest := pa
		if len(pa) == 0 {
			rest = pb
		}
		for _, p := range rest {
			acc = append(acc, Eq(SeqLen(p), IntC(0)))
		}
		return And(acc...)
	}
	if changed {
		return And(append(acc, Eq(SeqConcat(a.Sort, pa...), SeqConcat(a.Sort, pb...)))...)
	}
	return nil
}

// ---- options and maps

func None(e *Sort) *Term { return mk(ONone, optOf(e)) }
func Some(v *Term) *Term { return mk(OSome, optOf(v.Sort), v) }
func IsSome(o *Term) *Term {
	switch o.Op {
	case ONone:
		return False
	case OSome:
		return True
	case OIte:
		return Ite(o.Args[0], IsSome(o.Args[1]), IsSome(o.Args[2]))
	}
	return mk(OIsSome, Bool, o)
}
func OptVal(o *Term) *Term {
	switch o.Op {
	case OSome:
		return o.Args[0]
	case OIte:
		return Ite(o.Args[0], OptVal(o.Args[1]), OptVal(o.Args[2]))
	}
	return mk(OOptVal, o.Sort.Elem, o)
}
func MapEmpty(s *Sort) *Term { return mk(OMapEmpty, s) }
func MapStore(m, k, o *Term) *Term {
	if m.Op == OMapStore && m.Args[1] == k {
		return MapStore(m.Args[0], k, o)
	}
	return mk(OMapStore, m.Sort, m, k, o)
}
func Select(m, k *Term) *Term {
	switch m.Op {
	case OMapEmpty:
		return None(m.Sort.Elem)
	case OMapStore:
		e := Eq(m.Args[1], k)
		if e == True {
			return m.Args[2]
		}
		if e == False {
			return Select(m.Args[0], k)
		}
		return Ite(e, m.Args[2], Select(m.Args[0], k))
	case OIte:
		return Ite(m.Args[0], Select(m.Args[1], k), Select(m.Args[2], k))
	}
	return mk(OSelect, optOf(m.Sort.Elem), m, k)
}

func Exists(v, body *Term) *Term {
	if body == False || body == True && false {
		return False
	}
	return intern(&Term{Op: OExists, Args: []*Term{v, body}, Sort: Bool})
}
func Forall(v, body *Term) *Term {
	if body == True {
		return True
	}
	return intern(&Term{Op: OForall, Args: []*Term{v, body}, Sort: Bool})
}

// ---- zero values

func ZeroTerm(s *Sort) *Term {
	switch s.K {
	case SBool:
		return False
	case SInt:
		return IntC(0)
	case SStr:
		return StrC("")
	case SIface:
		return NilI
	case SRef:
		return Null
	case SSeq:
		return SeqEmpty(s.Elem)
	case SStruct:
		args := make([]*Term, len(s.Fields))
		for i, f := range s.Fields {
			args[i] = ZeroTerm(f)
		}
		return Mk(s, args...)
	case SOpaque:
		return Var("zero_"+s.Name, s)
	case SMap:
		return MapEmpty(s)
	case SOpt:
		return None(s.Elem)
	}
	panic("zero")
}

// ---- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OEq:
		return Eq(a[0], a[1])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OLin:
		r := IntC(t.N)
		for i, x := range a {
			r = Add(r, Scale(x, t.Coefs[i]))
		}
		return r
	case OLe0:
		return Le0(a[0])
	case OMul:
		return Mul(a[0], a[1])
	case OConcat:
		return Concat(a...)
	case OApp:
		if t.F.Name == "str.len" {
			return StrLen(a[0])
		}
		return App(t.F, a...)
	case OMk:
		return Mk(t.Sort, a...)
	case OSel:
		return Sel(a[0], int(t.N))
	case OBox:
		return Box(t.S, a[0])
	case OUnbox:
		return Unbox(t.S, t.Sort, a[0])
	case OTag:
		return Tag(a[0])
	case OSeqUnit:
		return SeqUnit(a[0])
	case OSeqConcat:
		return SeqConcat(t.Sort, a...)
	case OSeqLen:
		return SeqLen(a[0])
	case OSeqNth:
		return SeqNth(a[0], a[1])
	case OSeqExtract:
		return SeqExtract(a[0], a[1], a[2])
	case OSeqUpdate:
		return SeqUpdate(a[0], a[1], a[2])
	case OMapStore:
		return MapStore(a[0], a[1], a[2])
	case OSelect:
		return Select(a[0], a[1])
	case OSome:
		return Some(a[0])
	case OIsSome:
		return IsSome(a[0])
	case OOptVal:
		return OptVal(a[0])
	case OExists:
		return Exists(a[0], a[1])
	case OForall:
		return Forall(a[0], a[1])
	}
	panic(fmt.Sprintf("rebuild op %d", t.Op))
}

// eraseKeys maps every freshly generated key to the same constant.
func eraseKeys(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.Op == OFreshKey {
			return anyKey
		}
		if !t.hasFreshKey {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
		}
		r := rebuild(t, args)
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---- printing for humans

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	j := func(sep string) string {
		xs := make([]string, len(t.Args))
		for i, a := range t.Args {
			xs[i] = a.str(d + 1)
		}
		return strings.Join(xs, sep)
	}
	switch t.Op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONot:
		return "!" + t.Args[0].str(d+1)
	case OAnd:
		return "(" + j(" && ") + ")"
	case OOr:
		return "(" + j(" || ") + ")"
	case OEq:
		return "(" + j(" == ") + ")"
	case OIte:
		return "ite(" + j(", ") + ")"
	case OIntC:
		return strconv.FormatInt(t.N, 10)
	case OLin:
		s := "("
		for i, a := range t.Args {
			if i > 0 {
				s += " + "
			}
			if t.Coefs[i] != 1 {
				s += strconv.FormatInt(t.Coefs[i], 10) + "*"
			}
			s += a.str(d + 1)
		}
		if t.N != 0 {
			s += " + " + strconv.FormatInt(t.N, 10)
		}
		return s + ")"
	case OLe0:
		return "(" + j("") + " <= 0)"
	case OMul:
		return "(" + j(" * ") + ")"
	case OStrC:
		return strconv.Quote(t.S)
	case OConcat:
		return "(" + j(" ^ ") + ")"
	case OVar, OBound:
		return t.S
	case OApp:
		return t.F.Name + "(" + j(", ") + ")"
	case OMk:
		xs := []string{}
		for i, a := range t.Args {
			if a == ZeroTerm(a.Sort) {
				continue
			}
			xs = append(xs, t.Sort.FNames[i]+":"+a.str(d+1))
		}
		return t.Sort.Name + "{" + strings.Join(xs, ", ") + "}"
	case OSel:
		return t.Args[0].str(d+1) + "." + t.Args[0].Sort.FNames[t.N]
	case OBox:
		return "<" + t.S + ">" + j("")
	case OUnbox:
		return j("") + ".(" + t.S + ")"
	case OTag:
		return "typeof(" + j("") + ")"
	case ONil:
		return "nil"
	case ONull:
		return "null"
	case OFreshRef:
		return fmt.Sprintf("&new%d", t.N)
	case OFreshKey:
		return fmt.Sprintf("key#%d", t.N)
	case OSeqEmpty:
		return "[]"
	case OSeqUnit:
		return "[" + j("") + "]"
	case OSeqConcat:
		return "(" + j(" ++ ") + ")"
	case OSeqLen:
		return "len(" + j("") + ")"
	case OSeqNth:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OSeqExtract:
		return "extract(" + j(", ") + ")"
	case OSeqUpdate:
		return "update(" + j(", ") + ")"
	case OMapEmpty:
		return "emptymap"
	case OMapStore:
		return "store(" + j(", ") + ")"
	case OSelect:
		return "get(" + j(", ") + ")"
	case ONone:
		return "none"
	case OSome:
		return "some(" + j("") + ")"
	case OIsSome:
		return "isSome(" + j("") + ")"
	case OOptVal:
		return "val(" + j("") + ")"
	case OExists:
		return "exists(" + j(": ") + ")"
	case OForall:
		return "forall(" + j(": ") + ")"
	}
	return fmt.Sprintf("op%d(%s)", t.Op, j(","))
}
