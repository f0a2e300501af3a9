package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) strAt(s, i *Term) *Term {
	return App(UF("byteAt", Int, Str, Int), s, i)
}
func (e *Engine) runeStr(c *Term) *Term {
	if c.Op == OIntC {
		return StrC(string(rune(c.N)))
	}
	if c.Op == OApp && c.F.Name == "str.to_code" {
		return c.Args[0]
	}
	return App(BF("str.from_code", Str, Int), c)
}

// number of runes; strings are modelled as sequences of code points
func (e *Engine) runeCount(s *Term) *Term { return runeCount(s) }

func (e *Engine) runeAt(s, pos *Term) *Term { return runeAt(s, pos) }

func runeCount(s *Term) *Term {
	if s.Op == OStrC {
		return IntC(int64(len([]rune(s.S))))
	}
	return App(BF("str.len", Int, Str), s)
}
func (e *Engine) byteOff(s, pos *Term) *Term {
	if pos.Op == OIntC && pos.N == 0 {
		return IntC(0)
	}
	return App(UF("byteOff", Int, Str, Int), s, pos)
}
func runeAt(s, pos *Term) *Term {
	if s.Op == OStrC && pos.Op == OIntC {
		r := []rune(s.S)
		if pos.N >= 0 && int(pos.N) < len(r) {
			return IntC(int64(r[pos.N]))
		}
	}
	return App(BF("str.to_code", Int, Str), App(BF("str.at", Str, Str, Int), s, pos))
}

// strPrefix is the first k code points of s
func strPrefix(s, k *Term) *Term {
	if k.Op == OIntC && k.N == 0 {
		return StrC("")
	}
	if k.Op == OApp && k.F.Name == "str.len" && k.Args[0] == s {
		return s
	}
	return App(BF("str.substr", Str, Str, Int, Int), s, IntC(0), k)
}

// ---- character maps: replace every occurrence of single characters

type charTable map[rune]string

func (t charTable) key() string {
	var ks []rune
	for k, v := range t {
		if v != string(k) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q>%q;", k, t[k])
	}
	return b.String()
}

var charTables = map[string]charTable{}

func charMap(t charTable, s *Term) *Term {
	k := t.key()
	if k == "" {
		return s
	}
	switch s.Op {
	case OStrC:
		var b strings.Builder
		for _, c := range s.S {
			if r, ok := t[c]; ok {
				b.WriteString(r)
			} else {
				b.WriteRune(c)
			}
		}
		return StrC(b.String())
	case OConcat:
		xs := make([]*Term, len(s.Args))
		for i, a := range s.Args {
			xs[i] = charMap(t, a)
		}
		return Concat(xs...)
	case OIte:
		return Ite(s.Args[0], charMap(t, s.Args[1]), charMap(t, s.Args[2]))
	case OApp:
		if strings.HasPrefix(s.F.Name, "charmap ") {
			// composition
			u := charTables[s.F.Name]
			c := charTable{}
			for r, v := range u {
				c[r] = charMap(t, StrC(v)).S
			}
			for r, v := range t {
				if _, ok := u[r]; !ok {
					c[r] = v
				}
			}
			return charMap(c, s.Args[0])
		}
	}
	n := "charmap " + k
	charTables[n] = t
	return App(UF(n, Str, Str), s)
}

// axioms about particular terms
func (e *Engine) extraAxioms(t *Term) []*Term {
	var out []*Term
	if t.Op == OApp {
		switch {
		case t.F.Name == "byteOff":
			out = append(out, Eq(Eq(t, IntC(0)), Eq(t.Args[1], IntC(0))), Le(IntC(0), t))
		case strings.HasPrefix(t.F.Name, "charmap "):
			s := t.Args[0]
			out = append(out, Eq(Eq(t, StrC("")), Eq(s, StrC(""))))
			tab := charTables[t.F.Name]
			img := func(c *Term) *Term { // image of a one-character string
				r := c
				var ks []rune
				for k := range tab {
					ks = append(ks, k)
				}
				sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
				for _, k := range ks {
					r = Ite(Eq(c, StrC(string(k))), StrC(tab[k]), r)
				}
				return r
			}
			// prefix step: charmap(s[0:k+1]) = charmap(s[0:k]) ^ image(s[k])
			if s.Op == OApp && s.F.Name == "str.substr" && s.Args[1] == IntC(0) {
				k := Sub(s.Args[2], IntC(1))
				base := s.Args[0]
				c := App(BF("str.at", Str, Str, Int), base, k)
				pre := App(t.F, strPrefixRaw(base, k))
				if k.Op == OIntC && k.N == 0 {
					pre = StrC("")
				}
				in := And(Le(IntC(0), k), Lt(k, App(BF("str.len", Int, Str), base)))
				out = append(out, Implies(in, Eq(t, Concat(pre, img(c)))))
			}
		}
	}
	return out
}

func strPrefixRaw(s, k *Term) *Term { return strPrefix(s, k) }

// candidates for string accumulators in loops over the characters of a string
func (x *Exec) strCands(st *State, s *slot) []cand {
	var out []cand
	if x.pool != nil {
		collect(*x.pool, func(t *Term) {
			if t.Op == OApp && strings.HasPrefix(t.F.Name, "charmap ") && !t.hasBound {
				out = append(out, cand{"charmap", func(k *Term) *Term {
					return Concat(s.init, charMap(charTables[t.F.Name], strPrefix(t.Args[0], k)))
				}})
			}
		})
	}
	return out
}

// ---------------------------------------------------------------- intrinsics

func fullName(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return fn.String()
	}
	return fn.String()
}

func (e *Engine) inlineExternal(fn *ssa.Function) bool { return false }

func isPkgFn(e *Engine, fn *ssa.Function, name string) bool {
	return fn.Pkg == e.pkg && fn.Name() == name && fn.Signature.Recv() == nil
}

// intrinsic handles specification primitives and functions whose contract the
// engine itself knows; reports whether it did.
func (x *Exec) intrinsic(st *State, fn *ssa.Function, args []Val, pos token.Pos, k Kont) bool {
	e := x.e
	if fn.Pkg == e.pkg && fn.Signature.Recv() == nil {
		switch fn.Name() {
		case "getAddress":
			if x.noContract[fn] {
				return false
			}
			// contract of getAddress: a key that no element had before
			k(st, []Val{FreshKey()})
			return true
		case "vcAny", "vcAll":
			n := x.termAs(st, args[0], Int)
			cl, ok := args[1].(*Closure)
			if !ok {
				x.unsupported(st, "vcAny of unknown function")
				k(st, []Val{Fresh("q", Bool)})
				return true
			}
			any := fn.Name() == "vcAny"
			if n.Op == OIntC && n.N <= 12 {
				var xs []*Term
				for i := int64(0); i < n.N; i++ {
					r, _ := x.pure(st, cl.fn, []Val{IntC(i)}, cl.bind)
					if len(r) == 1 {
						xs = append(xs, r[0])
					}
				}
				if any {
					k(st, []Val{Or(xs...)})
				} else {
					k(st, []Val{And(xs...)})
				}
				return true
			}
			q := x.quantify(st, n, any, func(b *Term) *Term {
				r, why := x.pure(st, cl.fn, []Val{b}, cl.bind)
				if why != "" || len(r) != 1 {
					x.unsupported(st, "quantifier body: "+why)
					return Fresh("q", Bool)
				}
				return r[0]
			})
			if x.pool != nil && x.inSpec > 0 {
				*x.pool = append(*x.pool, q)
			}
			k(st, []Val{q})
			return true
		case "vcErr":
			// vcErr(x): does the value carry an error
			t := x.term(st, args[0])
			k(st, []Val{e.errOfIface(t)})
			return true
		case "vcSame":
			// vcSame(a, b): the same up to the identity of elements made during the call
			a, b := x.termAs(st, args[0], IfaceS), x.termAs(st, args[1], IfaceS)
			if a.Op == OBox && b.Op == OBox && a.S == b.S {
				if gt := e.typesByName[a.S]; gt != nil {
					k(st, []Val{x.same(st, a.Args[0], st, b.Args[0], gt)})
					return true
				}
				k(st, []Val{Eq(x.canon(st, a.Args[0]), x.canon(st, b.Args[0]))})
				return true
			}
			if a.Op == OBox && b.Op == OBox && a.Args[0].Sort == b.Args[0].Sort && a.Args[0].Sort.K == SSeq {
				k(st, []Val{Eq(x.canon(st, a.Args[0]), x.canon(st, b.Args[0]))})
				return true
			}
			k(st, []Val{Eq(x.canon(st, a), x.canon(st, b))})
			return true
		case "vcFresh":
			if x.assuming {
				// taken from a callee's contract: nothing is known but that the key is some key
				k(st, []Val{True})
				return true
			}
			k(st, []Val{madeHere(x.term(st, args[0]))})
			return true
		case "vcFreshKey":
			k(st, []Val{FreshKey()})
			return true
		case "vcSameText":
			k(st, []Val{True})
			return true
		}
	}
	if fn.Pkg == nil || fn.Pkg.Pkg == nil {
		return false
	}
	return false
}

func (x *Exec) quantify(st *State, n *Term, any bool, f func(b *Term) *Term) *Term {
	x.e.qdepth++
	b := Bound(x.e.qdepth, Int)
	body := f(b)
	x.e.qdepth--
	if any {
		if body == False {
			return False
		}
		return Exists(b, And(Lt(b, n), body))
	}
	if body == True {
		return True
	}
	return Forall(b, Or(Not(Lt(b, n)), body))
}

// errOfIface: a non-nil interface value whose GetError is not nil
func (e *Engine) errOfIface(t *Term) *Term {
	switch t.Op {
	case ONil:
		return False
	case OIte:
		return Ite(t.Args[0], e.errOfIface(t.Args[1]), e.errOfIface(t.Args[2]))
	case OBox:
		if v := e.staticMethod(t.S, "GetError", []*Term{t}); v != nil {
			return Not(IsNil(v))
		}
		return False
	}
	f := UF("m_GetError_"+mangle(IfaceS.key()), IfaceS, IfaceS)
	f.Method = "GetError"
	return And(Not(IsNil(t)), Not(IsNil(App(f, t))))
}

func constStr(t *Term) (string, bool) {
	if t.Op == OStrC {
		return t.S, true
	}
	return "", false
}

func itoa(t *Term) *Term {
	if t.Op == OIntC {
		return StrC(fmt.Sprint(t.N))
	}
	return App(UF("itoa", Str, Int), t)
}

// display of a boxed value by %s / %v / Sprint
func (x *Exec) display(st *State, v *Term, verb byte) *Term {
	if v.Op == OBox {
		a := v.Args[0]
		t := x.e.typesByName[v.S]
		basic := false
		if t != nil {
			if _, ok := t.(*types.Basic); ok {
				basic = true
			} else if _, ok := t.Underlying().(*types.Basic); ok && x.e.methodOn(t, "String") == nil && x.e.methodOn(t, "Error") == nil {
				basic = true
			}
		}
		if basic {
			if a.Sort == Str && (verb == 's' || verb == 'v') {
				return a
			}
			if a.Sort == Int && (verb == 'd' || verb == 'v') {
				return itoa(a)
			}
			if a.Sort == Bool && (verb == 't' || verb == 'v') {
				return Ite(a, StrC("true"), StrC("false"))
			}
		}
	}
	return App(UF("display_"+string(verb), Str, IfaceS), v)
}

func (x *Exec) sprintf(st *State, format *Term, list *Term) *Term {
	f, ok := constStr(format)
	if !ok {
		return App(UF("sprintf", Str, Str, list.Sort), format, list)
	}
	var parts []*Term
	for _, p := range seqParts(list) {
		if p.Op != OSeqUnit {
			return App(UF("sprintf", Str, Str, list.Sort), format, list)
		}
		parts = append(parts, p.Args[0])
	}
	var out []*Term
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, StrC(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(f) {
			return App(UF("sprintf", Str, Str, list.Sort), format, list)
		}
		if f[i] == '%' {
			out = append(out, StrC("%"))
			continue
		}
		if strings.IndexByte("svdtqp", f[i]) < 0 || ai >= len(parts) {
			return App(UF("sprintf", Str, Str, list.Sort), format, list)
		}
		out = append(out, x.display(st, parts[ai], f[i]))
		ai++
	}
	if ai != len(parts) {
		return App(UF("sprintf", Str, Str, list.Sort), format, list)
	}
	return Concat(out...)
}

// external functions: assumed contracts (listed in the evidence)
func (x *Exec) external(st *State, fn *ssa.Function, args []Val, pos token.Pos, k Kont) {
	name := fn.String()
	e := x.e
	e.used("external " + name)
	T := func(i int) *Term { return x.term(st, args[i]) }
	ret := func(vs ...Val) { k(st, vs) }
	switch name {
	case "errors.New", "golang.org/x/xerrors.New", "fmt.Errorf", "golang.org/x/xerrors.Errorf", "errors.Errorf":
		var ts []*Term
		var ss []*Sort
		for i := range args {
			ts = append(ts, T(i))
			ss = append(ss, ts[i].Sort)
		}
		n := "mkerr"
		for _, s := range ss {
			n += "_" + mangle(s.key())
		}
		ret(Box("ext.error", App(UF(n, opaque("error"), ss...), ts...)))
		return
	case "strings.TrimSpace", "strings.ToUpper", "strings.ToLower":
		if c, ok := constStr(T(0)); ok {
			switch name {
			case "strings.TrimSpace":
				ret(StrC(strings.TrimSpace(c)))
			case "strings.ToUpper":
				ret(StrC(strings.ToUpper(c)))
			default:
				ret(StrC(strings.ToLower(c)))
			}
			return
		}
		ret(App(UF("go."+name, Str, Str), T(0)))
		return
	case "strings.ReplaceAll", "strings.Replace":
		from, ok1 := constStr(T(1))
		to, ok2 := constStr(T(2))
		all := name == "strings.ReplaceAll"
		if !all {
			if n := T(3); n.Op == OIntC && n.N < 0 {
				all = true
			}
		}
		if ok1 && ok2 && all && len([]rune(from)) == 1 {
			ret(charMap(charTable{[]rune(from)[0]: to}, T(0)))
			return
		}
		if all {
			ret(App(UF("go.strings.ReplaceAll", Str, Str, Str, Str), T(0), T(1), T(2)))
			return
		}
		ret(App(UF("go.strings.Replace", Str, Str, Str, Str, Int), T(0), T(1), T(2), T(3)))
		return
	case "strings.NewReplacer":
		ret(App(UF("go.strings.NewReplacer", RefS, T(0).Sort), T(0)))
		return
	case "(*strings.Replacer).Replace":
		if r := T(0); r.Op == OApp && r.F.Name == "go.strings.NewReplacer" {
			tab := charTable{}
			ps := seqParts(r.Args[0])
			ok := len(ps)%2 == 0
			for i := 0; ok && i+1 < len(ps); i += 2 {
				if ps[i].Op != OSeqUnit || ps[i+1].Op != OSeqUnit {
					ok = false
					break
				}
				f, ok1 := constStr(ps[i].Args[0])
				t, ok2 := constStr(ps[i+1].Args[0])
				if !ok1 || !ok2 || len([]rune(f)) != 1 {
					ok = false
					break
				}
				if _, dup := tab[[]rune(f)[0]]; !dup {
					tab[[]rune(f)[0]] = t
				}
			}
			if ok {
				ret(charMap(tab, T(1)))
				return
			}
		}
		ret(App(UF("go.Replacer.Replace", Str, RefS, Str), T(0), T(1)))
		return
	case "strings.HasPrefix":
		ret(App(BF("str.prefixof", Bool, Str, Str), T(1), T(0)))
		return
	case "strings.HasSuffix":
		ret(App(BF("str.suffixof", Bool, Str, Str), T(1), T(0)))
		return
	case "strings.Contains":
		ret(App(BF("str.contains", Bool, Str, Str), T(0), T(1)))
		return
	case "strings.Join":
		s := T(0)
		sep := T(1)
		if r := joinText(s, sep, 8); r != nil {
			ret(r)
			return
		}
		ret(App(UF("go.strings.Join", Str, s.Sort, Str), s, sep))
		return
	case "strconv.Itoa":
		ret(itoa(T(0)))
		return
	case "strconv.FormatInt":
		if b := T(1); b.Op == OIntC && b.N == 10 {
			ret(itoa(T(0)))
			return
		}
	case "strconv.FormatBool":
		ret(Ite(T(0), StrC("true"), StrC("false")))
		return
	case "fmt.Sprintf":
		ret(x.sprintf(st, T(0), T(1)))
		return
	case "fmt.Sprint":
		ps := seqParts(T(0))
		if len(ps) == 1 && ps[0].Op == OSeqUnit {
			ret(x.display(st, ps[0].Args[0], 'v'))
			return
		}
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		a := x.asAddr(st, args[0], fn.Signature.Recv().Type())
		x.nilCheck(st, a, pos)
		cur := x.term(st, x.load(st, a, nil))
		s := T(1)
		if s.Sort == Int {
			s = e.runeStr(s)
		}
		x.storeQuietFrame(st, a, Mk(cur.Sort, Concat(Sel(cur, 0), s)))
		if name == "(*strings.Builder).WriteByte" {
			ret(NilI)
		} else {
			ret(StrLen(s), NilI)
		}
		return
	case "(*strings.Builder).String":
		a := x.asAddr(st, args[0], fn.Signature.Recv().Type())
		x.nilCheck(st, a, pos)
		ret(Sel(x.term(st, x.load(st, a, nil)), 0))
		return
	case "(*strings.Builder).Len":
		a := x.asAddr(st, args[0], fn.Signature.Recv().Type())
		ret(StrLen(Sel(x.term(st, x.load(st, a, nil)), 0)))
		return
	case "(*strings.Builder).Reset":
		a := x.asAddr(st, args[0], fn.Signature.Recv().Type())
		x.store(st, a, ZeroTerm(e.builderSort()), pos)
		ret()
		return
	case "(*strings.Builder).Grow":
		ret()
		return
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.IsNumber", "unicode.IsUpper", "unicode.IsLower":
		ret(App(UF("go."+name, Bool, Int), T(0)))
		return
	case "(*regexp.Regexp).ReplaceAllStringFunc":
		if r := T(0); r.Op == OApp && strings.HasPrefix(r.F.Name, "go.regexp.") {
			if pat, ok := constStr(r.Args[0]); ok {
				if cls, ok := charClass(pat); ok {
					if cl, ok := args[2].(*Closure); ok {
						tab := charTable{}
						good := true
						for _, c := range cls {
							rr, why := x.pure(st, cl.fn, []Val{StrC(string(c))}, cl.bind)
							if why != "" || len(rr) != 1 || rr[0].Op != OStrC {
								good = false
								break
							}
							tab[c] = rr[0].S
						}
						if good {
							ret(charMap(tab, T(1)))
							return
						}
					}
				}
			}
		}
		ret(App(UF("go.regexp.ReplaceAllStringFunc", Str, RefS, Str), T(0), T(1)))
		return
	case "(*regexp.Regexp).ReplaceAllString":
		if r := T(0); r.Op == OApp && strings.HasPrefix(r.F.Name, "go.regexp.") {
			if pat, ok := constStr(r.Args[0]); ok {
				if cls, ok := charClass(pat); ok {
					if to, ok := constStr(T(2)); ok {
						tab := charTable{}
						for _, c := range cls {
							s := strings.ReplaceAll(to, "${1}", "$1")
							s = strings.ReplaceAll(s, "${0}", "$1")
							s = strings.ReplaceAll(s, "$0", "$1")
							s = strings.ReplaceAll(s, "$1", string(c))
							tab[c] = s
						}
						ret(charMap(tab, T(1)))
						return
					}
				}
			}
		}
	case "regexp.Compile":
		ret(App(UF("go.regexp.Compile", RefS, Str), T(0)), NilI)
		return
	case "regexp.MustCompile":
		ret(App(UF("go.regexp.Compile", RefS, Str), T(0)))
		return
	case "regexp.QuoteMeta":
		if c, ok := constStr(T(0)); ok {
			ret(StrC(quoteMeta(c)))
			return
		}
	}
	// default: a deterministic function of its arguments (pointer arguments by content)
	sig := fn.Signature
	var ts []*Term
	var ss []*Sort
	tag := mangle(name)
	for i, a := range args {
		t := x.contentTerm(st, a, fn, i)
		ts = append(ts, t)
		ss = append(ss, t.Sort)
		tag += "_" + mangle(t.Sort.key())
	}
	// math/big style: the receiver is set and returned
	if r := sig.Recv(); r != nil && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), r.Type()) {
		if a, ok := args[0].(Addr); ok && a.base != nil && a.base.Op == OFreshRef && len(a.path) == 0 {
			if _, isP := r.Type().(*types.Pointer); isP {
				c := st.cells[a.base.N]
				c.val = App(UF("eff_"+tag, c.val.Sort, ss...), ts...)
				st.cells[a.base.N] = c
				ret(args[0])
				return
			}
		}
	}
	if name == "math/big.NewFloat" || name == "math/big.NewInt" {
		s := e.sortOf(deref(sig.Results().At(0).Type()))
		r := x.alloc(st, name, App(UF("eff_"+tag, s, ss...), ts...))
		ret(Addr{base: r, root: deref(sig.Results().At(0).Type())})
		return
	}
	if strings.HasPrefix(name, "github.com/rs/xid.New") || strings.HasPrefix(name, "github.com/google/uuid.New") || strings.HasPrefix(name, "time.Now") || strings.HasPrefix(name, "math/rand") {
		ret(x.havocResults(st, sig, "nondet")...)
		return
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		s := e.sortOf(sig.Results().At(i).Type())
		r := App(UF(fmt.Sprintf("ext_%s_%d", tag, i), s, ss...), ts...)
		e.noteStatic(r, sig.Results().At(i).Type())
		res = append(res, r)
	}
	k(st, res)
}

func (x *Exec) storeQuietFrame(st *State, a Addr, v *Term) {
	s := x.e.sortOf(a.root)
	if a.base == nil {
		x.unsupported(st, "builder snapshot")
		return
	}
	if a.base.Op == OFreshRef {
		s = st.cells[a.base.N].val.Sort
	} else {
		x.frameWrite(st, a.base, a.root, token.NoPos)
	}
	x.storeRef(st, a.base, inject(x.loadRef(st, a.base, s), a.path, v))
}

func (x *Exec) contentTerm(st *State, v Val, fn *ssa.Function, i int) *Term {
	var t types.Type
	if r := fn.Signature.Recv(); r != nil {
		if i == 0 {
			t = r.Type()
		} else if i-1 < fn.Signature.Params().Len() {
			t = fn.Signature.Params().At(i - 1).Type()
		}
	} else if i < fn.Signature.Params().Len() {
		t = fn.Signature.Params().At(i).Type()
	}
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			a := x.asAddr(st, v, t)
			if a.base != nil {
				_ = p
				return x.term(st, x.load(st, a, nil))
			}
		}
	}
	return x.term(st, v)
}

// charClass recognises a regular expression that is one character class.
func charClass(p string) ([]rune, bool) {
	p = strings.TrimSuffix(strings.TrimPrefix(p, "("), ")")
	if !strings.HasPrefix(p, "[") || !strings.HasSuffix(p, "]") {
		return nil, false
	}
	p = p[1 : len(p)-1]
	var out []rune
	rs := []rune(p)
	for i := 0; i < len(rs); i++ {
		c := rs[i]
		if c == '\\' {
			i++
			if i >= len(rs) {
				return nil, false
			}
			c = rs[i]
			switch c {
			case 'n':
				c = '\n'
			case 't':
				c = '\t'
			case 'r':
				c = '\r'
			case 'f':
				c = '\f'
			default:
				if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
					return nil, false
				}
			}
		} else if c == '-' || c == '^' || c == '[' || c == ']' {
			return nil, false
		}
		out = append(out, c)
	}
	return out, len(out) > 0
}

func quoteMeta(s string) string {
	var b strings.Builder
	for _, c := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, c) {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	return b.String()
}

// joinText writes out strings.Join of a list whose elements are known; lists
// chosen by a condition are only taken apart when lists are unrolled.
func joinText(s, sep *Term, depth int) *Term {
	if s.Op == OIte && fixLen >= 0 && depth > 0 {
		a, b := joinText(s.Args[1], sep, depth-1), joinText(s.Args[2], sep, depth-1)
		if a == nil || b == nil {
			return nil
		}
		return Ite(s.Args[0], a, b)
	}
	var ps, out []*Term
	for _, p := range seqParts(s) {
		if fixLen >= 0 && inputLeaf(p) {
			for i := int64(0); i < fixLen; i++ {
				ps = append(ps, SeqUnit(SeqNth(p, IntC(i))))
			}
			continue
		}
		ps = append(ps, p)
	}
	for i, p := range ps {
		if p.Op == OIte && fixLen >= 0 && depth > 0 {
			with := func(q *Term) *Term {
				return SeqConcat(s.Sort, append(append(append([]*Term{}, ps[:i]...), q), ps[i+1:]...)...)
			}
			a, b := joinText(with(p.Args[1]), sep, depth-1), joinText(with(p.Args[2]), sep, depth-1)
			if a == nil || b == nil {
				return nil
			}
			return Ite(p.Args[0], a, b)
		}
		if p.Op != OSeqUnit {
			return nil
		}
		if i > 0 {
			out = append(out, sep)
		}
		out = append(out, p.Args[0])
	}
	return Concat(out...)
}

// madeHere: the key is one getAddress gave during the call.
func madeHere(t *Term) *Term {
	switch t.Op {
	case OFreshKey:
		return True
	case OIte:
		return Ite(t.Args[0], madeHere(t.Args[1]), madeHere(t.Args[2]))
	}
	return False
}
