package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// ---------------------------------------------------------------- logic of combined conditions

type lg struct {
	op   string // "" an atom, "NOT", "AND", "OR", "XOR"
	a, b *lg
	n    int
}

func (l *lg) eval(v uint) bool {
	switch l.op {
	case "":
		return v>>uint(l.n)&1 == 1
	case "NOT":
		return !l.a.eval(v)
	case "AND":
		x, y := l.a.eval(v), l.b.eval(v)
		return x && y
	case "OR":
		x, y := l.a.eval(v), l.b.eval(v)
		return x || y
	}
	return l.a.eval(v) != l.b.eval(v)
}

func (l *lg) atoms(r []int) []int {
	if l.op == "" {
		return append(r, l.n)
	}
	r = l.a.atoms(r)
	if l.b != nil {
		r = l.b.atoms(r)
	}
	return r
}

// parser of conditions over the words @0 @1 ..; precedence NOT > AND > XOR > OR.
type lparser struct {
	t   []string
	pos int
	bad bool
}

func (p *lparser) peek() string {
	if p.pos < len(p.t) {
		return p.t[p.pos]
	}
	return ""
}

func (p *lparser) level(ops []string) *lg {
	if len(ops) == 0 {
		switch t := p.peek(); {
		case t == "NOT":
			p.pos++
			return &lg{op: "NOT", a: p.level(nil)}
		case t == "(":
			p.pos++
			r := p.level([]string{"OR", "XOR", "AND"})
			if p.peek() != ")" {
				p.bad = true
			}
			p.pos++
			return r
		case strings.HasPrefix(t, "@"):
			p.pos++
			n := 0
			fmt.Sscanf(t[1:], "%d", &n)
			return &lg{n: n}
		}
		p.bad = true
		p.pos++
		return &lg{}
	}
	r := p.level(ops[1:])
	for p.peek() == ops[0] {
		p.pos++
		r = &lg{op: ops[0], a: r, b: p.level(ops[1:])}
	}
	return r
}

func parseLogic(s string, atoms []string) (*lg, bool) {
	for i := len(atoms) - 1; i >= 0; i-- {
		s = strings.ReplaceAll(s, atoms[i], fmt.Sprintf(" @%d ", i))
	}
	s = strings.ReplaceAll(strings.ReplaceAll(s, "(", " ( "), ")", " ) ")
	p := &lparser{t: strings.Fields(s)}
	r := p.level([]string{"OR", "XOR", "AND"})
	return r, !p.bad && p.pos == len(p.t)
}

type LC struct {
	x     cypher.Condition
	l     *lg // nil: the absent condition
	s     string
	known bool // contains the recorded form
	atom  bool
}

type lgen struct {
	atoms []string
}

func (g *lgen) atom() LC {
	n := len(g.atoms)
	switch rnd.Intn(4) {
	case 0:
		g.atoms = append(g.atoms, fmt.Sprintf("v%02d.x = 1", n))
		nm := fmt.Sprintf("v%02d", n)
		return LC{cypher.AProperty(nm, "x").IsEqualTo(cypher.LiteralOf(1)).Get(), &lg{n: n}, "AProperty(" + q(nm) + ", \"x\").IsEqualTo(LiteralOf(1)).Get()", false, true}
	case 1:
		g.atoms = append(g.atoms, fmt.Sprintf("v%02d.x IS NULL", n))
		nm := fmt.Sprintf("v%02d", n)
		return LC{cypher.AProperty(nm, "x").IsNull().Get(), &lg{n: n}, "AProperty(" + q(nm) + ", \"x\").IsNull().Get()", false, true}
	default:
		nm := fmt.Sprintf("v%02d", n)
		g.atoms = append(g.atoms, nm+":`L`")
		return LC{cypher.AnyNode().NamedByString(nm).HasLabels("L"), &lg{n: n}, "AnyNode().NamedByString(" + q(nm) + ").HasLabels(\"L\")", false, true}
	}
}

func (g *lgen) pattern() (cypher.Relationship, *lg, string) {
	n := len(g.atoms)
	a, b := fmt.Sprintf("v%02d", n), fmt.Sprintf("w%02d", n)
	g.atoms = append(g.atoms, fmt.Sprintf("(%s)-->(%s)", a, b))
	return cypher.AnyNode().NamedByString(a).RelationshipTo(cypher.AnyNode().NamedByString(b)), &lg{n: n},
		fmt.Sprintf("AnyNode().NamedByString(%q).RelationshipTo(AnyNode().NamedByString(%q))", a, b)
}

func condText(c cypher.Condition) string {
	st, err := cypher.Match(cypher.AnyNode()).Where(c).Returning(cypher.AnAsterisk()).Build()
	if err != nil {
		return ""
	}
	s, err := render(st)
	if err != nil {
		return ""
	}
	s = strings.TrimPrefix(s, "MATCH () ")
	s = strings.TrimPrefix(s, "WHERE ")
	return strings.TrimSpace(strings.TrimSuffix(s, "RETURN *"))
}

var opStrength = map[string]int{"OR": 1, "XOR": 2, "AND": 3}

// flatForm: a single condition joined by op to a receiver in which, at the
// level the condition is appended to, a weaker operator occurs.
func (g *lgen) flatForm(recv string, op string) bool {
	for i := len(g.atoms) - 1; i >= 0; i-- {
		recv = strings.ReplaceAll(recv, g.atoms[i], fmt.Sprintf(" @%d ", i))
	}
	recv = strings.ReplaceAll(strings.ReplaceAll(recv, "(", " ( "), ")", " ) ")
	d := 0
	same, weaker := false, false
	for _, t := range strings.Fields(recv) {
		switch t {
		case "(":
			d++
		case ")":
			d--
		case "AND", "OR", "XOR":
			if d <= 1 {
				same = same || t == op
				weaker = weaker || opStrength[t] < opStrength[op]
			}
		}
	}
	return same && weaker
}

func (g *lgen) tree(d int) LC {
	if len(g.atoms) >= 9 {
		d = 0
	}
	if d <= 0 || chance(0.15) {
		return g.atom()
	}
	if chance(0.08) {
		return LC{cypher.ConditionsNoCondition(), nil, "ConditionsNoCondition()", false, false}
	}
	if chance(0.18) {
		a := g.tree(d - 1)
		if chance(0.5) {
			return LC{cypher.ConditionsNot(a.x), not(a.l), "ConditionsNot(" + a.s + ")", a.known, true}
		}
		if h, ok := a.x.(interface {
			Not() cypher.ConditionContainer
		}); ok {
			return LC{h.Not().Get(), not(a.l), a.s + ".Not().Get()", a.known, true}
		}
	}
	a := g.tree(d - 1)
	op := pick("AND", "AND", "OR", "XOR")
	m := map[string]string{"AND": "And", "OR": "Or", "XOR": "Xor"}[op]
	if chance(0.1) && a.l != nil {
		r, l, s := g.pattern()
		known := a.known
		var x cypher.Condition
		switch op {
		case "AND":
			x = a.x.AndPattern(r).Get()
		case "OR":
			x = a.x.OrPattern(r).Get()
		default:
			x = a.x.XorPattern(r).Get()
		}
		return LC{x, &lg{op: op, a: a.l, b: l}, a.s + "." + m + "Pattern(" + s + ").Get()", known, false}
	}
	rt := condText(a.x)
	b := g.tree(d - 1)
	known := a.known || b.known || b.atom && a.l != nil && g.flatForm(rt, op)
	var x cypher.Condition
	switch op {
	case "AND":
		x = a.x.And(b.x).Get()
	case "OR":
		x = a.x.Or(b.x).Get()
	default:
		x = a.x.Xor(b.x).Get()
	}
	s := a.s + "." + m + "(" + b.s + ").Get()"
	switch {
	case a.l == nil:
		return LC{x, b.l, s, known, false}
	case b.l == nil:
		return LC{x, a.l, s, known, false}
	}
	return LC{x, &lg{op: op, a: a.l, b: b.l}, s, known, false}
}

func not(l *lg) *lg {
	if l == nil {
		return nil
	}
	return &lg{op: "NOT", a: l}
}

func checkLogic() {
	g := &lgen{}
	c := g.tree(4)
	s := "Match(AnyNode()).Where(" + c.s + ")"
	b := newB(cypher.Match(cypher.AnyNode()).Where(c.x))
	for i := 0; i < rnd.Intn(3) && len(g.atoms) < 10; i++ {
		op := pick("AND", "OR")
		st, _ := b.call("Returning", cypher.AnAsterisk()).build()
		rt := ""
		if st != nil {
			rt, _ = render(st)
			rt = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(rt, "MATCH () "), "WHERE "), "RETURN *")
		}
		m := map[string]string{"AND": "And", "OR": "Or"}[op]
		var l *lg
		if chance(0.25) && c.l != nil {
			r, rl, rs := g.pattern()
			if g.flatForm(rt, op) {
				c.known = true
			}
			b, l, s = b.call(m+"Pattern", r), rl, s+"."+m+"Pattern("+rs+")"
		} else {
			t := g.tree(1)
			c.known = c.known || t.known || t.atom && g.flatForm(rt, op)
			b, l, s = b.call(m, t.x), t.l, s+"."+m+"("+t.s+")"
		}
		switch {
		case l == nil:
		case c.l == nil:
			c.l = l
		default:
			c.l = &lg{op: op, a: c.l, b: l}
		}
	}
	note(s)
	lastSrc = s
	key := "logic"
	if c.known {
		key = "logic:one-condition-joined-to-mixed-compound"
	}
	st, err := b.call("Returning", cypher.AnAsterisk()).build()
	if err != nil {
		fail("logic", "a valid condition is an error", s, "no error", err.Error())
		return
	}
	txt, err := render(st)
	if err != nil {
		fail("logic", "a valid condition is an error", s, "no error", err.Error())
		return
	}
	body := strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(txt, "MATCH () "), "RETURN *"))
	if c.l == nil {
		if body != "" {
			fail(key, "an absent condition is written", s, "MATCH () RETURN *", txt)
		}
		return
	}
	if !strings.HasPrefix(body, "WHERE ") {
		fail(key, "the condition is not written", s, "WHERE ...", txt)
		return
	}
	p, ok := parseLogic(strings.TrimPrefix(body, "WHERE "), g.atoms)
	if !ok {
		fail(key, "the condition is not readable", s, "a condition over "+strings.Join(g.atoms, ", "), txt)
		return
	}
	wa, ga := fmt.Sprint(c.l.atoms(nil)), fmt.Sprint(p.atoms(nil))
	if wa != ga {
		fail(key, "the conditions are not written once each and in order", s, wa, ga+" in "+txt)
		return
	}
	for v := uint(0); v < 1<<uint(len(g.atoms)); v++ {
		if p.eval(v) != c.l.eval(v) {
			fail(key, "the written condition has another meaning than the combined one", s, c.l.str(g.atoms), txt)
			return
		}
	}
}

func (l *lg) str(at []string) string {
	switch l.op {
	case "":
		return at[l.n]
	case "NOT":
		return "NOT(" + l.a.str(at) + ")"
	}
	return "(" + l.a.str(at) + " " + l.op + " " + l.b.str(at) + ")"
}

// knownFlat: the recorded form, on its own.
func knownFlat() {
	a := func(n string) cypher.Condition { return cypher.AnyNode().NamedByString(n).HasLabels("L") }
	c := a("a").And(a("b")).Or(a("c").And(a("d")).Get()).And(a("e")).Get()
	p, ok := parseLogic(condText(c), []string{"a:`L`", "b:`L`", "c:`L`", "d:`L`", "e:`L`"})
	w := &lg{op: "AND", a: &lg{op: "OR", a: &lg{op: "AND", a: &lg{n: 0}, b: &lg{n: 1}}, b: &lg{op: "AND", a: &lg{n: 2}, b: &lg{n: 3}}}, b: &lg{n: 4}}
	for v := uint(0); v < 32; v++ {
		if !ok || p.eval(v) != w.eval(v) {
			fail("logic:one-condition-joined-to-mixed-compound", "the written condition has another meaning", "(a AND b).Or(c AND d).And(e)", "((a AND b OR (c AND d)) AND e)", condText(c))
			return
		}
	}
}

// ---------------------------------------------------------------- unions, subqueries, calls

func built(q *Q) (cypher.Statement, bool) {
	st, err := q.b.build()
	if err != nil {
		fail("build", "a statement built from valid parts carries an error", q.s, "no error", err.Error())
		return nil, false
	}
	return st, true
}

func checkStatement(key string, st cypher.Statement, m M, src string) {
	note(src)
	lastSrc = src
	if st.GetError() != nil {
		fail(key, "a statement built from valid parts carries an error", src, text(m), st.GetError().Error())
		return
	}
	got, err := render(st)
	if err != nil {
		fail(key, "a statement built from valid parts is not rendered", src, text(m), err.Error())
		return
	}
	if want := text(m); got != want {
		fail(key, "the rendered text differs", src, want, got)
	}
}

func checkUnion() {
	all := chance(0.5)
	kw, fn := " UNION ", "Union"
	f := cypher.Union
	if all {
		kw, fn, f = " UNION ALL ", "UnionAll", cypher.UnionAll
	}
	var sts []cypher.Statement
	var mm []M
	var src []string
	n := 2 + rnd.Intn(3)
	for i := 0; i < n; i++ {
		qq := statement(1, true)
		st, ok := built(qq)
		if !ok {
			return
		}
		if _, single := st.(cypher.SingleQuery); !single {
			return
		}
		sts, mm, src = append(sts, st), append(mm, trimmed{qq.m}), append(src, qq.s+".Build()")
	}
	u := f(sts...)
	s := fn + "(" + strings.Join(src, ", ") + ")"
	if chance(0.4) {
		qq := statement(1, true)
		if st, ok := built(qq); ok {
			if _, single := st.(cypher.SingleQuery); single {
				u = f(u, st)
				mm = append(mm, trimmed{qq.m})
				s = fn + "(" + s + ", " + qq.s + ".Build())"
			}
		}
	}
	m := join(kw, mm...)
	if chance(0.3) {
		u2, err := cypher.ACallByStatement(u).Returning(cypher.NullLiteralCreate()).Build()
		if err != nil {
			fail("union", "a statement built from valid parts carries an error", s, "no error", err.Error())
			return
		}
		checkStatement("union", u2, S{T("CALL {"), m, T("} RETURN NULL")}, "ACallByStatement("+s+").Returning(NullLiteralCreate()).Build()")
		return
	}
	checkStatement("union", u, m, s)
}

func checkCall() {
	p, pn := procName()
	qq := &Q{b: newB(cypher.ACall(p...)), s: "ACall(" + strs(p) + ")", m: S{T("CALL " + pn)}}
	if chance(0.7) {
		es := exprs(1, 3, 1)
		qq.do("WithArgs", ss(es), anys(xs(es))...)
		qq.m = append(qq.m, T("("), join(", ", ms(es)...), T(")"))
	} else {
		qq.m = append(qq.m, T("()"))
	}
	if chance(0.15) {
		if f, ok := qq.b.v.Interface().(interface{ AsFunction() cypher.Expression }); ok {
			e := f.AsFunction()
			st, err := cypher.CypherReturning(e).Build()
			if err != nil {
				// a function call needs an argument
				return
			}
			checkStatement("call", st, S{T("RETURN "), T(strings.TrimPrefix(text(qq.m), "CALL "))}, qq.s+".AsFunction()")
			return
		}
	}
	if chance(0.7) {
		for !qq.yields(1) {
		}
		qq.m = append(qq.m, T(" "))
		if qq.b.has("Where") && chance(0.4) {
			c := atom(1)
			qq.do("Where", c.s, c.x)
			qq.m = append(qq.m, T("WHERE "), c.m, T(" "))
		}
		switch rnd.Intn(3) {
		case 0:
			if qq.b.has("With") {
				x, m, s := items(1)
				qq.do("With", s, anys(x)...)
				qq.m = append(qq.m, T("WITH "), join(", ", m...), T(" "))
			}
			qq.returning(1)
		case 1:
			qq.returning(1)
		default:
			if !qq.b.has("Build") {
				qq.returning(1)
			}
		}
	}
	qq.check("call")
}

func checkExistential() {
	x, m, s := patterns(1, 2, 1)
	b := cypher.Match(x...)
	src := "Match(" + s + ")"
	mm := S{T("EXISTS {MATCH "), m, T(" ")}
	var c cypher.Condition
	if chance(0.6) {
		a := atom(1)
		w := b.Where(a.x)
		src += ".Where(" + a.s + ")"
		cm := M(a.m)
		if chance(0.4) {
			a2 := atom(1)
			w = w.And(a2.x)
			src += ".And(" + a2.s + ")"
			cm = S{T("("), a.m, T(" AND "), a2.m, T(")")}
		}
		mm = append(mm, T("WHERE "), cm, T(" "))
		c = w.AsCondition()
	} else {
		c = b.AsCondition()
	}
	checkCond("existential", C{c, append(mm, T("}")), src + ".AsCondition()"})
}

// ---------------------------------------------------------------- purity

func dumpEq(key, what, src string, before, after string) {
	if before != after {
		fail(key, what, src, clip(firstDiff(before, after), 1500), clip(firstDiff(after, before), 1500))
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 200
	if lo < 0 {
		lo = 0
	}
	return a[lo:]
}

func checkPurity() {
	qq := statement(2, false)
	note(qq.s)
	lastSrc = qq.s + ".Build()"
	st, ok := built(qq)
	if !ok {
		return
	}
	d := dump(st)
	want := text(qq.m)
	r := cypher.NewRenderer()
	one := func(n string, r *cypher.CypherRenderer) {
		got, err := r.Render(st)
		if err != nil {
			fail("purity", "rendering ("+n+") fails", lastSrc, want, err.Error())
		} else if got != want {
			fail("purity", "rendering ("+n+") gives another text", lastSrc, want, got)
		}
	}
	one("first", r)
	one("again, same renderer", r)
	other := statement(1, false)
	if o, ok := built(other); ok {
		r.Render(o)
	}
	one("after another statement, same renderer", r)
	cypher.NewRenderer().Render(st)
	one("new renderer", cypher.NewRenderer())
	if chance(0.1) {
		var wg sync.WaitGroup
		res := make([]string, 4)
		for i := range res {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						res[i] = fmt.Sprint("panic: ", r)
					}
				}()
				res[i], _ = cypher.NewRenderer().Render(st)
			}(i)
		}
		wg.Wait()
		for _, g := range res {
			if g != want {
				fail("purity", "rendering at the same time gives another text", lastSrc, want, g)
			}
		}
	}
	if again, err := qq.b.build(); err == nil {
		if g, err := render(again); err != nil || g != want {
			fail("purity", "building again from the same builder gives another statement", lastSrc, want, g)
		}
	} else {
		fail("purity", "building again from the same builder gives an error", lastSrc, "no error", err.Error())
	}
	dumpEq("purity", "rendering changes the statement", lastSrc, d, dump(st))
	r.Render(nil)
	if s, err := cypher.NewRenderer().Render(nil); err == nil || s != "" {
		fail("purity", "rendering nothing is not an error", "NewRenderer().Render(nil)", "error", s)
	}
	bad, err := cypher.CypherReturning(cypher.ASymbolic("")).Build()
	if err == nil {
		if s, err := cypher.NewRenderer().Render(bad); err == nil || s != "" {
			fail("purity", "rendering an erroneous statement is not an error", "CypherReturning(ASymbolic(\"\"))", "error", s)
		}
	}
}

// checkFork continues one builder in two ways and looks at all of them afterwards.
func checkFork() {
	p := statement(2, false)
	one := *p
	one.m = append(S{}, p.m...)
	two := *p
	two.m = append(S{}, p.m...)
	for i := 0; i < 1+rnd.Intn(3); i++ {
		one.step(1)
	}
	for i := 0; i < 1+rnd.Intn(3); i++ {
		two.step(1)
	}
	fin := func(x *Q) {
		if !x.b.has("Build") {
			for i := 0; i < 20 && !x.b.has("Returning"); i++ {
				x.step(1)
			}
			x.returning(1)
		}
	}
	fin(&one)
	fin(&two)
	three := *p
	three.m = append(S{}, p.m...)
	fin(&three)
	qs := []*Q{&one, &two, &three}
	rnd.Shuffle(3, func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	for _, x := range qs {
		x.check("fork")
	}
}

// ---------------------------------------------------------------- what has to be rejected

func rejected(what string, err error) {
	note(what)
	lastSrc = what
	if err == nil {
		fail(where, "an invalid input is accepted", what, "an error", "no error")
	}
}

func accepted(what string, err error) {
	note(what)
	if err != nil {
		fail(where, "a valid input is rejected", what, "no error", err.Error())
	}
}

func errOf(st cypher.Statement, err error) error {
	if err != nil {
		return err
	}
	if st == nil {
		return errors.New("no statement")
	}
	if st.GetError() != nil {
		return st.GetError()
	}
	_, err = render(st)
	return err
}

func rejectMaps() {
	k := aName()
	e := simple()
	rejected(fmt.Sprintf("MapOf(%q, %s, %q, %s)", k, e.s, k, e.s), cypher.MapOf(k, e.x, k, e.x).GetError())
	rejected(fmt.Sprintf("MapOf(%q, %s, \"other\", LiteralOf(1), %q, %s)", k, e.s, k, e.s), cypher.MapOf(k, e.x, k+"other", cypher.LiteralOf(1), k, e.x).GetError())
	rejected(fmt.Sprintf("MapOf(%q)", k), cypher.MapOf(k).GetError())
	rejected(fmt.Sprintf("MapOf(%q, %s, %q)", k, e.s, k+"2"), cypher.MapOf(k, e.x, k+"2").GetError())
	rejected(fmt.Sprintf("MapOf(1, %s)", e.s), cypher.MapOf(1, e.x).GetError())
	n := cypher.AnyNode().NamedByString("n")
	rejected(fmt.Sprintf("AnyNode().NamedByString(\"n\").Project(%q, %s, %q, %s)", k, e.s, k, e.s), n.Project(k, e.x, k, e.x).GetError())
	rejected(fmt.Sprintf("AnyNode().WithRawProperties(%q, %s, %q, %s)", k, e.s, k, e.s), cypher.AnyNode().WithRawProperties(k, e.x, k, e.x).GetError())
	rejected(fmt.Sprintf("AnyNode().NamedByString(\"n\").Project(%q, %s, %q, LiteralOf(1), %q, %s)", k, e.s, k+"other", k, e.s), n.Project(k, e.x, k+"other", cypher.LiteralOf(1), k, e.x).GetError())
	rejected(fmt.Sprintf("AnyNode().NamedByString(\"n\").Project(%q, %s, %q, %q, %s)", k, e.s, k+"other", k, e.s), n.Project(k, e.x, k+"other", k, e.x).GetError())
	accepted(fmt.Sprintf("MapOf(%q, %s, %q, %s)", k, e.s, k+"2", e.s), cypher.MapOf(k, e.x, k+"2", e.x).GetError())
}

func rejectNumbers() {
	n := -1 - rnd.Intn(1000)
	e := simple()
	base := func() cypher.OngoingReadingAndReturn { return cypher.Match(cypher.AnyNode()).Returning(e.x) }
	rejected(fmt.Sprintf("...Skip(%d)", n), errOf(base().Skip(n).Build()))
	rejected(fmt.Sprintf("...Limit(%d)", n), errOf(base().Limit(n).Build()))
	rejected(fmt.Sprintf("...With().Limit(%d)", n), errOf(cypher.With(e.x).Limit(n).Returning(e.x).Build()))
}

func rejectPercentiles() {
	e := simple()
	for _, p := range []float64{-0.1, 1.1, -rnd.Float64() - 1e-9, 1 + 1e-9 + rnd.Float64(), math.NaN(), math.Inf(1), math.Inf(-1)} {
		for _, f := range fnsP {
			rejected(fmt.Sprintf("%s(%s, %v)", f.go_, "e", p), f.f(e.x, p).GetError())
		}
	}
}

func rejectLiterals() {
	for _, v := range []interface{}{struct{}{}, []byte("x"), map[string]int{}, make(chan int), complex(1, 2), func() {}} {
		x := cypher.LiteralOf(v)
		rejected(fmt.Sprintf("LiteralOf(%T)", v), x.GetError())
	}
	for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
		rejected(fmt.Sprintf("NumberLiteralCreate2(%v)", v), cypher.NumberLiteralCreate2(v).GetError())
		rejected(fmt.Sprintf("LiteralOf(%v)", v), cypher.LiteralOf(v).GetError())
	}
	f := math.Float64frombits(rnd.Uint64())
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return
	}
	note(fmt.Sprint("NumberLiteralCreate2 ", f))
	st, err := cypher.CypherReturning(cypher.NumberLiteralCreate2(f)).Build()
	if err != nil {
		fail("float", "a finite number is rejected", fmt.Sprint("NumberLiteralCreate2(", f, ")"), "no error", err.Error())
		return
	}
	s, _ := render(st)
	if !sameNumber(strings.TrimPrefix(s, "RETURN "), f) {
		fail("float", "the numeral denotes another number", fmt.Sprint("NumberLiteralCreate2(", f, ")"), floatText(f), s)
	}
	i := int64(rnd.Uint64())
	st, _ = cypher.CypherReturning(cypher.NumberLiteralCreate(i)).Build()
	if s, _ := render(st); s != fmt.Sprintf("RETURN %d", i) {
		fail("int", "the numeral denotes another number", fmt.Sprint("NumberLiteralCreate(", i, ")"), fmt.Sprint(i), s)
	}
}

func rejectUnions() {
	a, _ := cypher.CypherReturning(simple().x).Build()
	b, _ := cypher.CypherReturning(simple().x).Build()
	rejected("Union(a)", cypher.Union(a).GetError())
	rejected("UnionAll()", cypher.UnionAll().GetError())
	rejected("UnionAll(Union(a, b), a)", cypher.UnionAll(cypher.Union(a, b), a).GetError())
	rejected("Union(UnionAll(a, b), a)", cypher.Union(cypher.UnionAll(a, b), a).GetError())
}

func rejectNames() {
	rejected("ASymbolic(\"\")", cypher.ASymbolic("").GetError())
	rejected("AParam(\"\")", cypher.AParam("").GetError())
	rejected("AliasedExpressionCreate(e, \"\")", cypher.AliasedExpressionCreate(cypher.NullLiteralCreate(), "").GetError())
	rejected("AProperty(\"n\", \"\")", cypher.AProperty("n", "").GetError())
	rejected("AProperty(\"\", \"x\")", cypher.AProperty("", "x").GetError())
}

func init() {
	reg(checkLogic, "logic", "C10")
	once(knownFlat, "C10")
	reg(checkUnion, "union", "C18")
	reg(checkCall, "call", "C18", "C13")
	reg(checkExistential, "existential", "C18", "C13")
	reg(checkPurity, "purity", "C06", "C13", "C14")
	reg(checkFork, "fork", "C14", "C13")
	reg(rejectMaps, "maps rejected", "C15", "C04")
	reg(rejectNumbers, "numbers rejected", "C17", "C04")
	reg(rejectPercentiles, "percentiles rejected", "C12", "C04")
	reg(rejectLiterals, "literals rejected", "C03", "C04")
	reg(rejectUnions, "unions rejected", "C18", "C04")
	reg(rejectNames, "names rejected", "C04")
}
