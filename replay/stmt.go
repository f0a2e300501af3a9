package main

import (
	"fmt"
	"reflect"
	"strings"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// B is a builder with the static type the API gives it.
type B struct {
	v  reflect.Value
	st reflect.Type
}

func newB[T any](x T) B {
	return B{reflect.ValueOf(x), reflect.TypeOf((*T)(nil)).Elem()}
}

func (b B) has(m string) bool {
	_, ok := b.st.MethodByName(m)
	return ok
}

func (b B) call(m string, args ...any) B {
	sm, _ := b.st.MethodByName(m)
	f := b.v.MethodByName(m)
	ft := f.Type()
	var in []reflect.Value
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in = append(in, reflect.Zero(pt))
			continue
		}
		v := reflect.ValueOf(a)
		if v.Type() != pt && v.Type().ConvertibleTo(pt) {
			v = v.Convert(pt)
		}
		in = append(in, v)
	}
	out := f.Call(in)
	rt := sm.Type.Out(0)
	o := out[0]
	if o.Kind() == reflect.Interface {
		o = o.Elem()
	}
	return B{o, rt}
}

func (b B) build() (cypher.Statement, error) {
	f := b.v.MethodByName("Build")
	out := f.Call(nil)
	var err error
	if !out[1].IsNil() {
		err = out[1].Interface().(error)
	}
	if out[0].IsNil() {
		return nil, err
	}
	return out[0].Interface().(cypher.Statement), err
}

// Q is a statement under construction.
type Q struct {
	b B
	m S
	s string
}

func (q *Q) do(m string, src string, args ...any) {
	lastSrc = q.s + "." + m + "(" + src + ")"
	q.b = q.b.call(m, args...)
	q.s += "." + m + "(" + src + ")"
}

func patterns(lo, hi, d int) ([]cypher.PatternElement, M, string) {
	n := lo + rnd.Intn(hi-lo+1)
	var x []cypher.PatternElement
	var m []M
	var s []string
	for i := 0; i < n; i++ {
		p := pattern(d)
		x, m, s = append(x, p.x), append(m, p.m), append(s, p.s)
	}
	return x, join(", ", m...), strings.Join(s, ", ")
}

func anys[T any](x []T) []any {
	var r []any
	for _, e := range x {
		r = append(r, e)
	}
	return r
}

// items: what With and Returning list.
func items(d int) ([]cypher.Expression, []M, string) {
	var x []cypher.Expression
	var m []M
	var s []string
	for i := 0; i < 1+rnd.Intn(3); i++ {
		switch rnd.Intn(5) {
		case 0:
			if chance(0.5) {
				n := namedNode()
				a := aName()
				x, m, s = append(x, n.n.As(a)), append(m, A{X{id(), T(name(n.name))}, a}), append(s, n.s+".As("+fmt.Sprintf("%q", a)+")")
				continue
			}
			fallthrough
		case 1, 2:
			e := expr(d)
			if e.m.id < 0 {
				e = property()
			}
			a := aName()
			if al, ok := aliasOf[e.m.id]; ok {
				a = al
			}
			aliasOf[e.m.id] = a
			x = append(x, cypher.AliasedExpressionCreate(e.x, a))
			m = append(m, A{e.m, a})
			s = append(s, "AliasedExpressionCreate("+e.s+", "+fmt.Sprintf("%q", a)+")")
		case 3:
			if i == 0 {
				x, m, s = append(x, cypher.AnAsterisk()), append(m, T("*")), append(s, "AnAsterisk()")
				continue
			}
			fallthrough
		default:
			e := expr(d)
			x, m, s = append(x, e.x), append(m, M(e.m)), append(s, e.s)
		}
	}
	return x, m, strings.Join(s, ", ")
}

func names(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, aName())
	}
	return r
}

func nameMs(ns []string) []M {
	var r []M
	for _, n := range ns {
		r = append(r, T(name(n)))
	}
	return r
}

func (q *Q) where(d int) {
	if !q.b.has("Where") || !chance(0.5) {
		return
	}
	if q.b.has("WherePattern") && chance(0.15) {
		p := relPattern(0)
		q.do("WherePattern", p.s, p.x)
		q.m = append(q.m, T("WHERE "), p.m, T(" "))
		return
	}
	c := atom(d)
	q.do("Where", c.s, c.x)
	m := M(c.m)
	k := rnd.Intn(3)
	n := 0
	if q.b.has("And") && q.b.has("OrPattern") && k > 0 {
		op := pick("And", "Or")
		for i := 0; i < k; i++ {
			if chance(0.2) {
				p := relPattern(0)
				q.do(op+"Pattern", p.s, p.x)
				m = S{m, T(" " + strings.ToUpper(op) + " "), p.m}
			} else {
				c := atom(d)
				q.do(op, c.s, c.x)
				m = S{m, T(" " + strings.ToUpper(op) + " "), c.m}
			}
			n++
		}
		m = S{T("("), m, T(")")}
	}
	q.m = append(q.m, T("WHERE "), m, T(" "))
}

// order, skip and limit of WITH or RETURN.
func (q *Q) tail(d int) M {
	var m S
	ordered := false
	if q.b.has("OrderBySortItem") && chance(0.3) {
		var x []any
		var sm []M
		var ss []string
		for i := 0; i < 1+rnd.Intn(3); i++ {
			e := expr(d)
			switch rnd.Intn(3) {
			case 0:
				x, sm, ss = append(x, cypher.Sort(e.x)), append(sm, M(e.m)), append(ss, "Sort("+e.s+")")
			case 1:
				x, sm, ss = append(x, cypher.CreateDescendingSortItem(e.x)), append(sm, S{e.m, T(" DESC")}), append(ss, "CreateDescendingSortItem("+e.s+")")
			default:
				x, sm, ss = append(x, cypher.CreateAscendingSortItem(e.x)), append(sm, S{e.m, T(" ASC")}), append(ss, "CreateAscendingSortItem("+e.s+")")
			}
		}
		q.do("OrderBySortItem", strings.Join(ss, ", "), x...)
		m = append(m, T("ORDER BY "), join(", ", sm...), T(" "))
		ordered = true
	} else if chance(0.3) {
		first := pick("OrderBy", "OrderByExpression")
		if q.b.has(first) {
			e := expr(d)
			q.do(first, e.s, e.x)
			it := S{e.m}
			var its []M
			for {
				if q.b.has("Descending") && chance(0.5) {
					if chance(0.5) {
						q.do("Descending", "")
						it = append(it, T(" DESC"))
					} else {
						q.do("Ascending", "")
						it = append(it, T(" ASC"))
					}
				}
				if len(it) == 1 && q.b.has("Descending") && !q.b.has("Build") && !q.b.has("With") {
					// nothing but a direction can follow here
					q.do("Descending", "")
					it = append(it, T(" DESC"))
				}
				its = append(its, it)
				and := ""
				if q.b.has("And1") {
					and = "And1"
				} else if sm, ok := q.b.st.MethodByName("And"); ok && sm.Type.In(0).Name() == "Expression" {
					and = "And"
				}
				if and == "" || !chance(0.5) {
					break
				}
				e := expr(d)
				q.do(and, e.s, e.x)
				it = S{e.m}
			}
			m = append(m, T("ORDER BY "), join(", ", its...), T(" "))
			ordered = true
		}
	}
	_ = ordered
	if q.b.has("Skip") && chance(0.3) {
		n := pick(0, 1, 7, 1000000)
		prev := q.b
		q.do("Skip", fmt.Sprint(n), n)
		m = append(m, T(fmt.Sprintf("SKIP %d ", n)))
		if q.b.st.NumMethod() == 0 { // ExposesLimitAndOngoingReadingAndWith lists nothing
			q.b = B{q.b.v, prev.st}
		}
	}
	if q.b.has("Limit") && chance(0.3) {
		n := pick(1, 2, 7, 1000000)
		q.do("Limit", fmt.Sprint(n), n)
		m = append(m, T(fmt.Sprintf("LIMIT %d ", n)))
	}
	return m
}

func (q *Q) step(d int) bool {
	switch rnd.Intn(11) {
	case 0, 1, 2:
		opt := chance(0.3)
		fn, kw := "Match", "MATCH "
		if opt {
			fn, kw = "OptionalMatch", "OPTIONAL MATCH "
		}
		if !q.b.has(fn) {
			return false
		}
		x, m, s := patterns(1, 3, d)
		q.do(fn, s, anys(x)...)
		q.m = append(q.m, T(kw), m, T(" "))
		q.where(d)
	case 3:
		if !q.b.has("With") {
			return false
		}
		distinct := chance(0.2)
		kw := "WITH "
		var im []M
		sfx := ""
		if distinct {
			kw, sfx = "WITH DISTINCT ", "Distinct"
		}
		switch rnd.Intn(4) {
		case 0:
			ns := names(1 + rnd.Intn(2))
			q.do("With"+sfx+"ByString", strs(ns), anys(ns)...)
			im = nameMs(ns)
		case 1:
			ns := namedNodes(1, 2)
			q.do("With"+sfx+"ByNamed", nodesS(ns), anys(nameds(ns))...)
			im = nodeNames(ns)
		default:
			x, m, s := items(d)
			q.do("With"+sfx, s, anys(x)...)
			im = m
		}
		q.m = append(q.m, T(kw), join(", ", im...), T(" "))
		// conditions may be given before order, skip and limit; they are written last
		save := q.m
		q.m = nil
		q.where(d)
		w := q.m
		q.m = save
		t := q.tail(d)
		q.m = append(append(q.m, t), w)
	case 4:
		if !q.b.has("Unwind") {
			return false
		}
		v := aName()
		if chance(0.3) {
			es := exprs(1, 3, d)
			q.do("Unwinds", ss(es), anys(xs(es))...)
			q.m = append(q.m, T("UNWIND "), listOf(ms(es)), T(" AS "+name(v)+" "))
		} else {
			e := expr(d)
			q.do("Unwind", e.s, e.x)
			q.m = append(q.m, T("UNWIND "), e.m, T(" AS "+name(v)+" "))
		}
		q.do("As", fmt.Sprintf("%q", v), v)
	case 5:
		if !q.b.has("Create") {
			return false
		}
		x, m, s := patterns(1, 2, d)
		q.do("Create", s, anys(x)...)
		q.m = append(q.m, T("CREATE "), m, T(" "))
		q.set(d)
	case 6:
		if !q.b.has("Merge") {
			return false
		}
		x, m, s := patterns(1, 1, d)
		q.do("Merge", s, anys(x)...)
		q.m = append(q.m, T("MERGE "), m, T(" "))
		if chance(0.5) {
			for i := 0; i < 1+rnd.Intn(2) && q.b.has("OnCreate"); i++ {
				fn, kw := "OnCreate", "ON CREATE SET "
				if chance(0.5) {
					fn, kw = "OnMatch", "ON MATCH SET "
				}
				q.do(fn, "")
				x, m, s := assignments(d)
				q.do("Set", s, anys(x)...)
				q.m = append(q.m, T(kw), m, T(" "))
			}
		} else {
			q.set(d)
		}
	case 7:
		if !q.b.has("SetByNode") {
			return q.set(d)
		}
		n := namedNode()
		ls := labels(1)
		if chance(0.5) {
			q.do("SetByNode", n.s+", "+strs(ls), append([]any{n.n}, anys(ls)...)...)
			q.m = append(q.m, T("SET "+name(n.name)+labelText(ls)+" "))
		} else {
			q.do("RemoveByNode", n.s+", "+strs(ls), append([]any{n.n}, anys(ls)...)...)
			q.m = append(q.m, T("REMOVE "+name(n.name)+labelText(ls)+" "))
		}
	case 8:
		if q.b.has("Remove") && chance(0.5) {
			var x []any
			var m []M
			var s []string
			for i := 0; i < 1+rnd.Intn(2); i++ {
				p := property()
				if _, ok := p.x.(cypher.Property); !ok {
					return false
				}
				x, m, s = append(x, p.x), append(m, M(p.m)), append(s, p.s)
			}
			q.do("Remove", strings.Join(s, ", "), x...)
			q.m = append(q.m, T("REMOVE "), join(", ", m...), T(" "))
			return true
		}
		return q.set(d)
	case 9:
		if !q.b.has("Delete") {
			return false
		}
		fn, kw := "Delete", "DELETE "
		if chance(0.5) {
			fn, kw = "DetachDelete", "DETACH DELETE "
		}
		switch rnd.Intn(3) {
		case 0:
			ns := names(1 + rnd.Intn(2))
			q.do(fn+"ByString", strs(ns), anys(ns)...)
			q.m = append(q.m, T(kw), join(", ", nameMs(ns)...), T(" "))
		case 1:
			ns := namedNodes(1, 2)
			q.do(fn+"ByNamed", nodesS(ns), anys(nameds(ns))...)
			q.m = append(q.m, T(kw), join(", ", nodeNames(ns)...), T(" "))
		default:
			e := exprs(1, 2, 0)
			q.do(fn, ss(e), anys(xs(e))...)
			q.m = append(q.m, T(kw), join(", ", ms(e)...), T(" "))
		}
	case 10:
		if q.b.has("Call1") && chance(0.5) {
			q.inQueryCall(d)
			return true
		}
		if !q.b.has("Call") {
			return false
		}
		in := statement(1, true)
		st, err := in.b.build()
		if err != nil {
			fail("build", "a statement built from valid parts carries an error", in.s, "no error", err.Error())
			return false
		}
		q.do("Call", in.s+".Build()", st)
		// the inner statement ends without the space a clause is followed by when it ends with RETURN
		q.m = append(q.m, T("CALL {"), trimmed{in.m}, T("} "))
	}
	return true
}

// trimmed drops the last space of a RETURN clause.
type trimmed struct{ m S }

func (t trimmed) w(c *ctx) {
	t.m.w(c)
	s := c.sb.String()
	if strings.HasSuffix(s, " ") && len(t.m) > 0 {
		if _, ok := t.m[len(t.m)-1].(returned); ok {
			c.sb.Reset()
			c.sb.WriteString(strings.TrimSuffix(s, " "))
		}
	}
}

type returned struct{ S }

func listOf(m []M) M {
	return S{T("["), join(", ", m...), T("]")}
}

func assignments(d int) ([]cypher.Expression, M, string) {
	var x []cypher.Expression
	var m []M
	var s []string
	for i := 0; i < 1+rnd.Intn(3); i++ {
		p := property()
		px, ok := p.x.(cypher.Property)
		if !ok {
			continue
		}
		e := expr(d)
		x, m, s = append(x, px.To(e.x)), append(m, S{p.m, T(" = "), e.m}), append(s, p.s+".To("+e.s+")")
	}
	if len(x) == 0 {
		p := cypher.AProperty("n", "x")
		return []cypher.Expression{p.To(cypher.LiteralOf(1))}, T("n.x = 1"), "AProperty(\"n\", \"x\").To(LiteralOf(1))"
	}
	return x, join(", ", m...), strings.Join(s, ", ")
}

func (q *Q) set(d int) bool {
	if !q.b.has("Set") || !chance(0.6) {
		return false
	}
	if q.b.has("SetWithNamed") && chance(0.2) {
		n := namedNode()
		mx, mm, msrc := mapOf(d)
		q.do("SetWithNamed", n.s+", "+msrc, n.n, mx)
		q.m = append(q.m, T("SET "+name(n.name)+" = "), mm, T(" "))
		return true
	}
	if chance(0.3) {
		// property, value pairs
		p := property()
		px, ok := p.x.(cypher.Property)
		if ok {
			e := expr(d)
			q.do("Set", p.s+", "+e.s, px, e.x)
			q.m = append(q.m, T("SET "), p.m, T(" = "), e.m, T(" "))
			return true
		}
	}
	x, m, s := assignments(d)
	q.do("Set", s, anys(x)...)
	q.m = append(q.m, T("SET "), m, T(" "))
	return true
}

func procName() ([]string, string) {
	n := 1 + rnd.Intn(3)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, pick("db", "apoc", "labels", "dbms", "proc", "text"))
	}
	return r, strings.Join(r, ".")
}

func (q *Q) yields(d int) bool {
	if !q.b.has("YieldString") || !chance(0.7) {
		return false
	}
	switch rnd.Intn(3) {
	case 0:
		ns := names(1 + rnd.Intn(2))
		q.do("YieldString", strs(ns), anys(ns)...)
		q.m = append(q.m, T(" YIELD "), join(", ", nameMs(ns)...))
	case 1:
		ns := names(1 + rnd.Intn(2))
		var x []any
		var s []string
		for _, n := range ns {
			x, s = append(x, cypher.ASymbolic(n)), append(s, fmt.Sprintf("ASymbolic(%q)", n))
		}
		q.do("YieldSymbolic", strings.Join(s, ", "), x...)
		q.m = append(q.m, T(" YIELD "), join(", ", nameMs(ns)...))
	default:
		n, a := aName(), aName()
		sy := cypher.ASymbolic(n)
		q.do("Yield", fmt.Sprintf("AliasedExpressionCreate(ASymbolic(%q), %q)", n, a), cypher.AliasedExpressionCreate(sy, a))
		q.m = append(q.m, T(" YIELD "), A{X{id(), T(name(n))}, a})
	}
	return true
}

func (q *Q) inQueryCall(d int) {
	p, pn := procName()
	q.do("Call1", strs(p), anys(p)...)
	q.m = append(q.m, T("CALL "+pn))
	if chance(0.7) {
		es := exprs(1, 3, d)
		q.do("WithArgs", ss(es), anys(xs(es))...)
		q.m = append(q.m, T("("), join(", ", ms(es)...), T(")"))
	} else {
		q.m = append(q.m, T("()"))
	}
	for !q.yields(d) {
	}
	q.m = append(q.m, T(" "))
	if q.b.has("Where") && chance(0.4) {
		c := atom(d)
		q.do("Where", c.s, c.x)
		q.m = append(q.m, T("WHERE "), c.m, T(" "))
	}
}

func (q *Q) returning(d int) {
	var im []M
	kw, sfx := "RETURN ", ""
	if chance(0.2) {
		kw, sfx = "RETURN DISTINCT ", "Distinct"
	}
	switch rnd.Intn(4) {
	case 0:
		ns := names(1 + rnd.Intn(2))
		q.do("Returning"+sfx+"ByString", strs(ns), anys(ns)...)
		im = nameMs(ns)
	case 1:
		ns := namedNodes(1, 2)
		q.do("Returning"+sfx+"ByNamed", nodesS(ns), anys(nameds(ns))...)
		im = nodeNames(ns)
	default:
		x, m, s := items(d)
		q.do("Returning"+sfx, s, anys(x)...)
		im = m
	}
	r := S{T(kw), join(", ", im...), T(" ")}
	r = append(r, q.tail(d))
	q.m = append(q.m, returned{r})
}

// statement makes a random statement of up to n further clauses; ret: it must end with RETURN.
func statement(n int, ret bool) *Q {
	q := &Q{}
	d := 1
	switch rnd.Intn(6) {
	case 0, 1:
		x, m, s := patterns(1, 3, d)
		q.b, q.s = newB(cypher.Match(x...)), "Match("+s+")"
		q.m = S{T("MATCH "), m, T(" ")}
		q.where(d)
	case 2:
		x, m, s := patterns(1, 2, d)
		q.b, q.s = newB(cypher.AnOptionalMatch(x...)), "AnOptionalMatch("+s+")"
		q.m = S{T("OPTIONAL MATCH "), m, T(" ")}
		q.where(d)
	case 3:
		x, m, s := patterns(1, 2, d)
		q.b, q.s = newB(cypher.Create(x...)), "Create("+s+")"
		q.m = S{T("CREATE "), m, T(" ")}
		q.set(d)
	case 4:
		v := aName()
		e := expr(d)
		q.b, q.s = newB(cypher.Unwind(e.x).As(v)), fmt.Sprintf("Unwind(%s).As(%q)", e.s, v)
		q.m = S{T("UNWIND "), e.m, T(" AS " + name(v) + " ")}
	default:
		x, m, s := items(d)
		q.b, q.s = newB(cypher.With(x...)), "With("+s+")"
		q.m = S{T("WITH "), join(", ", m...), T(" ")}
		t := q.tail(d)
		q.m = append(q.m, t)
		q.where(d)
	}
	k := rnd.Intn(n + 1)
	for i := 0; i < k; i++ {
		q.step(d)
	}
	if ret || !q.b.has("Build") {
		for i := 0; i < 20 && !q.b.has("Returning"); i++ {
			q.step(d)
		}
		q.returning(d)
	} else if q.b.has("Returning") && chance(0.5) {
		q.returning(d)
	}
	return q
}

// check builds, renders and compares.
func (q *Q) check(key string) (cypher.Statement, string) {
	note(q.s)
	lastSrc = q.s + ".Build()"
	st, err := q.b.build()
	if err != nil {
		fail(key, "a statement built from valid parts carries an error", q.s+".Build()", text(q.m), "error: "+err.Error())
		return nil, ""
	}
	got, err := render(st)
	if err != nil {
		fail(key, "a statement built from valid parts is not rendered", q.s+".Build()", text(q.m), "error: "+err.Error())
		return nil, ""
	}
	want := text(q.m)
	if got != want {
		fail(key, "the rendered text differs", q.s+".Build()", want, got)
	}
	return st, got
}

// checkExpr renders one expression as RETURN item.
func checkExpr(key string, e E) {
	note(e.s)
	lastSrc = e.s
	st, err := cypher.CypherReturning(e.x).Build()
	if err != nil {
		fail(key, "a statement built from valid parts carries an error", e.s, text(e.m), "error: "+err.Error())
		return
	}
	got, err := render(st)
	if err != nil {
		fail(key, "a statement built from valid parts is not rendered", e.s, text(e.m), "error: "+err.Error())
		return
	}
	if want := text(S{T("RETURN "), e.m}); got != want {
		fail(key, "the rendered text differs", "CypherReturning("+e.s+").Build()", want, got)
	}
}

func checkPattern(key string, p P) {
	q := &Q{b: newB(cypher.Create(p.x)), m: S{T("CREATE "), p.m}, s: "Create(" + p.s + ")"}
	q.check(key)
}

func checkCond(key string, c C) {
	n := cypher.AnyNode()
	q := &Q{b: newB(cypher.Match(n).Where(c.x).Returning(cypher.AnAsterisk())), m: S{T("MATCH () WHERE "), c.m, T(" RETURN *")}, s: "Match(AnyNode()).Where(" + c.s + ").Returning(AnAsterisk())"}
	q.check(key)
}

func init() {
	reg(func() { statement(4, false).check("statement") }, "statement", "C06", "C07", "C08", "C09", "C13", "C14", "C17", "C18", "C20", "C05", "C04", "C01")
	reg(func() { checkExpr("expr", expr1(3)) }, "expression", "C07", "C09", "C01", "C05", "C06", "C11")
	reg(func() { checkPattern("pattern", pattern(2)) }, "pattern", "C16", "C01", "C09", "C07")
	reg(func() { checkExpr("literal", lit()) }, "literal", "C02", "C03")
	reg(func() { checkExpr("list", listExpr(2)) }, "list", "C03", "C19", "C07")
	reg(func() { checkExpr("operation", operation(3)) }, "operation", "C11")
	reg(func() { checkCond("comparison", comparison(1)) }, "comparison", "C11")
	reg(func() { checkCond("condition", condition(2)) }, "condition", "C10", "C11")
	reg(func() { checkExpr("map", mapExpr(2)) }, "map", "C15", "C01")
	reg(func() { checkExpr("projection", projection(2)) }, "projection", "C15", "C01")
	reg(func() { checkExpr("function", function(2)) }, "function", "C12")
	reg(func() { checkExpr("case", caseExpr(2)) }, "case", "C19")
	reg(func() { checkExpr("listoperator", listOperator(2)) }, "listoperator", "C19")
	reg(func() { checkExpr("listcomprehension", listComprehension(2)) }, "listcomprehension", "C19")
	reg(func() { checkExpr("patterncomprehension", patternComprehension(2)) }, "patterncomprehension", "C19")
	reg(func() { checkCond("listpredicate", listPredicate(2)) }, "listpredicate", "C19")
	reg(func() { checkExpr("property", property()) }, "property", "C01", "C11", "C15")
	reg(func() { checkExpr("name", symbolic()) }, "name", "C01")
}
