package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

var nextID int

// aliasOf: the alias an expression was given in this case; it keeps it.
var aliasOf = map[int]string{}

func resetIDs() { nextID = 100; pool = nil; nodePool = nil; aliasOf = map[int]string{} }
func id() int   { nextID++; return nextID }

// E is an expression, its model and the program text that makes it.
type E struct {
	x cypher.Expression
	m X
	s string
}

// C is a condition.
type C struct {
	x cypher.Condition
	m M
	s string
}

var pool []E

var edgeNames = []string{"n", "m", "a1", "_x", "has space", "back`tick", "``", "`", "1abc", "ä", "日本", "a-b", "MATCH", "a.b", "it's", "q\"q", "x\\y", "$p", "a`b`c", "λ1", "n\tm", "9", "a)b", "x`) DETACH DELETE (n", "A", "_", "*x"}

func aName() string {
	if chance(0.5) {
		return pick("n", "m", "p", "r", "abc", "Person", "x1", "foo_bar")
	}
	if chance(0.7) {
		return edgeNames[rnd.Intn(len(edgeNames))]
	}
	return randString(1, 8)
}

func plainName() string {
	return pick("n", "m", "p", "q", "abc", "x1", "foo", "bar", "v", "w") + pick("", "1", "2", "_a")
}

var runes = []rune("abzAZ019_ `'\"\\$.:,;(){}[]|*-+/<>=!?&%#@~^\t\néß日λ😀\u00a0\u0660")

func randString(lo, hi int) string {
	n := lo + rnd.Intn(hi-lo+1)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(runes[rnd.Intn(len(runes))])
	}
	s := sb.String()
	if lo > 0 && strings.TrimSpace(s) == "" {
		return "x" + s
	}
	return s
}

func aString() string {
	return pick(pick("", "a", "it's", "say \"hi\"", "back\\slash", "\\'", "'", "''", "\\", "\\\\", "a\nb", "a'b\\c\"d", "' OR 1=1 //", "100%", "%s", "$1", "${0}"), randString(0, 12))
}

func mk(x cypher.Expression, m M, s string) E {
	return E{x, X{id(), m}, s}
}

func q(s string) string { return strconv.Quote(s) }

// ---------------------------------------------------------------- expressions

func symbolic() E {
	n := aName()
	return mk(cypher.ASymbolic(n), T(name(n)), "ASymbolic("+q(n)+")")
}

func property() E {
	k := aName()
	for k == "*" {
		k = aName()
	}
	switch rnd.Intn(4) {
	case 0:
		n := aName()
		return mk(cypher.AProperty(n, k), T(name(n)+"."+name(k)), fmt.Sprintf("AProperty(%q, %q)", n, k))
	case 1:
		n := namedNode()
		if n.named {
			return mk(n.n.Property(k), T(name(n.name)+"."+name(k)), n.s+".Property("+q(k)+")")
		}
		fallthrough
	case 2:
		a := symbolic()
		return mk(cypher.APropertyByExpression(a.x, k), S{a.m, T("." + name(k))}, fmt.Sprintf("APropertyByExpression(%s, %q)", a.s, k))
	default:
		r := relationship(namedNode(), namedNode(), true)
		return mk(r.r.Property(k), T(name(r.name)+"."+name(k)), r.s+".Property("+q(k)+")")
	}
}

func lit() E {
	switch rnd.Intn(7) {
	case 0, 1:
		s := aString()
		return mk(cypher.StringLiteralCreate(s), T(strLit(s)), "StringLiteralCreate("+q(s)+")")
	case 2:
		i := pick(0, 1, -1, 42, rnd.Int(), math.MaxInt64, math.MinInt64, 1<<53+1, 100000000000000000)
		return mk(cypher.NumberLiteralCreate1(i), T(strconv.Itoa(i)), fmt.Sprintf("NumberLiteralCreate1(%d)", i))
	case 3:
		f := aFloat()
		return mk(cypher.NumberLiteralCreate2(f), T(floatText(f)), fmt.Sprintf("NumberLiteralCreate2(%v)", f))
	case 4:
		b := chance(0.5)
		x, l := litOf(b)
		return E{x, X{boolID(b), T(l)}, fmt.Sprintf("LiteralOf(%v)", b)}
	case 5:
		return mk(cypher.NullLiteralCreate(), T("NULL"), "NullLiteralCreate()")
	default:
		var v interface{}
		var l string
		switch rnd.Intn(4) {
		case 0:
			s := aString()
			v, l = s, strLit(s)
		case 1:
			i := rnd.Intn(1000) - 500
			v, l = i, strconv.Itoa(i)
		case 2:
			i := pick(math.MaxInt64, math.MinInt64, rnd.Int())
			v, l = i, strconv.Itoa(i)
		case 3:
			f := aFloat()
			v, l = f, floatText(f)
		}
		return mk(cypher.LiteralOf(v), T(l), fmt.Sprintf("LiteralOf(%#v)", v))
	}
}

func boolID(b bool) int {
	if b {
		return -1
	}
	return -2
}

func litOf(b bool) (cypher.Expression, string) {
	return cypher.LiteralOf(b), strconv.FormatBool(b)
}

func aFloat() float64 {
	return pick(0.0, 1, 0.1, -0.5, 1e21, 1e-7, 123456789.125, 1.0/3, math.Pi, 1e300, math.MaxFloat64, 2.5e15, -1e22, rnd.NormFloat64(), rnd.NormFloat64()*1e18, float64(rnd.Intn(1000))/8)
}

func parameter() E {
	n := pick("p", "param", "x1", "_q", "name")
	return mk(cypher.AParam(n), T("$"+n), "AParam("+q(n)+")")
}

type opdef struct {
	sym string
	f   func(a, b cypher.Expression) cypher.Expression
	s   string
}

var arith = []opdef{
	{" + ", func(a, b cypher.Expression) cypher.Expression { return cypher.OperationAdd(a, b) }, "OperationAdd"},
	{" - ", func(a, b cypher.Expression) cypher.Expression { return cypher.OperationSubtract(a, b) }, "OperationSubtract"},
	{" * ", func(a, b cypher.Expression) cypher.Expression { return cypher.OperationMultiply(a, b) }, "OperationMultiply"},
	{" / ", func(a, b cypher.Expression) cypher.Expression { return cypher.OperationDivide(a, b) }, "OperationDivide"},
	{" % ", func(a, b cypher.Expression) cypher.Expression { return cypher.OperationRemainder(a, b) }, "OperationRemainder"},
	{" + ", func(a, b cypher.Expression) cypher.Expression { return cypher.OperationConcat(a, b) }, "OperationConcat"},
}

var arithM = []struct {
	sym string
	m   string
}{{" + ", "Add"}, {" - ", "Subtract"}, {" * ", "Multiply"}, {" / ", "Divide"}, {" % ", "Remainder"}, {" + ", "Concat"}}

func simple() E {
	switch rnd.Intn(6) {
	case 0:
		return symbolic()
	case 1, 2:
		return property()
	case 3:
		return parameter()
	default:
		return lit()
	}
}

func expr(d int) E {
	if len(pool) > 0 && chance(0.12) {
		return pool[rnd.Intn(len(pool))]
	}
	e := expr1(d)
	if len(pool) < 40 {
		pool = append(pool, e)
	}
	return e
}

func expr1(d int) E {
	if d <= 0 || chance(0.25) {
		return simple()
	}
	switch rnd.Intn(15) {
	case 0, 1:
		return operation(d)
	case 2:
		return listExpr(d)
	case 3:
		return mapExpr(d)
	case 4, 5:
		return function(d)
	case 6:
		return caseExpr(d)
	case 7:
		return listOperator(d)
	case 8:
		return listComprehension(d)
	case 9:
		c := condition(d - 1)
		if e, ok := c.x.(cypher.Expression); ok && c.x != nil {
			return mk(e, c.m, c.s)
		}
		return simple()
	case 10:
		return patternComprehension(d)
	case 11:
		return projection(d)
	case 12:
		c := listPredicate(d)
		return mk(c.x.(cypher.Expression), c.m, c.s)
	default:
		return simple()
	}
}

func operation(d int) E {
	a, b := expr(d-1), expr(d-1)
	if chance(0.2) {
		m := S{a.m, T("^"), b.m}
		return mk(cypher.OperationPow(a.x, b.x), powModel(a, b, m), fmt.Sprintf("OperationPow(%s, %s)", a.s, b.s))
	}
	if chance(0.4) {
		o := arithM[rnd.Intn(len(arithM))]
		a = simple()
		if h, ok := a.x.(interface {
			Add(cypher.Expression) cypher.ExpressionContainer
			Subtract(cypher.Expression) cypher.ExpressionContainer
			Multiply(cypher.Expression) cypher.ExpressionContainer
			Divide(cypher.Expression) cypher.ExpressionContainer
			Remainder(cypher.Expression) cypher.ExpressionContainer
			Concat(cypher.Expression) cypher.ExpressionContainer
		}); ok {
			var x cypher.Expression
			switch o.m {
			case "Add":
				x = h.Add(b.x).Get()
			case "Subtract":
				x = h.Subtract(b.x).Get()
			case "Multiply":
				x = h.Multiply(b.x).Get()
			case "Divide":
				x = h.Divide(b.x).Get()
			case "Remainder":
				x = h.Remainder(b.x).Get()
			case "Concat":
				x = h.Concat(b.x).Get()
			}
			return mk(x, S{T("("), a.m, T(o.sym), b.m, T(")")}, a.s+"."+o.m+"("+b.s+")")
		}
	}
	o := arith[rnd.Intn(len(arith))]
	return mk(o.f(a.x, b.x), S{T("("), a.m, T(o.sym), b.m, T(")")}, fmt.Sprintf("%s(%s, %s)", o.s, a.s, b.s))
}

// powModel: a power as operand of a power is put in parentheses.
func powModel(a, b E, m M) M {
	isPow := func(e E) bool { return strings.HasPrefix(e.s, "OperationPow(") }
	am, bm := M(a.m), M(b.m)
	if isPow(a) {
		am = a.m
	}
	if isPow(b) {
		bm = S{T("("), b.m, T(")")}
	}
	return S{am, T("^"), bm}
}

func exprs(lo, hi, d int) []E {
	n := lo + rnd.Intn(hi-lo+1)
	var r []E
	for i := 0; i < n; i++ {
		r = append(r, expr(d))
	}
	return r
}

func xs(es []E) []cypher.Expression {
	r := []cypher.Expression{}
	for _, e := range es {
		r = append(r, e.x)
	}
	return r
}

func ms(es []E) []M {
	var r []M
	for _, e := range es {
		r = append(r, e.m)
	}
	return r
}

func ss(es []E) string {
	var r []string
	for _, e := range es {
		r = append(r, e.s)
	}
	return strings.Join(r, ", ")
}

func listExpr(d int) E {
	es := exprs(0, 4, d-1)
	return mk(cypher.ListOf(xs(es)...), S{T("["), join(", ", ms(es)...), T("]")}, "ListOf("+ss(es)+")")
}

func mapOf(d int) (cypher.MapExpression, M, string) {
	n := rnd.Intn(4)
	var args []interface{}
	var m []M
	var s []string
	used := map[string]bool{}
	last := ""
	for i := 0; i < n; i++ {
		k := aName()
		if i > 0 && chance(0.2) { // a key that differs only in case from another
			k = strings.ToUpper(last)
		}
		for used[k] || k == "*" {
			k += "x"
		}
		used[k] = true
		last = k
		e := expr(d - 1)
		args = append(args, k, e.x)
		m = append(m, S{T(name(k) + ": "), e.m})
		s = append(s, q(k)+", "+e.s)
	}
	return cypher.MapOf(args...), S{T("{"), join(", ", m...), T("}")}, "MapOf(" + strings.Join(s, ", ") + ")"
}

func mapExpr(d int) E {
	x, m, s := mapOf(d)
	return mk(x, m, s)
}

func caseExpr(d int) E {
	n := 1 + rnd.Intn(3)
	var x interface {
		When(cypher.Expression) cypher.OngoingWhenThen
	}
	var m S
	var s string
	simpleCase := chance(0.5)
	if simpleCase {
		c := expr(d - 1)
		x = cypher.CaseExpression(c.x)
		m = S{T("CASE "), c.m}
		s = "CaseExpression(" + c.s + ")"
	} else {
		x = cypher.GenericCaseExpression()
		m = S{T("CASE")}
		s = "GenericCaseExpression()"
	}
	for i := 0; i < n; i++ {
		var w E
		if simpleCase {
			w = expr(d - 1)
		} else {
			c := condition(d - 1)
			w = E{c.x.(cypher.Expression), X{id(), c.m}, c.s}
		}
		t := expr(d - 1)
		e := x.When(w.x).Then(t.x)
		x = e
		m = append(m, T(" WHEN "), w.m, T(" THEN "), t.m)
		s += ".When(" + w.s + ").Then(" + t.s + ")"
	}
	if chance(0.6) {
		e := expr(d - 1)
		ce := x.(cypher.CaseEnding).ElseDefault(e.x)
		m = append(m, T(" ELSE "), e.m, T(" END"))
		return mk(ce, m, s+".ElseDefault("+e.s+")")
	}
	m = append(m, T(" END"))
	return mk(x.(cypher.Expression), m, s)
}

func listOperator(d int) E {
	t := expr(d - 1)
	a, b := expr(d-1), expr(d-1)
	i, j := rnd.Intn(9), rnd.Intn(9)
	switch rnd.Intn(8) {
	case 0:
		return mk(cypher.CypherValueAt(t.x, i), S{t.m, T(fmt.Sprintf("[%d]", i))}, fmt.Sprintf("CypherValueAt(%s, %d)", t.s, i))
	case 1:
		return mk(cypher.CypherValueAtByExpression(t.x, a.x), S{t.m, T("["), a.m, T("]")}, fmt.Sprintf("CypherValueAtByExpression(%s, %s)", t.s, a.s))
	case 2:
		return mk(cypher.ASubList(t.x, i, j), S{t.m, T(fmt.Sprintf("[%d..%d]", i, j))}, fmt.Sprintf("ASubList(%s, %d, %d)", t.s, i, j))
	case 3:
		return mk(cypher.SubList(t.x, a.x, b.x), S{t.m, T("["), a.m, T(".."), b.m, T("]")}, fmt.Sprintf("SubList(%s, %s, %s)", t.s, a.s, b.s))
	case 4:
		return mk(cypher.CypherSubListFrom(t.x, i), S{t.m, T(fmt.Sprintf("[%d..]", i))}, fmt.Sprintf("CypherSubListFrom(%s, %d)", t.s, i))
	case 5:
		return mk(cypher.ASubListFromByExpression(t.x, a.x), S{t.m, T("["), a.m, T("..]")}, fmt.Sprintf("ASubListFromByExpression(%s, %s)", t.s, a.s))
	case 6:
		return mk(cypher.ASubListUntil(t.x, i), S{t.m, T(fmt.Sprintf("[..%d]", i))}, fmt.Sprintf("ASubListUntil(%s, %d)", t.s, i))
	default:
		return mk(cypher.CypherSubListUntilByExpression(t.x, a.x), S{t.m, T("[.."), a.m, T("]")}, fmt.Sprintf("CypherSubListUntilByExpression(%s, %s)", t.s, a.s))
	}
}

func listComprehension(d int) E {
	v := aName()
	l := expr(d - 1)
	b := cypher.CypherListWith(cypher.ASymbolic(v)).In(l.x)
	m := S{T("[" + name(v) + " IN "), l.m}
	s := fmt.Sprintf("CypherListWith(ASymbolic(%q)).In(%s)", v, l.s)
	var w cypher.OngoingDefinitionWithoutReturn = b
	if chance(0.5) {
		c := condition(d - 1)
		w = b.Where(c.x)
		m = append(m, T(" WHERE "), c.m)
		s += ".Where(" + c.s + ")"
	}
	switch rnd.Intn(3) {
	case 0:
		return mk(w.ReturningDefault(), append(m, T("]")), s+".ReturningDefault()")
	case 1:
		n := namedNodes(1, 2)
		return mk(w.ReturningByNamed(nameds(n)...), append(m, T(" | "), listOrSingle(nodeNames(n)), T("]")), s+".ReturningByNamed("+nodesS(n)+")")
	default:
		es := exprs(1, 3, d-1)
		return mk(w.Returning(xs(es)...), append(m, T(" | "), listOrSingle(ms(es)), T("]")), s+".Returning("+ss(es)+")")
	}
}

func listOrSingle(m []M) M {
	if len(m) == 1 {
		return m[0]
	}
	return S{T("["), join(", ", m...), T("]")}
}

func patternComprehension(d int) E {
	p := relPattern(d - 1)
	b := cypher.ListBasedOn(p.x.(cypher.RelationshipPattern))
	m := S{T("["), p.m}
	s := "ListBasedOn(" + p.s + ")"
	var w cypher.PatternComprehensionOngoingDefinitionWithoutReturn = b
	if chance(0.5) {
		c := condition(d - 1)
		w = b.Where(c.x)
		m = append(m, T(" WHERE "), c.m)
		s += ".Where(" + c.s + ")"
	}
	es := exprs(1, 2, d-1)
	return mk(w.Returning(xs(es)...), append(m, T(" | "), listOrSingle(ms(es)), T("]")), s+".Returning("+ss(es)+")")
}

func projection(d int) E {
	n := namedNode()
	var args []interface{}
	var m []M
	var s []string
	used := map[string]bool{}
	for i := 0; i < rnd.Intn(4); i++ {
		k := aName()
		for used[k] || k == "*" {
			k += "x"
		}
		used[k] = true
		c := rnd.Intn(4)
		if c > 1 && len(args) > 0 {
			// a name followed by an expression is a key and its value
			if _, bare := args[len(args)-1].(string); bare {
				c -= 2
			}
		}
		switch c {
		case 0:
			args = append(args, k)
			m = append(m, T("."+name(k)))
			s = append(s, q(k))
		case 1:
			e := expr(d - 1)
			args = append(args, k, e.x)
			m = append(m, S{T(name(k) + ": "), e.m})
			s = append(s, q(k)+", "+e.s)
		case 2:
			args = append(args, cypher.AnAsterisk())
			m = append(m, T(".*"))
			s = append(s, "AnAsterisk()")
		default:
			p := cypher.AProperty("x", k)
			args = append(args, p)
			m = append(m, T("."+name(k)))
			s = append(s, "AProperty(\"x\", "+q(k)+")")
		}
	}
	return mk(n.n.Project(args...), S{T(name(n.name) + "{"), join(", ", m...), T("}")}, n.s+".Project("+strings.Join(s, ", ")+")")
}

func listPredicate(d int) C {
	v := aName()
	l := expr(d - 1)
	c := condition(d - 1)
	k := rnd.Intn(4)
	f := []func(string) cypher.OngoingListBasedPredicateFunction{cypher.PredicateAll, cypher.PredicateAny, cypher.PredicateNone, cypher.PredicateSingle}[k]
	n := []string{"all", "any", "none", "single"}[k]
	gn := []string{"PredicateAll", "PredicateAny", "PredicateNone", "PredicateSingle"}[k]
	return C{f(v).In(l.x).Where(c.x), S{T(n + "(" + name(v) + " IN "), l.m, T(" WHERE "), c.m, T(")")}, fmt.Sprintf("%s(%q).In(%s).Where(%s)", gn, v, l.s, c.s)}
}

// ---------------------------------------------------------------- conditions

type cmpdef struct {
	sym string
	n   string
	f   func(h hasCmp, b cypher.Expression) cypher.ConditionContainer
}

type hasCmp interface {
	IsEqualTo(cypher.Expression) cypher.ConditionContainer
	IsNotEqualTo(cypher.Expression) cypher.ConditionContainer
	Lt(cypher.Expression) cypher.ConditionContainer
	Lte(cypher.Expression) cypher.ConditionContainer
	Gt(cypher.Expression) cypher.ConditionContainer
	Gte(cypher.Expression) cypher.ConditionContainer
	StartWiths(cypher.Expression) cypher.ConditionContainer
	EndsWith(cypher.Expression) cypher.ConditionContainer
	Contains(cypher.Expression) cypher.ConditionContainer
	Matches(cypher.Expression) cypher.ConditionContainer
	In(cypher.Expression) cypher.ConditionContainer
	IsNull() cypher.ConditionContainer
	IsNotNull() cypher.ConditionContainer
	IsTrue() cypher.ConditionContainer
	IsFalse() cypher.ConditionContainer
	IsEmpty() cypher.ConditionContainer
	MatchesPattern(string) cypher.ConditionContainer
}

var cmps = []cmpdef{
	{" = ", "IsEqualTo", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.IsEqualTo(b) }},
	{" <> ", "IsNotEqualTo", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.IsNotEqualTo(b) }},
	{" < ", "Lt", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.Lt(b) }},
	{" <= ", "Lte", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.Lte(b) }},
	{" > ", "Gt", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.Gt(b) }},
	{" >= ", "Gte", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.Gte(b) }},
	{" STARTS WITH ", "StartWiths", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.StartWiths(b) }},
	{" ENDS WITH ", "EndsWith", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.EndsWith(b) }},
	{" CONTAINS ", "Contains", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.Contains(b) }},
	{" =~ ", "Matches", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.Matches(b) }},
	{" IN ", "In", func(h hasCmp, b cypher.Expression) cypher.ConditionContainer { return h.In(b) }},
}

func comparison(d int) C {
	a, b := expr(d-1), expr(d-1)
	h, ok := a.x.(hasCmp)
	if !ok {
		a = property()
		h = a.x.(hasCmp)
	}
	switch rnd.Intn(9) {
	case 0:
		return C{h.IsNull().Get(), S{operand(a), T(" IS NULL")}, a.s + ".IsNull()"}
	case 1:
		return C{h.IsNotNull().Get(), S{operand(a), T(" IS NOT NULL")}, a.s + ".IsNotNull()"}
	case 2:
		return C{h.IsTrue().Get(), S{operand(a), T(" = "), X{-1, T("true")}}, a.s + ".IsTrue()"}
	case 3:
		return C{h.IsFalse().Get(), S{operand(a), T(" = "), X{-2, T("false")}}, a.s + ".IsFalse()"}
	case 4:
		p := aString()
		return C{h.MatchesPattern(p).Get(), S{operand(a), T(" =~ " + strLit(p))}, a.s + ".MatchesPattern(" + q(p) + ")"}
	}
	o := cmps[rnd.Intn(len(cmps))]
	return C{o.f(h, b.x).Get(), S{operand(a), T(o.sym), operand(b)}, a.s + "." + o.n + "(" + b.s + ")"}
}

func atom(d int) C {
	switch rnd.Intn(7) {
	case 0:
		n := namedNode()
		ls := labels(1)
		return C{n.n.HasLabels(ls...), T(name(n.name) + labelText(ls)), n.s + ".HasLabels(" + strs(ls) + ")"}
	case 1:
		if d > 0 {
			return listPredicate(d)
		}
	case 2:
		p := property()
		if px, ok := p.x.(cypher.Property); ok {
			return C{cypher.PredicateExists(px), S{T("exists("), p.m, T(")")}, "PredicateExists(" + p.s + ")"}
		}
	}
	return comparison(d)
}

// operand: a condition as operand of a comparison stands in parentheses.
func operand(e E) M {
	if _, ok := e.x.(cypher.Condition); ok {
		return S{T("("), e.m, T(")")}
	}
	return e.m
}

// condition: an atom, or two joined by one operator (longer shapes are the business of the C10 suite).
func condition(d int) C {
	if d <= 0 || chance(0.6) {
		return atom(d)
	}
	a, b := atom(d-1), atom(d-1)
	type j interface {
		And(cypher.Condition) cypher.ConditionContainer
		Or(cypher.Condition) cypher.ConditionContainer
		Xor(cypher.Condition) cypher.ConditionContainer
	}
	h, ok := a.x.(j)
	if !ok {
		return a
	}
	switch rnd.Intn(4) {
	case 0:
		return C{h.And(b.x).Get(), S{T("("), a.m, T(" AND "), b.m, T(")")}, a.s + ".And(" + b.s + ")"}
	case 1:
		return C{h.Or(b.x).Get(), S{T("("), a.m, T(" OR "), b.m, T(")")}, a.s + ".Or(" + b.s + ")"}
	case 2:
		return C{h.Xor(b.x).Get(), S{T("("), a.m, T(" XOR "), b.m, T(")")}, a.s + ".Xor(" + b.s + ")"}
	default:
		return C{cypher.ConditionsNot(a.x), S{T("NOT ("), a.m, T(")")}, "ConditionsNot(" + a.s + ")"}
	}
}

// ---------------------------------------------------------------- patterns

type nodeV struct {
	n     cypher.Node
	m     N
	s     string
	name  string
	named bool
}

func labels(lo int) []string {
	var r []string
	n := lo + rnd.Intn(3)
	for i := 0; i < n; i++ {
		r = append(r, aName())
	}
	return r
}

func labelText(ls []string) string {
	s := ""
	for _, l := range ls {
		s += ":" + quoted(l)
	}
	return s
}

func strs(ls []string) string {
	var r []string
	for _, l := range ls {
		r = append(r, q(l))
	}
	return strings.Join(r, ", ")
}

func node(named bool, d int) nodeV {
	ls := labels(0)
	var n cypher.Node
	var s string
	var rest S
	if len(ls) == 0 {
		n, s = cypher.AnyNode(), "AnyNode()"
	} else {
		n, s = cypher.NewNodeWithLabels(ls[0], ls[1:]...), "NewNodeWithLabels("+strs(ls)+")"
		rest = append(rest, T(labelText(ls)))
	}
	if d > 0 && chance(0.4) {
		mx, mm, msrc := mapOf(d - 1)
		n, s = n.WithProperties(mx), s+".WithProperties("+msrc+")"
		rest = append(rest, T(" "), mm)
	}
	nm := ""
	if named {
		nm = aName()
		n, s = n.NamedByString(nm), s+".NamedByString("+q(nm)+")"
	}
	return nodeV{n, N{id(), nm, rest, named}, s, nm, named}
}

var nodePool []nodeV

func namedNode() nodeV { return node(true, 0) }

func namedNodes(lo, hi int) []nodeV {
	var r []nodeV
	for i := 0; i < lo+rnd.Intn(hi-lo+1); i++ {
		r = append(r, namedNode())
	}
	return r
}

func nameds(ns []nodeV) []cypher.Named {
	var r []cypher.Named
	for _, n := range ns {
		r = append(r, n.n)
	}
	return r
}

func nodeNames(ns []nodeV) []M {
	var r []M
	for _, n := range ns {
		r = append(r, T(name(n.name)))
	}
	return r
}

func nodesS(ns []nodeV) string {
	var r []string
	for _, n := range ns {
		r = append(r, n.s)
	}
	return strings.Join(r, ", ")
}

type relV struct {
	r    cypher.Relationship
	m    M
	s    string
	name string
}

// details: the part between two nodes; as a relationship builder program.
func relText(dir int, nm string, types []string, length string, props M) M {
	l, r := "-", "-"
	if dir == 0 {
		r = "->"
	} else if dir == 1 {
		l = "<-"
	}
	in := S{}
	if nm != "" {
		in = append(in, T(name(nm)))
	}
	var ts []string
	for _, t := range types {
		if t != "" {
			ts = append(ts, quoted(t))
		}
	}
	if len(ts) > 0 {
		in = append(in, T(":"+strings.Join(ts, "|")))
	}
	if length != "" {
		in = append(in, T(length))
	}
	if props != nil {
		in = append(in, T(" "), props)
	}
	if len(in) == 0 {
		return T(l + r)
	}
	return S{T(l + "["), in, T("]" + r)}
}

func relationship(a, b nodeV, named bool) relV {
	types := labels(0)
	dir := rnd.Intn(3)
	var r cypher.Relationship
	s := a.s
	switch dir {
	case 0:
		r, s = a.n.RelationshipTo(b.n, types...), s+".RelationshipTo("+b.s
	case 1:
		r, s = a.n.RelationshipFrom(b.n, types...), s+".RelationshipFrom("+b.s
	default:
		r, s = a.n.RelationshipBetween(b.n, types...), s+".RelationshipBetween("+b.s
	}
	if len(types) > 0 {
		s += ", " + strs(types)
	}
	s += ")"
	length := ""
	switch rnd.Intn(8) {
	case 0:
		r, s, length = r.Unbounded(), s+".Unbounded()", "*"
	case 1:
		i := rnd.Intn(5)
		r, s, length = r.Min(i), s+fmt.Sprintf(".Min(%d)", i), fmt.Sprintf("*%d..", i)
	case 2:
		i := rnd.Intn(5)
		r, s, length = r.Max(i), s+fmt.Sprintf(".Max(%d)", i), fmt.Sprintf("*..%d", i)
	case 3:
		i := rnd.Intn(4)
		j := i + rnd.Intn(5)
		r, s, length = r.Length(i, j), s+fmt.Sprintf(".Length(%d, %d)", i, j), fmt.Sprintf("*%d..%d", i, j)
	}
	var props M
	if chance(0.3) {
		k := aName()
		v := lit()
		r, s = r.WithRawProperties(k, v.x), s+".WithRawProperties("+q(k)+", "+v.s+")"
		props = S{T("{" + name(k) + ": "), v.m, T("}")}
	}
	nm := ""
	if named || chance(0.4) {
		nm = aName()
		r, s = r.NamedByString(nm), s+".NamedByString("+q(nm)+")"
	}
	return relV{r, S{a.m, relText(dir, nm, types, length, props), b.m}, s, nm}
}

// P is a pattern element.
type P struct {
	x cypher.PatternElement
	m M
	s string
}

func aNode(d int) nodeV {
	if len(nodePool) > 0 && chance(0.3) {
		return nodePool[rnd.Intn(len(nodePool))]
	}
	n := node(chance(0.7), d)
	if n.named && len(nodePool) < 6 {
		nodePool = append(nodePool, n)
	}
	return n
}

func relPattern(d int) P {
	a, b := aNode(d), aNode(d)
	r := relationship(a, b, false)
	if chance(0.6) {
		return P{r.r, r.m, r.s}
	}
	// a chain
	m := S{r.m}
	s := r.s
	var c cypher.RelationshipChain
	for i := 0; i < 1+rnd.Intn(3); i++ {
		n := aNode(d)
		types := labels(0)
		dir := rnd.Intn(3)
		fn := []string{"RelationshipTo", "RelationshipFrom", "RelationshipBetween"}[dir]
		call := func(t interface {
			RelationshipTo(cypher.Node, ...string) cypher.RelationshipChain
			RelationshipFrom(cypher.Node, ...string) cypher.RelationshipChain
			RelationshipBetween(cypher.Node, ...string) cypher.RelationshipChain
		}) cypher.RelationshipChain {
			switch dir {
			case 0:
				return t.RelationshipTo(n.n, types...)
			case 1:
				return t.RelationshipFrom(n.n, types...)
			}
			return t.RelationshipBetween(n.n, types...)
		}
		if i == 0 {
			c = call(r.r)
		} else {
			c = call(c)
		}
		s += "." + fn + "(" + n.s
		if len(types) > 0 {
			s += ", " + strs(types)
		}
		s += ")"
		nm, length := "", ""
		if chance(0.4) {
			nm = aName()
			c, s = c.NamedC(nm), s+".NamedC("+q(nm)+")"
		}
		switch rnd.Intn(6) {
		case 0:
			c, s, length = c.Unbounded(), s+".Unbounded()", "*"
		case 1:
			k := rnd.Intn(5)
			c, s, length = c.Min(k), s+fmt.Sprintf(".Min(%d)", k), fmt.Sprintf("*%d..", k)
		case 2:
			k := rnd.Intn(5)
			c, s, length = c.Max(k), s+fmt.Sprintf(".Max(%d)", k), fmt.Sprintf("*..%d", k)
		case 3:
			k, j := rnd.Intn(5), 5+rnd.Intn(5)
			c, s, length = c.Length(k, j), s+fmt.Sprintf(".Length(%d, %d)", k, j), fmt.Sprintf("*%d..%d", k, j)
		}
		m = append(m, relText(dir, nm, types, length, nil), n.m)
	}
	return P{c, m, s}
}

func pattern(d int) P {
	switch rnd.Intn(6) {
	case 0, 1:
		n := aNode(d)
		return P{n.n, n.m, n.s}
	case 2:
		p := relPattern(d)
		nm := aName()
		return P{cypher.APath(nm).DefinedBy(p.x.(cypher.RelationshipPattern)), S{T(name(nm) + " = "), p.m}, fmt.Sprintf("APath(%q).DefinedBy(%s)", nm, p.s)}
	case 3:
		r := relationship(aNode(d), aNode(d), false)
		nm := aName()
		return P{cypher.AShortestPath(nm).DefinedBy(r.r), S{T(name(nm) + " = shortestPath("), r.m, T(")")}, fmt.Sprintf("AShortestPath(%q).DefinedBy(%s)", nm, r.s)}
	default:
		return relPattern(d)
	}
}
