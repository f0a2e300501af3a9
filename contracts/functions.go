package cypher

// Contracts of the function catalogue: name, DISTINCT and arguments of every
// function of the API. Written by tools/mkfns.py from the Cypher function reference.

import (
	"math"
	"time"
)

// specGood: present and without error.
func specGood(v Visitable) bool {
	return v != nil && v.isNotNil() && v.GetError() == nil
}

func specBad(v Visitable) bool {
	return v != nil && v.GetError() != nil
}

// specArg: argument i of a call is v, with DISTINCT in front exactly if asked for.
func specArg(xs []Visitable, i int, distinct bool, v Visitable) bool {
	d, ok := xs[i].(DistinctExpression)
	if distinct && i == 0 {
		return ok && d.isNotNil() && d.GetError() == nil && d.delegate == v
	}
	return xs[i] == v
}

// specCallOf: f calls the function with exactly these arguments.
func specCallOf(f FunctionInvocation, name string, distinct bool, args ...Visitable) bool {
	return f.GetError() == nil && f.isNotNil() && f.functionName == name && f.arguments.GetError() == nil &&
		len(f.arguments.expressions) == len(args) &&
		vcAll(len(args), func(i int) bool { return specArg(f.arguments.expressions, i, distinct, args[i]) })
}

// specIsCall: so does the expression its operators are applied to.
func specIsCall(f FunctionInvocation, name string, distinct bool, args ...Visitable) bool {
	c, ok := f.ExpressionContainer.expression.(FunctionInvocation)
	return specCallOf(f, name, distinct, args...) && ok && specCallOf(c, name, distinct, args...) && c.key == f.key
}

func specFails(f FunctionInvocation) bool {
	c, ok := f.ExpressionContainer.expression.(FunctionInvocation)
	return f.GetError() != nil && ok && c.GetError() != nil
}

func specCall1(f FunctionInvocation, name string, distinct bool, v Visitable) bool {
	if !specGood(v) {
		return specFails(f)
	}
	return specIsCall(f, name, distinct, v)
}

// specStringArg: a call with one string literal; the empty string is no value.
func specStringArg(f FunctionInvocation, name string, s string) bool {
	if s == "" {
		return specFails(f)
	}
	if f.GetError() != nil || len(f.arguments.expressions) != 1 {
		return false
	}
	l, ok := f.arguments.expressions[0].(StringLiteral)
	return ok && l.content == s && l.isNotNil() && l.GetError() == nil && specIsCall(f, name, false, f.arguments.expressions[0])
}

// specIntEntry: entry i of a map is key with the number n.
func specIntEntry(m MapExpression, i int, key string, n int) bool {
	e, ok := m.expressions[i].(EntryExpression)
	if !ok {
		return false
	}
	l, isNumber := e.Value.(NumberLiteral)
	return e.Key == key && isNumber && l.isNotNil() && l.AsString() == NumberLiteralCreate1(n).AsString()
}

// @ props C12
// @ ensures CountByExpression
func fn_CountByExpression(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "count", false, e)
}

// @ props C12
// @ ensures CountDistinctByExpression
func fn_CountDistinctByExpression(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "count", true, e)
}

// @ props C12
// @ ensures ToLower
func fn_ToLower(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "toLower", false, e)
}

// @ props C12
// @ ensures Size
func fn_Size(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "size", false, e)
}

// @ props C12
// @ ensures Exists
func fn_Exists(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "exists", false, e)
}

// @ props C12
// @ ensures Avg
func fn_Avg(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "avg", false, e)
}

// @ props C12
// @ ensures AvgDistinct
func fn_AvgDistinct(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "avg", true, e)
}

// @ props C12
// @ ensures Collect
func fn_Collect(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "collect", false, e)
}

// @ props C12
// @ ensures CollectDistinct
func fn_CollectDistinct(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "collect", true, e)
}

// @ props C12
// @ ensures Max
func fn_Max(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "max", false, e)
}

// @ props C12
// @ ensures MaxDistinct
func fn_MaxDistinct(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "max", true, e)
}

// @ props C12
// @ ensures Min
func fn_Min(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "min", false, e)
}

// @ props C12
// @ ensures MinDistinct
func fn_MinDistinct(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "min", true, e)
}

// @ props C12
// @ ensures StDev
func fn_StDev(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "stDev", false, e)
}

// @ props C12
// @ ensures StDevDistinct
func fn_StDevDistinct(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "stDev", true, e)
}

// @ props C12
// @ ensures StDevP
func fn_StDevP(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "stDevP", false, e)
}

// @ props C12
// @ ensures StDevPDistinct
func fn_StDevPDistinct(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "stDevP", true, e)
}

// @ props C12
// @ ensures Sum
func fn_Sum(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "sum", false, e)
}

// @ props C12
// @ ensures SumDistinct
func fn_SumDistinct(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "sum", true, e)
}

// @ props C12
// @ ensures Head
func fn_Head(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "head", false, e)
}

// @ props C12
// @ ensures Last
func fn_Last(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "last", false, e)
}

// @ props C12
// @ ensures DateWithExpression
func fn_DateWithExpression(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "date", false, e)
}

// @ props C12
// @ ensures DateTimeWithExpression
func fn_DateTimeWithExpression(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "datetime", false, e)
}

// @ props C12
// @ ensures LocalDateTimeWithExpression
func fn_LocalDateTimeWithExpression(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "localdatetime", false, e)
}

// @ props C12
// @ ensures LocalTimeWithExpression
func fn_LocalTimeWithExpression(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "localtime", false, e)
}

// @ props C12
// @ ensures TimeWithExpression
func fn_TimeWithExpression(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "time", false, e)
}

// @ props C12
// @ ensures DurationWithExpression
func fn_DurationWithExpression(e Expression, r FunctionInvocation) bool {
	return specCall1(r, "duration", false, e)
}

// @ props C12
// @ ensures Date
func fn_Date(r FunctionInvocation) bool {
	return specIsCall(r, "date", false)
}

// @ props C12
// @ ensures Datetime
func fn_Datetime(r FunctionInvocation) bool {
	return specIsCall(r, "datetime", false)
}

// @ props C12
// @ ensures LocalDatetime
func fn_LocalDatetime(r FunctionInvocation) bool {
	return specIsCall(r, "localdatetime", false)
}

// @ props C12
// @ ensures Localtime
func fn_Localtime(r FunctionInvocation) bool {
	return specIsCall(r, "localtime", false)
}

// @ props C12
// @ ensures Time
func fn_Time(r FunctionInvocation) bool {
	return specIsCall(r, "time", false)
}

// @ props C12 C02
// @ ensures DateWithTemporal
func fn_DateWithTemporal(s string, r FunctionInvocation) bool {
	return specStringArg(r, "date", s)
}

// @ props C12 C02
// @ ensures DateTimeWithTemporal
func fn_DateTimeWithTemporal(s string, r FunctionInvocation) bool {
	return specStringArg(r, "datetime", s)
}

// @ props C12 C02
// @ ensures LocalDateTimeWithTemporal
func fn_LocalDateTimeWithTemporal(s string, r FunctionInvocation) bool {
	return specStringArg(r, "localdatetime", s)
}

// @ props C12 C02
// @ ensures LocalTimeWithTemporal
func fn_LocalTimeWithTemporal(s string, r FunctionInvocation) bool {
	return specStringArg(r, "localtime", s)
}

// @ props C12 C02
// @ ensures TimeWithTemporal
func fn_TimeWithTemporal(s string, r FunctionInvocation) bool {
	return specStringArg(r, "time", s)
}

// @ props C12 C02
// @ ensures DurationWithTemporal
func fn_DurationWithTemporal(s string, r FunctionInvocation) bool {
	return specStringArg(r, "duration", s)
}

// @ props C12
// @ ensures DateWithComponents
func fn_DateWithComponents(m MapExpression, r FunctionInvocation) bool {
	return specCall1(r, "date", false, m)
}

// @ props C12
// @ ensures DateTimeWithComponents
func fn_DateTimeWithComponents(m MapExpression, r FunctionInvocation) bool {
	return specCall1(r, "datetime", false, m)
}

// @ props C12
// @ ensures LocalDateTimeWithComponents
func fn_LocalDateTimeWithComponents(m MapExpression, r FunctionInvocation) bool {
	return specCall1(r, "localdatetime", false, m)
}

// @ props C12
// @ ensures LocalTimeWithComponents
func fn_LocalTimeWithComponents(m MapExpression, r FunctionInvocation) bool {
	return specCall1(r, "localtime", false, m)
}

// @ props C12
// @ ensures TimeWithComponents
func fn_TimeWithComponents(m MapExpression, r FunctionInvocation) bool {
	return specCall1(r, "time", false, m)
}

// @ props C12
// @ ensures DurationWithComponents
func fn_DurationWithComponents(m MapExpression, r FunctionInvocation) bool {
	return specCall1(r, "duration", false, m)
}

// @ props C12
// @ ensures Point
func fn_Point(m MapExpression, r FunctionInvocation) bool {
	return specCall1(r, "point", false, m)
}

// @ props C12
// @ ensures PropertiesByMapExpression
func fn_PropertiesByMapExpression(m MapExpression, r FunctionInvocation) bool {
	return specCall1(r, "properties", false, m)
}

// @ props C12
// @ ensures PointByParameter
func fn_PointByParameter(p Parameter, r FunctionInvocation) bool {
	return specCall1(r, "point", false, p)
}

// @ props C12
// @ ensures IdByNode
func fn_IdByNode(n Node, r FunctionInvocation) bool {
	if specBad(n) || !n.isNotNil() || specBad(n.GetSymbolicName()) || !n.GetSymbolicName().isNotNil() {
		return specFails(r)
	}
	return specIsCall(r, "id", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures Labels
func fn_Labels(n Node, r FunctionInvocation) bool {
	if specBad(n) || !n.isNotNil() || specBad(n.GetSymbolicName()) || !n.GetSymbolicName().isNotNil() {
		return specFails(r)
	}
	return specIsCall(r, "labels", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures Count
func fn_Count(n Node, r FunctionInvocation) bool {
	if specBad(n) || !n.isNotNil() || specBad(n.GetSymbolicName()) || !n.GetSymbolicName().isNotNil() {
		return specFails(r)
	}
	return specIsCall(r, "count", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures CountDistinct
func fn_CountDistinct(n Node, r FunctionInvocation) bool {
	if specBad(n) || !n.isNotNil() || specBad(n.GetSymbolicName()) || !n.GetSymbolicName().isNotNil() {
		return specFails(r)
	}
	return specIsCall(r, "count", true, n.GetSymbolicName())
}

// @ props C12
// @ ensures FunctionProperties
func fn_FunctionProperties(n Node, r FunctionInvocation) bool {
	if specBad(n) || !n.isNotNil() || specBad(n.GetSymbolicName()) || !n.GetSymbolicName().isNotNil() {
		return specFails(r)
	}
	return specIsCall(r, "properties", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures IdByRelationship
func fn_IdByRelationship(n Relationship, r FunctionInvocation) bool {
	if specBad(n) || !n.isNotNil() || specBad(n.GetSymbolicName()) || !n.GetSymbolicName().isNotNil() {
		return specFails(r)
	}
	return specIsCall(r, "id", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures FunctionType
func fn_FunctionType(n Relationship, r FunctionInvocation) bool {
	if specBad(n) || !n.isNotNil() || specBad(n.GetSymbolicName()) || !n.GetSymbolicName().isNotNil() {
		return specFails(r)
	}
	return specIsCall(r, "type", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures FunctionPropertiesByRelationship
func fn_FunctionPropertiesByRelationship(n Relationship, r FunctionInvocation) bool {
	if specBad(n) || !n.isNotNil() || specBad(n.GetSymbolicName()) || !n.GetSymbolicName().isNotNil() {
		return specFails(r)
	}
	return specIsCall(r, "properties", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures StartNode
func fn_StartNode(n Relationship, r FunctionInvocation) bool {
	if !specGood(n) || !specGood(n.GetSymbolicName()) {
		return specFails(r)
	}
	return specIsCall(r, "startNode", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures EndNode
func fn_EndNode(n Relationship, r FunctionInvocation) bool {
	if !specGood(n) || !specGood(n.GetSymbolicName()) {
		return specFails(r)
	}
	return specIsCall(r, "endNode", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures Nodes
func fn_Nodes(n NamedPath, r FunctionInvocation) bool {
	if !specGood(n) || !specGood(n.GetSymbolicName()) {
		return specFails(r)
	}
	return specIsCall(r, "nodes", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures Relationships
func fn_Relationships(n NamedPath, r FunctionInvocation) bool {
	if !specGood(n) || !specGood(n.GetSymbolicName()) {
		return specFails(r)
	}
	return specIsCall(r, "relationships", false, n.GetSymbolicName())
}

// @ props C12
// @ ensures CollectByNamed
func fn_CollectByNamed(n Named, r FunctionInvocation) bool {
	if n == nil || !n.isNotNil() || n.GetError() != nil || !specGood(n.GetRequiredSymbolicName()) {
		return specFails(r)
	}
	return specIsCall(r, "collect", false, n.GetRequiredSymbolicName())
}

// @ props C12
// @ ensures CollectDistinctByNamed
func fn_CollectDistinctByNamed(n Named, r FunctionInvocation) bool {
	if n == nil || !n.isNotNil() || n.GetError() != nil || !specGood(n.GetRequiredSymbolicName()) {
		return specFails(r)
	}
	return specIsCall(r, "collect", true, n.GetRequiredSymbolicName())
}

// @ props C12
// @ ensures PercentileCont
func fn_PercentileCont(e Expression, p float64, r FunctionInvocation) bool {
	if !specGood(e) || p < 0 || p > 1 || math.IsNaN(p) || math.IsInf(p, 0) {
		return specFails(r)
	}
	if r.GetError() != nil || len(r.arguments.expressions) != 2 {
		return false
	}
	l, ok := r.arguments.expressions[1].(NumberLiteral)
	return ok && l.isNotNil() && l.AsString() == NumberLiteralCreate2(p).AsString() && specIsCall(r, "percentileCont", false, e, r.arguments.expressions[1])
}

// @ props C12
// @ ensures PercentileContDistinct
func fn_PercentileContDistinct(e Expression, p float64, r FunctionInvocation) bool {
	if !specGood(e) || p < 0 || p > 1 || math.IsNaN(p) || math.IsInf(p, 0) {
		return specFails(r)
	}
	if r.GetError() != nil || len(r.arguments.expressions) != 2 {
		return false
	}
	l, ok := r.arguments.expressions[1].(NumberLiteral)
	return ok && l.isNotNil() && l.AsString() == NumberLiteralCreate2(p).AsString() && specIsCall(r, "percentileCont", true, e, r.arguments.expressions[1])
}

// @ props C12
// @ ensures PercentileDisc
func fn_PercentileDisc(e Expression, p float64, r FunctionInvocation) bool {
	if !specGood(e) || p < 0 || p > 1 || math.IsNaN(p) || math.IsInf(p, 0) {
		return specFails(r)
	}
	if r.GetError() != nil || len(r.arguments.expressions) != 2 {
		return false
	}
	l, ok := r.arguments.expressions[1].(NumberLiteral)
	return ok && l.isNotNil() && l.AsString() == NumberLiteralCreate2(p).AsString() && specIsCall(r, "percentileDisc", false, e, r.arguments.expressions[1])
}

// @ props C12
// @ ensures PercentileDiscDistinct
func fn_PercentileDiscDistinct(e Expression, p float64, r FunctionInvocation) bool {
	if !specGood(e) || p < 0 || p > 1 || math.IsNaN(p) || math.IsInf(p, 0) {
		return specFails(r)
	}
	if r.GetError() != nil || len(r.arguments.expressions) != 2 {
		return false
	}
	l, ok := r.arguments.expressions[1].(NumberLiteral)
	return ok && l.isNotNil() && l.AsString() == NumberLiteralCreate2(p).AsString() && specIsCall(r, "percentileDisc", true, e, r.arguments.expressions[1])
}

// @ props C12
// @ ensures Distance
func fn_Distance(a Expression, b Expression, r FunctionInvocation) bool {
	if !specGood(a) || !specGood(b) {
		return specFails(r)
	}
	return specIsCall(r, "distance", false, a, b)
}

// @ props C12
// @ ensures Range
func fn_Range(a Expression, b Expression, r FunctionInvocation) bool {
	if !specGood(a) || !specGood(b) {
		return specFails(r)
	}
	return specIsCall(r, "range", false, a, b)
}

// @ props C12
// @ ensures RangeWithStep nilok=step
func fn_RangeWithStep(a Expression, b Expression, c Expression, r FunctionInvocation) bool {
	if !specGood(a) || !specGood(b) || specBad(c) {
		return specFails(r)
	}
	if c == nil || !c.isNotNil() {
		return specIsCall(r, "range", false, a, b)
	}
	return specIsCall(r, "range", false, a, b, c)
}

// @ props C12 C03
// @ ensures RangeRaw
func fn_RangeRaw(a int, b int, r FunctionInvocation) bool {
	if r.GetError() != nil || len(r.arguments.expressions) != 2 {
		return false
	}
	l0, ok0 := r.arguments.expressions[0].(NumberLiteral)
	l1, ok1 := r.arguments.expressions[1].(NumberLiteral)
	return ok0 && l0.isNotNil() && l0.AsString() == NumberLiteralCreate1(a).AsString() && ok1 && l1.isNotNil() && l1.AsString() == NumberLiteralCreate1(b).AsString() && specIsCall(r, "range", false, r.arguments.expressions[0], r.arguments.expressions[1])
}

// @ props C12 C03
// @ ensures RangeWithStepRaw
func fn_RangeWithStepRaw(a int, b int, c int, r FunctionInvocation) bool {
	if r.GetError() != nil || len(r.arguments.expressions) != 3 {
		return false
	}
	l0, ok0 := r.arguments.expressions[0].(NumberLiteral)
	l1, ok1 := r.arguments.expressions[1].(NumberLiteral)
	l2, ok2 := r.arguments.expressions[2].(NumberLiteral)
	return ok0 && l0.isNotNil() && l0.AsString() == NumberLiteralCreate1(a).AsString() && ok1 && l1.isNotNil() && l1.AsString() == NumberLiteralCreate1(b).AsString() && ok2 && l2.isNotNil() && l2.AsString() == NumberLiteralCreate1(c).AsString() && specIsCall(r, "range", false, r.arguments.expressions[0], r.arguments.expressions[1], r.arguments.expressions[2])
}

// @ props C12 C15
// @ ensures CalendarDate
func fn_CalendarDate(a int, b int, c int, r FunctionInvocation) bool {
	if r.GetError() != nil || len(r.arguments.expressions) != 1 {
		return false
	}
	m, ok := r.arguments.expressions[0].(MapExpression)
	return ok && m.isNotNil() && m.GetError() == nil && len(m.expressions) == 3 &&
		specIntEntry(m, 0, "year", a) &&
		specIntEntry(m, 1, "month", b) &&
		specIntEntry(m, 2, "day", c) &&
		specIsCall(r, "date", false, r.arguments.expressions[0])
}

// @ props C12 C15
// @ ensures WeekDate
func fn_WeekDate(a int, b int, c int, r FunctionInvocation) bool {
	if r.GetError() != nil || len(r.arguments.expressions) != 1 {
		return false
	}
	m, ok := r.arguments.expressions[0].(MapExpression)
	return ok && m.isNotNil() && m.GetError() == nil && len(m.expressions) == 3 &&
		specIntEntry(m, 0, "year", a) &&
		specIntEntry(m, 1, "week", b) &&
		specIntEntry(m, 2, "dayOfWeek", c) &&
		specIsCall(r, "date", false, r.arguments.expressions[0])
}

// @ props C12 C15
// @ ensures QuarterDate
func fn_QuarterDate(a int, b int, c int, r FunctionInvocation) bool {
	if r.GetError() != nil || len(r.arguments.expressions) != 1 {
		return false
	}
	m, ok := r.arguments.expressions[0].(MapExpression)
	return ok && m.isNotNil() && m.GetError() == nil && len(m.expressions) == 3 &&
		specIntEntry(m, 0, "year", a) &&
		specIntEntry(m, 1, "quarter", b) &&
		specIntEntry(m, 2, "dayOfQuarter", c) &&
		specIsCall(r, "date", false, r.arguments.expressions[0])
}

// @ props C12 C15
// @ ensures OrdinalDate
func fn_OrdinalDate(a int, b int, r FunctionInvocation) bool {
	if r.GetError() != nil || len(r.arguments.expressions) != 1 {
		return false
	}
	m, ok := r.arguments.expressions[0].(MapExpression)
	return ok && m.isNotNil() && m.GetError() == nil && len(m.expressions) == 2 &&
		specIntEntry(m, 0, "year", a) &&
		specIntEntry(m, 1, "ordinalDay", b) &&
		specIsCall(r, "date", false, r.arguments.expressions[0])
}

// @ props C12
// @ ensures LocalDateTimeWithTimezone
func fn_LocalDateTimeWithTimezone(z *time.Location, r FunctionInvocation) bool {
	if z == nil {
		return specFails(r)
	}
	if r.GetError() != nil || len(r.arguments.expressions) != 1 {
		return false
	}
	m, ok := r.arguments.expressions[0].(MapExpression)
	if !ok || len(m.expressions) != 1 || !m.isNotNil() || m.GetError() != nil {
		return false
	}
	e, isEntry := m.expressions[0].(EntryExpression)
	if !isEntry {
		return false
	}
	l, isString := e.Value.(StringLiteral)
	return e.Key == "timezone" && isString && l.content == z.String() && l.isNotNil() && specIsCall(r, "localdatetime", false, r.arguments.expressions[0])
}

// @ props C12
// @ ensures LocalTimeWithTimezone
func fn_LocalTimeWithTimezone(z *time.Location, r FunctionInvocation) bool {
	if z == nil {
		return specFails(r)
	}
	if r.GetError() != nil || len(r.arguments.expressions) != 1 {
		return false
	}
	m, ok := r.arguments.expressions[0].(MapExpression)
	if !ok || len(m.expressions) != 1 || !m.isNotNil() || m.GetError() != nil {
		return false
	}
	e, isEntry := m.expressions[0].(EntryExpression)
	if !isEntry {
		return false
	}
	l, isString := e.Value.(StringLiteral)
	return e.Key == "timezone" && isString && l.content == z.String() && l.isNotNil() && specIsCall(r, "localtime", false, r.arguments.expressions[0])
}

// @ props C12
// @ ensures TimeWithTimeZone
func fn_TimeWithTimeZone(z *time.Location, r FunctionInvocation) bool {
	if z == nil {
		return specFails(r)
	}
	if r.GetError() != nil || len(r.arguments.expressions) != 1 {
		return false
	}
	m, ok := r.arguments.expressions[0].(MapExpression)
	if !ok || len(m.expressions) != 1 || !m.isNotNil() || m.GetError() != nil {
		return false
	}
	e, isEntry := m.expressions[0].(EntryExpression)
	if !isEntry {
		return false
	}
	l, isString := e.Value.(StringLiteral)
	return e.Key == "timezone" && isString && l.content == z.String() && l.isNotNil() && specIsCall(r, "time", false, r.arguments.expressions[0])
}

// @ props C12 C16
// @ ensures SizeByPattern
func fn_SizeByPattern(p RelationshipPattern, r FunctionInvocation) bool {
	return specCall1(r, "size", false, p)
}

// @ props C12 C16
// @ ensures ShortestPath
func fn_ShortestPath(p Relationship, r FunctionInvocation) bool {
	return specCall1(r, "shortestPath", false, p)
}

// @ props C12
// @ ensures Coalesce
func fn_Coalesce(es []Expression, r FunctionInvocation) bool {
	if vcAny(len(es), func(i int) bool { return specBad(es[i]) }) || len(es) == 0 || !specGood(es[0]) {
		return specFails(r)
	}
	return r.GetError() == nil && r.isNotNil() && r.functionName == "coalesce" && len(r.arguments.expressions) == len(es) &&
		vcAll(len(es), func(i int) bool { return r.arguments.expressions[i] == es[i] })
}

// @ props C12
// @ ensures FunctionInvocationCreate
func fn_FunctionInvocationCreate(def FunctionDefinition, es []Expression, r FunctionInvocation) bool {
	if vcAny(len(es), func(i int) bool { return specBad(es[i]) }) || len(es) == 0 || !specGood(es[0]) {
		return specFails(r)
	}
	return r.GetError() == nil && r.isNotNil() && r.functionName == def.getImplementationName() && len(r.arguments.expressions) == len(es) &&
		vcAll(len(es), func(i int) bool { return r.arguments.expressions[i] == es[i] })
}

// @ props C12
// @ ensures FunctionInvocationCreate1
func fn_FunctionInvocationCreate1(def FunctionDefinition, r FunctionInvocation) bool {
	return specIsCall(r, def.getImplementationName(), false)
}

// @ props C12
// @ ensures FunctionInvocationCreateWithFunctionName
func fn_FunctionInvocationCreateWithFunctionName(name string, es []Expression, r FunctionInvocation) bool {
	if vcAny(len(es), func(i int) bool { return specBad(es[i]) }) {
		return specFails(r)
	}
	return r.GetError() == nil && r.isNotNil() && r.functionName == name && len(r.arguments.expressions) == len(es) &&
		vcAll(len(es), func(i int) bool { return r.arguments.expressions[i] == es[i] })
}

// @ props C12 C16
// @ ensures FunctionInvocationCreateWithPatternElement
func fn_FunctionInvocationCreateWithPatternElement(def FunctionDefinition, p PatternElement, r FunctionInvocation) bool {
	return specCall1(r, def.getImplementationName(), false, p)
}

// @ props C12 C16
// @ ensures FunctionInvocationCreateWithPattern
func fn_FunctionInvocationCreateWithPattern(def FunctionDefinition, p Pattern, r FunctionInvocation) bool {
	if !specGood(p) {
		return specFails(r)
	}
	return r.GetError() != nil || r.functionName == def.getImplementationName() && len(r.arguments.expressions) == len(p.patternElements) &&
		vcAll(len(p.patternElements), func(i int) bool { return r.arguments.expressions[i] == p.patternElements[i] })
}

// @ props C12
// @ ensures Aggregates.isAggregate
func fn_Aggregates(v Aggregates, r bool) bool { return r }

// @ props C12
// @ ensures Predicate.isAggregate
func fn_agg_Predicate(v Predicate, r bool) bool { return !r }

// @ props C12
// @ ensures Scalars.isAggregate
func fn_agg_Scalars(v Scalars, r bool) bool { return !r }

// @ props C12
// @ ensures Strings.isAggregate
func fn_agg_Strings(v Strings, r bool) bool { return !r }

// @ props C12
// @ ensures Spatials.isAggregate
func fn_agg_Spatials(v Spatials, r bool) bool { return !r }

// @ props C12
// @ ensures Lists.isAggregate
func fn_agg_Lists(v Lists, r bool) bool { return !r }

// @ props C12
// @ ensures Temporals.isAggregate
func fn_agg_Temporals(v Temporals, r bool) bool { return !r }

// @ props C12
// @ ensures FunctionDefinitionDefault.isAggregate
func fn_agg_FunctionDefinitionDefault(v FunctionDefinitionDefault, r bool) bool { return !r }
