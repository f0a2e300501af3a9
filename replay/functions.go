package main

import (
	"fmt"
	"time"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

type fn1 struct {
	go_, name string
	distinct  bool
	f         func(cypher.Expression) cypher.FunctionInvocation
}

var fns1 = []fn1{
	{"CountByExpression", "count", false, cypher.CountByExpression},
	{"CountDistinctByExpression", "count", true, cypher.CountDistinctByExpression},
	{"ToLower", "toLower", false, cypher.ToLower},
	{"Size", "size", false, cypher.Size},
	{"Exists", "exists", false, cypher.Exists},
	{"Avg", "avg", false, cypher.Avg},
	{"AvgDistinct", "avg", true, cypher.AvgDistinct},
	{"Collect", "collect", false, cypher.Collect},
	{"CollectDistinct", "collect", true, cypher.CollectDistinct},
	{"Max", "max", false, cypher.Max},
	{"MaxDistinct", "max", true, cypher.MaxDistinct},
	{"Min", "min", false, cypher.Min},
	{"MinDistinct", "min", true, cypher.MinDistinct},
	{"StDev", "stDev", false, cypher.StDev},
	{"StDevDistinct", "stDev", true, cypher.StDevDistinct},
	{"StDevP", "stDevP", false, cypher.StDevP},
	{"StDevPDistinct", "stDevP", true, cypher.StDevPDistinct},
	{"Sum", "sum", false, cypher.Sum},
	{"SumDistinct", "sum", true, cypher.SumDistinct},
	{"Head", "head", false, cypher.Head},
	{"Last", "last", false, cypher.Last},
	{"DateWithExpression", "date", false, cypher.DateWithExpression},
	{"DateTimeWithExpression", "datetime", false, cypher.DateTimeWithExpression},
	{"LocalDateTimeWithExpression", "localdatetime", false, cypher.LocalDateTimeWithExpression},
	{"LocalTimeWithExpression", "localtime", false, cypher.LocalTimeWithExpression},
	{"TimeWithExpression", "time", false, cypher.TimeWithExpression},
	{"DurationWithExpression", "duration", false, cypher.DurationWithExpression},
}

var fns0 = []struct {
	go_, name string
	f         func() cypher.FunctionInvocation
}{
	{"Date", "date", cypher.Date}, {"Datetime", "datetime", cypher.Datetime}, {"LocalDatetime", "localdatetime", cypher.LocalDatetime},
	{"Localtime", "localtime", cypher.Localtime}, {"Time", "time", cypher.Time},
}

var fnsS = []struct {
	go_, name string
	f         func(string) cypher.FunctionInvocation
}{
	{"DateWithTemporal", "date", cypher.DateWithTemporal}, {"DateTimeWithTemporal", "datetime", cypher.DateTimeWithTemporal},
	{"LocalDateTimeWithTemporal", "localdatetime", cypher.LocalDateTimeWithTemporal}, {"LocalTimeWithTemporal", "localtime", cypher.LocalTimeWithTemporal},
	{"TimeWithTemporal", "time", cypher.TimeWithTemporal}, {"DurationWithTemporal", "duration", cypher.DurationWithTemporal},
}

var fnsM = []struct {
	go_, name string
	f         func(cypher.MapExpression) cypher.FunctionInvocation
}{
	{"DateWithComponents", "date", cypher.DateWithComponents}, {"DateTimeWithComponents", "datetime", cypher.DateTimeWithComponents},
	{"LocalDateTimeWithComponents", "localdatetime", cypher.LocalDateTimeWithComponents}, {"LocalTimeWithComponents", "localtime", cypher.LocalTimeWithComponents},
	{"TimeWithComponents", "time", cypher.TimeWithComponents}, {"DurationWithComponents", "duration", cypher.DurationWithComponents},
	{"Point", "point", cypher.Point}, {"PropertiesByMapExpression", "properties", cypher.PropertiesByMapExpression},
}

var fnsN = []struct {
	go_, name string
	distinct  bool
	f         func(cypher.Node) cypher.FunctionInvocation
}{
	{"IdByNode", "id", false, cypher.IdByNode}, {"Labels", "labels", false, cypher.Labels}, {"Count", "count", false, cypher.Count},
	{"CountDistinct", "count", true, cypher.CountDistinct}, {"FunctionProperties", "properties", false, cypher.FunctionProperties},
	{"CollectByNamed", "collect", false, func(n cypher.Node) cypher.FunctionInvocation { return cypher.CollectByNamed(n) }},
	{"CollectDistinctByNamed", "collect", true, func(n cypher.Node) cypher.FunctionInvocation { return cypher.CollectDistinctByNamed(n) }},
}

var fnsR = []struct {
	go_, name string
	f         func(cypher.Relationship) cypher.FunctionInvocation
}{
	{"IdByRelationship", "id", cypher.IdByRelationship}, {"FunctionType", "type", cypher.FunctionType}, {"FunctionPropertiesByRelationship", "properties", cypher.FunctionPropertiesByRelationship},
	{"StartNode", "startNode", cypher.StartNode}, {"EndNode", "endNode", cypher.EndNode},
}

var fnsZ = []struct {
	go_, name string
	f         func(*time.Location) cypher.FunctionInvocation
}{
	{"LocalDateTimeWithTimezone", "localdatetime", cypher.LocalDateTimeWithTimezone}, {"LocalTimeWithTimezone", "localtime", cypher.LocalTimeWithTimezone}, {"TimeWithTimeZone", "time", cypher.TimeWithTimeZone},
}

var fnsP = []struct {
	go_, name string
	distinct  bool
	f         func(cypher.Expression, float64) cypher.FunctionInvocation
}{
	{"PercentileCont", "percentileCont", false, cypher.PercentileCont}, {"PercentileContDistinct", "percentileCont", true, cypher.PercentileContDistinct},
	{"PercentileDisc", "percentileDisc", false, cypher.PercentileDisc}, {"PercentileDiscDistinct", "percentileDisc", true, cypher.PercentileDiscDistinct},
}

func call(name string, distinct bool, args ...M) M {
	d := ""
	if distinct {
		d = "DISTINCT "
	}
	return S{T(name + "(" + d), join(", ", args...), T(")")}
}

func function(d int) E {
	switch rnd.Intn(17) {
	case 0:
		f := fns0[rnd.Intn(len(fns0))]
		return mk(f.f(), call(f.name, false), f.go_+"()")
	case 1:
		f := fnsS[rnd.Intn(len(fnsS))]
		s := pick("2020-01-01", "PT1H", "x") + randString(0, 3)
		return mk(f.f(s), call(f.name, false, T(strLit(s))), fmt.Sprintf("%s(%q)", f.go_, s))
	case 2:
		f := fnsM[rnd.Intn(len(fnsM))]
		x, m, s := mapOf(d - 1)
		return mk(f.f(x), call(f.name, false, m), f.go_+"("+s+")")
	case 3:
		f := fnsN[rnd.Intn(len(fnsN))]
		n := namedNode()
		return mk(f.f(n.n), call(f.name, f.distinct, T(name(n.name))), f.go_+"("+n.s+")")
	case 4:
		f := fnsR[rnd.Intn(len(fnsR))]
		r := relationship(namedNode(), namedNode(), true)
		return mk(f.f(r.r), call(f.name, false, T(name(r.name))), f.go_+"("+r.s+")")
	case 5:
		f := fnsZ[rnd.Intn(len(fnsZ))]
		z := pick("UTC", "Europe/Berlin", "Asia/Tokyo")
		l := time.FixedZone(z, 0)
		return mk(f.f(l), call(f.name, false, T("{timezone: "+strLit(z)+"}")), fmt.Sprintf("%s(time.FixedZone(%q, 0))", f.go_, z))
	case 6:
		f := fnsP[rnd.Intn(len(fnsP))]
		e := expr(d - 1)
		p := pick(0, 1, 0.5, 0.25, 0.99)
		return mk(f.f(e.x, p), call(f.name, f.distinct, e.m, T(floatText(p))), fmt.Sprintf("%s(%s, %v)", f.go_, e.s, p))
	case 7:
		es := exprs(1, 4, d-1)
		return mk(cypher.Coalesce(xs(es)...), call("coalesce", false, ms(es)...), "Coalesce("+ss(es)+")")
	case 8:
		a, b := expr(d-1), expr(d-1)
		return mk(cypher.Distance(a.x, b.x), call("distance", false, a.m, b.m), "Distance("+a.s+", "+b.s+")")
	case 9:
		a, b := expr(d-1), expr(d-1)
		return mk(cypher.Range(a.x, b.x), call("range", false, a.m, b.m), "Range("+a.s+", "+b.s+")")
	case 10:
		a, b, c := expr(d-1), expr(d-1), expr(d-1)
		return mk(cypher.RangeWithStep(a.x, b.x, c.x), call("range", false, a.m, b.m, c.m), "RangeWithStep("+a.s+", "+b.s+", "+c.s+")")
	case 11:
		i, j, k := rnd.Intn(10), rnd.Intn(100), 1+rnd.Intn(5)
		if chance(0.5) {
			return mk(cypher.RangeRaw(i, j), T(fmt.Sprintf("range(%d, %d)", i, j)), fmt.Sprintf("RangeRaw(%d, %d)", i, j))
		}
		return mk(cypher.RangeWithStepRaw(i, j, k), T(fmt.Sprintf("range(%d, %d, %d)", i, j, k)), fmt.Sprintf("RangeWithStepRaw(%d, %d, %d)", i, j, k))
	case 12:
		i, j, k := 1900+rnd.Intn(200), 1+rnd.Intn(12), 1+rnd.Intn(28)
		switch rnd.Intn(4) {
		case 0:
			return mk(cypher.CalendarDate(i, j, k), T(fmt.Sprintf("date({year: %d, month: %d, day: %d})", i, j, k)), fmt.Sprintf("CalendarDate(%d, %d, %d)", i, j, k))
		case 1:
			return mk(cypher.WeekDate(i, j, k), T(fmt.Sprintf("date({year: %d, week: %d, dayOfWeek: %d})", i, j, k)), fmt.Sprintf("WeekDate(%d, %d, %d)", i, j, k))
		case 2:
			return mk(cypher.QuarterDate(i, j, k), T(fmt.Sprintf("date({year: %d, quarter: %d, dayOfQuarter: %d})", i, j, k)), fmt.Sprintf("QuarterDate(%d, %d, %d)", i, j, k))
		default:
			return mk(cypher.OrdinalDate(i, j), T(fmt.Sprintf("date({year: %d, ordinalDay: %d})", i, j)), fmt.Sprintf("OrdinalDate(%d, %d)", i, j))
		}
	case 13:
		r := relPattern(0)
		p := cypher.APath("p1").DefinedBy(r.x.(cypher.RelationshipPattern))
		s := "APath(\"p1\").DefinedBy(" + r.s + ")"
		if chance(0.5) {
			return mk(cypher.Nodes(p), call("nodes", false, T("p1")), "Nodes("+s+")")
		}
		return mk(cypher.Relationships(p), call("relationships", false, T("p1")), "Relationships("+s+")")
	case 14:
		switch rnd.Intn(3) {
		case 0:
			r := relationship(namedNode(), namedNode(), false)
			return mk(cypher.ShortestPath(r.r), call("shortestPath", false, r.m), "ShortestPath("+r.s+")")
		case 1:
			p := relPattern(0)
			return mk(cypher.SizeByPattern(p.x.(cypher.RelationshipPattern)), call("size", false, p.m), "SizeByPattern("+p.s+")")
		default:
			return mk(cypher.PointByParameter(cypher.AParam("pt")), T("point($pt)"), "PointByParameter(AParam(\"pt\"))")
		}
	default:
		f := fns1[rnd.Intn(len(fns1))]
		e := expr(d - 1)
		return mk(f.f(e.x), call(f.name, f.distinct, e.m), f.go_+"("+e.s+")")
	}
}
