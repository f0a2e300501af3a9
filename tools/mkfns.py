#!/usr/bin/env python3
# Writes contracts/functions.go: the contracts of the function catalogue (C12).
# The table is the Cypher function reference, not the code of the repository.
import os
out = []
w = out.append
w('''package cypher

// Contracts of the function catalogue: name, DISTINCT and arguments of every
// function of the API. Written by tools/mkfns.py from the Cypher function reference.

import (
	"math"
	"time"
)

// specGood: present and without error.
func specGood(v Visitable) bool {
	return v != nil && v.isNotNil() && v.GetError() == nil
}

func specBad(v Visitable) bool {
	return v != nil && v.GetError() != nil
}

// specArg: argument i of a call is v, with DISTINCT in front exactly if asked for.
func specArg(xs []Visitable, i int, distinct bool, v Visitable) bool {
	d, ok := xs[i].(DistinctExpression)
	if distinct && i == 0 {
		return ok && d.isNotNil() && d.GetError() == nil && d.delegate == v
	}
	return xs[i] == v
}

// specCallOf: f calls the function with exactly these arguments.
func specCallOf(f FunctionInvocation, name string, distinct bool, args ...Visitable) bool {
	return f.GetError() == nil && f.isNotNil() && f.functionName == name && f.arguments.GetError() == nil &&
		len(f.arguments.expressions) == len(args) &&
		vcAll(len(args), func(i int) bool { return specArg(f.arguments.expressions, i, distinct, args[i]) })
}

// specIsCall: so does the expression its operators are applied to.
func specIsCall(f FunctionInvocation, name string, distinct bool, args ...Visitable) bool {
	c, ok := f.ExpressionContainer.expression.(FunctionInvocation)
	return specCallOf(f, name, distinct, args...) && ok && specCallOf(c, name, distinct, args...) && c.key == f.key
}

func specFails(f FunctionInvocation) bool {
	c, ok := f.ExpressionContainer.expression.(FunctionInvocation)
	return f.GetError() != nil && ok && c.GetError() != nil
}

func specCall1(f FunctionInvocation, name string, distinct bool, v Visitable) bool {
	if !specGood(v) {
		return specFails(f)
	}
	return specIsCall(f, name, distinct, v)
}

// specStringArg: a call with one string literal; the empty string is no value.
func specStringArg(f FunctionInvocation, name string, s string) bool {
	if s == "" {
		return specFails(f)
	}
	if f.GetError() != nil || len(f.arguments.expressions) != 1 {
		return false
	}
	l, ok := f.arguments.expressions[0].(StringLiteral)
	return ok && l.content == s && l.isNotNil() && l.GetError() == nil && specIsCall(f, name, false, f.arguments.expressions[0])
}

// specIntEntry: entry i of a map is key with the number n.
func specIntEntry(m MapExpression, i int, key string, n int) bool {
	e, ok := m.expressions[i].(EntryExpression)
	if !ok {
		return false
	}
	l, isNumber := e.Value.(NumberLiteral)
	return e.Key == key && isNumber && l.isNotNil() && l.AsString() == NumberLiteralCreate1(n).AsString()
}
''')
P = '//@ props C12\n'
def ens(name, params, body, props='C12'):
    w(f'//@ props {props}')
    w(f'//@ ensures {name}'+(' nilok=step' if name=='RangeWithStep' else ''))
    w(f'func fn_{name}({params}) bool {{\n{body}\n}}\n')

one = '''CountByExpression count 0
CountDistinctByExpression count 1
ToLower toLower 0
Size size 0
Exists exists 0
Avg avg 0
AvgDistinct avg 1
Collect collect 0
CollectDistinct collect 1
Max max 0
MaxDistinct max 1
Min min 0
MinDistinct min 1
StDev stDev 0
StDevDistinct stDev 1
StDevP stDevP 0
StDevPDistinct stDevP 1
Sum sum 0
SumDistinct sum 1
Head head 0
Last last 0
DateWithExpression date 0
DateTimeWithExpression datetime 0
LocalDateTimeWithExpression localdatetime 0
LocalTimeWithExpression localtime 0
TimeWithExpression time 0
DurationWithExpression duration 0'''
for l in one.split('\n'):
    n, f, d = l.split()
    ens(n, 'e Expression, r FunctionInvocation', f'\treturn specCall1(r, "{f}", {"true" if d=="1" else "false"}, e)')
for n, f in [('Date','date'),('Datetime','datetime'),('LocalDatetime','localdatetime'),('Localtime','localtime'),('Time','time')]:
    ens(n, 'r FunctionInvocation', f'\treturn specIsCall(r, "{f}", false)')
for n, f in [('DateWithTemporal','date'),('DateTimeWithTemporal','datetime'),('LocalDateTimeWithTemporal','localdatetime'),('LocalTimeWithTemporal','localtime'),('TimeWithTemporal','time'),('DurationWithTemporal','duration')]:
    ens(n, 's string, r FunctionInvocation', f'\treturn specStringArg(r, "{f}", s)', 'C12 C02')
for n, f in [('DateWithComponents','date'),('DateTimeWithComponents','datetime'),('LocalDateTimeWithComponents','localdatetime'),('LocalTimeWithComponents','localtime'),('TimeWithComponents','time'),('DurationWithComponents','duration'),('Point','point'),('PropertiesByMapExpression','properties')]:
    ens(n, 'm MapExpression, r FunctionInvocation', f'\treturn specCall1(r, "{f}", false, m)')
ens('PointByParameter','p Parameter, r FunctionInvocation','\treturn specCall1(r, "point", false, p)')
for n,f,d,t in [('IdByNode','id',0,'Node'),('Labels','labels',0,'Node'),('Count','count',0,'Node'),('CountDistinct','count',1,'Node'),('FunctionProperties','properties',0,'Node'),
    ('IdByRelationship','id',0,'Relationship'),('FunctionType','type',0,'Relationship'),('FunctionPropertiesByRelationship','properties',0,'Relationship')]:
    ens(n, f'n {t}, r FunctionInvocation', f'''\tif specBad(n) || !n.isNotNil() || specBad(n.GetSymbolicName()) || !n.GetSymbolicName().isNotNil() {{
		return specFails(r)
	}}
	return specIsCall(r, "{f}", {"true" if d else "false"}, n.GetSymbolicName())''')
for n,f,t in [('StartNode','startNode','Relationship'),('EndNode','endNode','Relationship'),('Nodes','nodes','NamedPath'),('Relationships','relationships','NamedPath')]:
    ens(n, f'n {t}, r FunctionInvocation', f'''\tif !specGood(n) || !specGood(n.GetSymbolicName()) {{
		return specFails(r)
	}}
	return specIsCall(r, "{f}", false, n.GetSymbolicName())''')
for n,f,d in [('CollectByNamed','collect',0),('CollectDistinctByNamed','collect',1)]:
    ens(n, 'n Named, r FunctionInvocation', f'''\tif n == nil || !n.isNotNil() || n.GetError() != nil || !specGood(n.GetRequiredSymbolicName()) {{
		return specFails(r)
	}}
	return specIsCall(r, "{f}", {"true" if d else "false"}, n.GetRequiredSymbolicName())''')
for n,f,d in [('PercentileCont','percentileCont',0),('PercentileContDistinct','percentileCont',1),('PercentileDisc','percentileDisc',0),('PercentileDiscDistinct','percentileDisc',1)]:
    ens(n, 'e Expression, p float64, r FunctionInvocation', f'''\tif !specGood(e) || p < 0 || p > 1 || math.IsNaN(p) || math.IsInf(p, 0) {{
		return specFails(r)
	}}
	if r.GetError() != nil || len(r.arguments.expressions) != 2 {{
		return false
	}}
	l, ok := r.arguments.expressions[1].(NumberLiteral)
	return ok && l.isNotNil() && l.AsString() == NumberLiteralCreate2(p).AsString() && specIsCall(r, "{f}", {"true" if d else "false"}, e, r.arguments.expressions[1])''')
ens('Distance','a Expression, b Expression, r FunctionInvocation','''	if !specGood(a) || !specGood(b) {
		return specFails(r)
	}
	return specIsCall(r, "distance", false, a, b)''')
ens('Range','a Expression, b Expression, r FunctionInvocation','''	if !specGood(a) || !specGood(b) {
		return specFails(r)
	}
	return specIsCall(r, "range", false, a, b)''')
ens('RangeWithStep','a Expression, b Expression, c Expression, r FunctionInvocation','''	if !specGood(a) || !specGood(b) || specBad(c) {
		return specFails(r)
	}
	if c == nil || !c.isNotNil() {
		return specIsCall(r, "range", false, a, b)
	}
	return specIsCall(r, "range", false, a, b, c)''')
for n,ps in [('RangeRaw',['a','b']),('RangeWithStepRaw',['a','b','c'])]:
    k=len(ps)
    body=f'''	if r.GetError() != nil || len(r.arguments.expressions) != {k} {{
		return false
	}}
'''
    conds=[]
    for i,p in enumerate(ps):
        body+=f'\tl{i}, ok{i} := r.arguments.expressions[{i}].(NumberLiteral)\n'
        conds.append(f'ok{i} && l{i}.isNotNil() && l{i}.AsString() == NumberLiteralCreate1({p}).AsString()')
    body+='\treturn '+' && '.join(conds)+f' && specIsCall(r, "range", false, {", ".join(f"r.arguments.expressions[{i}]" for i in range(k))})'
    ens(n, ', '.join(p+' int' for p in ps)+', r FunctionInvocation', body, 'C12 C03')
for n,ks in [('CalendarDate',['year','month','day']),('WeekDate',['year','week','dayOfWeek']),('QuarterDate',['year','quarter','dayOfQuarter']),('OrdinalDate',['year','ordinalDay'])]:
    k=len(ks)
    ps=['a','b','c'][:k]
    body=f'''	if r.GetError() != nil || len(r.arguments.expressions) != 1 {{
		return false
	}}
	m, ok := r.arguments.expressions[0].(MapExpression)
	return ok && m.isNotNil() && m.GetError() == nil && len(m.expressions) == {k}'''
    for i,(key,p) in enumerate(zip(ks,ps)):
        body+=f' &&\n\t\tspecIntEntry(m, {i}, "{key}", {p})'
    body+=' &&\n\t\tspecIsCall(r, "date", false, r.arguments.expressions[0])'
    ens(n, ', '.join(p+' int' for p in ps)+', r FunctionInvocation', body, 'C12 C15')
for n,f in [('LocalDateTimeWithTimezone','localdatetime'),('LocalTimeWithTimezone','localtime'),('TimeWithTimeZone','time')]:
    ens(n, 'z *time.Location, r FunctionInvocation', f'''	if z == nil {{
		return specFails(r)
	}}
	if r.GetError() != nil || len(r.arguments.expressions) != 1 {{
		return false
	}}
	m, ok := r.arguments.expressions[0].(MapExpression)
	if !ok || len(m.expressions) != 1 || !m.isNotNil() || m.GetError() != nil {{
		return false
	}}
	e, isEntry := m.expressions[0].(EntryExpression)
	if !isEntry {{
		return false
	}}
	l, isString := e.Value.(StringLiteral)
	return e.Key == "timezone" && isString && l.content == z.String() && l.isNotNil() && specIsCall(r, "{f}", false, r.arguments.expressions[0])''')
ens('SizeByPattern','p RelationshipPattern, r FunctionInvocation','\treturn specCall1(r, "size", false, p)','C12 C16')
ens('ShortestPath','p Relationship, r FunctionInvocation','\treturn specCall1(r, "shortestPath", false, p)','C12 C16')
ens('Coalesce','es []Expression, r FunctionInvocation','''	if vcAny(len(es), func(i int) bool { return specBad(es[i]) }) || len(es) == 0 || !specGood(es[0]) {
		return specFails(r)
	}
	return r.GetError() == nil && r.isNotNil() && r.functionName == "coalesce" && len(r.arguments.expressions) == len(es) &&
		vcAll(len(es), func(i int) bool { return r.arguments.expressions[i] == es[i] })''')
# ---- the constructors behind them
w('''//@ props C12
//@ ensures FunctionInvocationCreate
func fn_FunctionInvocationCreate(def FunctionDefinition, es []Expression, r FunctionInvocation) bool {
	if vcAny(len(es), func(i int) bool { return specBad(es[i]) }) || len(es) == 0 || !specGood(es[0]) {
		return specFails(r)
	}
	return r.GetError() == nil && r.isNotNil() && r.functionName == def.getImplementationName() && len(r.arguments.expressions) == len(es) &&
		vcAll(len(es), func(i int) bool { return r.arguments.expressions[i] == es[i] })
}

//@ props C12
//@ ensures FunctionInvocationCreate1
func fn_FunctionInvocationCreate1(def FunctionDefinition, r FunctionInvocation) bool {
	return specIsCall(r, def.getImplementationName(), false)
}

//@ props C12
//@ ensures FunctionInvocationCreateWithFunctionName
func fn_FunctionInvocationCreateWithFunctionName(name string, es []Expression, r FunctionInvocation) bool {
	if vcAny(len(es), func(i int) bool { return specBad(es[i]) }) {
		return specFails(r)
	}
	return r.GetError() == nil && r.isNotNil() && r.functionName == name && len(r.arguments.expressions) == len(es) &&
		vcAll(len(es), func(i int) bool { return r.arguments.expressions[i] == es[i] })
}

//@ props C12 C16
//@ ensures FunctionInvocationCreateWithPatternElement
func fn_FunctionInvocationCreateWithPatternElement(def FunctionDefinition, p PatternElement, r FunctionInvocation) bool {
	return specCall1(r, def.getImplementationName(), false, p)
}

//@ props C12 C16
//@ ensures FunctionInvocationCreateWithPattern
func fn_FunctionInvocationCreateWithPattern(def FunctionDefinition, p Pattern, r FunctionInvocation) bool {
	if !specGood(p) {
		return specFails(r)
	}
	return r.GetError() != nil || r.functionName == def.getImplementationName() && len(r.arguments.expressions) == len(p.patternElements) &&
		vcAll(len(p.patternElements), func(i int) bool { return r.arguments.expressions[i] == p.patternElements[i] })
}

//@ props C12
//@ ensures Aggregates.isAggregate
func fn_Aggregates(v Aggregates, r bool) bool { return r }
''')
for t in ['Predicate','Scalars','Strings','Spatials','Lists','Temporals','FunctionDefinitionDefault']:
    w(f'''//@ props C12
//@ ensures {t}.isAggregate
func fn_agg_{t}(v {t}, r bool) bool {{ return !r }}
''')
open(os.path.join(os.path.dirname(__file__),'..','contracts','functions.go'),'w').write('\n'.join(out))
