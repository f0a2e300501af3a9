#!/usr/bin/env python3
"""Writes contracts/ast.go: the contracts of accept, enter and leave of every element.
Run by hand when the table changes; the result is committed."""
import re
out=[]
recs={}
def rec(elem, kind):
    """helper: visit the first n elements of a list of `elem`; kind is how each is visited"""
    nm={'plain':'all','name':'allNamed','nameif':'allNamedIf'}[kind]+'_'+re.sub(r'\W','',elem)
    if nm not in recs:
        body={'plain':'xs[n-1].accept(r)',
              'name':'specNamed(xs[n-1]).accept(r)',
              'nameif':'specNamedIf(xs[n-1]).accept(r)'}[kind]
        recs[nm]=f'''
//@ rec
func {nm}(xs []{elem}, r *CypherRenderer, n int) {{
	if n <= 0 {{
		return
	}}
	{nm}(xs, r, n-1)
	{body}
}}
'''
    return nm
def stmt(s):
    if s=='E': return '\tr.enter(v)'
    if s=='L': return '\tr.leave(v)'
    if s.startswith('?'): return f'\tspecPresent({s[1:]}, r)'
    if s.startswith('N:'): return f'\tspecNamed({s[2:]}).accept(r)'
    m=re.match(r'\*(\w+|[\w.]+)(:\w+)? of (.+)',s)
    if m:
        kind=(m.group(2) or ':plain')[1:]
        return f'\t{rec(m.group(3),kind)}({m.group(1)}, r, len({m.group(1)}))'
    if s.startswith('!'): return '\n'.join('\t'+l for l in s[1:].split('\n'))
    return f'\t{s}.accept(r)'
def T(t,props,accept,enter=None,leave=None):
    p='//@ props '+props
    if accept is not None:
        out.append(f'\n//@ spec {t}.accept\n{p} C06 C07\nfunc spec_{t}_accept(v {t}, r *CypherRenderer) {{\n'+'\n'.join(stmt(s) for s in accept)+'\n}\n')
    for nm,b in (('enter',enter),('leave',leave)):
        b=b or ''
        if b and not b.startswith('!'): b=f'specAppend(r, {b})'
        b=b.lstrip('!')
        out.append(f'\n//@ spec {t}.{nm}\n{p} C06\nfunc spec_{t}_{nm}(v {t}, r *CypherRenderer) {{\n'+''.join('\t'+l+'\n' for l in b.split('\n') if l.strip())+'}\n')
EL=['E','L']
T('AliasedExpression','C09 C13',['E','N:v.delegate','L'],
  '!if specAliasSeen(r, v) {\n\tspecAppend(r, EscapeIfNecessary(v.alias))\n}',
  '!if !specAliasSeen(r, v) {\n\tspecAppend(r, " AS "+EscapeIfNecessary(v.alias))\n}')
T('Arguments','C18',['E','*v.expressions:name of Expression','L'],'"("','")"')
T('Asterisk','C08 C15',EL,'v.content','')
T('BooleanLiteral','C03',EL,'!if v.content {\n\tspecAppend(r, "true")\n} else {\n\tspecAppend(r, "false")\n}')
T('BooleanFunctionCondition','C12 C10 C19 C09',['E','v.delegate','L'])
T('Case','C19',['E','!if v.caseExpression != nil && v.caseExpression.isNotNil() {\n\tv.caseExpression.accept(r)\n}','*v.caseWhenThens of CaseWhenThen','!if v.caseElse.isNotNil() {\n\tv.caseElse.accept(r)\n}','L'],
  '!if v.caseType == GENERIC_CASE || v.caseType == ENDING_GENERIC_CASE {\n\tspecAppend(r, "CASE")\n} else {\n\tspecAppend(r, "CASE ")\n}','" END"')
T('CaseWhenThen','C19',['E','v.whenExpression','L','v.thenExpression'],'" WHEN "','" THEN "')
T('CaseElse','C19',['E','v.elseExpression','L'],'" ELSE "')
T('Comparison','C11 C10',['E','!if v.left != nil && v.left.isNotNil() {\n\tspecNamed(v.left).accept(r)\n}','v.operator','!if v.right != nil && v.right.isNotNil() {\n\tspecNamed(v.right).accept(r)\n}','L'])
T('CompoundCondition','C10',['''!if len(v.conditions) == 0 {
	return
}
if len(v.conditions) == 1 {
	specOperand(r, Operator{}, v.conditions[0])
	return
}
r.enter(v)
specOperand(r, Operator{}, v.conditions[0])
allOperands(v, v.conditions[1:], r, len(v.conditions)-1)
r.leave(v)'''],'"("','")"')
T('ConstantCondition','C10',['E','v.value','L'])
T('create','C08 C20',['E','v.pattern','L'],'"CREATE "','" "')
T('Delete','C08 C20',['E','v.deleteItems','L'],'!if v.detach {\n\tspecAppend(r, "DETACH DELETE ")\n} else {\n\tspecAppend(r, "DELETE ")\n}','" "')
T('Distinct','C08 C12',EL,'"DISTINCT "')
T('DistinctExpression','C12',['E','(Distinct{IsDistinct: false})','v.delegate','L'])
T('EntryExpression','C15 C01',['E','v.Value','L'],'EscapeIfNecessary(v.Key)+": "')
T('ExcludedPattern','C16 C10',['E','NOT','v.patternElement','L'])
T('ExistentialSubquery','C18',['E','v.fragment','L'],'"EXISTS {"','"}"')
T('ExpressionList','C08 C12 C13 C17 C20',['E','*v.expressions:name of Expression','L'])
T('FunctionInvocation','C12',['E','v.arguments','L'],'v.functionName+"("','")"')
T('HasLabelCondition','C11 C16',['E','v.nodeName','*v.nodeLabels of NodeLabel','L'])
T('KeyValueMapEntry','C15 C01',['E','v.value','L'],'EscapeIfNecessary(v.entryKey)+": "')
T('Limit','C17 C08',['E','v.limitAmount','L'],'" LIMIT "')
T('Skip','C17 C08',['E','v.skipAmount','L'],'" SKIP "')
T('ListComprehension','C19',['E','v.variable','IN','v.listExpression','?v.where','!if v.listDefinition != nil {\n\tPIPE.accept(r)\n\tv.listDefinition.accept(r)\n}','L'],'"["','"]"')
T('ListExpression','C03 C19',['E','v.content','L'],'"["','"]"')
T('ListLiteral','C03',['E','!literals_accept(v.content, r, len(v.content))','L'],'"["','"]"')
T('ListOperator','C19 C11',['E','v.targetExpression','v.details','L'])
T('Dot','C19',EL,'v.content')
T('ListOperatorDetails','C19 C11',['E','?v.optionalStart','?v.dots','?v.optionalEnd','L'],'"["','"]"')
T('ListPredicate','C19',['E','v.variable','IN','v.listExpression','v.where','L'])
T('MapExpression','C15',['E','*v.expressions:name of Expression','L'],'"{"','"}"')
T('MapProjection','C15',['E','v.name','v.mapExpression','L'])
T('MatchPhrase','C08 C13',['E','v.pattern','?v.optionalWhere','L'],'!if v.optional {\n\tspecAppend(r, "OPTIONAL MATCH ")\n} else {\n\tspecAppend(r, "MATCH ")\n}','" "')
T('merge','C08 C20',['E','v.pattern','*v.onCreateOrMatchEvents of Visitable','L'],'"MERGE "','!if len(v.onCreateOrMatchEvents) == 0 {\n\tspecAppend(r, " ")\n}')
T('MergeAction','C20',['E','v.set','L'],'!if v.mergeType == ON_CREATE {\n\tspecAppend(r, "ON CREATE ")\n} else if v.mergeType == ON_MATCH {\n\tspecAppend(r, "ON MATCH ")\n} else {\n\tspecAppend(r, " ")\n}')
T('MultiPartQuery','C13 C08',['*v.parts of MultiPartElement','v.remainder'])
T('MultiPartElement','C13 C08',['E','*v.precedingClauses of Visitable','v.with','L'])
T('NamedPath','C16',['E','v.name','ASSIGMENT','v.pattern','L'])
T('Namespace','C18',EL,'strings.Join(v.content, ".")')
T('NestedExpression','C11 C10',['E','N:v.delegate','L'],'"("','")"')
T('Node','C16 C09',['E','?v.symbolicName','*v.labels of NodeLabel','?v.properties','L'],
  '''!specAppend(r, "(")
if !v.symbolicName.isNotNil() {
	return
}
_, seen := r.visitedNamed[v.key]
r.skipNodeContent = seen
r.visitedNamed[v.key] = 1
if seen {
	specAppend(r, r.resolve(v.symbolicName))
}''','!specAppend(r, ")")\nr.skipNodeContent = false')
T('NodeLabel','C01 C16',EL,'!if v.value != "" {\n\tspecAppend(r, ":"+specQuoted(v.value))\n}')
T('NodeLabels','C20 C16',['E','*v.values of NodeLabel','L'])
T('NilLiteral','C03',EL,'"NULL"')
T('NumberLiteral','C03',EL,'v.AsString()')
T('Operation','C11',['E','N:v.left','v.operator','v.right','L'],'!if specGrouped(v) {\n\tspecAppend(r, "(")\n}','!if specGrouped(v) {\n\tspecAppend(r, ")")\n}')
T('Operator','C11 C10',EL,'''!if v.operatorType == LABEL {
	return
}
if v.operatorType != PREFIX && v != EXPONENTIATION {
	specAppend(r, " ")
}
specAppend(r, v.representation)
if v.operatorType != POSTFIX && v != EXPONENTIATION {
	specAppend(r, " ")
}''')
T('Order','C17 C08',['E','*v.sortItems of SortItem','L'],'" ORDER BY "')
T('Parameter','C01 C04',EL,'"$"+v.name')
T('Pattern','C16 C08',['E','*v.patternElements of PatternElement','L'])
T('PatternComprehension','C19',['E','v.pattern','?v.where','PIPE','v.listDefinition','L'],'"["','"]"')
T('ProcedureCall','C18 C08',['E','v.name','?v.arguments','?v.yieldItems','?v.optionalWhere','L'],'"CALL "','" "')
T('ProcedureName','C18',['E','?v.optionalNamespace','L'],'','!if v.optionalNamespace.isNotNil() {\n\tspecAppend(r, "."+v.value)\n} else {\n\tspecAppend(r, v.value)\n}')
T('Properties','C15 C16',['E','v.properties','L'],'" "')
T('Property','C11 C15',['E','v.container','v.name','L'])
T('PropertyLookup','C01 C11 C15',EL,'!if v.propertyKeyName == "*" {\n\tspecAppend(r, ".*")\n} else {\n\tspecAppend(r, "."+EscapeIfNecessary(v.propertyKeyName))\n}')
T('RawStringLiteral','C02 C03',EL,'v.AsString()')
T('Relationship','C16',['E','v.left','v.details','v.right','L'])
T('RelationshipChain','C16',['E','!chainAll(v.relationships, r, len(v.relationships))\nspecPresent(chainEnd(v.relationships, len(v.relationships)), r)','L'])
T('RelationshipDetails','C16',['E','?v.symbolicName','?v.types','?v.length','?v.properties','L'],
  '!specAppend(r, v.direction.symbolLeft)\nif specHasContent(v) {\n\tspecAppend(r, "[")\n}','!if specHasContent(v) {\n\tspecAppend(r, "]")\n}\nspecAppend(r, v.direction.symbolRight)')
T('RelationshipLength','C16',EL,'''!if v.unbounded {
	specAppend(r, "*")
	return
}
if v.minimum == nil && v.maximum == nil {
	return
}
specAppend(r, "*")
if v.minimum != nil {
	specAppend(r, strconv.Itoa(*v.minimum))
}
specAppend(r, "..")
if v.maximum != nil {
	specAppend(r, strconv.Itoa(*v.maximum))
}''')
T('RelationshipPatternCondition','C16 C10',['E','v.pathPattern','L'])
T('RelationshipTypes','C16 C01',EL,'!t := specTypes(v.values, len(v.values))\nif len(t) > 0 {\n\tspecAppend(r, ":"+strings.Join(t, "|"))\n}')
T('Remove','C08 C20',['E','v.setItems','L'],'"REMOVE "','" "')
T('Set','C08 C20',['E','v.setItems','L'],'"SET "','" "')
T('Return','C08 C13',['E','?v.distinct','v.body','L'],'"RETURN "')
T('ReturnBody','C08 C17',['v.returnItems','?v.order','?v.skip','?v.limit'])
T('SinglePartQuery','C13 C08',['*v.precedingClauses of Visitable','?v.aReturn'])
T('SortItem','C17',['E','N:v.expression','!if v.direction.value == ASC || v.direction.value == DESC {\n\tv.direction.accept(r)\n}','L'])
T('SortDirection','C17',EL,'" "+string(v.value)')
T('StringLiteral','C02',EL,'v.AsString()')
T('Subquery','C18',['E','v.statement','L'],'"CALL {"','"} "')
T('SymbolicName','C01 C09',EL,'r.resolve(v)')
T('UnionPart','C18',['E','v.query','L'],'!if v.all {\n\tspecAppend(r, " UNION ALL ")\n} else {\n\tspecAppend(r, " UNION ")\n}')
T('UnionQuery','C18',['E','v.firstQuery','*v.additionalQueries of UnionPart','L'])
T('UnwindPhrase','C08 C13',['E','v.expressionToUnwind','L'],'"UNWIND "','" AS "+EscapeIfNecessary(v.variable)+" "')
T('FunctionArgumentList','C12',['E','*v.expressions:nameif of Visitable','L'])
T('Where','C08 C13 C10',['E','v.condition','L'],'" WHERE "')
T('with','C08 C13',['E','?v.distinct','v.body','?v.where','L'],'"WITH "','" "')
T('YieldItems','C18',['E','*v.expressions of Expression','L'],'" YIELD "')
head='''package cypher

// Contracts of accept, enter and leave of every element of a statement: which
// parts are visited, each once and in this order, and what text surrounds them.
// Written by tools/mkast.py.

import "strconv"

// specAppend adds text to what has been written.
func specAppend(r *CypherRenderer, s string) {
	r.builder.WriteString(s)
}

// specNamed: a value with a name of its own is written by its name.
func specNamed(e Expression) Expression {
	n, ok := e.(Named)
	if ok && n.GetSymbolicName().isNotNil() {
		return n.GetSymbolicName()
	}
	return e
}

func specNamedIf(v Visitable) Visitable {
	e, ok := v.(Expression)
	if ok {
		return specNamed(e)
	}
	return v
}

// specPresent: an optional part is visited exactly when it is present.
func specPresent(v Visitable, r *CypherRenderer) {
	if v != nil && v.isNotNil() {
		v.accept(r)
	}
}

func specAliasSeen(r *CypherRenderer, v AliasedExpression) bool {
	_, ok := r.visitableToAliased[v.delegate.getKey()]
	return ok
}

// specQuoted: between backticks, every backtick doubled.
func specQuoted(s string) string {
	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
}

// specOperand writes one operand of a compound condition: the operator it is joined with, then itself.
func specOperand(r *CypherRenderer, op Operator, c Condition) {
	if op.isNotNil() {
		op.accept(r)
	}
	c.accept(r)
}

func specOperandOp(v CompoundCondition, c Condition) Operator {
	if compound, ok := c.(CompoundCondition); ok {
		return compound.operator
	}
	return v.operator
}

//@ rec
func allOperands(v CompoundCondition, xs []Condition, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	allOperands(v, xs, r, n-1)
	specOperand(r, specOperandOp(v, xs[n-1]), xs[n-1])
}

//@ rec
func literals_accept(xs []Literal, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	literals_accept(xs, r, n-1)
	if n > 1 {
		specAppend(r, ", ")
	}
	xs[n-1].accept(r)
}

//@ rec
func chainAll(xs []Relationship, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	chainAll(xs, r, n-1)
	xs[n-1].left.accept(r)
	xs[n-1].details.accept(r)
}

// chainEnd: the node at the far end of a chain.
//@ rec
func chainEnd(xs []Relationship, n int) Node {
	if n <= 0 {
		return Node{}
	}
	return xs[n-1].right
}

// specTypes: the non-empty types, quoted.
//@ rec
func specTypes(xs []string, n int) []string {
	if n <= 0 {
		return []string{}
	}
	t := specTypes(xs, n-1)
	if xs[n-1] == "" {
		return t
	}
	return append(t, specQuoted(xs[n-1]))
}

// specGrouped: an operation is put in parentheses unless it assigns a property or
// label, or raises to a power.
func specGrouped(o Operation) bool {
	return o.operator.operatorType != PROPERTY && o.operator.operatorType != LABEL &&
		o.operator != EXPONENTIATION && o.operator != PIPE
}

func specHasContent(v RelationshipDetails) bool {
	return v.symbolicName.isNotNil() || v.types.isNotNil() || v.length.isNotNil() || v.properties.isNotNil()
}
'''
src=head.replace('import "strconv"','import (\n\t"strconv"\n\t"strings"\n)')+''.join(recs.values())+''.join(out)
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'contracts','ast.go'),'w').write(src)
import subprocess
subprocess.run(['gofmt','-w','contracts/ast.go'],cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),check=True)
