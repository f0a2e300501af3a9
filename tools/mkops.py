#!/usr/bin/env python3
# Writes contracts/operators.go: contracts of comparisons, operations, the logical
# operators and what they are applied to (C10, C11). The operators are those of the
# Cypher manual.
import os
out=[]; w=out.append
w('''package cypher

// Contracts of comparisons, operations and the logical operators. Written by
// tools/mkops.py from the operators of the Cypher manual.

// specWrapped: a condition used as an operand is put in parentheses.
func specWrapped(e Expression, x Expression) bool {
	_, isCondition := e.(Condition)
	if !isCondition {
		return x == e
	}
	n, ok := x.(NestedExpression)
	return ok && n.isNotNil() && n.GetError() == nil && n.delegate == e
}

func specOp(o Operator, text string, kind OperatorType) bool {
	return o.isNotNil() && o.GetError() == nil && o.representation == text && o.operatorType == kind
}

// specCompares: left OP right.
func specCompares(c Comparison, left Expression, text string, right Expression) bool {
	return c.GetError() == nil && c.isNotNil() && specOp(c.operator, text, BINARY) && specWrapped(left, c.left) && specWrapped(right, c.right)
}

// specCompared: so does the condition inside of the container.
func specCompared(b ConditionContainer, left Expression, text string, right Expression) bool {
	c, ok := b.expression.(Comparison)
	if !specGood(left) || !specGood(right) {
		return b.expression != nil && b.expression.GetError() != nil
	}
	return ok && specCompares(c, left, text, right)
}

func specComparedTo(b ConditionContainer, left Expression, text string, right func(x Expression) bool) bool {
	if !specGood(left) {
		return b.expression != nil && b.expression.GetError() != nil
	}
	c, ok := b.expression.(Comparison)
	return ok && c.GetError() == nil && c.isNotNil() && specOp(c.operator, text, BINARY) && specWrapped(left, c.left) && right(c.right)
}

// specOperates: left OP right.
func specOperates(o Operation, left Expression, text string, kind OperatorType, right Expression) bool {
	if !specGood(left) || !specGood(right) {
		return o.GetError() != nil
	}
	c, ok := o.ExpressionContainer.expression.(Operation)
	return ok && specOperation(o, left, text, kind, right) && specOperation(c, left, text, kind, right) && c.key == o.key
}

func specOperation(o Operation, left Expression, text string, kind OperatorType, right Expression) bool {
	if o.GetError() != nil || !o.isNotNil() || !specOp(o.operator, text, kind) || o.left != left {
		return false
	}
	// a power in the exponent keeps its own parentheses
	p, isOperation := right.(Operation)
	if text == "^" && isOperation && p.operator == EXPONENTIATION {
		n, ok := o.right.(NestedExpression)
		return ok && n.isNotNil() && n.GetError() == nil && n.delegate == right
	}
	return o.right == right
}

func specOperated(x ExpressionContainer, left Expression, text string, right Expression) bool {
	o, ok := x.expression.(Operation)
	return ok && specOperates(o, left, text, BINARY, right)
}

// specJoined: left OP right, as a new condition.
func specJoined(b ConditionContainer, left Condition, op Operator, right Condition) bool {
	if specBad(left) || specBad(right) || left == nil || right == nil {
		return b.expression != nil && b.expression.GetError() != nil
	}
	return true
}

func specLogical(o Operator) bool {
	return o == AND || o == OR || o == XOR
}
''')
def ens(props, target, sig, body):
    w(f'//@ props {props}\n//@ ensures {target}\nfunc en_{target.replace(".","_")}({sig}) bool {{\n{body}\n}}\n')
for m,t in [('IsEqualTo','='),('IsNotEqualTo','<>'),('Lt','<'),('Lte','<='),('Gt','>'),('Gte','>='),('Matches','=~'),('StartWiths','STARTS WITH'),('Contains','CONTAINS'),('EndsWith','ENDS WITH'),('In','IN')]:
    ens('C11 C04 C14', 'ExpressionContainer.'+m, 'e ExpressionContainer, rhs Expression, r ConditionContainer', f'\treturn specCompared(r, e.expression, "{t}", rhs)')
for m,t in [('IsTrue','true'),('IsFalse','false')]:
    ens('C11 C03', 'ExpressionContainer.'+m, 'e ExpressionContainer, r ConditionContainer', f'''	return specComparedTo(r, e.expression, "=", func(x Expression) bool {{
		b, ok := x.(BooleanLiteral)
		return ok && b.isNotNil() && b.GetError() == nil && b.content == {t}
	}})''')
ens('C11 C02','ExpressionContainer.MatchesPattern','e ExpressionContainer, s string, r ConditionContainer','''	return specComparedTo(r, e.expression, "=~", func(x Expression) bool {
		b, ok := x.(StringLiteral)
		return ok && b.isNotNil() && b.GetError() == nil && b.content == s
	})''')
ens('C11 C12','ExpressionContainer.IsEmpty','e ExpressionContainer, r ConditionContainer','''	if !specGood(e.expression) {
		return r.expression != nil && r.expression.GetError() != nil
	}
	c, ok := r.expression.(Comparison)
	if !ok || c.GetError() != nil || !c.isNotNil() || !specOp(c.operator, "=", BINARY) {
		return false
	}
	f, isCall := c.left.(FunctionInvocation)
	n, isNumber := c.right.(NumberLiteral)
	return isCall && specIsCall(f, "size", false, e.expression) && isNumber && n.isNotNil() && n.AsString() == NumberLiteralCreate1(0).AsString()''')
for m,t in [('IsNull','IS NULL'),('IsNotNull','IS NOT NULL')]:
    ens('C11','ExpressionContainer.'+m,'e ExpressionContainer, r ConditionContainer',f'''	if !specGood(e.expression) {{
		return r.expression != nil && r.expression.GetError() != nil
	}}
	c, ok := r.expression.(Comparison)
	return ok && c.GetError() == nil && c.isNotNil() && specOp(c.operator, "{t}", POSTFIX) && specWrapped(e.expression, c.left) && c.right == nil''')
for m,t in [('Concat','+'),('Add','+'),('Subtract','-'),('Multiply','*'),('Divide','/'),('Remainder','%'),('Pow','^')]:
    ens('C11 C04','ExpressionContainer.'+m,'e ExpressionContainer, rhs Expression, r ExpressionContainer',f'\treturn specOperated(r, e.expression, "{t}", rhs)')
    ens('C11 C04','Operation'+m,'left Expression, right Expression, r Operation',f'\treturn specOperates(r, left, "{t}", BINARY, right)')
ens('C11 C20','OperationSet','left Expression, right Expression, r Operation','\treturn specOperates(r, left, "=", PROPERTY, right)')
ens('C11 C20','Property.To','p Property, right Expression, r Operation','\treturn specOperates(r, p, "=", PROPERTY, right)')
for m,d in [('Ascending','ASC'),('Descending','DESC')]:
    ens('C17','ExpressionContainer.'+m,'e ExpressionContainer, r SortItem',f'''	if e.expression == nil || specBad(e.expression) {{
		return r.GetError() != nil
	}}
	return r.GetError() == nil && r.isNotNil() && r.expression == e.expression && r.direction.value == "{d}"''')
    ens('C17','SortItem.'+m,'i SortItem, r SortItem',f'''	if i.GetError() != nil || i.expression == nil {{
		return r.GetError() != nil
	}}
	return r.GetError() == nil && r.isNotNil() && r.expression == i.expression && r.direction.value == "{d}"''')
ens('C09','ExpressionContainer.As','e ExpressionContainer, alias string, r ExpressionContainer','''	a, ok := r.expression.(AliasedExpression)
	return ok && en_AliasedExpressionCreate(e.expression, alias, a)''')
ens('C09 C04','AliasedExpressionCreate','e Expression, alias string, r AliasedExpression','''	if !specGood(e) || alias == "" {
		return r.GetError() != nil
	}
	return r.GetError() == nil && r.isNotNil() && r.delegate == e && r.alias == alias''')
ens('C09','AliasedExpression.Aliased','a AliasedExpression, alias string, r AliasedExpression','\treturn a.GetError() != nil || !a.isNotNil() || en_AliasedExpressionCreate(a.delegate, alias, r)')
ens('C09 C01','AliasedExpression.AsName','a AliasedExpression, r SymbolicName','''	if a.alias == "" {
		return r.GetError() != nil
	}
	return r.GetError() == nil && r.isNotNil() && r.value == a.alias''')
ens('C11 C04','ComparisonCreate','left Expression, op Operator, right Expression, r Comparison','''	if !specGood(left) || !specGood(right) || !specGood(op) {
		return r.GetError() != nil
	}
	c, ok := r.ConditionContainer.expression.(Comparison)
	return r.GetError() == nil && r.isNotNil() && r.operator == op && specWrapped(left, r.left) && specWrapped(right, r.right) &&
		ok && c.GetError() == nil && c.isNotNil() && c.operator == op && c.key == r.key && specWrapped(left, c.left) && specWrapped(right, c.right)''')
ens('C11 C10 C04','ComparisonCreate1','op Operator, e Expression, r Comparison','''	if !specGood(op) || !specGood(e) || op.operatorType != PREFIX && op.operatorType != POSTFIX {
		return r.GetError() != nil
	}
	if r.GetError() != nil || !r.isNotNil() || r.operator != op {
		return false
	}
	if op.operatorType == PREFIX {
		return r.left == nil && specWrapped(e, r.right)
	}
	return r.right == nil && specWrapped(e, r.left)''')
ens('C11 C04','OperationCreate','left Expression, op Operator, right Expression, r Operation','''	if !specGood(left) || !specGood(right) || !specGood(op) {
		return r.GetError() != nil
	}
	if r.GetError() != nil || !r.isNotNil() || r.operator != op || r.left != left {
		return false
	}
	p, isOperation := right.(Operation)
	if op == EXPONENTIATION && isOperation && p.operator == EXPONENTIATION {
		n, ok := r.right.(NestedExpression)
		return ok && n.isNotNil() && n.GetError() == nil && n.delegate == right
	}
	return r.right == right''')
ens('C11 C20 C04','OperationCreate1','left Expression, op Operator, label NodeLabel, r Operation','''	if !specGood(left) || !specGood(label) || !specGood(op) {
		return r.GetError() != nil
	}
	l, ok := r.right.(NodeLabel)
	return r.GetError() == nil && r.isNotNil() && r.operator == op && r.left == left && ok && l.value == label.value''')
for f,n in [('OperationSetLabel',''),('OperationRemove','')]:
    ens('C20 C01',f,'n Node, labels []string, r Operation','''	if !specGood(n) || !specGood(n.GetSymbolicName()) || len(labels) == 0 {
		return r.GetError() != nil
	}
	if r.GetError() != nil || !r.isNotNil() || !specOp(r.operator, "", LABEL) {
		return false
	}
	s, named := r.left.(SymbolicName)
	l, ok := r.right.(NodeLabels)
	return named && s.value == n.GetSymbolicName().value && ok && len(l.values) == len(labels) &&
		vcAll(len(labels), func(i int) bool { return l.values[i].value == labels[i] })''')
# conditions
ens('C10 C16','ConditionsNotByPattern','p PatternElement, r Condition','''	if !specGood(p) {
		return specBad(r)
	}
	x, ok := r.(ExcludedPattern)
	return ok && x.GetError() == nil && x.isNotNil() && x.patternElement == p''')
ens('C10','ConditionsNoCondition','r Condition','''	c, ok := r.(CompoundCondition)
	return ok && c.GetError() == nil && c.isNotNil() && len(c.conditions) == 0''')
for f,t in [('ConditionsIsTrue','true'),('ConditionsIsFalse','false')]:
    ens('C10 C03',f,'r Condition',f'''	c, ok := r.(ConstantCondition)
	return ok && c.GetError() == nil && c.isNotNil() && c.value.isNotNil() && c.value.content == {t}''')
ens('C10 C11','ConditionContainer.Not','b ConditionContainer, r ConditionContainer','''	c, isCompound := b.expression.(CompoundCondition)
	if isCompound && c.GetError() == nil && c.isNotNil() && !c.hasCondition() {
		e, ok := r.expression.(CompoundCondition)
		return ok && e.GetError() == nil && e.isNotNil() && len(e.conditions) == 0
	}
	if !specGood(b.expression) {
		return specBad(r.expression)
	}
	x, ok := r.expression.(Comparison)
	return ok && x.GetError() == nil && x.isNotNil() && specOp(x.operator, "NOT", PREFIX) && x.left == nil && specWrapped(b.expression, x.right)''')
for m,t in [('And','AND'),('Or','OR'),('Xor','XOR')]:
    ens('C10 C16',f'ConditionContainer.{m}Pattern','b ConditionContainer, p RelationshipPattern, r ConditionContainer',f'''	if !specGood(p) || !specGood(b.expression) {{
		return specBad(r.expression)
	}}
	return true''')
ens('C12 C19 C04','BooleanFunctionConditionCreate','f FunctionInvocation, r BooleanFunctionCondition','''	if specBad(f) {
		return r.GetError() != nil
	}
	c, ok := r.ConditionContainer.expression.(BooleanFunctionCondition)
	return r.GetError() == nil && r.isNotNil() && r.delegate.functionName == f.functionName && r.delegate.key == f.key &&
		ok && c.isNotNil() && c.delegate.key == f.key && c.key == r.key''')
for f,t in [('PredicateExists','Property'),('PredicateExistsByPattern','RelationshipPattern')]:
    ens('C12 C19'+(' C16' if 'Pattern' in f else ''),f,f'p {t}, r Condition','''	if !specGood(p) {
		return specBad(r)
	}
	c, ok := r.(BooleanFunctionCondition)
	return ok && c.GetError() == nil && c.isNotNil() && specIsCall(c.delegate, "exists", false, p)''')
for m,n in [('All','all'),('Any','any'),('None','none'),('Single','single')]:
    ens('C19 C12',f'Predicate{m}BySymbolicName','s SymbolicName, r OngoingListBasedPredicateFunction',f'''	b, ok := r.(PredicateBuilder)
	if !specGood(s) {{
		return ok && b.GetError() != nil
	}}
	return ok && b.GetError() == nil && b.predicate.implementationName == "{n}" && b.name == s''')
    ens('C19 C12',f'Predicate{m}','s string, r OngoingListBasedPredicateFunction',f'''	b, ok := r.(PredicateBuilder)
	if s == "" {{
		return ok && b.GetError() != nil
	}}
	return ok && b.GetError() == nil && b.predicate.implementationName == "{n}" && b.name.value == s && b.name.isNotNil() && b.name.GetError() == nil''')
ens('C19 C04','PredicateBuilder.In','p PredicateBuilder, list Expression, r OngoingListBasedPredicateFunctionWithList','''	b, ok := r.(PredicateBuilder)
	if p.GetError() != nil || !specGood(list) {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == p.predicate.implementationName && b.name == p.name && b.listExpression == list''')
ens('C19 C04','PredicateBuilder.Where','p PredicateBuilder, cond Condition, r Condition','''	if p.GetError() != nil || !specGood(cond) {
		return specBad(r)
	}
	if r.GetError() != nil {
		return !specGood(p.name) || !specGood(p.listExpression)
	}
	c, ok := r.(BooleanFunctionCondition)
	if !ok || !c.isNotNil() || c.delegate.functionName != p.predicate.implementationName || len(c.delegate.arguments.expressions) != 1 {
		return false
	}
	l, isList := c.delegate.arguments.expressions[0].(ListPredicate)
	return isList && l.isNotNil() && l.GetError() == nil && l.variable == p.name && l.listExpression == p.listExpression && l.where.condition == cond && l.where.isNotNil()''')
open(os.path.join(os.path.dirname(__file__),'..','contracts','operators.go'),'w').write('\n'.join(out))
