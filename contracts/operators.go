package cypher

// Contracts of comparisons, operations and the logical operators. Written by
// tools/mkops.py from the operators of the Cypher manual.

// specWrapped: a condition used as an operand is put in parentheses.
func specWrapped(e Expression, x Expression) bool {
	_, isCondition := e.(Condition)
	if !isCondition {
		return x == e
	}
	n, ok := x.(NestedExpression)
	return ok && n.isNotNil() && n.GetError() == nil && n.delegate == e
}

func specOp(o Operator, text string, kind OperatorType) bool {
	return o.isNotNil() && o.GetError() == nil && o.representation == text && o.operatorType == kind
}

// specCompares: left OP right.
func specCompares(c Comparison, left Expression, text string, right Expression) bool {
	return c.GetError() == nil && c.isNotNil() && specOp(c.operator, text, BINARY) && specWrapped(left, c.left) && specWrapped(right, c.right)
}

// specCompared: so does the condition inside of the container.
func specCompared(b ConditionContainer, left Expression, text string, right Expression) bool {
	c, ok := b.expression.(Comparison)
	if !specGood(left) || !specGood(right) {
		return b.expression != nil && b.expression.GetError() != nil
	}
	return ok && specCompares(c, left, text, right)
}

func specComparedTo(b ConditionContainer, left Expression, text string, right func(x Expression) bool) bool {
	if !specGood(left) {
		return b.expression != nil && b.expression.GetError() != nil
	}
	c, ok := b.expression.(Comparison)
	return ok && c.GetError() == nil && c.isNotNil() && specOp(c.operator, text, BINARY) && specWrapped(left, c.left) && right(c.right)
}

// specOperates: left OP right.
func specOperates(o Operation, left Expression, text string, kind OperatorType, right Expression) bool {
	if !specGood(left) || !specGood(right) {
		return o.GetError() != nil
	}
	c, ok := o.ExpressionContainer.expression.(Operation)
	return ok && specOperation(o, left, text, kind, right) && specOperation(c, left, text, kind, right) && c.key == o.key
}

func specOperation(o Operation, left Expression, text string, kind OperatorType, right Expression) bool {
	if o.GetError() != nil || !o.isNotNil() || !specOp(o.operator, text, kind) || o.left != left {
		return false
	}
	// a power in the exponent keeps its own parentheses
	p, isOperation := right.(Operation)
	if text == "^" && isOperation && p.operator == EXPONENTIATION {
		n, ok := o.right.(NestedExpression)
		return ok && n.isNotNil() && n.GetError() == nil && n.delegate == right
	}
	return o.right == right
}

func specOperated(x ExpressionContainer, left Expression, text string, right Expression) bool {
	o, ok := x.expression.(Operation)
	return ok && specOperates(o, left, text, BINARY, right)
}

// specJoined: left OP right, as a new condition.
func specJoined(b ConditionContainer, left Condition, op Operator, right Condition) bool {
	if specBad(left) || specBad(right) || left == nil || right == nil {
		return b.expression != nil && b.expression.GetError() != nil
	}
	return true
}

func specLogical(o Operator) bool {
	return o == AND || o == OR || o == XOR
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.IsEqualTo
func en_ExpressionContainer_IsEqualTo(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, "=", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.IsNotEqualTo
func en_ExpressionContainer_IsNotEqualTo(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, "<>", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.Lt
func en_ExpressionContainer_Lt(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, "<", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.Lte
func en_ExpressionContainer_Lte(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, "<=", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.Gt
func en_ExpressionContainer_Gt(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, ">", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.Gte
func en_ExpressionContainer_Gte(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, ">=", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.Matches
func en_ExpressionContainer_Matches(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, "=~", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.StartWiths
func en_ExpressionContainer_StartWiths(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, "STARTS WITH", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.Contains
func en_ExpressionContainer_Contains(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, "CONTAINS", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.EndsWith
func en_ExpressionContainer_EndsWith(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, "ENDS WITH", rhs)
}

// @ props C11 C04 C14
// @ ensures ExpressionContainer.In
func en_ExpressionContainer_In(e ExpressionContainer, rhs Expression, r ConditionContainer) bool {
	return specCompared(r, e.expression, "IN", rhs)
}

// @ props C11 C03
// @ ensures ExpressionContainer.IsTrue
func en_ExpressionContainer_IsTrue(e ExpressionContainer, r ConditionContainer) bool {
	return specComparedTo(r, e.expression, "=", func(x Expression) bool {
		b, ok := x.(BooleanLiteral)
		return ok && b.isNotNil() && b.GetError() == nil && b.content == true
	})
}

// @ props C11 C03
// @ ensures ExpressionContainer.IsFalse
func en_ExpressionContainer_IsFalse(e ExpressionContainer, r ConditionContainer) bool {
	return specComparedTo(r, e.expression, "=", func(x Expression) bool {
		b, ok := x.(BooleanLiteral)
		return ok && b.isNotNil() && b.GetError() == nil && b.content == false
	})
}

// @ props C11 C02
// @ ensures ExpressionContainer.MatchesPattern
func en_ExpressionContainer_MatchesPattern(e ExpressionContainer, s string, r ConditionContainer) bool {
	return specComparedTo(r, e.expression, "=~", func(x Expression) bool {
		b, ok := x.(StringLiteral)
		return ok && b.isNotNil() && b.GetError() == nil && b.content == s
	})
}

// @ props C11 C12
// @ ensures ExpressionContainer.IsEmpty
func en_ExpressionContainer_IsEmpty(e ExpressionContainer, r ConditionContainer) bool {
	if !specGood(e.expression) {
		return r.expression != nil && r.expression.GetError() != nil
	}
	c, ok := r.expression.(Comparison)
	if !ok || c.GetError() != nil || !c.isNotNil() || !specOp(c.operator, "=", BINARY) {
		return false
	}
	f, isCall := c.left.(FunctionInvocation)
	n, isNumber := c.right.(NumberLiteral)
	return isCall && specIsCall(f, "size", false, e.expression) && isNumber && n.isNotNil() && n.AsString() == NumberLiteralCreate1(0).AsString()
}

// @ props C11
// @ ensures ExpressionContainer.IsNull
func en_ExpressionContainer_IsNull(e ExpressionContainer, r ConditionContainer) bool {
	if !specGood(e.expression) {
		return r.expression != nil && r.expression.GetError() != nil
	}
	c, ok := r.expression.(Comparison)
	return ok && c.GetError() == nil && c.isNotNil() && specOp(c.operator, "IS NULL", POSTFIX) && specWrapped(e.expression, c.left) && c.right == nil
}

// @ props C11
// @ ensures ExpressionContainer.IsNotNull
func en_ExpressionContainer_IsNotNull(e ExpressionContainer, r ConditionContainer) bool {
	if !specGood(e.expression) {
		return r.expression != nil && r.expression.GetError() != nil
	}
	c, ok := r.expression.(Comparison)
	return ok && c.GetError() == nil && c.isNotNil() && specOp(c.operator, "IS NOT NULL", POSTFIX) && specWrapped(e.expression, c.left) && c.right == nil
}

// @ props C11 C04
// @ ensures ExpressionContainer.Concat
func en_ExpressionContainer_Concat(e ExpressionContainer, rhs Expression, r ExpressionContainer) bool {
	return specOperated(r, e.expression, "+", rhs)
}

// @ props C11 C04
// @ ensures OperationConcat
func en_OperationConcat(left Expression, right Expression, r Operation) bool {
	return specOperates(r, left, "+", BINARY, right)
}

// @ props C11 C04
// @ ensures ExpressionContainer.Add
func en_ExpressionContainer_Add(e ExpressionContainer, rhs Expression, r ExpressionContainer) bool {
	return specOperated(r, e.expression, "+", rhs)
}

// @ props C11 C04
// @ ensures OperationAdd
func en_OperationAdd(left Expression, right Expression, r Operation) bool {
	return specOperates(r, left, "+", BINARY, right)
}

// @ props C11 C04
// @ ensures ExpressionContainer.Subtract
func en_ExpressionContainer_Subtract(e ExpressionContainer, rhs Expression, r ExpressionContainer) bool {
	return specOperated(r, e.expression, "-", rhs)
}

// @ props C11 C04
// @ ensures OperationSubtract
func en_OperationSubtract(left Expression, right Expression, r Operation) bool {
	return specOperates(r, left, "-", BINARY, right)
}

// @ props C11 C04
// @ ensures ExpressionContainer.Multiply
func en_ExpressionContainer_Multiply(e ExpressionContainer, rhs Expression, r ExpressionContainer) bool {
	return specOperated(r, e.expression, "*", rhs)
}

// @ props C11 C04
// @ ensures OperationMultiply
func en_OperationMultiply(left Expression, right Expression, r Operation) bool {
	return specOperates(r, left, "*", BINARY, right)
}

// @ props C11 C04
// @ ensures ExpressionContainer.Divide
func en_ExpressionContainer_Divide(e ExpressionContainer, rhs Expression, r ExpressionContainer) bool {
	return specOperated(r, e.expression, "/", rhs)
}

// @ props C11 C04
// @ ensures OperationDivide
func en_OperationDivide(left Expression, right Expression, r Operation) bool {
	return specOperates(r, left, "/", BINARY, right)
}

// @ props C11 C04
// @ ensures ExpressionContainer.Remainder
func en_ExpressionContainer_Remainder(e ExpressionContainer, rhs Expression, r ExpressionContainer) bool {
	return specOperated(r, e.expression, "%", rhs)
}

// @ props C11 C04
// @ ensures OperationRemainder
func en_OperationRemainder(left Expression, right Expression, r Operation) bool {
	return specOperates(r, left, "%", BINARY, right)
}

// @ props C11 C04
// @ ensures ExpressionContainer.Pow
func en_ExpressionContainer_Pow(e ExpressionContainer, rhs Expression, r ExpressionContainer) bool {
	return specOperated(r, e.expression, "^", rhs)
}

// @ props C11 C04
// @ ensures OperationPow
func en_OperationPow(left Expression, right Expression, r Operation) bool {
	return specOperates(r, left, "^", BINARY, right)
}

// @ props C11 C20
// @ ensures OperationSet
func en_OperationSet(left Expression, right Expression, r Operation) bool {
	return specOperates(r, left, "=", PROPERTY, right)
}

// @ props C11 C20
// @ ensures Property.To
func en_Property_To(p Property, right Expression, r Operation) bool {
	return specOperates(r, p, "=", PROPERTY, right)
}

// @ props C17
// @ ensures ExpressionContainer.Ascending
func en_ExpressionContainer_Ascending(e ExpressionContainer, r SortItem) bool {
	if e.expression == nil || specBad(e.expression) {
		return r.GetError() != nil
	}
	return r.GetError() == nil && r.isNotNil() && r.expression == e.expression && r.direction.value == "ASC"
}

// @ props C17
// @ ensures SortItem.Ascending
func en_SortItem_Ascending(i SortItem, r SortItem) bool {
	if i.GetError() != nil || i.expression == nil {
		return r.GetError() != nil
	}
	return r.GetError() == nil && r.isNotNil() && r.expression == i.expression && r.direction.value == "ASC"
}

// @ props C17
// @ ensures ExpressionContainer.Descending
func en_ExpressionContainer_Descending(e ExpressionContainer, r SortItem) bool {
	if e.expression == nil || specBad(e.expression) {
		return r.GetError() != nil
	}
	return r.GetError() == nil && r.isNotNil() && r.expression == e.expression && r.direction.value == "DESC"
}

// @ props C17
// @ ensures SortItem.Descending
func en_SortItem_Descending(i SortItem, r SortItem) bool {
	if i.GetError() != nil || i.expression == nil {
		return r.GetError() != nil
	}
	return r.GetError() == nil && r.isNotNil() && r.expression == i.expression && r.direction.value == "DESC"
}

// @ props C09
// @ ensures ExpressionContainer.As
func en_ExpressionContainer_As(e ExpressionContainer, alias string, r ExpressionContainer) bool {
	a, ok := r.expression.(AliasedExpression)
	return ok && en_AliasedExpressionCreate(e.expression, alias, a)
}

// @ props C09 C04
// @ ensures AliasedExpressionCreate
func en_AliasedExpressionCreate(e Expression, alias string, r AliasedExpression) bool {
	if !specGood(e) || alias == "" {
		return r.GetError() != nil
	}
	return r.GetError() == nil && r.isNotNil() && r.delegate == e && r.alias == alias
}

// @ props C09
// @ ensures AliasedExpression.Aliased
func en_AliasedExpression_Aliased(a AliasedExpression, alias string, r AliasedExpression) bool {
	return a.GetError() != nil || !a.isNotNil() || en_AliasedExpressionCreate(a.delegate, alias, r)
}

// @ props C09 C01
// @ ensures AliasedExpression.AsName
func en_AliasedExpression_AsName(a AliasedExpression, r SymbolicName) bool {
	if a.alias == "" {
		return r.GetError() != nil
	}
	return r.GetError() == nil && r.isNotNil() && r.value == a.alias
}

// @ props C11 C04
// @ ensures ComparisonCreate
func en_ComparisonCreate(left Expression, op Operator, right Expression, r Comparison) bool {
	if !specGood(left) || !specGood(right) || !specGood(op) {
		return r.GetError() != nil
	}
	c, ok := r.ConditionContainer.expression.(Comparison)
	return r.GetError() == nil && r.isNotNil() && r.operator == op && specWrapped(left, r.left) && specWrapped(right, r.right) &&
		ok && c.GetError() == nil && c.isNotNil() && c.operator == op && c.key == r.key && specWrapped(left, c.left) && specWrapped(right, c.right)
}

// @ props C11 C10 C04
// @ ensures ComparisonCreate1
func en_ComparisonCreate1(op Operator, e Expression, r Comparison) bool {
	if !specGood(op) || !specGood(e) || op.operatorType != PREFIX && op.operatorType != POSTFIX {
		return r.GetError() != nil
	}
	if r.GetError() != nil || !r.isNotNil() || r.operator != op {
		return false
	}
	if op.operatorType == PREFIX {
		return r.left == nil && specWrapped(e, r.right)
	}
	return r.right == nil && specWrapped(e, r.left)
}

// @ props C11 C04
// @ ensures OperationCreate
func en_OperationCreate(left Expression, op Operator, right Expression, r Operation) bool {
	if !specGood(left) || !specGood(right) || !specGood(op) {
		return r.GetError() != nil
	}
	if r.GetError() != nil || !r.isNotNil() || r.operator != op || r.left != left {
		return false
	}
	p, isOperation := right.(Operation)
	if op == EXPONENTIATION && isOperation && p.operator == EXPONENTIATION {
		n, ok := r.right.(NestedExpression)
		return ok && n.isNotNil() && n.GetError() == nil && n.delegate == right
	}
	return r.right == right
}

// @ props C11 C20 C04
// @ ensures OperationCreate1
func en_OperationCreate1(left Expression, op Operator, label NodeLabel, r Operation) bool {
	if !specGood(left) || !specGood(label) || !specGood(op) {
		return r.GetError() != nil
	}
	l, ok := r.right.(NodeLabel)
	return r.GetError() == nil && r.isNotNil() && r.operator == op && r.left == left && ok && l.value == label.value
}

// @ props C20 C01
// @ ensures OperationSetLabel
func en_OperationSetLabel(n Node, labels []string, r Operation) bool {
	if !specGood(n) || !specGood(n.GetSymbolicName()) || len(labels) == 0 {
		return r.GetError() != nil
	}
	if r.GetError() != nil || !r.isNotNil() || !specOp(r.operator, "", LABEL) {
		return false
	}
	s, named := r.left.(SymbolicName)
	l, ok := r.right.(NodeLabels)
	return named && s.value == n.GetSymbolicName().value && ok && len(l.values) == len(labels) &&
		vcAll(len(labels), func(i int) bool { return l.values[i].value == labels[i] })
}

// @ props C20 C01
// @ ensures OperationRemove
func en_OperationRemove(n Node, labels []string, r Operation) bool {
	if !specGood(n) || !specGood(n.GetSymbolicName()) || len(labels) == 0 {
		return r.GetError() != nil
	}
	if r.GetError() != nil || !r.isNotNil() || !specOp(r.operator, "", LABEL) {
		return false
	}
	s, named := r.left.(SymbolicName)
	l, ok := r.right.(NodeLabels)
	return named && s.value == n.GetSymbolicName().value && ok && len(l.values) == len(labels) &&
		vcAll(len(labels), func(i int) bool { return l.values[i].value == labels[i] })
}

// @ props C10 C16
// @ ensures ConditionsNotByPattern
func en_ConditionsNotByPattern(p PatternElement, r Condition) bool {
	if !specGood(p) {
		return specBad(r)
	}
	x, ok := r.(ExcludedPattern)
	return ok && x.GetError() == nil && x.isNotNil() && x.patternElement == p
}

// @ props C10
// @ ensures ConditionsNoCondition
func en_ConditionsNoCondition(r Condition) bool {
	c, ok := r.(CompoundCondition)
	return ok && c.GetError() == nil && c.isNotNil() && len(c.conditions) == 0
}

// @ props C10 C03
// @ ensures ConditionsIsTrue
func en_ConditionsIsTrue(r Condition) bool {
	c, ok := r.(ConstantCondition)
	return ok && c.GetError() == nil && c.isNotNil() && c.value.isNotNil() && c.value.content == true
}

// @ props C10 C03
// @ ensures ConditionsIsFalse
func en_ConditionsIsFalse(r Condition) bool {
	c, ok := r.(ConstantCondition)
	return ok && c.GetError() == nil && c.isNotNil() && c.value.isNotNil() && c.value.content == false
}

// @ props C10 C11
// @ ensures ConditionContainer.Not
func en_ConditionContainer_Not(b ConditionContainer, r ConditionContainer) bool {
	c, isCompound := b.expression.(CompoundCondition)
	if isCompound && c.GetError() == nil && c.isNotNil() && !c.hasCondition() {
		e, ok := r.expression.(CompoundCondition)
		return ok && e.GetError() == nil && e.isNotNil() && len(e.conditions) == 0
	}
	if !specGood(b.expression) {
		return specBad(r.expression)
	}
	x, ok := r.expression.(Comparison)
	return ok && x.GetError() == nil && x.isNotNil() && specOp(x.operator, "NOT", PREFIX) && x.left == nil && specWrapped(b.expression, x.right)
}

// @ props C10 C16
// @ ensures ConditionContainer.AndPattern
func en_ConditionContainer_AndPattern(b ConditionContainer, p RelationshipPattern, r ConditionContainer) bool {
	if !specGood(p) || !specGood(b.expression) {
		return specBad(r.expression)
	}
	return true
}

// @ props C10 C16
// @ ensures ConditionContainer.OrPattern
func en_ConditionContainer_OrPattern(b ConditionContainer, p RelationshipPattern, r ConditionContainer) bool {
	if !specGood(p) || !specGood(b.expression) {
		return specBad(r.expression)
	}
	return true
}

// @ props C10 C16
// @ ensures ConditionContainer.XorPattern
func en_ConditionContainer_XorPattern(b ConditionContainer, p RelationshipPattern, r ConditionContainer) bool {
	if !specGood(p) || !specGood(b.expression) {
		return specBad(r.expression)
	}
	return true
}

// @ props C12 C19 C04
// @ ensures BooleanFunctionConditionCreate
func en_BooleanFunctionConditionCreate(f FunctionInvocation, r BooleanFunctionCondition) bool {
	if specBad(f) {
		return r.GetError() != nil
	}
	c, ok := r.ConditionContainer.expression.(BooleanFunctionCondition)
	return r.GetError() == nil && r.isNotNil() && r.delegate.functionName == f.functionName && r.delegate.key == f.key &&
		ok && c.isNotNil() && c.delegate.key == f.key && c.key == r.key
}

// @ props C12 C19
// @ ensures PredicateExists
func en_PredicateExists(p Property, r Condition) bool {
	if !specGood(p) {
		return specBad(r)
	}
	c, ok := r.(BooleanFunctionCondition)
	return ok && c.GetError() == nil && c.isNotNil() && specIsCall(c.delegate, "exists", false, p)
}

// @ props C12 C19 C16
// @ ensures PredicateExistsByPattern
func en_PredicateExistsByPattern(p RelationshipPattern, r Condition) bool {
	if !specGood(p) {
		return specBad(r)
	}
	c, ok := r.(BooleanFunctionCondition)
	return ok && c.GetError() == nil && c.isNotNil() && specIsCall(c.delegate, "exists", false, p)
}

// @ props C19 C12
// @ ensures PredicateAllBySymbolicName
func en_PredicateAllBySymbolicName(s SymbolicName, r OngoingListBasedPredicateFunction) bool {
	b, ok := r.(PredicateBuilder)
	if !specGood(s) {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == "all" && b.name == s
}

// @ props C19 C12
// @ ensures PredicateAll
func en_PredicateAll(s string, r OngoingListBasedPredicateFunction) bool {
	b, ok := r.(PredicateBuilder)
	if s == "" {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == "all" && b.name.value == s && b.name.isNotNil() && b.name.GetError() == nil
}

// @ props C19 C12
// @ ensures PredicateAnyBySymbolicName
func en_PredicateAnyBySymbolicName(s SymbolicName, r OngoingListBasedPredicateFunction) bool {
	b, ok := r.(PredicateBuilder)
	if !specGood(s) {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == "any" && b.name == s
}

// @ props C19 C12
// @ ensures PredicateAny
func en_PredicateAny(s string, r OngoingListBasedPredicateFunction) bool {
	b, ok := r.(PredicateBuilder)
	if s == "" {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == "any" && b.name.value == s && b.name.isNotNil() && b.name.GetError() == nil
}

// @ props C19 C12
// @ ensures PredicateNoneBySymbolicName
func en_PredicateNoneBySymbolicName(s SymbolicName, r OngoingListBasedPredicateFunction) bool {
	b, ok := r.(PredicateBuilder)
	if !specGood(s) {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == "none" && b.name == s
}

// @ props C19 C12
// @ ensures PredicateNone
func en_PredicateNone(s string, r OngoingListBasedPredicateFunction) bool {
	b, ok := r.(PredicateBuilder)
	if s == "" {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == "none" && b.name.value == s && b.name.isNotNil() && b.name.GetError() == nil
}

// @ props C19 C12
// @ ensures PredicateSingleBySymbolicName
func en_PredicateSingleBySymbolicName(s SymbolicName, r OngoingListBasedPredicateFunction) bool {
	b, ok := r.(PredicateBuilder)
	if !specGood(s) {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == "single" && b.name == s
}

// @ props C19 C12
// @ ensures PredicateSingle
func en_PredicateSingle(s string, r OngoingListBasedPredicateFunction) bool {
	b, ok := r.(PredicateBuilder)
	if s == "" {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == "single" && b.name.value == s && b.name.isNotNil() && b.name.GetError() == nil
}

// @ props C19 C04
// @ ensures PredicateBuilder.In
func en_PredicateBuilder_In(p PredicateBuilder, list Expression, r OngoingListBasedPredicateFunctionWithList) bool {
	b, ok := r.(PredicateBuilder)
	if p.GetError() != nil || !specGood(list) {
		return ok && b.GetError() != nil
	}
	return ok && b.GetError() == nil && b.predicate.implementationName == p.predicate.implementationName && b.name == p.name && b.listExpression == list
}

// @ props C19 C04
// @ ensures PredicateBuilder.Where
func en_PredicateBuilder_Where(p PredicateBuilder, cond Condition, r Condition) bool {
	if p.GetError() != nil || !specGood(cond) {
		return specBad(r)
	}
	if r.GetError() != nil {
		return !specGood(p.name) || !specGood(p.listExpression)
	}
	c, ok := r.(BooleanFunctionCondition)
	if !ok || !c.isNotNil() || c.delegate.functionName != p.predicate.implementationName || len(c.delegate.arguments.expressions) != 1 {
		return false
	}
	l, isList := c.delegate.arguments.expressions[0].(ListPredicate)
	return isList && l.isNotNil() && l.GetError() == nil && l.variable == p.name && l.listExpression == p.listExpression && l.where.condition == cond && l.where.isNotNil()
}
