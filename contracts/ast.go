package cypher

// Contracts of accept, enter and leave of every element of a statement: which
// parts are visited, each once and in this order, and what text surrounds them.
// Written by tools/mkast.py.

import (
	"strconv"
	"strings"
)

// specAppend adds text to what has been written.
func specAppend(r *CypherRenderer, s string) {
	r.builder.WriteString(s)
}

// specNamed: a value with a name of its own is written by its name.
func specNamed(e Expression) Expression {
	n, ok := e.(Named)
	if ok && n.GetSymbolicName().isNotNil() {
		return n.GetSymbolicName()
	}
	return e
}

func specNamedIf(v Visitable) Visitable {
	e, ok := v.(Expression)
	if ok {
		return specNamed(e)
	}
	return v
}

// specPresent: an optional part is visited exactly when it is present.
func specPresent(v Visitable, r *CypherRenderer) {
	if v != nil && v.isNotNil() {
		v.accept(r)
	}
}

func specAliasSeen(r *CypherRenderer, v AliasedExpression) bool {
	_, ok := r.visitableToAliased[v.delegate.getKey()]
	return ok
}

// specQuoted: between backticks, every backtick doubled.
func specQuoted(s string) string {
	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
}

// specOperand writes one operand of a compound condition: the operator it is joined with, then itself.
func specOperand(r *CypherRenderer, op Operator, c Condition) {
	if op.isNotNil() {
		op.accept(r)
	}
	c.accept(r)
}

func specOperandOp(v CompoundCondition, c Condition) Operator {
	if compound, ok := c.(CompoundCondition); ok {
		return compound.operator
	}
	return v.operator
}

// @ rec
func allOperands(v CompoundCondition, xs []Condition, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	allOperands(v, xs, r, n-1)
	specOperand(r, specOperandOp(v, xs[n-1]), xs[n-1])
}

// @ rec
func literals_accept(xs []Literal, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	literals_accept(xs, r, n-1)
	if n > 1 {
		specAppend(r, ", ")
	}
	xs[n-1].accept(r)
}

// @ rec
func chainAll(xs []Relationship, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	chainAll(xs, r, n-1)
	xs[n-1].left.accept(r)
	xs[n-1].details.accept(r)
}

// chainEnd: the node at the far end of a chain.
// @ rec
func chainEnd(xs []Relationship, n int) Node {
	if n <= 0 {
		return Node{}
	}
	return xs[n-1].right
}

// specTypes: the non-empty types, quoted.
// @ rec
func specTypes(xs []string, n int) []string {
	if n <= 0 {
		return []string{}
	}
	t := specTypes(xs, n-1)
	if xs[n-1] == "" {
		return t
	}
	return append(t, specQuoted(xs[n-1]))
}

// specGrouped: an operation is put in parentheses unless it assigns a property or
// label, or raises to a power.
func specGrouped(o Operation) bool {
	return o.operator.operatorType != PROPERTY && o.operator.operatorType != LABEL &&
		o.operator != EXPONENTIATION && o.operator != PIPE
}

func specHasContent(v RelationshipDetails) bool {
	return v.symbolicName.isNotNil() || v.types.isNotNil() || v.length.isNotNil() || v.properties.isNotNil()
}

// @ rec
func allNamed_Expression(xs []Expression, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	allNamed_Expression(xs, r, n-1)
	specNamed(xs[n-1]).accept(r)
}

// @ rec
func all_CaseWhenThen(xs []CaseWhenThen, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	all_CaseWhenThen(xs, r, n-1)
	xs[n-1].accept(r)
}

// @ rec
func all_NodeLabel(xs []NodeLabel, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	all_NodeLabel(xs, r, n-1)
	xs[n-1].accept(r)
}

// @ rec
func all_Visitable(xs []Visitable, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	all_Visitable(xs, r, n-1)
	xs[n-1].accept(r)
}

// @ rec
func all_MultiPartElement(xs []MultiPartElement, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	all_MultiPartElement(xs, r, n-1)
	xs[n-1].accept(r)
}

// @ rec
func all_SortItem(xs []SortItem, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	all_SortItem(xs, r, n-1)
	xs[n-1].accept(r)
}

// @ rec
func all_PatternElement(xs []PatternElement, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	all_PatternElement(xs, r, n-1)
	xs[n-1].accept(r)
}

// @ rec
func all_UnionPart(xs []UnionPart, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	all_UnionPart(xs, r, n-1)
	xs[n-1].accept(r)
}

// @ rec
func allNamedIf_Visitable(xs []Visitable, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	allNamedIf_Visitable(xs, r, n-1)
	specNamedIf(xs[n-1]).accept(r)
}

// @ rec
func all_Expression(xs []Expression, r *CypherRenderer, n int) {
	if n <= 0 {
		return
	}
	all_Expression(xs, r, n-1)
	xs[n-1].accept(r)
}

// @ spec AliasedExpression.accept
// @ props C09 C13 C06 C07
func spec_AliasedExpression_accept(v AliasedExpression, r *CypherRenderer) {
	r.enter(v)
	specNamed(v.delegate).accept(r)
	r.leave(v)
}

// @ spec AliasedExpression.enter
// @ props C09 C13 C06
func spec_AliasedExpression_enter(v AliasedExpression, r *CypherRenderer) {
	if specAliasSeen(r, v) {
		specAppend(r, EscapeIfNecessary(v.alias))
	}
}

// @ spec AliasedExpression.leave
// @ props C09 C13 C06
func spec_AliasedExpression_leave(v AliasedExpression, r *CypherRenderer) {
	if !specAliasSeen(r, v) {
		specAppend(r, " AS "+EscapeIfNecessary(v.alias))
	}
}

// @ spec Arguments.accept
// @ props C18 C06 C07
func spec_Arguments_accept(v Arguments, r *CypherRenderer) {
	r.enter(v)
	allNamed_Expression(v.expressions, r, len(v.expressions))
	r.leave(v)
}

// @ spec Arguments.enter
// @ props C18 C06
func spec_Arguments_enter(v Arguments, r *CypherRenderer) {
	specAppend(r, "(")
}

// @ spec Arguments.leave
// @ props C18 C06
func spec_Arguments_leave(v Arguments, r *CypherRenderer) {
	specAppend(r, ")")
}

// @ spec Asterisk.accept
// @ props C08 C15 C06 C07
func spec_Asterisk_accept(v Asterisk, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec Asterisk.enter
// @ props C08 C15 C06
func spec_Asterisk_enter(v Asterisk, r *CypherRenderer) {
	specAppend(r, v.content)
}

// @ spec Asterisk.leave
// @ props C08 C15 C06
func spec_Asterisk_leave(v Asterisk, r *CypherRenderer) {
}

// @ spec BooleanLiteral.accept
// @ props C03 C06 C07
func spec_BooleanLiteral_accept(v BooleanLiteral, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec BooleanLiteral.enter
// @ props C03 C06
func spec_BooleanLiteral_enter(v BooleanLiteral, r *CypherRenderer) {
	if v.content {
		specAppend(r, "true")
	} else {
		specAppend(r, "false")
	}
}

// @ spec BooleanLiteral.leave
// @ props C03 C06
func spec_BooleanLiteral_leave(v BooleanLiteral, r *CypherRenderer) {
}

// @ spec BooleanFunctionCondition.accept
// @ props C12 C10 C19 C09 C06 C07
func spec_BooleanFunctionCondition_accept(v BooleanFunctionCondition, r *CypherRenderer) {
	r.enter(v)
	v.delegate.accept(r)
	r.leave(v)
}

// @ spec BooleanFunctionCondition.enter
// @ props C12 C10 C19 C09 C06
func spec_BooleanFunctionCondition_enter(v BooleanFunctionCondition, r *CypherRenderer) {
}

// @ spec BooleanFunctionCondition.leave
// @ props C12 C10 C19 C09 C06
func spec_BooleanFunctionCondition_leave(v BooleanFunctionCondition, r *CypherRenderer) {
}

// @ spec Case.accept
// @ props C19 C06 C07
func spec_Case_accept(v Case, r *CypherRenderer) {
	r.enter(v)
	if v.caseExpression != nil && v.caseExpression.isNotNil() {
		v.caseExpression.accept(r)
	}
	all_CaseWhenThen(v.caseWhenThens, r, len(v.caseWhenThens))
	if v.caseElse.isNotNil() {
		v.caseElse.accept(r)
	}
	r.leave(v)
}

// @ spec Case.enter
// @ props C19 C06
func spec_Case_enter(v Case, r *CypherRenderer) {
	if v.caseType == GENERIC_CASE || v.caseType == ENDING_GENERIC_CASE {
		specAppend(r, "CASE")
	} else {
		specAppend(r, "CASE ")
	}
}

// @ spec Case.leave
// @ props C19 C06
func spec_Case_leave(v Case, r *CypherRenderer) {
	specAppend(r, " END")
}

// @ spec CaseWhenThen.accept
// @ props C19 C06 C07
func spec_CaseWhenThen_accept(v CaseWhenThen, r *CypherRenderer) {
	r.enter(v)
	v.whenExpression.accept(r)
	r.leave(v)
	v.thenExpression.accept(r)
}

// @ spec CaseWhenThen.enter
// @ props C19 C06
func spec_CaseWhenThen_enter(v CaseWhenThen, r *CypherRenderer) {
	specAppend(r, " WHEN ")
}

// @ spec CaseWhenThen.leave
// @ props C19 C06
func spec_CaseWhenThen_leave(v CaseWhenThen, r *CypherRenderer) {
	specAppend(r, " THEN ")
}

// @ spec CaseElse.accept
// @ props C19 C06 C07
func spec_CaseElse_accept(v CaseElse, r *CypherRenderer) {
	r.enter(v)
	v.elseExpression.accept(r)
	r.leave(v)
}

// @ spec CaseElse.enter
// @ props C19 C06
func spec_CaseElse_enter(v CaseElse, r *CypherRenderer) {
	specAppend(r, " ELSE ")
}

// @ spec CaseElse.leave
// @ props C19 C06
func spec_CaseElse_leave(v CaseElse, r *CypherRenderer) {
}

// @ spec Comparison.accept
// @ props C11 C10 C06 C07
func spec_Comparison_accept(v Comparison, r *CypherRenderer) {
	r.enter(v)
	if v.left != nil && v.left.isNotNil() {
		specNamed(v.left).accept(r)
	}
	v.operator.accept(r)
	if v.right != nil && v.right.isNotNil() {
		specNamed(v.right).accept(r)
	}
	r.leave(v)
}

// @ spec Comparison.enter
// @ props C11 C10 C06
func spec_Comparison_enter(v Comparison, r *CypherRenderer) {
}

// @ spec Comparison.leave
// @ props C11 C10 C06
func spec_Comparison_leave(v Comparison, r *CypherRenderer) {
}

// @ spec CompoundCondition.accept
// @ props C10 C06 C07
func spec_CompoundCondition_accept(v CompoundCondition, r *CypherRenderer) {
	if len(v.conditions) == 0 {
		return
	}
	if len(v.conditions) == 1 {
		specOperand(r, Operator{}, v.conditions[0])
		return
	}
	r.enter(v)
	specOperand(r, Operator{}, v.conditions[0])
	allOperands(v, v.conditions[1:], r, len(v.conditions)-1)
	r.leave(v)
}

// @ spec CompoundCondition.enter
// @ props C10 C06
func spec_CompoundCondition_enter(v CompoundCondition, r *CypherRenderer) {
	specAppend(r, "(")
}

// @ spec CompoundCondition.leave
// @ props C10 C06
func spec_CompoundCondition_leave(v CompoundCondition, r *CypherRenderer) {
	specAppend(r, ")")
}

// @ spec ConstantCondition.accept
// @ props C10 C06 C07
func spec_ConstantCondition_accept(v ConstantCondition, r *CypherRenderer) {
	r.enter(v)
	v.value.accept(r)
	r.leave(v)
}

// @ spec ConstantCondition.enter
// @ props C10 C06
func spec_ConstantCondition_enter(v ConstantCondition, r *CypherRenderer) {
}

// @ spec ConstantCondition.leave
// @ props C10 C06
func spec_ConstantCondition_leave(v ConstantCondition, r *CypherRenderer) {
}

// @ spec create.accept
// @ props C08 C20 C06 C07
func spec_create_accept(v create, r *CypherRenderer) {
	r.enter(v)
	v.pattern.accept(r)
	r.leave(v)
}

// @ spec create.enter
// @ props C08 C20 C06
func spec_create_enter(v create, r *CypherRenderer) {
	specAppend(r, "CREATE ")
}

// @ spec create.leave
// @ props C08 C20 C06
func spec_create_leave(v create, r *CypherRenderer) {
	specAppend(r, " ")
}

// @ spec Delete.accept
// @ props C08 C20 C06 C07
func spec_Delete_accept(v Delete, r *CypherRenderer) {
	r.enter(v)
	v.deleteItems.accept(r)
	r.leave(v)
}

// @ spec Delete.enter
// @ props C08 C20 C06
func spec_Delete_enter(v Delete, r *CypherRenderer) {
	if v.detach {
		specAppend(r, "DETACH DELETE ")
	} else {
		specAppend(r, "DELETE ")
	}
}

// @ spec Delete.leave
// @ props C08 C20 C06
func spec_Delete_leave(v Delete, r *CypherRenderer) {
	specAppend(r, " ")
}

// @ spec Distinct.accept
// @ props C08 C12 C06 C07
func spec_Distinct_accept(v Distinct, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec Distinct.enter
// @ props C08 C12 C06
func spec_Distinct_enter(v Distinct, r *CypherRenderer) {
	specAppend(r, "DISTINCT ")
}

// @ spec Distinct.leave
// @ props C08 C12 C06
func spec_Distinct_leave(v Distinct, r *CypherRenderer) {
}

// @ spec DistinctExpression.accept
// @ props C12 C06 C07
func spec_DistinctExpression_accept(v DistinctExpression, r *CypherRenderer) {
	r.enter(v)
	(Distinct{IsDistinct: false}).accept(r)
	v.delegate.accept(r)
	r.leave(v)
}

// @ spec DistinctExpression.enter
// @ props C12 C06
func spec_DistinctExpression_enter(v DistinctExpression, r *CypherRenderer) {
}

// @ spec DistinctExpression.leave
// @ props C12 C06
func spec_DistinctExpression_leave(v DistinctExpression, r *CypherRenderer) {
}

// @ spec EntryExpression.accept
// @ props C15 C01 C06 C07
func spec_EntryExpression_accept(v EntryExpression, r *CypherRenderer) {
	r.enter(v)
	v.Value.accept(r)
	r.leave(v)
}

// @ spec EntryExpression.enter
// @ props C15 C01 C06
func spec_EntryExpression_enter(v EntryExpression, r *CypherRenderer) {
	specAppend(r, EscapeIfNecessary(v.Key)+": ")
}

// @ spec EntryExpression.leave
// @ props C15 C01 C06
func spec_EntryExpression_leave(v EntryExpression, r *CypherRenderer) {
}

// @ spec ExcludedPattern.accept
// @ props C16 C10 C06 C07
func spec_ExcludedPattern_accept(v ExcludedPattern, r *CypherRenderer) {
	r.enter(v)
	NOT.accept(r)
	v.patternElement.accept(r)
	r.leave(v)
}

// @ spec ExcludedPattern.enter
// @ props C16 C10 C06
func spec_ExcludedPattern_enter(v ExcludedPattern, r *CypherRenderer) {
}

// @ spec ExcludedPattern.leave
// @ props C16 C10 C06
func spec_ExcludedPattern_leave(v ExcludedPattern, r *CypherRenderer) {
}

// @ spec ExistentialSubquery.accept
// @ props C18 C06 C07
func spec_ExistentialSubquery_accept(v ExistentialSubquery, r *CypherRenderer) {
	r.enter(v)
	v.fragment.accept(r)
	r.leave(v)
}

// @ spec ExistentialSubquery.enter
// @ props C18 C06
func spec_ExistentialSubquery_enter(v ExistentialSubquery, r *CypherRenderer) {
	specAppend(r, "EXISTS {")
}

// @ spec ExistentialSubquery.leave
// @ props C18 C06
func spec_ExistentialSubquery_leave(v ExistentialSubquery, r *CypherRenderer) {
	specAppend(r, "}")
}

// @ spec ExpressionList.accept
// @ props C08 C12 C13 C17 C20 C06 C07
func spec_ExpressionList_accept(v ExpressionList, r *CypherRenderer) {
	r.enter(v)
	allNamed_Expression(v.expressions, r, len(v.expressions))
	r.leave(v)
}

// @ spec ExpressionList.enter
// @ props C08 C12 C13 C17 C20 C06
func spec_ExpressionList_enter(v ExpressionList, r *CypherRenderer) {
}

// @ spec ExpressionList.leave
// @ props C08 C12 C13 C17 C20 C06
func spec_ExpressionList_leave(v ExpressionList, r *CypherRenderer) {
}

// @ spec FunctionInvocation.accept
// @ props C12 C06 C07
func spec_FunctionInvocation_accept(v FunctionInvocation, r *CypherRenderer) {
	r.enter(v)
	v.arguments.accept(r)
	r.leave(v)
}

// @ spec FunctionInvocation.enter
// @ props C12 C06
func spec_FunctionInvocation_enter(v FunctionInvocation, r *CypherRenderer) {
	specAppend(r, v.functionName+"(")
}

// @ spec FunctionInvocation.leave
// @ props C12 C06
func spec_FunctionInvocation_leave(v FunctionInvocation, r *CypherRenderer) {
	specAppend(r, ")")
}

// @ spec HasLabelCondition.accept
// @ props C11 C16 C06 C07
func spec_HasLabelCondition_accept(v HasLabelCondition, r *CypherRenderer) {
	r.enter(v)
	v.nodeName.accept(r)
	all_NodeLabel(v.nodeLabels, r, len(v.nodeLabels))
	r.leave(v)
}

// @ spec HasLabelCondition.enter
// @ props C11 C16 C06
func spec_HasLabelCondition_enter(v HasLabelCondition, r *CypherRenderer) {
}

// @ spec HasLabelCondition.leave
// @ props C11 C16 C06
func spec_HasLabelCondition_leave(v HasLabelCondition, r *CypherRenderer) {
}

// @ spec KeyValueMapEntry.accept
// @ props C15 C01 C06 C07
func spec_KeyValueMapEntry_accept(v KeyValueMapEntry, r *CypherRenderer) {
	r.enter(v)
	v.value.accept(r)
	r.leave(v)
}

// @ spec KeyValueMapEntry.enter
// @ props C15 C01 C06
func spec_KeyValueMapEntry_enter(v KeyValueMapEntry, r *CypherRenderer) {
	specAppend(r, EscapeIfNecessary(v.entryKey)+": ")
}

// @ spec KeyValueMapEntry.leave
// @ props C15 C01 C06
func spec_KeyValueMapEntry_leave(v KeyValueMapEntry, r *CypherRenderer) {
}

// @ spec Limit.accept
// @ props C17 C08 C06 C07
func spec_Limit_accept(v Limit, r *CypherRenderer) {
	r.enter(v)
	v.limitAmount.accept(r)
	r.leave(v)
}

// @ spec Limit.enter
// @ props C17 C08 C06
func spec_Limit_enter(v Limit, r *CypherRenderer) {
	specAppend(r, " LIMIT ")
}

// @ spec Limit.leave
// @ props C17 C08 C06
func spec_Limit_leave(v Limit, r *CypherRenderer) {
}

// @ spec Skip.accept
// @ props C17 C08 C06 C07
func spec_Skip_accept(v Skip, r *CypherRenderer) {
	r.enter(v)
	v.skipAmount.accept(r)
	r.leave(v)
}

// @ spec Skip.enter
// @ props C17 C08 C06
func spec_Skip_enter(v Skip, r *CypherRenderer) {
	specAppend(r, " SKIP ")
}

// @ spec Skip.leave
// @ props C17 C08 C06
func spec_Skip_leave(v Skip, r *CypherRenderer) {
}

// @ spec ListComprehension.accept
// @ props C19 C06 C07
func spec_ListComprehension_accept(v ListComprehension, r *CypherRenderer) {
	r.enter(v)
	v.variable.accept(r)
	IN.accept(r)
	v.listExpression.accept(r)
	specPresent(v.where, r)
	if v.listDefinition != nil {
		PIPE.accept(r)
		v.listDefinition.accept(r)
	}
	r.leave(v)
}

// @ spec ListComprehension.enter
// @ props C19 C06
func spec_ListComprehension_enter(v ListComprehension, r *CypherRenderer) {
	specAppend(r, "[")
}

// @ spec ListComprehension.leave
// @ props C19 C06
func spec_ListComprehension_leave(v ListComprehension, r *CypherRenderer) {
	specAppend(r, "]")
}

// @ spec ListExpression.accept
// @ props C03 C19 C06 C07
func spec_ListExpression_accept(v ListExpression, r *CypherRenderer) {
	r.enter(v)
	v.content.accept(r)
	r.leave(v)
}

// @ spec ListExpression.enter
// @ props C03 C19 C06
func spec_ListExpression_enter(v ListExpression, r *CypherRenderer) {
	specAppend(r, "[")
}

// @ spec ListExpression.leave
// @ props C03 C19 C06
func spec_ListExpression_leave(v ListExpression, r *CypherRenderer) {
	specAppend(r, "]")
}

// @ spec ListLiteral.accept
// @ props C03 C06 C07
func spec_ListLiteral_accept(v ListLiteral, r *CypherRenderer) {
	r.enter(v)
	literals_accept(v.content, r, len(v.content))
	r.leave(v)
}

// @ spec ListLiteral.enter
// @ props C03 C06
func spec_ListLiteral_enter(v ListLiteral, r *CypherRenderer) {
	specAppend(r, "[")
}

// @ spec ListLiteral.leave
// @ props C03 C06
func spec_ListLiteral_leave(v ListLiteral, r *CypherRenderer) {
	specAppend(r, "]")
}

// @ spec ListOperator.accept
// @ props C19 C11 C06 C07
func spec_ListOperator_accept(v ListOperator, r *CypherRenderer) {
	r.enter(v)
	v.targetExpression.accept(r)
	v.details.accept(r)
	r.leave(v)
}

// @ spec ListOperator.enter
// @ props C19 C11 C06
func spec_ListOperator_enter(v ListOperator, r *CypherRenderer) {
}

// @ spec ListOperator.leave
// @ props C19 C11 C06
func spec_ListOperator_leave(v ListOperator, r *CypherRenderer) {
}

// @ spec Dot.accept
// @ props C19 C06 C07
func spec_Dot_accept(v Dot, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec Dot.enter
// @ props C19 C06
func spec_Dot_enter(v Dot, r *CypherRenderer) {
	specAppend(r, v.content)
}

// @ spec Dot.leave
// @ props C19 C06
func spec_Dot_leave(v Dot, r *CypherRenderer) {
}

// @ spec ListOperatorDetails.accept
// @ props C19 C11 C06 C07
func spec_ListOperatorDetails_accept(v ListOperatorDetails, r *CypherRenderer) {
	r.enter(v)
	specPresent(v.optionalStart, r)
	specPresent(v.dots, r)
	specPresent(v.optionalEnd, r)
	r.leave(v)
}

// @ spec ListOperatorDetails.enter
// @ props C19 C11 C06
func spec_ListOperatorDetails_enter(v ListOperatorDetails, r *CypherRenderer) {
	specAppend(r, "[")
}

// @ spec ListOperatorDetails.leave
// @ props C19 C11 C06
func spec_ListOperatorDetails_leave(v ListOperatorDetails, r *CypherRenderer) {
	specAppend(r, "]")
}

// @ spec ListPredicate.accept
// @ props C19 C06 C07
func spec_ListPredicate_accept(v ListPredicate, r *CypherRenderer) {
	r.enter(v)
	v.variable.accept(r)
	IN.accept(r)
	v.listExpression.accept(r)
	v.where.accept(r)
	r.leave(v)
}

// @ spec ListPredicate.enter
// @ props C19 C06
func spec_ListPredicate_enter(v ListPredicate, r *CypherRenderer) {
}

// @ spec ListPredicate.leave
// @ props C19 C06
func spec_ListPredicate_leave(v ListPredicate, r *CypherRenderer) {
}

// @ spec MapExpression.accept
// @ props C15 C06 C07
func spec_MapExpression_accept(v MapExpression, r *CypherRenderer) {
	r.enter(v)
	allNamed_Expression(v.expressions, r, len(v.expressions))
	r.leave(v)
}

// @ spec MapExpression.enter
// @ props C15 C06
func spec_MapExpression_enter(v MapExpression, r *CypherRenderer) {
	specAppend(r, "{")
}

// @ spec MapExpression.leave
// @ props C15 C06
func spec_MapExpression_leave(v MapExpression, r *CypherRenderer) {
	specAppend(r, "}")
}

// @ spec MapProjection.accept
// @ props C15 C06 C07
func spec_MapProjection_accept(v MapProjection, r *CypherRenderer) {
	r.enter(v)
	v.name.accept(r)
	v.mapExpression.accept(r)
	r.leave(v)
}

// @ spec MapProjection.enter
// @ props C15 C06
func spec_MapProjection_enter(v MapProjection, r *CypherRenderer) {
}

// @ spec MapProjection.leave
// @ props C15 C06
func spec_MapProjection_leave(v MapProjection, r *CypherRenderer) {
}

// @ spec MatchPhrase.accept
// @ props C08 C13 C06 C07
func spec_MatchPhrase_accept(v MatchPhrase, r *CypherRenderer) {
	r.enter(v)
	v.pattern.accept(r)
	specPresent(v.optionalWhere, r)
	r.leave(v)
}

// @ spec MatchPhrase.enter
// @ props C08 C13 C06
func spec_MatchPhrase_enter(v MatchPhrase, r *CypherRenderer) {
	if v.optional {
		specAppend(r, "OPTIONAL MATCH ")
	} else {
		specAppend(r, "MATCH ")
	}
}

// @ spec MatchPhrase.leave
// @ props C08 C13 C06
func spec_MatchPhrase_leave(v MatchPhrase, r *CypherRenderer) {
	specAppend(r, " ")
}

// @ spec merge.accept
// @ props C08 C20 C06 C07
func spec_merge_accept(v merge, r *CypherRenderer) {
	r.enter(v)
	v.pattern.accept(r)
	all_Visitable(v.onCreateOrMatchEvents, r, len(v.onCreateOrMatchEvents))
	r.leave(v)
}

// @ spec merge.enter
// @ props C08 C20 C06
func spec_merge_enter(v merge, r *CypherRenderer) {
	specAppend(r, "MERGE ")
}

// @ spec merge.leave
// @ props C08 C20 C06
func spec_merge_leave(v merge, r *CypherRenderer) {
	if len(v.onCreateOrMatchEvents) == 0 {
		specAppend(r, " ")
	}
}

// @ spec MergeAction.accept
// @ props C20 C06 C07
func spec_MergeAction_accept(v MergeAction, r *CypherRenderer) {
	r.enter(v)
	v.set.accept(r)
	r.leave(v)
}

// @ spec MergeAction.enter
// @ props C20 C06
func spec_MergeAction_enter(v MergeAction, r *CypherRenderer) {
	if v.mergeType == ON_CREATE {
		specAppend(r, "ON CREATE ")
	} else if v.mergeType == ON_MATCH {
		specAppend(r, "ON MATCH ")
	} else {
		specAppend(r, " ")
	}
}

// @ spec MergeAction.leave
// @ props C20 C06
func spec_MergeAction_leave(v MergeAction, r *CypherRenderer) {
}

// @ spec MultiPartQuery.accept
// @ props C13 C08 C06 C07
func spec_MultiPartQuery_accept(v MultiPartQuery, r *CypherRenderer) {
	all_MultiPartElement(v.parts, r, len(v.parts))
	v.remainder.accept(r)
}

// @ spec MultiPartQuery.enter
// @ props C13 C08 C06
func spec_MultiPartQuery_enter(v MultiPartQuery, r *CypherRenderer) {
}

// @ spec MultiPartQuery.leave
// @ props C13 C08 C06
func spec_MultiPartQuery_leave(v MultiPartQuery, r *CypherRenderer) {
}

// @ spec MultiPartElement.accept
// @ props C13 C08 C06 C07
func spec_MultiPartElement_accept(v MultiPartElement, r *CypherRenderer) {
	r.enter(v)
	all_Visitable(v.precedingClauses, r, len(v.precedingClauses))
	v.with.accept(r)
	r.leave(v)
}

// @ spec MultiPartElement.enter
// @ props C13 C08 C06
func spec_MultiPartElement_enter(v MultiPartElement, r *CypherRenderer) {
}

// @ spec MultiPartElement.leave
// @ props C13 C08 C06
func spec_MultiPartElement_leave(v MultiPartElement, r *CypherRenderer) {
}

// @ spec NamedPath.accept
// @ props C16 C06 C07
func spec_NamedPath_accept(v NamedPath, r *CypherRenderer) {
	r.enter(v)
	v.name.accept(r)
	ASSIGMENT.accept(r)
	v.pattern.accept(r)
	r.leave(v)
}

// @ spec NamedPath.enter
// @ props C16 C06
func spec_NamedPath_enter(v NamedPath, r *CypherRenderer) {
}

// @ spec NamedPath.leave
// @ props C16 C06
func spec_NamedPath_leave(v NamedPath, r *CypherRenderer) {
}

// @ spec Namespace.accept
// @ props C18 C06 C07
func spec_Namespace_accept(v Namespace, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec Namespace.enter
// @ props C18 C06
func spec_Namespace_enter(v Namespace, r *CypherRenderer) {
	specAppend(r, strings.Join(v.content, "."))
}

// @ spec Namespace.leave
// @ props C18 C06
func spec_Namespace_leave(v Namespace, r *CypherRenderer) {
}

// @ spec NestedExpression.accept
// @ props C11 C10 C06 C07
func spec_NestedExpression_accept(v NestedExpression, r *CypherRenderer) {
	r.enter(v)
	specNamed(v.delegate).accept(r)
	r.leave(v)
}

// @ spec NestedExpression.enter
// @ props C11 C10 C06
func spec_NestedExpression_enter(v NestedExpression, r *CypherRenderer) {
	specAppend(r, "(")
}

// @ spec NestedExpression.leave
// @ props C11 C10 C06
func spec_NestedExpression_leave(v NestedExpression, r *CypherRenderer) {
	specAppend(r, ")")
}

// @ spec Node.accept
// @ props C16 C09 C06 C07
func spec_Node_accept(v Node, r *CypherRenderer) {
	r.enter(v)
	specPresent(v.symbolicName, r)
	all_NodeLabel(v.labels, r, len(v.labels))
	specPresent(v.properties, r)
	r.leave(v)
}

// @ spec Node.enter
// @ props C16 C09 C06
func spec_Node_enter(v Node, r *CypherRenderer) {
	specAppend(r, "(")
	if !v.symbolicName.isNotNil() {
		return
	}
	_, seen := r.visitedNamed[v.key]
	r.skipNodeContent = seen
	r.visitedNamed[v.key] = 1
	if seen {
		specAppend(r, r.resolve(v.symbolicName))
	}
}

// @ spec Node.leave
// @ props C16 C09 C06
func spec_Node_leave(v Node, r *CypherRenderer) {
	specAppend(r, ")")
	r.skipNodeContent = false
}

// @ spec NodeLabel.accept
// @ props C01 C16 C06 C07
func spec_NodeLabel_accept(v NodeLabel, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec NodeLabel.enter
// @ props C01 C16 C06
func spec_NodeLabel_enter(v NodeLabel, r *CypherRenderer) {
	if v.value != "" {
		specAppend(r, ":"+specQuoted(v.value))
	}
}

// @ spec NodeLabel.leave
// @ props C01 C16 C06
func spec_NodeLabel_leave(v NodeLabel, r *CypherRenderer) {
}

// @ spec NodeLabels.accept
// @ props C20 C16 C06 C07
func spec_NodeLabels_accept(v NodeLabels, r *CypherRenderer) {
	r.enter(v)
	all_NodeLabel(v.values, r, len(v.values))
	r.leave(v)
}

// @ spec NodeLabels.enter
// @ props C20 C16 C06
func spec_NodeLabels_enter(v NodeLabels, r *CypherRenderer) {
}

// @ spec NodeLabels.leave
// @ props C20 C16 C06
func spec_NodeLabels_leave(v NodeLabels, r *CypherRenderer) {
}

// @ spec NilLiteral.accept
// @ props C03 C06 C07
func spec_NilLiteral_accept(v NilLiteral, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec NilLiteral.enter
// @ props C03 C06
func spec_NilLiteral_enter(v NilLiteral, r *CypherRenderer) {
	specAppend(r, "NULL")
}

// @ spec NilLiteral.leave
// @ props C03 C06
func spec_NilLiteral_leave(v NilLiteral, r *CypherRenderer) {
}

// @ spec NumberLiteral.accept
// @ props C03 C06 C07
func spec_NumberLiteral_accept(v NumberLiteral, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec NumberLiteral.enter
// @ props C03 C06
func spec_NumberLiteral_enter(v NumberLiteral, r *CypherRenderer) {
	specAppend(r, v.AsString())
}

// @ spec NumberLiteral.leave
// @ props C03 C06
func spec_NumberLiteral_leave(v NumberLiteral, r *CypherRenderer) {
}

// @ spec Operation.accept
// @ props C11 C06 C07
func spec_Operation_accept(v Operation, r *CypherRenderer) {
	r.enter(v)
	specNamed(v.left).accept(r)
	v.operator.accept(r)
	v.right.accept(r)
	r.leave(v)
}

// @ spec Operation.enter
// @ props C11 C06
func spec_Operation_enter(v Operation, r *CypherRenderer) {
	if specGrouped(v) {
		specAppend(r, "(")
	}
}

// @ spec Operation.leave
// @ props C11 C06
func spec_Operation_leave(v Operation, r *CypherRenderer) {
	if specGrouped(v) {
		specAppend(r, ")")
	}
}

// @ spec Operator.accept
// @ props C11 C10 C06 C07
func spec_Operator_accept(v Operator, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec Operator.enter
// @ props C11 C10 C06
func spec_Operator_enter(v Operator, r *CypherRenderer) {
	if v.operatorType == LABEL {
		return
	}
	if v.operatorType != PREFIX && v != EXPONENTIATION {
		specAppend(r, " ")
	}
	specAppend(r, v.representation)
	if v.operatorType != POSTFIX && v != EXPONENTIATION {
		specAppend(r, " ")
	}
}

// @ spec Operator.leave
// @ props C11 C10 C06
func spec_Operator_leave(v Operator, r *CypherRenderer) {
}

// @ spec Order.accept
// @ props C17 C08 C06 C07
func spec_Order_accept(v Order, r *CypherRenderer) {
	r.enter(v)
	all_SortItem(v.sortItems, r, len(v.sortItems))
	r.leave(v)
}

// @ spec Order.enter
// @ props C17 C08 C06
func spec_Order_enter(v Order, r *CypherRenderer) {
	specAppend(r, " ORDER BY ")
}

// @ spec Order.leave
// @ props C17 C08 C06
func spec_Order_leave(v Order, r *CypherRenderer) {
}

// @ spec Parameter.accept
// @ props C01 C04 C06 C07
func spec_Parameter_accept(v Parameter, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec Parameter.enter
// @ props C01 C04 C06
func spec_Parameter_enter(v Parameter, r *CypherRenderer) {
	specAppend(r, "$"+v.name)
}

// @ spec Parameter.leave
// @ props C01 C04 C06
func spec_Parameter_leave(v Parameter, r *CypherRenderer) {
}

// @ spec Pattern.accept
// @ props C16 C08 C06 C07
func spec_Pattern_accept(v Pattern, r *CypherRenderer) {
	r.enter(v)
	all_PatternElement(v.patternElements, r, len(v.patternElements))
	r.leave(v)
}

// @ spec Pattern.enter
// @ props C16 C08 C06
func spec_Pattern_enter(v Pattern, r *CypherRenderer) {
}

// @ spec Pattern.leave
// @ props C16 C08 C06
func spec_Pattern_leave(v Pattern, r *CypherRenderer) {
}

// @ spec PatternComprehension.accept
// @ props C19 C06 C07
func spec_PatternComprehension_accept(v PatternComprehension, r *CypherRenderer) {
	r.enter(v)
	v.pattern.accept(r)
	specPresent(v.where, r)
	PIPE.accept(r)
	v.listDefinition.accept(r)
	r.leave(v)
}

// @ spec PatternComprehension.enter
// @ props C19 C06
func spec_PatternComprehension_enter(v PatternComprehension, r *CypherRenderer) {
	specAppend(r, "[")
}

// @ spec PatternComprehension.leave
// @ props C19 C06
func spec_PatternComprehension_leave(v PatternComprehension, r *CypherRenderer) {
	specAppend(r, "]")
}

// @ spec ProcedureCall.accept
// @ props C18 C08 C06 C07
func spec_ProcedureCall_accept(v ProcedureCall, r *CypherRenderer) {
	r.enter(v)
	v.name.accept(r)
	specPresent(v.arguments, r)
	specPresent(v.yieldItems, r)
	specPresent(v.optionalWhere, r)
	r.leave(v)
}

// @ spec ProcedureCall.enter
// @ props C18 C08 C06
func spec_ProcedureCall_enter(v ProcedureCall, r *CypherRenderer) {
	specAppend(r, "CALL ")
}

// @ spec ProcedureCall.leave
// @ props C18 C08 C06
func spec_ProcedureCall_leave(v ProcedureCall, r *CypherRenderer) {
	specAppend(r, " ")
}

// @ spec ProcedureName.accept
// @ props C18 C06 C07
func spec_ProcedureName_accept(v ProcedureName, r *CypherRenderer) {
	r.enter(v)
	specPresent(v.optionalNamespace, r)
	r.leave(v)
}

// @ spec ProcedureName.enter
// @ props C18 C06
func spec_ProcedureName_enter(v ProcedureName, r *CypherRenderer) {
}

// @ spec ProcedureName.leave
// @ props C18 C06
func spec_ProcedureName_leave(v ProcedureName, r *CypherRenderer) {
	if v.optionalNamespace.isNotNil() {
		specAppend(r, "."+v.value)
	} else {
		specAppend(r, v.value)
	}
}

// @ spec Properties.accept
// @ props C15 C16 C06 C07
func spec_Properties_accept(v Properties, r *CypherRenderer) {
	r.enter(v)
	v.properties.accept(r)
	r.leave(v)
}

// @ spec Properties.enter
// @ props C15 C16 C06
func spec_Properties_enter(v Properties, r *CypherRenderer) {
	specAppend(r, " ")
}

// @ spec Properties.leave
// @ props C15 C16 C06
func spec_Properties_leave(v Properties, r *CypherRenderer) {
}

// @ spec Property.accept
// @ props C11 C15 C06 C07
func spec_Property_accept(v Property, r *CypherRenderer) {
	r.enter(v)
	v.container.accept(r)
	v.name.accept(r)
	r.leave(v)
}

// @ spec Property.enter
// @ props C11 C15 C06
func spec_Property_enter(v Property, r *CypherRenderer) {
}

// @ spec Property.leave
// @ props C11 C15 C06
func spec_Property_leave(v Property, r *CypherRenderer) {
}

// @ spec PropertyLookup.accept
// @ props C01 C11 C15 C06 C07
func spec_PropertyLookup_accept(v PropertyLookup, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec PropertyLookup.enter
// @ props C01 C11 C15 C06
func spec_PropertyLookup_enter(v PropertyLookup, r *CypherRenderer) {
	if v.propertyKeyName == "*" {
		specAppend(r, ".*")
	} else {
		specAppend(r, "."+EscapeIfNecessary(v.propertyKeyName))
	}
}

// @ spec PropertyLookup.leave
// @ props C01 C11 C15 C06
func spec_PropertyLookup_leave(v PropertyLookup, r *CypherRenderer) {
}

// @ spec RawStringLiteral.accept
// @ props C02 C03 C06 C07
func spec_RawStringLiteral_accept(v RawStringLiteral, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec RawStringLiteral.enter
// @ props C02 C03 C06
func spec_RawStringLiteral_enter(v RawStringLiteral, r *CypherRenderer) {
	specAppend(r, v.AsString())
}

// @ spec RawStringLiteral.leave
// @ props C02 C03 C06
func spec_RawStringLiteral_leave(v RawStringLiteral, r *CypherRenderer) {
}

// @ spec Relationship.accept
// @ props C16 C06 C07
func spec_Relationship_accept(v Relationship, r *CypherRenderer) {
	r.enter(v)
	v.left.accept(r)
	v.details.accept(r)
	v.right.accept(r)
	r.leave(v)
}

// @ spec Relationship.enter
// @ props C16 C06
func spec_Relationship_enter(v Relationship, r *CypherRenderer) {
}

// @ spec Relationship.leave
// @ props C16 C06
func spec_Relationship_leave(v Relationship, r *CypherRenderer) {
}

// @ spec RelationshipChain.accept
// @ props C16 C06 C07
func spec_RelationshipChain_accept(v RelationshipChain, r *CypherRenderer) {
	r.enter(v)
	chainAll(v.relationships, r, len(v.relationships))
	specPresent(chainEnd(v.relationships, len(v.relationships)), r)
	r.leave(v)
}

// @ spec RelationshipChain.enter
// @ props C16 C06
func spec_RelationshipChain_enter(v RelationshipChain, r *CypherRenderer) {
}

// @ spec RelationshipChain.leave
// @ props C16 C06
func spec_RelationshipChain_leave(v RelationshipChain, r *CypherRenderer) {
}

// @ spec RelationshipDetails.accept
// @ props C16 C06 C07
func spec_RelationshipDetails_accept(v RelationshipDetails, r *CypherRenderer) {
	r.enter(v)
	specPresent(v.symbolicName, r)
	specPresent(v.types, r)
	specPresent(v.length, r)
	specPresent(v.properties, r)
	r.leave(v)
}

// @ spec RelationshipDetails.enter
// @ props C16 C06
func spec_RelationshipDetails_enter(v RelationshipDetails, r *CypherRenderer) {
	specAppend(r, v.direction.symbolLeft)
	if specHasContent(v) {
		specAppend(r, "[")
	}
}

// @ spec RelationshipDetails.leave
// @ props C16 C06
func spec_RelationshipDetails_leave(v RelationshipDetails, r *CypherRenderer) {
	if specHasContent(v) {
		specAppend(r, "]")
	}
	specAppend(r, v.direction.symbolRight)
}

// @ spec RelationshipLength.accept
// @ props C16 C06 C07
func spec_RelationshipLength_accept(v RelationshipLength, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec RelationshipLength.enter
// @ props C16 C06
func spec_RelationshipLength_enter(v RelationshipLength, r *CypherRenderer) {
	if v.unbounded {
		specAppend(r, "*")
		return
	}
	if v.minimum == nil && v.maximum == nil {
		return
	}
	specAppend(r, "*")
	if v.minimum != nil {
		specAppend(r, strconv.Itoa(*v.minimum))
	}
	specAppend(r, "..")
	if v.maximum != nil {
		specAppend(r, strconv.Itoa(*v.maximum))
	}
}

// @ spec RelationshipLength.leave
// @ props C16 C06
func spec_RelationshipLength_leave(v RelationshipLength, r *CypherRenderer) {
}

// @ spec RelationshipPatternCondition.accept
// @ props C16 C10 C06 C07
func spec_RelationshipPatternCondition_accept(v RelationshipPatternCondition, r *CypherRenderer) {
	r.enter(v)
	v.pathPattern.accept(r)
	r.leave(v)
}

// @ spec RelationshipPatternCondition.enter
// @ props C16 C10 C06
func spec_RelationshipPatternCondition_enter(v RelationshipPatternCondition, r *CypherRenderer) {
}

// @ spec RelationshipPatternCondition.leave
// @ props C16 C10 C06
func spec_RelationshipPatternCondition_leave(v RelationshipPatternCondition, r *CypherRenderer) {
}

// @ spec RelationshipTypes.accept
// @ props C16 C01 C06 C07
func spec_RelationshipTypes_accept(v RelationshipTypes, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec RelationshipTypes.enter
// @ props C16 C01 C06
func spec_RelationshipTypes_enter(v RelationshipTypes, r *CypherRenderer) {
	t := specTypes(v.values, len(v.values))
	if len(t) > 0 {
		specAppend(r, ":"+strings.Join(t, "|"))
	}
}

// @ spec RelationshipTypes.leave
// @ props C16 C01 C06
func spec_RelationshipTypes_leave(v RelationshipTypes, r *CypherRenderer) {
}

// @ spec Remove.accept
// @ props C08 C20 C06 C07
func spec_Remove_accept(v Remove, r *CypherRenderer) {
	r.enter(v)
	v.setItems.accept(r)
	r.leave(v)
}

// @ spec Remove.enter
// @ props C08 C20 C06
func spec_Remove_enter(v Remove, r *CypherRenderer) {
	specAppend(r, "REMOVE ")
}

// @ spec Remove.leave
// @ props C08 C20 C06
func spec_Remove_leave(v Remove, r *CypherRenderer) {
	specAppend(r, " ")
}

// @ spec Set.accept
// @ props C08 C20 C06 C07
func spec_Set_accept(v Set, r *CypherRenderer) {
	r.enter(v)
	v.setItems.accept(r)
	r.leave(v)
}

// @ spec Set.enter
// @ props C08 C20 C06
func spec_Set_enter(v Set, r *CypherRenderer) {
	specAppend(r, "SET ")
}

// @ spec Set.leave
// @ props C08 C20 C06
func spec_Set_leave(v Set, r *CypherRenderer) {
	specAppend(r, " ")
}

// @ spec Return.accept
// @ props C08 C13 C06 C07
func spec_Return_accept(v Return, r *CypherRenderer) {
	r.enter(v)
	specPresent(v.distinct, r)
	v.body.accept(r)
	r.leave(v)
}

// @ spec Return.enter
// @ props C08 C13 C06
func spec_Return_enter(v Return, r *CypherRenderer) {
	specAppend(r, "RETURN ")
}

// @ spec Return.leave
// @ props C08 C13 C06
func spec_Return_leave(v Return, r *CypherRenderer) {
}

// @ spec ReturnBody.accept
// @ props C08 C17 C06 C07
func spec_ReturnBody_accept(v ReturnBody, r *CypherRenderer) {
	v.returnItems.accept(r)
	specPresent(v.order, r)
	specPresent(v.skip, r)
	specPresent(v.limit, r)
}

// @ spec ReturnBody.enter
// @ props C08 C17 C06
func spec_ReturnBody_enter(v ReturnBody, r *CypherRenderer) {
}

// @ spec ReturnBody.leave
// @ props C08 C17 C06
func spec_ReturnBody_leave(v ReturnBody, r *CypherRenderer) {
}

// @ spec SinglePartQuery.accept
// @ props C13 C08 C06 C07
func spec_SinglePartQuery_accept(v SinglePartQuery, r *CypherRenderer) {
	all_Visitable(v.precedingClauses, r, len(v.precedingClauses))
	specPresent(v.aReturn, r)
}

// @ spec SinglePartQuery.enter
// @ props C13 C08 C06
func spec_SinglePartQuery_enter(v SinglePartQuery, r *CypherRenderer) {
}

// @ spec SinglePartQuery.leave
// @ props C13 C08 C06
func spec_SinglePartQuery_leave(v SinglePartQuery, r *CypherRenderer) {
}

// @ spec SortItem.accept
// @ props C17 C06 C07
func spec_SortItem_accept(v SortItem, r *CypherRenderer) {
	r.enter(v)
	specNamed(v.expression).accept(r)
	if v.direction.value == ASC || v.direction.value == DESC {
		v.direction.accept(r)
	}
	r.leave(v)
}

// @ spec SortItem.enter
// @ props C17 C06
func spec_SortItem_enter(v SortItem, r *CypherRenderer) {
}

// @ spec SortItem.leave
// @ props C17 C06
func spec_SortItem_leave(v SortItem, r *CypherRenderer) {
}

// @ spec SortDirection.accept
// @ props C17 C06 C07
func spec_SortDirection_accept(v SortDirection, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec SortDirection.enter
// @ props C17 C06
func spec_SortDirection_enter(v SortDirection, r *CypherRenderer) {
	specAppend(r, " "+string(v.value))
}

// @ spec SortDirection.leave
// @ props C17 C06
func spec_SortDirection_leave(v SortDirection, r *CypherRenderer) {
}

// @ spec StringLiteral.accept
// @ props C02 C06 C07
func spec_StringLiteral_accept(v StringLiteral, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec StringLiteral.enter
// @ props C02 C06
func spec_StringLiteral_enter(v StringLiteral, r *CypherRenderer) {
	specAppend(r, v.AsString())
}

// @ spec StringLiteral.leave
// @ props C02 C06
func spec_StringLiteral_leave(v StringLiteral, r *CypherRenderer) {
}

// @ spec Subquery.accept
// @ props C18 C06 C07
func spec_Subquery_accept(v Subquery, r *CypherRenderer) {
	r.enter(v)
	v.statement.accept(r)
	r.leave(v)
}

// @ spec Subquery.enter
// @ props C18 C06
func spec_Subquery_enter(v Subquery, r *CypherRenderer) {
	specAppend(r, "CALL {")
}

// @ spec Subquery.leave
// @ props C18 C06
func spec_Subquery_leave(v Subquery, r *CypherRenderer) {
	specAppend(r, "} ")
}

// @ spec SymbolicName.accept
// @ props C01 C09 C06 C07
func spec_SymbolicName_accept(v SymbolicName, r *CypherRenderer) {
	r.enter(v)
	r.leave(v)
}

// @ spec SymbolicName.enter
// @ props C01 C09 C06
func spec_SymbolicName_enter(v SymbolicName, r *CypherRenderer) {
	specAppend(r, r.resolve(v))
}

// @ spec SymbolicName.leave
// @ props C01 C09 C06
func spec_SymbolicName_leave(v SymbolicName, r *CypherRenderer) {
}

// @ spec UnionPart.accept
// @ props C18 C06 C07
func spec_UnionPart_accept(v UnionPart, r *CypherRenderer) {
	r.enter(v)
	v.query.accept(r)
	r.leave(v)
}

// @ spec UnionPart.enter
// @ props C18 C06
func spec_UnionPart_enter(v UnionPart, r *CypherRenderer) {
	if v.all {
		specAppend(r, " UNION ALL ")
	} else {
		specAppend(r, " UNION ")
	}
}

// @ spec UnionPart.leave
// @ props C18 C06
func spec_UnionPart_leave(v UnionPart, r *CypherRenderer) {
}

// @ spec UnionQuery.accept
// @ props C18 C06 C07
func spec_UnionQuery_accept(v UnionQuery, r *CypherRenderer) {
	r.enter(v)
	v.firstQuery.accept(r)
	all_UnionPart(v.additionalQueries, r, len(v.additionalQueries))
	r.leave(v)
}

// @ spec UnionQuery.enter
// @ props C18 C06
func spec_UnionQuery_enter(v UnionQuery, r *CypherRenderer) {
}

// @ spec UnionQuery.leave
// @ props C18 C06
func spec_UnionQuery_leave(v UnionQuery, r *CypherRenderer) {
}

// @ spec UnwindPhrase.accept
// @ props C08 C13 C06 C07
func spec_UnwindPhrase_accept(v UnwindPhrase, r *CypherRenderer) {
	r.enter(v)
	v.expressionToUnwind.accept(r)
	r.leave(v)
}

// @ spec UnwindPhrase.enter
// @ props C08 C13 C06
func spec_UnwindPhrase_enter(v UnwindPhrase, r *CypherRenderer) {
	specAppend(r, "UNWIND ")
}

// @ spec UnwindPhrase.leave
// @ props C08 C13 C06
func spec_UnwindPhrase_leave(v UnwindPhrase, r *CypherRenderer) {
	specAppend(r, " AS "+EscapeIfNecessary(v.variable)+" ")
}

// @ spec FunctionArgumentList.accept
// @ props C12 C06 C07
func spec_FunctionArgumentList_accept(v FunctionArgumentList, r *CypherRenderer) {
	r.enter(v)
	allNamedIf_Visitable(v.expressions, r, len(v.expressions))
	r.leave(v)
}

// @ spec FunctionArgumentList.enter
// @ props C12 C06
func spec_FunctionArgumentList_enter(v FunctionArgumentList, r *CypherRenderer) {
}

// @ spec FunctionArgumentList.leave
// @ props C12 C06
func spec_FunctionArgumentList_leave(v FunctionArgumentList, r *CypherRenderer) {
}

// @ spec Where.accept
// @ props C08 C13 C10 C06 C07
func spec_Where_accept(v Where, r *CypherRenderer) {
	r.enter(v)
	v.condition.accept(r)
	r.leave(v)
}

// @ spec Where.enter
// @ props C08 C13 C10 C06
func spec_Where_enter(v Where, r *CypherRenderer) {
	specAppend(r, " WHERE ")
}

// @ spec Where.leave
// @ props C08 C13 C10 C06
func spec_Where_leave(v Where, r *CypherRenderer) {
}

// @ spec with.accept
// @ props C08 C13 C06 C07
func spec_with_accept(v with, r *CypherRenderer) {
	r.enter(v)
	specPresent(v.distinct, r)
	v.body.accept(r)
	specPresent(v.where, r)
	r.leave(v)
}

// @ spec with.enter
// @ props C08 C13 C06
func spec_with_enter(v with, r *CypherRenderer) {
	specAppend(r, "WITH ")
}

// @ spec with.leave
// @ props C08 C13 C06
func spec_with_leave(v with, r *CypherRenderer) {
	specAppend(r, " ")
}

// @ spec YieldItems.accept
// @ props C18 C06 C07
func spec_YieldItems_accept(v YieldItems, r *CypherRenderer) {
	r.enter(v)
	all_Expression(v.expressions, r, len(v.expressions))
	r.leave(v)
}

// @ spec YieldItems.enter
// @ props C18 C06
func spec_YieldItems_enter(v YieldItems, r *CypherRenderer) {
	specAppend(r, " YIELD ")
}

// @ spec YieldItems.leave
// @ props C18 C06
func spec_YieldItems_leave(v YieldItems, r *CypherRenderer) {
}
