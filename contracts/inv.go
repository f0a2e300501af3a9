package cypher

// Class invariants: what every value of a type satisfies wherever it is put into
// an interface, returned or passed on. Inferred by 'vc inferinv', checked on every run.

//@ fileprops C05

//@ invariant AliasedExpression
func inv_AliasedExpression_1(v AliasedExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate != nil
}

//@ invariant AliasedExpression
func inv_AliasedExpression_2(v AliasedExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate == nil || v.delegate.GetError() == nil
}

//@ invariant AliasedExpression
func inv_AliasedExpression_3(v AliasedExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate == nil || v.delegate.isNotNil()
}

//@ invariant BooleanFunctionCondition
func inv_BooleanFunctionCondition_1(v BooleanFunctionCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate.GetError() == nil
}

//@ invariant BooleanFunctionCondition
func inv_BooleanFunctionCondition_2(v BooleanFunctionCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate.isNotNil()
}

//@ invariant Case
func inv_Case_1(v Case) bool {
	return v.GetError() != nil || !v.isNotNil() || v.caseElse.GetError() == nil
}

//@ invariant Case
func inv_Case_4(v Case) bool {
	return v.GetError() != nil || !v.isNotNil() || v.caseExpression == nil || v.caseExpression.GetError() == nil
}

//@ invariant Case
func inv_Case_5(v Case) bool {
	return v.GetError() != nil || !v.isNotNil() || v.caseExpression == nil || v.caseExpression.isNotNil()
}

//@ invariant Case
func inv_Case_6(v Case) bool {
	return v.GetError() != nil || !v.isNotNil() || vcAll(len(v.caseWhenThens), func(i int) bool { return v.caseWhenThens[i].GetError() == nil })
}

//@ invariant CaseElse
func inv_CaseElse_1(v CaseElse) bool {
	return v.GetError() != nil || !v.isNotNil() || v.elseExpression != nil
}

//@ invariant CaseElse
func inv_CaseElse_2(v CaseElse) bool {
	return v.GetError() != nil || !v.isNotNil() || v.elseExpression == nil || v.elseExpression.GetError() == nil
}

//@ invariant CaseElse
func inv_CaseElse_3(v CaseElse) bool {
	return v.GetError() != nil || !v.isNotNil() || v.elseExpression == nil || v.elseExpression.isNotNil()
}

//@ invariant CaseWhenThen
func inv_CaseWhenThen_1(v CaseWhenThen) bool {
	return v.GetError() != nil || !v.isNotNil() || v.whenExpression != nil
}

//@ invariant CaseWhenThen
func inv_CaseWhenThen_2(v CaseWhenThen) bool {
	return v.GetError() != nil || !v.isNotNil() || v.whenExpression == nil || v.whenExpression.GetError() == nil
}

//@ invariant CaseWhenThen
func inv_CaseWhenThen_3(v CaseWhenThen) bool {
	return v.GetError() != nil || !v.isNotNil() || v.whenExpression == nil || v.whenExpression.isNotNil()
}

//@ invariant CaseWhenThen
func inv_CaseWhenThen_4(v CaseWhenThen) bool {
	return v.GetError() != nil || !v.isNotNil() || v.thenExpression != nil
}

//@ invariant CaseWhenThen
func inv_CaseWhenThen_5(v CaseWhenThen) bool {
	return v.GetError() != nil || !v.isNotNil() || v.thenExpression == nil || v.thenExpression.GetError() == nil
}

//@ invariant CaseWhenThen
func inv_CaseWhenThen_6(v CaseWhenThen) bool {
	return v.GetError() != nil || !v.isNotNil() || v.thenExpression == nil || v.thenExpression.isNotNil()
}

//@ invariant CaseWhenThen
func inv_CaseWhenThen_8(v CaseWhenThen) bool {
	return v.GetError() != nil || !v.isNotNil() || v.caseInstance == nil || v.caseInstance.GetError() == nil
}

//@ invariant CaseWhenThen
func inv_CaseWhenThen_9(v CaseWhenThen) bool {
	return v.GetError() != nil || !v.isNotNil() || v.caseInstance == nil || v.caseInstance.isNotNil()
}

//@ invariant Comparison
func inv_Comparison_1(v Comparison) bool {
	return v.GetError() != nil || !v.isNotNil() || v.left != nil
}

//@ invariant Comparison
func inv_Comparison_2(v Comparison) bool {
	return v.GetError() != nil || !v.isNotNil() || v.left == nil || v.left.GetError() == nil
}

//@ invariant Comparison
func inv_Comparison_3(v Comparison) bool {
	return v.GetError() != nil || !v.isNotNil() || v.left == nil || v.left.isNotNil()
}

//@ invariant Comparison
func inv_Comparison_4(v Comparison) bool {
	return v.GetError() != nil || !v.isNotNil() || v.operator.GetError() == nil
}

//@ invariant Comparison
func inv_Comparison_5(v Comparison) bool {
	return v.GetError() != nil || !v.isNotNil() || v.operator.isNotNil()
}

//@ invariant Comparison
func inv_Comparison_6(v Comparison) bool {
	return v.GetError() != nil || !v.isNotNil() || v.right != nil
}

//@ invariant Comparison
func inv_Comparison_7(v Comparison) bool {
	return v.GetError() != nil || !v.isNotNil() || v.right == nil || v.right.GetError() == nil
}

//@ invariant Comparison
func inv_Comparison_8(v Comparison) bool {
	return v.GetError() != nil || !v.isNotNil() || v.right == nil || v.right.isNotNil()
}

//@ invariant CompoundCondition
func inv_CompoundCondition_3(v CompoundCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || vcAll(len(v.conditions), func(i int) bool { return v.conditions[i] == nil || v.conditions[i].GetError() == nil })
}

//@ invariant CompoundCondition
func inv_CompoundCondition_4(v CompoundCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || vcAll(len(v.conditions), func(i int) bool { return v.conditions[i] == nil || v.conditions[i].isNotNil() })
}

//@ invariant ConstantCondition
func inv_ConstantCondition_1(v ConstantCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || v.value.GetError() == nil
}

//@ invariant ConstantCondition
func inv_ConstantCondition_2(v ConstantCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || v.value.isNotNil()
}

//@ invariant DefaultStatementBuilder
func inv_DefaultStatementBuilder_4(v DefaultStatementBuilder) bool {
	return vcAll(len(v.multipartElements), func(i int) bool { return v.multipartElements[i].GetError() != nil || v.multipartElements[i].isNotNil() })
}

//@ invariant DefaultStatementWithUpdateBuilder
func inv_DefaultStatementWithUpdateBuilder_1(v DefaultStatementWithUpdateBuilder) bool {
	return !v.isNotNil() || v.defaultBuilder != nil
}

//@ invariant DefaultStatementWithUpdateBuilder
func inv_DefaultStatementWithUpdateBuilder_4(v DefaultStatementWithUpdateBuilder) bool {
	return !v.isNotNil() || v.builder != nil
}

//@ invariant Delete
func inv_Delete_1(v Delete) bool {
	return v.GetError() != nil || !v.isNotNil() || v.deleteItems.GetError() == nil
}

//@ invariant Delete
func inv_Delete_2(v Delete) bool {
	return v.GetError() != nil || !v.isNotNil() || v.deleteItems.isNotNil()
}

//@ invariant DistinctExpression
func inv_DistinctExpression_1(v DistinctExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate != nil
}

//@ invariant DistinctExpression
func inv_DistinctExpression_2(v DistinctExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate == nil || v.delegate.GetError() == nil
}

//@ invariant DistinctExpression
func inv_DistinctExpression_3(v DistinctExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate == nil || v.delegate.isNotNil()
}

//@ invariant EntryExpression
func inv_EntryExpression_1(v EntryExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.Value != nil
}

//@ invariant EntryExpression
func inv_EntryExpression_2(v EntryExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.Value == nil || v.Value.GetError() == nil
}

//@ invariant EntryExpression
func inv_EntryExpression_3(v EntryExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.Value == nil || v.Value.isNotNil()
}

//@ invariant ExcludedPattern
func inv_ExcludedPattern_1(v ExcludedPattern) bool {
	return v.GetError() != nil || !v.isNotNil() || v.patternElement != nil
}

//@ invariant ExcludedPattern
func inv_ExcludedPattern_2(v ExcludedPattern) bool {
	return v.GetError() != nil || !v.isNotNil() || v.patternElement == nil || v.patternElement.GetError() == nil
}

//@ invariant ExcludedPattern
func inv_ExcludedPattern_3(v ExcludedPattern) bool {
	return v.GetError() != nil || !v.isNotNil() || v.patternElement == nil || v.patternElement.isNotNil()
}

//@ invariant ExistentialSubquery
func inv_ExistentialSubquery_1(v ExistentialSubquery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.fragment.GetError() == nil
}

//@ invariant ExistentialSubquery
func inv_ExistentialSubquery_2(v ExistentialSubquery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.fragment.isNotNil()
}

//@ invariant FunctionArgumentList
func inv_FunctionArgumentList_1(v FunctionArgumentList) bool {
	return v.GetError() != nil || !v.isNotNil() || vcAll(len(v.expressions), func(i int) bool { return v.expressions[i] == nil || v.expressions[i].GetError() == nil })
}

//@ invariant FunctionArgumentList
func inv_FunctionArgumentList_2(v FunctionArgumentList) bool {
	return v.GetError() != nil || !v.isNotNil() || vcAll(len(v.expressions), func(i int) bool { return v.expressions[i] == nil || v.expressions[i].isNotNil() })
}

//@ invariant FunctionInvocation
func inv_FunctionInvocation_1(v FunctionInvocation) bool {
	return v.GetError() != nil || !v.isNotNil() || v.arguments.GetError() == nil
}

//@ invariant HasLabelCondition
func inv_HasLabelCondition_1(v HasLabelCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || v.nodeName.GetError() == nil
}

//@ invariant HasLabelCondition
func inv_HasLabelCondition_2(v HasLabelCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || v.nodeName.isNotNil()
}

//@ invariant InQueryCallBuilder
func inv_InQueryCallBuilder_1(v InQueryCallBuilder) bool {
	return !v.isNotNil() || v.defaultBuilder != nil
}

//@ invariant InQueryCallBuilder
func inv_InQueryCallBuilder_2(v InQueryCallBuilder) bool {
	return !v.isNotNil() || v.procedureName.GetError() == nil
}

//@ invariant InQueryCallBuilder
func inv_InQueryCallBuilder_3(v InQueryCallBuilder) bool {
	return !v.isNotNil() || v.procedureName.isNotNil()
}

//@ invariant InQueryCallBuilder
func inv_InQueryCallBuilder_4(v InQueryCallBuilder) bool {
	return !v.isNotNil() || vcAll(len(v.arguments), func(i int) bool { return v.arguments[i] == nil || v.arguments[i].GetError() == nil })
}

//@ invariant InQueryCallBuilder
func inv_InQueryCallBuilder_5(v InQueryCallBuilder) bool {
	return !v.isNotNil() || vcAll(len(v.arguments), func(i int) bool { return v.arguments[i] == nil || v.arguments[i].isNotNil() })
}

//@ invariant InQueryCallBuilder
func inv_InQueryCallBuilder_6(v InQueryCallBuilder) bool {
	return !v.isNotNil() || v.yieldItems.GetError() == nil
}

//@ invariant KeyValueMapEntry
func inv_KeyValueMapEntry_1(v KeyValueMapEntry) bool {
	return v.GetError() != nil || !v.isNotNil() || v.value != nil
}

//@ invariant KeyValueMapEntry
func inv_KeyValueMapEntry_2(v KeyValueMapEntry) bool {
	return v.GetError() != nil || !v.isNotNil() || v.value == nil || v.value.GetError() == nil
}

//@ invariant KeyValueMapEntry
func inv_KeyValueMapEntry_3(v KeyValueMapEntry) bool {
	return v.GetError() != nil || !v.isNotNil() || v.value == nil || v.value.isNotNil()
}

//@ invariant Limit
func inv_Limit_1(v Limit) bool {
	return v.GetError() != nil || !v.isNotNil() || v.limitAmount.GetError() == nil
}

//@ invariant Limit
func inv_Limit_2(v Limit) bool {
	return v.GetError() != nil || !v.isNotNil() || v.limitAmount.isNotNil()
}

//@ invariant ListComprehension
func inv_ListComprehension_1(v ListComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.variable.GetError() == nil
}

//@ invariant ListComprehension
func inv_ListComprehension_3(v ListComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.listExpression != nil
}

//@ invariant ListComprehension
func inv_ListComprehension_4(v ListComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.listExpression == nil || v.listExpression.GetError() == nil
}

//@ invariant ListComprehension
func inv_ListComprehension_6(v ListComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.where.GetError() == nil
}

//@ invariant ListComprehension
func inv_ListComprehension_9(v ListComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.listDefinition == nil || v.listDefinition.GetError() == nil
}

//@ invariant ListExpression
func inv_ListExpression_1(v ListExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.content.GetError() == nil
}

//@ invariant ListExpression
func inv_ListExpression_2(v ListExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.content.isNotNil()
}

//@ invariant ListOperator
func inv_ListOperator_1(v ListOperator) bool {
	return v.GetError() != nil || !v.isNotNil() || v.targetExpression != nil
}

//@ invariant ListOperator
func inv_ListOperator_2(v ListOperator) bool {
	return v.GetError() != nil || !v.isNotNil() || v.targetExpression == nil || v.targetExpression.GetError() == nil
}

//@ invariant ListOperator
func inv_ListOperator_3(v ListOperator) bool {
	return v.GetError() != nil || !v.isNotNil() || v.targetExpression == nil || v.targetExpression.isNotNil()
}

//@ invariant ListOperator
func inv_ListOperator_4(v ListOperator) bool {
	return v.GetError() != nil || !v.isNotNil() || v.details.GetError() == nil
}

//@ invariant ListOperator
func inv_ListOperator_5(v ListOperator) bool {
	return v.GetError() != nil || !v.isNotNil() || v.details.isNotNil()
}

//@ invariant ListOperatorDetails
func inv_ListOperatorDetails_2(v ListOperatorDetails) bool {
	return v.GetError() != nil || !v.isNotNil() || v.optionalStart == nil || v.optionalStart.GetError() == nil
}

//@ invariant ListOperatorDetails
func inv_ListOperatorDetails_3(v ListOperatorDetails) bool {
	return v.GetError() != nil || !v.isNotNil() || v.optionalStart == nil || v.optionalStart.isNotNil()
}

//@ invariant ListOperatorDetails
func inv_ListOperatorDetails_7(v ListOperatorDetails) bool {
	return v.GetError() != nil || !v.isNotNil() || v.optionalEnd == nil || v.optionalEnd.GetError() == nil
}

//@ invariant ListOperatorDetails
func inv_ListOperatorDetails_8(v ListOperatorDetails) bool {
	return v.GetError() != nil || !v.isNotNil() || v.optionalEnd == nil || v.optionalEnd.isNotNil()
}

//@ invariant ListPredicate
func inv_ListPredicate_1(v ListPredicate) bool {
	return v.GetError() != nil || !v.isNotNil() || v.variable.GetError() == nil
}

//@ invariant ListPredicate
func inv_ListPredicate_2(v ListPredicate) bool {
	return v.GetError() != nil || !v.isNotNil() || v.variable.isNotNil()
}

//@ invariant ListPredicate
func inv_ListPredicate_4(v ListPredicate) bool {
	return v.GetError() != nil || !v.isNotNil() || v.listExpression == nil || v.listExpression.GetError() == nil
}

//@ invariant ListPredicate
func inv_ListPredicate_5(v ListPredicate) bool {
	return v.GetError() != nil || !v.isNotNil() || v.listExpression == nil || v.listExpression.isNotNil()
}

//@ invariant ListPredicate
func inv_ListPredicate_6(v ListPredicate) bool {
	return v.GetError() != nil || !v.isNotNil() || v.where.GetError() == nil
}

//@ invariant ListPredicate
func inv_ListPredicate_7(v ListPredicate) bool {
	return v.GetError() != nil || !v.isNotNil() || v.where.isNotNil()
}

//@ invariant MapExpression
func inv_MapExpression_1(v MapExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || vcAll(len(v.expressions), func(i int) bool { return v.expressions[i] == nil || v.expressions[i].GetError() == nil })
}

//@ invariant MapProjection
func inv_MapProjection_1(v MapProjection) bool {
	return v.GetError() != nil || !v.isNotNil() || v.name.GetError() == nil
}

//@ invariant MapProjection
func inv_MapProjection_2(v MapProjection) bool {
	return v.GetError() != nil || !v.isNotNil() || v.name.isNotNil()
}

//@ invariant MapProjection
func inv_MapProjection_3(v MapProjection) bool {
	return v.GetError() != nil || !v.isNotNil() || v.mapExpression.GetError() == nil
}

//@ invariant MapProjection
func inv_MapProjection_4(v MapProjection) bool {
	return v.GetError() != nil || !v.isNotNil() || v.mapExpression.isNotNil()
}

//@ invariant MatchBuilder
func inv_MatchBuilder_1(v MatchBuilder) bool {
	return vcAll(len(v.patternList), func(i int) bool { return v.patternList[i] == nil || v.patternList[i].GetError() == nil })
}

//@ invariant MatchPhrase
func inv_MatchPhrase_1(v MatchPhrase) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern.GetError() == nil
}

//@ invariant MatchPhrase
func inv_MatchPhrase_2(v MatchPhrase) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern.isNotNil()
}

//@ invariant MatchPhrase
func inv_MatchPhrase_3(v MatchPhrase) bool {
	return v.GetError() != nil || !v.isNotNil() || v.optionalWhere.GetError() == nil
}

//@ invariant MergeAction
func inv_MergeAction_1(v MergeAction) bool {
	return v.GetError() != nil || !v.isNotNil() || v.set.GetError() == nil
}

//@ invariant MergeAction
func inv_MergeAction_2(v MergeAction) bool {
	return v.GetError() != nil || !v.isNotNil() || v.set.isNotNil()
}

//@ invariant MultiPartElement
func inv_MultiPartElement_1(v MultiPartElement) bool {
	return v.GetError() != nil || !v.isNotNil() || vcAll(len(v.precedingClauses), func(i int) bool { return v.precedingClauses[i] == nil || v.precedingClauses[i].GetError() == nil })
}

//@ invariant MultiPartElement
func inv_MultiPartElement_3(v MultiPartElement) bool {
	return v.GetError() != nil || !v.isNotNil() || v.with.GetError() == nil
}

//@ invariant MultiPartElement
func inv_MultiPartElement_4(v MultiPartElement) bool {
	return v.GetError() != nil || !v.isNotNil() || v.with.isNotNil()
}

//@ invariant MultiPartQuery
func inv_MultiPartQuery_1(v MultiPartQuery) bool {
	return v.GetError() != nil || !v.isNotNil() || vcAll(len(v.parts), func(i int) bool { return v.parts[i].GetError() == nil })
}

//@ invariant MultiPartQuery
func inv_MultiPartQuery_3(v MultiPartQuery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.remainder.GetError() == nil
}

//@ invariant MultiPartQuery
func inv_MultiPartQuery_4(v MultiPartQuery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.remainder.isNotNil()
}

//@ invariant NamedPath
func inv_NamedPath_1(v NamedPath) bool {
	return v.GetError() != nil || !v.isNotNil() || v.name.GetError() == nil
}

//@ invariant NamedPath
func inv_NamedPath_2(v NamedPath) bool {
	return v.GetError() != nil || !v.isNotNil() || v.name.isNotNil()
}

//@ invariant NamedPath
func inv_NamedPath_3(v NamedPath) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern != nil
}

//@ invariant NamedPath
func inv_NamedPath_4(v NamedPath) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern == nil || v.pattern.GetError() == nil
}

//@ invariant NamedPath
func inv_NamedPath_5(v NamedPath) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern == nil || v.pattern.isNotNil()
}

//@ invariant NestedExpression
func inv_NestedExpression_1(v NestedExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate != nil
}

//@ invariant NestedExpression
func inv_NestedExpression_2(v NestedExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate == nil || v.delegate.GetError() == nil
}

//@ invariant NestedExpression
func inv_NestedExpression_3(v NestedExpression) bool {
	return v.GetError() != nil || !v.isNotNil() || v.delegate == nil || v.delegate.isNotNil()
}

//@ invariant Node
func inv_Node_1(v Node) bool {
	return v.GetError() != nil || !v.isNotNil() || v.symbolicName.GetError() == nil
}

//@ invariant Node
func inv_Node_5(v Node) bool {
	return v.GetError() != nil || !v.isNotNil() || v.properties.GetError() == nil
}

//@ invariant NumberLiteral
func inv_NumberLiteral_1(v NumberLiteral) bool {
	return v.GetError() != nil || !v.isNotNil() || v.content != nil
}

//@ invariant OngoingWhenThen
func inv_OngoingWhenThen_5(v OngoingWhenThen) bool {
	return v.whenExpression == nil || v.whenExpression.GetError() == nil
}

//@ invariant OngoingWhenThen
func inv_OngoingWhenThen_6(v OngoingWhenThen) bool {
	return v.whenExpression == nil || v.whenExpression.isNotNil()
}

//@ invariant Operation
func inv_Operation_1(v Operation) bool {
	return v.GetError() != nil || !v.isNotNil() || v.left != nil
}

//@ invariant Operation
func inv_Operation_2(v Operation) bool {
	return v.GetError() != nil || !v.isNotNil() || v.left == nil || v.left.GetError() == nil
}

//@ invariant Operation
func inv_Operation_3(v Operation) bool {
	return v.GetError() != nil || !v.isNotNil() || v.left == nil || v.left.isNotNil()
}

//@ invariant Operation
func inv_Operation_4(v Operation) bool {
	return v.GetError() != nil || !v.isNotNil() || v.operator.GetError() == nil
}

//@ invariant Operation
func inv_Operation_5(v Operation) bool {
	return v.GetError() != nil || !v.isNotNil() || v.operator.isNotNil()
}

//@ invariant Operation
func inv_Operation_6(v Operation) bool {
	return v.GetError() != nil || !v.isNotNil() || v.right != nil
}

//@ invariant PatternComprehension
func inv_PatternComprehension_1(v PatternComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern != nil
}

//@ invariant PatternComprehension
func inv_PatternComprehension_2(v PatternComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern == nil || v.pattern.GetError() == nil
}

//@ invariant PatternComprehension
func inv_PatternComprehension_3(v PatternComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern == nil || v.pattern.isNotNil()
}

//@ invariant PatternComprehension
func inv_PatternComprehension_4(v PatternComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.where.GetError() == nil
}

//@ invariant PatternComprehension
func inv_PatternComprehension_6(v PatternComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.listDefinition != nil
}

//@ invariant PatternComprehension
func inv_PatternComprehension_7(v PatternComprehension) bool {
	return v.GetError() != nil || !v.isNotNil() || v.listDefinition == nil || v.listDefinition.GetError() == nil
}

//@ invariant PatternComprehensionBuilder
func inv_PatternComprehensionBuilder_1(v PatternComprehensionBuilder) bool {
	return v.GetError() != nil || v.pattern != nil
}

//@ invariant PatternComprehensionBuilder
func inv_PatternComprehensionBuilder_2(v PatternComprehensionBuilder) bool {
	return v.GetError() != nil || v.pattern == nil || v.pattern.GetError() == nil
}

//@ invariant PatternComprehensionBuilder
func inv_PatternComprehensionBuilder_3(v PatternComprehensionBuilder) bool {
	return v.GetError() != nil || v.pattern == nil || v.pattern.isNotNil()
}

//@ invariant PredicateBuilder
func inv_PredicateBuilder_2(v PredicateBuilder) bool {
	return v.GetError() != nil || v.name.isNotNil()
}

//@ invariant PredicateBuilder
func inv_PredicateBuilder_4(v PredicateBuilder) bool {
	return v.GetError() != nil || v.listExpression == nil || v.listExpression.GetError() == nil
}

//@ invariant PredicateBuilder
func inv_PredicateBuilder_5(v PredicateBuilder) bool {
	return v.GetError() != nil || v.listExpression == nil || v.listExpression.isNotNil()
}

//@ invariant ProcedureCall
func inv_ProcedureCall_1(v ProcedureCall) bool {
	return v.GetError() != nil || !v.isNotNil() || v.name.GetError() == nil
}

//@ invariant ProcedureCall
func inv_ProcedureCall_3(v ProcedureCall) bool {
	return v.GetError() != nil || !v.isNotNil() || v.arguments.GetError() == nil
}

//@ invariant ProcedureCall
func inv_ProcedureCall_5(v ProcedureCall) bool {
	return v.GetError() != nil || !v.isNotNil() || v.yieldItems.GetError() == nil
}

//@ invariant ProcedureCall
func inv_ProcedureCall_7(v ProcedureCall) bool {
	return v.GetError() != nil || !v.isNotNil() || v.optionalWhere.GetError() == nil
}

//@ invariant ProcedureName
func inv_ProcedureName_1(v ProcedureName) bool {
	return v.GetError() != nil || !v.isNotNil() || v.optionalNamespace.GetError() == nil
}

//@ invariant Properties
func inv_Properties_1(v Properties) bool {
	return v.GetError() != nil || !v.isNotNil() || v.properties.GetError() == nil
}

//@ invariant Properties
func inv_Properties_2(v Properties) bool {
	return v.GetError() != nil || !v.isNotNil() || v.properties.isNotNil()
}

//@ invariant Property
func inv_Property_1(v Property) bool {
	return v.GetError() != nil || !v.isNotNil() || v.container != nil
}

//@ invariant Property
func inv_Property_2(v Property) bool {
	return v.GetError() != nil || !v.isNotNil() || v.container == nil || v.container.GetError() == nil
}

//@ invariant Property
func inv_Property_3(v Property) bool {
	return v.GetError() != nil || !v.isNotNil() || v.container == nil || v.container.isNotNil()
}

//@ invariant Property
func inv_Property_4(v Property) bool {
	return v.GetError() != nil || !v.isNotNil() || v.name.GetError() == nil
}

//@ invariant Relationship
func inv_Relationship_1(v Relationship) bool {
	return v.GetError() != nil || !v.isNotNil() || v.left.GetError() == nil
}

//@ invariant Relationship
func inv_Relationship_3(v Relationship) bool {
	return v.GetError() != nil || !v.isNotNil() || v.right.GetError() == nil
}

//@ invariant Relationship
func inv_Relationship_4(v Relationship) bool {
	return v.GetError() != nil || !v.isNotNil() || v.right.isNotNil()
}

//@ invariant Relationship
func inv_Relationship_5(v Relationship) bool {
	return v.GetError() != nil || !v.isNotNil() || v.details.GetError() == nil
}

//@ invariant Relationship
func inv_Relationship_6(v Relationship) bool {
	return v.GetError() != nil || !v.isNotNil() || v.details.isNotNil()
}

//@ invariant RelationshipDetails
func inv_RelationshipDetails_1(v RelationshipDetails) bool {
	return v.GetError() != nil || !v.isNotNil() || v.symbolicName.GetError() == nil
}

//@ invariant RelationshipDetails
func inv_RelationshipDetails_3(v RelationshipDetails) bool {
	return v.GetError() != nil || !v.isNotNil() || v.types.GetError() == nil
}

//@ invariant RelationshipDetails
func inv_RelationshipDetails_5(v RelationshipDetails) bool {
	return v.GetError() != nil || !v.isNotNil() || v.length.GetError() == nil
}

//@ invariant RelationshipDetails
func inv_RelationshipDetails_7(v RelationshipDetails) bool {
	return v.GetError() != nil || !v.isNotNil() || v.properties.GetError() == nil
}

//@ invariant RelationshipPatternCondition
func inv_RelationshipPatternCondition_1(v RelationshipPatternCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pathPattern != nil
}

//@ invariant RelationshipPatternCondition
func inv_RelationshipPatternCondition_2(v RelationshipPatternCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pathPattern == nil || v.pathPattern.GetError() == nil
}

//@ invariant RelationshipPatternCondition
func inv_RelationshipPatternCondition_3(v RelationshipPatternCondition) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pathPattern == nil || v.pathPattern.isNotNil()
}

//@ invariant Remove
func inv_Remove_1(v Remove) bool {
	return v.GetError() != nil || !v.isNotNil() || v.setItems.GetError() == nil
}

//@ invariant Remove
func inv_Remove_2(v Remove) bool {
	return v.GetError() != nil || !v.isNotNil() || v.setItems.isNotNil()
}

//@ invariant Return
func inv_Return_3(v Return) bool {
	return v.GetError() != nil || !v.isNotNil() || v.body.GetError() == nil
}

//@ invariant Return
func inv_Return_4(v Return) bool {
	return v.GetError() != nil || !v.isNotNil() || v.body.isNotNil()
}

//@ invariant ReturnBody
func inv_ReturnBody_1(v ReturnBody) bool {
	return v.GetError() != nil || !v.isNotNil() || v.returnItems.GetError() == nil
}

//@ invariant ReturnBody
func inv_ReturnBody_2(v ReturnBody) bool {
	return v.GetError() != nil || !v.isNotNil() || v.returnItems.isNotNil()
}

//@ invariant ReturnBody
func inv_ReturnBody_3(v ReturnBody) bool {
	return v.GetError() != nil || !v.isNotNil() || v.order.GetError() == nil
}

//@ invariant ReturnBody
func inv_ReturnBody_4(v ReturnBody) bool {
	return v.GetError() != nil || !v.isNotNil() || v.order.isNotNil()
}

//@ invariant ReturnBody
func inv_ReturnBody_5(v ReturnBody) bool {
	return v.GetError() != nil || !v.isNotNil() || v.skip.GetError() == nil
}

//@ invariant ReturnBody
func inv_ReturnBody_6(v ReturnBody) bool {
	return v.GetError() != nil || !v.isNotNil() || v.skip.isNotNil()
}

//@ invariant ReturnBody
func inv_ReturnBody_7(v ReturnBody) bool {
	return v.GetError() != nil || !v.isNotNil() || v.limit.GetError() == nil
}

//@ invariant ReturnBody
func inv_ReturnBody_8(v ReturnBody) bool {
	return v.GetError() != nil || !v.isNotNil() || v.limit.isNotNil()
}

//@ invariant Set
func inv_Set_1(v Set) bool {
	return v.GetError() != nil || !v.isNotNil() || v.setItems.GetError() == nil
}

//@ invariant Set
func inv_Set_2(v Set) bool {
	return v.GetError() != nil || !v.isNotNil() || v.setItems.isNotNil()
}

//@ invariant ShortestPathBuilder
func inv_ShortestPathBuilder_3(v ShortestPathBuilder) bool {
	return v.GetError() != nil || v.algorithm != nil
}

//@ invariant SinglePartQuery
func inv_SinglePartQuery_1(v SinglePartQuery) bool {
	return v.GetError() != nil || !v.isNotNil() || vcAll(len(v.precedingClauses), func(i int) bool { return v.precedingClauses[i] == nil || v.precedingClauses[i].GetError() == nil })
}

//@ invariant SinglePartQuery
func inv_SinglePartQuery_3(v SinglePartQuery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.aReturn.GetError() == nil
}

//@ invariant SinglePartQuery
func inv_SinglePartQuery_4(v SinglePartQuery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.aReturn.isNotNil()
}

//@ invariant Skip
func inv_Skip_1(v Skip) bool {
	return v.GetError() != nil || !v.isNotNil() || v.skipAmount.GetError() == nil
}

//@ invariant Skip
func inv_Skip_2(v Skip) bool {
	return v.GetError() != nil || !v.isNotNil() || v.skipAmount.isNotNil()
}

//@ invariant SortItem
func inv_SortItem_1(v SortItem) bool {
	return v.GetError() != nil || !v.isNotNil() || v.expression != nil
}

//@ invariant SortItem
func inv_SortItem_2(v SortItem) bool {
	return v.GetError() != nil || !v.isNotNil() || v.expression == nil || v.expression.GetError() == nil
}

//@ invariant SortItem
func inv_SortItem_4(v SortItem) bool {
	return v.GetError() != nil || !v.isNotNil() || v.direction.GetError() == nil
}

//@ invariant StandaloneCallBuilder
func inv_StandaloneCallBuilder_1(v StandaloneCallBuilder) bool {
	return !v.isNotNil() || v.procedureName.GetError() == nil
}

//@ invariant StandaloneCallBuilder
func inv_StandaloneCallBuilder_2(v StandaloneCallBuilder) bool {
	return !v.isNotNil() || v.procedureName.isNotNil()
}

//@ invariant StandaloneCallBuilder
func inv_StandaloneCallBuilder_3(v StandaloneCallBuilder) bool {
	return !v.isNotNil() || vcAll(len(v.arguments), func(i int) bool { return v.arguments[i] == nil || v.arguments[i].GetError() == nil })
}

//@ invariant StandaloneCallBuilder
func inv_StandaloneCallBuilder_4(v StandaloneCallBuilder) bool {
	return !v.isNotNil() || vcAll(len(v.arguments), func(i int) bool { return v.arguments[i] == nil || v.arguments[i].isNotNil() })
}

//@ invariant StandaloneCallBuilder
func inv_StandaloneCallBuilder_5(v StandaloneCallBuilder) bool {
	return !v.isNotNil() || v.yieldItems.GetError() == nil
}

//@ invariant Subquery
func inv_Subquery_1(v Subquery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.statement != nil
}

//@ invariant Subquery
func inv_Subquery_2(v Subquery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.statement == nil || v.statement.GetError() == nil
}

//@ invariant Subquery
func inv_Subquery_3(v Subquery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.statement == nil || v.statement.isNotNil()
}

//@ invariant UnionPart
func inv_UnionPart_1(v UnionPart) bool {
	return v.GetError() != nil || !v.isNotNil() || v.query != nil
}

//@ invariant UnionPart
func inv_UnionPart_2(v UnionPart) bool {
	return v.GetError() != nil || !v.isNotNil() || v.query == nil || v.query.GetError() == nil
}

//@ invariant UnionPart
func inv_UnionPart_3(v UnionPart) bool {
	return v.GetError() != nil || !v.isNotNil() || v.query == nil || v.query.isNotNil()
}

//@ invariant UnionQuery
func inv_UnionQuery_1(v UnionQuery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.firstQuery != nil
}

//@ invariant UnionQuery
func inv_UnionQuery_2(v UnionQuery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.firstQuery == nil || v.firstQuery.GetError() == nil
}

//@ invariant UnionQuery
func inv_UnionQuery_3(v UnionQuery) bool {
	return v.GetError() != nil || !v.isNotNil() || v.firstQuery == nil || v.firstQuery.isNotNil()
}

//@ invariant UnwindPhrase
func inv_UnwindPhrase_1(v UnwindPhrase) bool {
	return v.GetError() != nil || !v.isNotNil() || v.expressionToUnwind != nil
}

//@ invariant Where
func inv_Where_1(v Where) bool {
	return v.GetError() != nil || !v.isNotNil() || v.condition != nil
}

//@ invariant Where
func inv_Where_2(v Where) bool {
	return v.GetError() != nil || !v.isNotNil() || v.condition == nil || v.condition.GetError() == nil
}

//@ invariant Where
func inv_Where_3(v Where) bool {
	return v.GetError() != nil || !v.isNotNil() || v.condition == nil || v.condition.isNotNil()
}

//@ invariant create
func inv_create_1(v create) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern.GetError() == nil
}

//@ invariant create
func inv_create_2(v create) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern.isNotNil()
}

//@ invariant merge
func inv_merge_1(v merge) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern.GetError() == nil
}

//@ invariant merge
func inv_merge_2(v merge) bool {
	return v.GetError() != nil || !v.isNotNil() || v.pattern.isNotNil()
}

//@ invariant with
func inv_with_1(v with) bool {
	return v.GetError() != nil || !v.isNotNil() || v.distinct.GetError() == nil
}

//@ invariant with
func inv_with_2(v with) bool {
	return v.GetError() != nil || !v.isNotNil() || v.distinct.isNotNil()
}

//@ invariant with
func inv_with_3(v with) bool {
	return v.GetError() != nil || !v.isNotNil() || v.body.GetError() == nil
}

//@ invariant with
func inv_with_4(v with) bool {
	return v.GetError() != nil || !v.isNotNil() || v.body.isNotNil()
}

//@ invariant with
func inv_with_5(v with) bool {
	return v.GetError() != nil || !v.isNotNil() || v.where.GetError() == nil
}

//@ invariant with
func inv_with_6(v with) bool {
	return v.GetError() != nil || !v.isNotNil() || v.where.isNotNil()
}
