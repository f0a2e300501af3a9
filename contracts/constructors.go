package cypher

// Contracts of the constructors: which arguments are refused, and what the
// element made of the others consists of. Written by tools/mkcons.py.

// specPart: the argument is there.
func specPart(e Expression) bool { return e != nil && e.isNotNil() }

// specErr: the argument carries an error.
func specErr(v Visitable) bool { return v != nil && v.GetError() != nil }

// @ ensures AsteriskCreate
// @ props C08
func en_AsteriskCreate(r Asterisk) bool {
	w, ok := r.expression.(Asterisk)
	if !(r.err == nil && r.notNil &&
		r.content == "*") {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.content == "*"
}

// @ ensures DistinctExpressionCreate
// @ props C12 C04
func en_DistinctExpressionCreate(delegate Expression, r DistinctExpression) bool {
	w, ok := r.expression.(DistinctExpression)
	if specErr(delegate) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.delegate, delegate)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.delegate, delegate)
}

// @ ensures NestedExpressionCreate
// @ props C11 C10 C04
func en_NestedExpressionCreate(delegate Expression, r NestedExpression) bool {
	w, ok := r.expression.(NestedExpression)
	if specErr(delegate) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.delegate, delegate)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.delegate, delegate)
}

// @ ensures ExpressionListCreate
// @ props C08 C07 C04
func en_ExpressionListCreate(expressions []Expression, r ExpressionList) bool {
	w, ok := r.expression.(ExpressionList)
	if vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		len(r.expressions) == len(expressions) && vcAll(len(expressions), func(i int) bool { return vcSame(r.expressions[i], expressions[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		len(w.expressions) == len(expressions) && vcAll(len(expressions), func(i int) bool { return vcSame(w.expressions[i], expressions[i]) })
}

// @ ensures ListExpressionCreate
// @ props C07 C04
func en_ListExpressionCreate(content ExpressionList, r ListExpression) bool {
	w, ok := r.expression.(ListExpression)
	if content.err != nil {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.content, content)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.content, content)
}

// @ ensures SymbolicNameCreate
// @ props C01 C09
func en_SymbolicNameCreate(value string, r SymbolicName) bool {
	w, ok := r.expression.(SymbolicName)
	if value == "" {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.value == value) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.value == value
}

// @ ensures SymbolicNameUnResolve
// @ props C01
func en_SymbolicNameUnResolve(r SymbolicName) bool {
	w, ok := r.expression.(SymbolicName)
	if !(r.err == nil && r.notNil &&
		r.value == "") {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.value == ""
}

// @ ensures PropertyCreate1
// @ props C01 C04
func en_PropertyCreate1(container Expression, name PropertyLookup, r Property) bool {
	w, ok := r.expression.(Property)
	if specErr(container) || container == nil || name.err != nil {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.container, container) &&
		vcSame(r.name, name)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.container, container) &&
		vcSame(w.name, name)
}

// @ ensures PropertyCreate2
// @ props C01 C04
func en_PropertyCreate2(container Expression, name string, r Property) bool {
	w, ok := r.expression.(Property)
	if specErr(container) || container == nil || name == "" {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.container, container) &&
		r.name.propertyKeyName == name && r.name.err == nil) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.container, container) &&
		w.name.propertyKeyName == name && w.name.err == nil
}

// @ ensures MapExpressionCreate
// @ props C15 C04
func en_MapExpressionCreate(newContents []Expression, r MapExpression) bool {
	w, ok := r.expression.(MapExpression)
	if vcAny(len(newContents), func(i int) bool { return specErr(newContents[i]) }) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		len(r.expressions) == len(newContents) && vcAll(len(newContents), func(i int) bool { return vcSame(r.expressions[i], newContents[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		len(w.expressions) == len(newContents) && vcAll(len(newContents), func(i int) bool { return vcSame(w.expressions[i], newContents[i]) })
}

// @ ensures MapProjectionCreateWithMapExpression
// @ props C15 C04
func en_MapProjectionCreateWithMapExpression(name SymbolicName, mapExpression MapExpression, r MapProjection) bool {
	w, ok := r.expression.(MapProjection)
	if name.err != nil || mapExpression.err != nil {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.name, name) &&
		vcSame(r.mapExpression, mapExpression)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.name, name) &&
		vcSame(w.mapExpression, mapExpression)
}

// @ ensures EntryExpressionCreate
// @ props C15 C04
func en_EntryExpressionCreate(key string, value Expression, r EntryExpression) bool {
	w, ok := r.expression.(EntryExpression)
	if specErr(value) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.Key == key &&
		vcSame(r.Value, value)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.Key == key &&
		vcSame(w.Value, value)
}

// @ ensures NameSpaceCreate
// @ props C18 C01
func en_NameSpaceCreate(content []string, r Namespace) bool {
	w, ok := r.expression.(Namespace)
	if !(r.err == nil && r.notNil &&
		len(r.content) == len(content) && vcAll(len(content), func(i int) bool { return vcSame(r.content[i], content[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		len(w.content) == len(content) && vcAll(len(content), func(i int) bool { return vcSame(w.content[i], content[i]) })
}

// @ ensures DotCreate
// @ props C19
func en_DotCreate(content string, r Dot) bool {
	w, ok := r.expression.(Dot)
	if !(r.err == nil && r.notNil &&
		r.content == content) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.content == content
}

// @ ensures StringLiteralCreate
// @ props C02
func en_StringLiteralCreate(content string, r StringLiteral) bool {
	w, ok := r.expression.(StringLiteral)
	if !(r.err == nil && r.notNil &&
		r.content == content) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.content == content
}

// @ ensures RawStringLiteralCreate
// @ props C02 C03
func en_RawStringLiteralCreate(content string, r RawStringLiteral) bool {
	w, ok := r.expression.(RawStringLiteral)
	if !(r.err == nil && r.notNil &&
		r.content == content) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.content == content
}

// @ ensures BooleanLiteralCreate
// @ props C03
func en_BooleanLiteralCreate(content bool, r BooleanLiteral) bool {
	w, ok := r.expression.(BooleanLiteral)
	if !(r.err == nil && r.notNil &&
		r.content == content) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.content == content
}

// @ ensures NullLiteralCreate
// @ props C03
func en_NullLiteralCreate(r NilLiteral) bool {
	w, ok := r.expression.(NilLiteral)
	if !(r.err == nil && r.notNil) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil
}

// @ ensures ListLiteralCreate
// @ props C03 C04
func en_ListLiteralCreate(contents []Literal, r ListLiteral) bool {
	w, ok := r.expression.(ListLiteral)
	if vcAny(len(contents), func(i int) bool { return specErr(contents[i]) }) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		len(r.content) == len(contents) && vcAll(len(contents), func(i int) bool { return vcSame(r.content[i], contents[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		len(w.content) == len(contents) && vcAll(len(contents), func(i int) bool { return vcSame(w.content[i], contents[i]) })
}

// @ ensures ConstantConditionCreate
// @ props C10 C11
func en_ConstantConditionCreate(value BooleanLiteral, r ConstantCondition) bool {
	w, ok := r.expression.(ConstantCondition)
	if value.err != nil {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.value, value)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.value, value)
}

// @ ensures ExcludedPatternCreate
// @ props C16 C11 C04
func en_ExcludedPatternCreate(patternElement PatternElement, r ExcludedPattern) bool {
	w, ok := r.expression.(ExcludedPattern)
	if specErr(patternElement) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.patternElement, patternElement)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.patternElement, patternElement)
}

// @ ensures ExistentialSubqueryCreate
// @ props C18 C04
func en_ExistentialSubqueryCreate(fragment MatchPhrase, r ExistentialSubquery) bool {
	w, ok := r.expression.(ExistentialSubquery)
	if fragment.err != nil {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.fragment, fragment)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.fragment, fragment)
}

// @ ensures RelationshipPatternConditionCreate
// @ props C16 C10 C04
func en_RelationshipPatternConditionCreate(pathPattern RelationshipPattern, r RelationshipPatternCondition) bool {
	w, ok := r.expression.(RelationshipPatternCondition)
	if specErr(pathPattern) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.pathPattern, pathPattern)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.pathPattern, pathPattern)
}

// @ ensures HasLabelConditionCreate1
// @ props C16 C01 C04
func en_HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel, r HasLabelCondition) bool {
	w, ok := r.expression.(HasLabelCondition)
	if nodeName.err != nil || !nodeName.notNil || len(labels) == 0 || vcAny(len(labels), func(i int) bool { return labels[i].err != nil }) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.nodeName, nodeName) &&
		len(r.nodeLabels) == len(labels) && vcAll(len(labels), func(i int) bool { return vcSame(r.nodeLabels[i], labels[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.nodeName, nodeName) &&
		len(w.nodeLabels) == len(labels) && vcAll(len(labels), func(i int) bool { return vcSame(w.nodeLabels[i], labels[i]) })
}

// @ ensures HasLabelConditionCreate
// @ props C16 C01 C04
func en_HasLabelConditionCreate(nodeName SymbolicName, labels []string, r HasLabelCondition) bool {
	w, ok := r.expression.(HasLabelCondition)
	if nodeName.err != nil || !nodeName.notNil || len(labels) == 0 {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.nodeName, nodeName) &&
		len(r.nodeLabels) == len(labels) && vcAll(len(labels), func(i int) bool { return specLabel(r.nodeLabels[i], labels[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.nodeName, nodeName) &&
		len(w.nodeLabels) == len(labels) && vcAll(len(labels), func(i int) bool { return specLabel(w.nodeLabels[i], labels[i]) })
}

// @ ensures CompoundConditionCreate1
// @ props C10
func en_CompoundConditionCreate1(operator Operator, r CompoundCondition) bool {
	w, ok := r.expression.(CompoundCondition)
	if operator.err != nil {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.operator, operator) &&
		len(r.conditions) == 0) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.operator, operator) &&
		len(w.conditions) == 0
}

// @ ensures SimpleCaseCreate
// @ props C19 C04
func en_SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen, r Case) bool {
	w, ok := r.expression.(Case)
	if specErr(caseExpression) || vcAny(len(caseWhenThens), func(i int) bool { return caseWhenThens[i].err != nil }) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.caseExpression, caseExpression) &&
		len(r.caseWhenThens) == len(caseWhenThens) && vcAll(len(caseWhenThens), func(i int) bool { return vcSame(r.caseWhenThens[i], caseWhenThens[i]) }) &&
		r.caseElse.notNil == false) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.caseExpression, caseExpression) &&
		len(w.caseWhenThens) == len(caseWhenThens) && vcAll(len(caseWhenThens), func(i int) bool { return vcSame(w.caseWhenThens[i], caseWhenThens[i]) }) &&
		w.caseElse.notNil == false
}

// @ ensures SimpleCaseCreate1
// @ props C19 C04
func en_SimpleCaseCreate1(caseExpression Expression, r Case) bool {
	w, ok := r.expression.(Case)
	if specErr(caseExpression) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.caseExpression, caseExpression) &&
		len(r.caseWhenThens) == 0 &&
		r.caseElse.notNil == false) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.caseExpression, caseExpression) &&
		len(w.caseWhenThens) == 0 &&
		w.caseElse.notNil == false
}

// @ ensures EndingSimpleCaseCreate
// @ props C19 C04
func en_EndingSimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen, r Case) bool {
	w, ok := r.expression.(Case)
	if specErr(caseExpression) || vcAny(len(caseWhenThens), func(i int) bool { return caseWhenThens[i].err != nil }) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.caseExpression, caseExpression) &&
		len(r.caseWhenThens) == len(caseWhenThens) && vcAll(len(caseWhenThens), func(i int) bool { return vcSame(r.caseWhenThens[i], caseWhenThens[i]) }) &&
		r.caseElse.notNil == false) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.caseExpression, caseExpression) &&
		len(w.caseWhenThens) == len(caseWhenThens) && vcAll(len(caseWhenThens), func(i int) bool { return vcSame(w.caseWhenThens[i], caseWhenThens[i]) }) &&
		w.caseElse.notNil == false
}

// @ ensures GenericCaseCreate
// @ props C19 C04
func en_GenericCaseCreate(caseWhenThens []CaseWhenThen, r Case) bool {
	w, ok := r.expression.(Case)
	if vcAny(len(caseWhenThens), func(i int) bool { return caseWhenThens[i].err != nil }) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.caseExpression == nil &&
		len(r.caseWhenThens) == len(caseWhenThens) && vcAll(len(caseWhenThens), func(i int) bool { return vcSame(r.caseWhenThens[i], caseWhenThens[i]) }) &&
		r.caseElse.notNil == false) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.caseExpression == nil &&
		len(w.caseWhenThens) == len(caseWhenThens) && vcAll(len(caseWhenThens), func(i int) bool { return vcSame(w.caseWhenThens[i], caseWhenThens[i]) }) &&
		w.caseElse.notNil == false
}

// @ ensures GenericCaseCreate1
// @ props C19 C04
func en_GenericCaseCreate1(r Case) bool {
	w, ok := r.expression.(Case)
	if !(r.err == nil && r.notNil &&
		r.caseExpression == nil &&
		len(r.caseWhenThens) == 0 &&
		r.caseElse.notNil == false) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.caseExpression == nil &&
		len(w.caseWhenThens) == 0 &&
		w.caseElse.notNil == false
}

// @ ensures EndingGenericCaseCreate
// @ props C19 C04
func en_EndingGenericCaseCreate(caseWhenThens []CaseWhenThen, r Case) bool {
	w, ok := r.expression.(Case)
	if vcAny(len(caseWhenThens), func(i int) bool { return caseWhenThens[i].err != nil }) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.caseExpression == nil &&
		len(r.caseWhenThens) == len(caseWhenThens) && vcAll(len(caseWhenThens), func(i int) bool { return vcSame(r.caseWhenThens[i], caseWhenThens[i]) }) &&
		r.caseElse.notNil == false) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		w.caseExpression == nil &&
		len(w.caseWhenThens) == len(caseWhenThens) && vcAll(len(caseWhenThens), func(i int) bool { return vcSame(w.caseWhenThens[i], caseWhenThens[i]) }) &&
		w.caseElse.notNil == false
}

// @ ensures CaseWhenThenCreate
// @ props C19 C04
func en_CaseWhenThenCreate(whenExpression Expression, thenExpression Expression, r CaseWhenThen) bool {
	if whenExpression == nil || thenExpression == nil || specErr(whenExpression) || specErr(thenExpression) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.whenExpression, whenExpression) &&
		vcSame(r.thenExpression, thenExpression)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures CaseElseCreate
// @ props C19 C04
func en_CaseElseCreate(elseExpression Expression, r CaseElse) bool {
	if elseExpression == nil || specErr(elseExpression) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.elseExpression, elseExpression)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures OngoingWhenThenCreate
// @ props C19 C04
func en_OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression, r OngoingWhenThen) bool {
	if whenExpression == nil || specErr(whenExpression) {
		return r.err != nil
	}
	return r.err == nil && r.caseInstance == caseInstance && vcSame(r.whenExpression, whenExpression)
}

// @ ensures Case.When
// @ props C19 C04
func en_Case_When(c Case, nextExpression Expression, r OngoingWhenThen) bool {
	if c.err != nil || nextExpression == nil || specErr(nextExpression) {
		return r.err != nil
	}
	return r.err == nil && r.caseInstance != nil && vcSame(r.whenExpression, nextExpression) && specCaseAs(*r.caseInstance, c)
}

// specCaseAs: the same subject, branches and default.
func specCaseAs(r Case, c Case) bool {
	return vcSame(r.caseExpression, c.caseExpression) && vcSame(r.caseElse, c.caseElse) &&
		len(r.caseWhenThens) == len(c.caseWhenThens) &&
		vcAll(len(c.caseWhenThens), func(i int) bool { return vcSame(r.caseWhenThens[i], c.caseWhenThens[i]) })
}

func specBrokenCase(c Case) bool {
	return c.err != nil || specErr(c.caseExpression) || c.caseElse.err != nil || specErr(c.caseElse.elseExpression) || c.caseElse.notNil && c.caseElse.elseExpression == nil ||
		vcAny(len(c.caseWhenThens), func(i int) bool { return c.caseWhenThens[i].err != nil })
}

func specDefault(r Case, c Case, e Expression) bool {
	return r.err == nil && r.notNil && vcSame(r.caseExpression, c.caseExpression) &&
		r.caseElse.notNil && r.caseElse.err == nil && vcSame(r.caseElse.elseExpression, e) &&
		len(r.caseWhenThens) == len(c.caseWhenThens) &&
		vcAll(len(c.caseWhenThens), func(i int) bool { return vcSame(r.caseWhenThens[i], c.caseWhenThens[i]) })
}

// specBranch: one more branch, after those that are there; the subject and the
// default stay.
func specBranch(r Case, c Case, when Expression, then Expression) bool {
	n := len(c.caseWhenThens)
	if r.err != nil || !r.notNil || len(r.caseWhenThens) != n+1 {
		return false
	}
	if specPart(c.caseExpression) {
		if !vcSame(r.caseExpression, c.caseExpression) {
			return false
		}
	} else if specPart(r.caseExpression) {
		return false
	}
	if c.caseElse.notNil {
		if !r.caseElse.notNil || !vcSame(r.caseElse.elseExpression, c.caseElse.elseExpression) {
			return false
		}
	} else if r.caseElse.notNil {
		return false
	}
	return r.caseWhenThens[n].err == nil && r.caseWhenThens[n].notNil &&
		vcSame(r.caseWhenThens[n].whenExpression, when) && vcSame(r.caseWhenThens[n].thenExpression, then) &&
		vcAll(n, func(i int) bool { return vcSame(r.caseWhenThens[i], c.caseWhenThens[i]) })
}

// @ ensures Case.ElseDefault
// @ props C19 C04
func en_Case_ElseDefault(c Case, defaultExpression Expression, r CaseEnding) bool {
	if c.err != nil || defaultExpression == nil || specErr(defaultExpression) {
		return specErr(r)
	}
	made, ok := r.(Case)
	if !ok || !specDefault(made, c, defaultExpression) {
		return false
	}
	w, ok := made.expression.(Case)
	return ok && w.key == made.key && specDefault(w, c, defaultExpression)
}

// @ ensures OngoingWhenThen.Then
// @ props C19 C04
func en_OngoingWhenThen_Then(o OngoingWhenThen, expression Expression, r CaseEnding) bool {
	if o.err != nil || expression == nil || specErr(expression) {
		return specErr(r)
	}
	if o.whenExpression == nil || specErr(o.whenExpression) || o.caseInstance == nil {
		return true
	}
	if specErr(r) {
		return specBrokenCase(*o.caseInstance)
	}
	made, ok := r.(Case)
	if !ok || !specBranch(made, *o.caseInstance, o.whenExpression, expression) {
		return false
	}
	w, ok := made.expression.(Case)
	return ok && w.key == made.key && specBranch(w, *o.caseInstance, o.whenExpression, expression)
}

// @ ensures ListComprehensionCreate
// @ props C19 C04
func en_ListComprehensionCreate(variable SymbolicName, listExpression Expression, where Where, listDefinition Expression, r ListComprehension) bool {
	w, ok := r.expression.(ListComprehension)
	if variable.err != nil || listExpression == nil || specErr(listExpression) || where.err != nil || specErr(listDefinition) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.variable, variable) &&
		vcSame(r.listExpression, listExpression) &&
		vcSame(r.where, where) &&
		vcSame(r.listDefinition, listDefinition)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.variable, variable) &&
		vcSame(w.listExpression, listExpression) &&
		vcSame(w.where, where) &&
		vcSame(w.listDefinition, listDefinition)
}

// @ ensures PatternComprehensionCreate
// @ props C19 C04
func en_PatternComprehensionCreate(pattern PatternElement, where Where, listDefinition Expression, r PatternComprehension) bool {
	w, ok := r.expression.(PatternComprehension)
	if pattern == nil || listDefinition == nil || specErr(pattern) || where.err != nil || specErr(listDefinition) {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.pattern, pattern) &&
		vcSame(r.where, where) &&
		vcSame(r.listDefinition, listDefinition)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.pattern, pattern) &&
		vcSame(w.where, where) &&
		vcSame(w.listDefinition, listDefinition)
}

// @ ensures ListPredicateCreate
// @ props C19 C04
func en_ListPredicateCreate(variable SymbolicName, listExpression Expression, where Where, r ListPredicate) bool {
	w, ok := r.expression.(ListPredicate)
	if variable.err != nil || specErr(listExpression) || where.err != nil || listExpression == nil || !listExpression.isNotNil() || !where.notNil {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.variable, variable) &&
		vcSame(r.listExpression, listExpression) &&
		vcSame(r.where, where)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.variable, variable) &&
		vcSame(w.listExpression, listExpression) &&
		vcSame(w.where, where)
}

// @ ensures ListOperatorDetailsCreate
// @ props C19 C04
func en_ListOperatorDetailsCreate(optionalStart Expression, dots Dot, optionalEnd Expression, r ListOperatorDetails) bool {
	if specErr(optionalStart) || specErr(optionalEnd) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.optionalStart, optionalStart) &&
		vcSame(r.dots, dots) &&
		vcSame(r.optionalEnd, optionalEnd)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures SubList
// @ props C19 C04
func en_SubList(targetExpression Expression, start Expression, end Expression, r ListOperator) bool {
	w, ok := r.expression.(ListOperator)
	if specErr(targetExpression) || targetExpression == nil || !targetExpression.isNotNil() || specErr(start) || start == nil || !start.isNotNil() || specErr(end) || end == nil || !end.isNotNil() {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.targetExpression, targetExpression) &&
		r.details.err == nil && r.details.notNil &&
		vcSame(r.details.optionalStart, start) &&
		r.details.dots.notNil && r.details.dots.content == ".." &&
		vcSame(r.details.optionalEnd, end)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.targetExpression, targetExpression) &&
		w.details.err == nil && w.details.notNil &&
		vcSame(w.details.optionalStart, start) &&
		w.details.dots.notNil && w.details.dots.content == ".." &&
		vcSame(w.details.optionalEnd, end)
}

// @ ensures SubListFrom
// @ props C19 C04
func en_SubListFrom(targetExpression Expression, start Expression, r ListOperator) bool {
	w, ok := r.expression.(ListOperator)
	if specErr(targetExpression) || targetExpression == nil || !targetExpression.isNotNil() || specErr(start) || start == nil || !start.isNotNil() {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.targetExpression, targetExpression) &&
		r.details.err == nil && r.details.notNil &&
		vcSame(r.details.optionalStart, start) &&
		r.details.dots.notNil && r.details.dots.content == ".." &&
		r.details.optionalEnd == nil) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.targetExpression, targetExpression) &&
		w.details.err == nil && w.details.notNil &&
		vcSame(w.details.optionalStart, start) &&
		w.details.dots.notNil && w.details.dots.content == ".." &&
		w.details.optionalEnd == nil
}

// @ ensures SubListUntil
// @ props C19 C04
func en_SubListUntil(targetExpression Expression, end Expression, r ListOperator) bool {
	w, ok := r.expression.(ListOperator)
	if specErr(targetExpression) || targetExpression == nil || !targetExpression.isNotNil() || specErr(end) || end == nil || !end.isNotNil() {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.targetExpression, targetExpression) &&
		r.details.err == nil && r.details.notNil &&
		r.details.optionalStart == nil &&
		r.details.dots.notNil && r.details.dots.content == ".." &&
		vcSame(r.details.optionalEnd, end)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.targetExpression, targetExpression) &&
		w.details.err == nil && w.details.notNil &&
		w.details.optionalStart == nil &&
		w.details.dots.notNil && w.details.dots.content == ".." &&
		vcSame(w.details.optionalEnd, end)
}

// @ ensures ValueAt
// @ props C19 C04
func en_ValueAt(targetExpression Expression, index Expression, r ListOperator) bool {
	w, ok := r.expression.(ListOperator)
	if specErr(targetExpression) || targetExpression == nil || !targetExpression.isNotNil() || specErr(index) || index == nil || !index.isNotNil() {
		return r.err != nil && ok && w.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.targetExpression, targetExpression) &&
		r.details.err == nil && r.details.notNil &&
		vcSame(r.details.optionalStart, index) &&
		!r.details.dots.notNil &&
		r.details.optionalEnd == nil) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return ok && w.key == r.key && w.err == nil && w.notNil &&
		vcSame(w.targetExpression, targetExpression) &&
		w.details.err == nil && w.details.notNil &&
		vcSame(w.details.optionalStart, index) &&
		!w.details.dots.notNil &&
		w.details.optionalEnd == nil
}

// @ ensures ListComprehensionBuilderCreate
// @ props C19 C04
func en_ListComprehensionBuilderCreate(variable SymbolicName, r ListComprehensionBuilder) bool {
	return vcSame(r.variable, variable) && r.listExpression == nil && !r.where.notNil && (r.err != nil) == (variable.err != nil)
}

// @ ensures ListComprehensionBuilder.In
// @ props C19
func en_ListComprehensionBuilder_In(l ListComprehensionBuilder, list Expression, r OngoingDefinitionWithList) bool {
	b, ok := r.(ListComprehensionBuilder)
	return ok && vcSame(b.variable, l.variable) && vcSame(b.listExpression, list) && vcSame(b.where, l.where) && (b.err != nil) == (l.err != nil)
}

// @ ensures ListComprehensionBuilder.Where
// @ props C19 C04
func en_ListComprehensionBuilder_Where(l ListComprehensionBuilder, condition Condition, r OngoingDefinitionWithoutReturn) bool {
	b, ok := r.(ListComprehensionBuilder)
	return ok && vcSame(b.variable, l.variable) && vcSame(b.listExpression, l.listExpression) && (b.err != nil) == (l.err != nil) &&
		specWhere(b.where, condition)
}

func specWhere(w Where, condition Condition) bool {
	if specErr(condition) {
		return w.err != nil
	}
	return w.err == nil && w.notNil && vcSame(w.condition, condition)
}

func specComprehension(r ListComprehension, l ListComprehensionBuilder, definition Expression) bool {
	if l.err != nil || l.variable.err != nil || l.listExpression == nil || specErr(l.listExpression) || l.where.err != nil || specErr(definition) {
		return r.err != nil
	}
	return r.err == nil && r.notNil && vcSame(r.variable, l.variable) && vcSame(r.listExpression, l.listExpression) &&
		vcSame(r.where, l.where) && vcSame(r.listDefinition, definition)
}

// @ ensures ListComprehensionBuilder.build
// @ props C19 C04
func en_ListComprehensionBuilder_build(l ListComprehensionBuilder, listDefinition Expression, r ListComprehension) bool {
	return specComprehension(r, l, listDefinition)
}

// @ ensures ListComprehensionBuilder.ReturningDefault
// @ props C19 C04
func en_ListComprehensionBuilder_ReturningDefault(l ListComprehensionBuilder, r ListComprehension) bool {
	return specComprehension(r, l, nil)
}

// @ ensures ListComprehensionBuilder.Returning
// @ props C19 C04
func en_ListComprehensionBuilder_Returning(l ListComprehensionBuilder, expressions []Expression, r ListComprehension) bool {
	if len(expressions) == 0 {
		return r.err != nil
	}
	if len(expressions) == 1 {
		return specComprehension(r, l, expressions[0])
	}
	if vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
		return r.err != nil
	}
	if l.err != nil || l.variable.err != nil || l.listExpression == nil || specErr(l.listExpression) || l.where.err != nil {
		return r.err != nil
	}
	return r.err == nil && r.notNil && vcSame(r.variable, l.variable) && vcSame(r.listExpression, l.listExpression) &&
		vcSame(r.where, l.where) && specListOf(r.listDefinition, expressions)
}

func specListOf(x Expression, expressions []Expression) bool {
	list, ok := x.(ListExpression)
	return ok && list.err == nil && list.notNil && list.content.err == nil && list.content.notNil && len(list.content.expressions) == len(expressions) &&
		vcAll(len(expressions), func(i int) bool { return vcSame(list.content.expressions[i], expressions[i]) })
}

// @ ensures ListOrSingleExpression
// @ props C19 C04
func en_ListOrSingleExpression(expressions []Expression, r Expression) bool {
	if len(expressions) == 0 {
		return specErr(r)
	}
	if len(expressions) == 1 {
		return vcSame(r, expressions[0])
	}
	if vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
		return specErr(r)
	}
	return specListOf(r, expressions)
}

// @ ensures ListExpressionCreate1
// @ props C07 C04
func en_ListExpressionCreate1(expressions []Expression, r ListExpression) bool {
	if vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
		return r.err != nil
	}
	return specListOf(r, expressions)
}

// @ ensures ListOf
// @ props C07 C04
func en_ListOf(expressions []Expression, r ListExpression) bool {
	if vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
		return r.err != nil
	}
	return specListOf(r, expressions)
}

// @ ensures PatternComprehensionBuilderCreate
// @ props C19 C04
func en_PatternComprehensionBuilderCreate(pattern PatternElement, r PatternComprehensionBuilder) bool {
	return vcSame(r.pattern, pattern) && r.conditionBuilder.condition == nil && (r.err != nil) == specErr(pattern)
}

// @ ensures PatternComprehensionBasedOn
// @ props C19 C04
func en_PatternComprehensionBasedOn(pattern RelationshipPattern, r PatternComprehensionOngoingDefinitionWithPattern) bool {
	b, ok := r.(PatternComprehensionBuilder)
	if specErr(pattern) || !pattern.isNotNil() {
		return ok && b.err != nil
	}
	return ok && b.err == nil && vcSame(b.pattern, pattern) && b.conditionBuilder.condition == nil
}

// @ ensures PatternComprehensionBasedOnNamePath
// @ props C19 C04
func en_PatternComprehensionBasedOnNamePath(pattern NamedPath, r PatternComprehensionOngoingDefinitionWithPattern) bool {
	b, ok := r.(PatternComprehensionBuilder)
	if specErr(pattern) || !pattern.notNil {
		return ok && b.err != nil
	}
	return ok && b.err == nil && vcSame(b.pattern, pattern) && b.conditionBuilder.condition == nil
}

// @ ensures ListBasedOn
// @ props C19 C04
func en_ListBasedOn(pattern RelationshipPattern, r PatternComprehensionOngoingDefinitionWithPattern) bool {
	b, ok := r.(PatternComprehensionBuilder)
	if specErr(pattern) || !pattern.isNotNil() {
		return ok && b.err != nil
	}
	return ok && b.err == nil && vcSame(b.pattern, pattern) && b.conditionBuilder.condition == nil
}

// @ ensures ListBasedOnNamed
// @ props C19 C04
func en_ListBasedOnNamed(namedPath NamedPath, r PatternComprehensionOngoingDefinitionWithPattern) bool {
	b, ok := r.(PatternComprehensionBuilder)
	if specErr(namedPath) || !namedPath.notNil {
		return ok && b.err != nil
	}
	return ok && b.err == nil && vcSame(b.pattern, namedPath) && b.conditionBuilder.condition == nil
}

// @ ensures PatternComprehensionBuilder.Returning
// @ props C19 C04
func en_PatternComprehensionBuilder_Returning(p PatternComprehensionBuilder, listDefinitions []Expression, r PatternComprehension) bool {
	if p.err != nil || len(listDefinitions) == 0 || vcAny(len(listDefinitions), func(i int) bool { return specErr(listDefinitions[i]) }) || specErr(p.conditionBuilder.condition) || p.pattern == nil || specErr(p.pattern) {
		return r.err != nil
	}
	if len(listDefinitions) == 1 {
		if listDefinitions[0] == nil {
			return r.err != nil
		}
		if !vcSame(r.listDefinition, listDefinitions[0]) {
			return false
		}
	} else if !specListOf(r.listDefinition, listDefinitions) {
		return false
	}
	if specConditioned(p.conditionBuilder) {
		if r.where.err != nil || !r.where.notNil || !vcSame(r.where.condition, p.conditionBuilder.condition) {
			return false
		}
	} else if r.where.notNil {
		return false
	}
	return r.err == nil && r.notNil && vcSame(r.pattern, p.pattern)
}

// specConditioned: there is a condition that is not the empty one.
func specConditioned(b ConditionBuilder) bool {
	if b.condition == nil || !b.condition.isNotNil() {
		return false
	}
	compound, isCompound := b.condition.(CompoundCondition)
	return !isCompound || (compound.conditionType != EMPTY_CONDITION_EXPRESSION && len(compound.conditions) > 0)
}

// @ ensures ConditionBuilder.hasCondition
// @ props C10 C08
func en_ConditionBuilder_hasCondition(c *ConditionBuilder, r bool) bool {
	return r == specConditioned(*c)
}

// @ ensures ConditionBuilder.buildCondition
// @ props C10 C08
func en_ConditionBuilder_buildCondition(c *ConditionBuilder, r Condition) bool {
	if specConditioned(*c) || specErr(c.condition) {
		return vcSame(r, c.condition)
	}
	return r == nil
}

// @ ensures ConditionBuilder.getError
// @ props C04
func en_ConditionBuilder_getError(c *ConditionBuilder, r error) bool {
	return (r != nil) == specErr(c.condition)
}

// @ ensures ArgumentsCreate
// @ props C18 C04
func en_ArgumentsCreate(expression []Expression, r Arguments) bool {
	if vcAny(len(expression), func(i int) bool { return specErr(expression[i]) }) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		len(r.expressions) == len(expression) && vcAll(len(expression), func(i int) bool { return vcSame(r.expressions[i], expression[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures YieldItemsCreate
// @ props C18 C04
func en_YieldItemsCreate(expressions []Expression, r YieldItems) bool {
	if len(expressions) == 0 || vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		len(r.expressions) == len(expressions) && vcAll(len(expressions), func(i int) bool { return vcSame(r.expressions[i], expressions[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures WhereCreate
// @ props C08 C04
func en_WhereCreate(condition Condition, r Where) bool {
	if specErr(condition) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.condition, condition)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures MatchPhraseCreate
// @ props C08 C04
func en_MatchPhraseCreate(optional bool, pattern Pattern, optionalWhere Where, r MatchPhrase) bool {
	if pattern.err != nil || optionalWhere.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.optional == optional &&
		vcSame(r.pattern, pattern) &&
		vcSame(r.optionalWhere, optionalWhere)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures PatternCreate
// @ props C08 C16 C04
func en_PatternCreate(patternElements []PatternElement, r Pattern) bool {
	if vcAny(len(patternElements), func(i int) bool { return specErr(patternElements[i]) }) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		len(r.patternElements) == len(patternElements) && vcAll(len(patternElements), func(i int) bool { return vcSame(r.patternElements[i], patternElements[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures createcreate
// @ props C08 C20 C04
func en_createcreate(pattern Pattern, r create) bool {
	if pattern.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.pattern, pattern)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures DeleteCreate
// @ props C20 C04
func en_DeleteCreate(deleteItems ExpressionList, detach bool, r Delete) bool {
	if deleteItems.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.deleteItems, deleteItems) &&
		r.detach == detach) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures SetCreate
// @ props C20 C04
func en_SetCreate(setItems ExpressionList, r Set) bool {
	if setItems.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.setItems, setItems)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures RemoveCreate
// @ props C20 C04
func en_RemoveCreate(setItems ExpressionList, r Remove) bool {
	if setItems.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.setItems, setItems)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures mergeCreate
// @ props C20 C04
func en_mergeCreate(pattern Pattern, r merge) bool {
	if pattern.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.pattern, pattern) &&
		len(r.onCreateOrMatchEvents) == 0) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures mergeCreate1
// @ props C20 C04
func en_mergeCreate1(pattern Pattern, mergeActions []MergeAction, r merge) bool {
	if pattern.err != nil || vcAny(len(mergeActions), func(i int) bool { return mergeActions[i].err != nil }) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.pattern, pattern) &&
		specActions(r, mergeActions)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// specActions: the actions in order, after the blank.
func specActions(m merge, actions []MergeAction) bool {
	return len(m.onCreateOrMatchEvents) == len(actions)+1 && specIsBlank(m.onCreateOrMatchEvents[0]) &&
		vcAll(len(actions), func(i int) bool {
			a, ok := m.onCreateOrMatchEvents[i+1].(MergeAction)
			return ok && vcSame(a, actions[i])
		})
}

func specIsBlank(v Visitable) bool {
	return vcSame(v, BLANK)
}

// @ ensures MergeActionCreate
// @ props C20 C04
func en_MergeActionCreate(mergeType MERGE_TYPE, set Set, r MergeAction) bool {
	if set.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.mergeType, mergeType) &&
		vcSame(r.set, set)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures OrderCreate
// @ props C17 C04
func en_OrderCreate(sortItems []SortItem, r Order) bool {
	if vcAny(len(sortItems), func(i int) bool { return sortItems[i].err != nil }) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		len(r.sortItems) == len(sortItems) && vcAll(len(sortItems), func(i int) bool { return vcSame(r.sortItems[i], sortItems[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures SortItemCreate
// @ props C17 C04
func en_SortItemCreate(expression Expression, direction SortDirectionRaw, r SortItem) bool {
	if expression == nil || specErr(expression) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.expression, expression) &&
		r.direction.value == direction) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures ReturnCreate
// @ props C08 C04
func en_ReturnCreate(distinctInstance Distinct, body ReturnBody, r Return) bool {
	if body.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.distinct, distinctInstance) &&
		vcSame(r.body, body)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures ReturnBodyCreate
// @ props C08 C17 C04
func en_ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit Limit, r ReturnBody) bool {
	if returnItems.err != nil || order.err != nil || skip.err != nil || limit.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.returnItems, returnItems) &&
		vcSame(r.order, order) &&
		vcSame(r.skip, skip) &&
		vcSame(r.limit, limit)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures ReturnCreate1
// @ props C08 C17 C04
func en_ReturnCreate1(distinct bool, returnItems ExpressionList, order Order, skip Skip, limit Limit, r Return) bool {
	if returnItems.err != nil || order.err != nil || skip.err != nil || limit.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.distinct.notNil == distinct &&
		r.body.err == nil && r.body.notNil &&
		vcSame(r.body.returnItems, returnItems) &&
		vcSame(r.body.order, order) &&
		vcSame(r.body.skip, skip) &&
		vcSame(r.body.limit, limit)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures withCreate
// @ props C08 C17 C04
func en_withCreate(distinct bool, returnItems ExpressionList, order Order, skip Skip, limit Limit, where Where, r with) bool {
	if returnItems.err != nil || order.err != nil || skip.err != nil || limit.err != nil || where.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.distinct.notNil == distinct &&
		r.body.err == nil && r.body.notNil &&
		vcSame(r.body.returnItems, returnItems) &&
		vcSame(r.body.order, order) &&
		vcSame(r.body.skip, skip) &&
		vcSame(r.body.limit, limit) &&
		vcSame(r.where, where)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures unwindCreate
// @ props C08 C09 C04
func en_unwindCreate(expressionToUnwind Expression, variable string, r UnwindPhrase) bool {
	if expressionToUnwind == nil || specErr(expressionToUnwind) || variable == "" {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.variable == variable &&
		specUnwound(r.expressionToUnwind, expressionToUnwind)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// specUnwound: an aliased expression is unwound by its alias.
func specUnwound(x Expression, e Expression) bool {
	aliased, isAliased := e.(AliasedExpression)
	if isAliased {
		name, ok := x.(SymbolicName)
		return ok && (aliased.alias == "" || name.err == nil && name.notNil && name.value == aliased.alias)
	}
	return vcSame(x, e)
}

// @ ensures ProcedureCallCreate
// @ props C18 C04
func en_ProcedureCallCreate(name ProcedureName, arguments Arguments, yieldItems YieldItems, optionalWhere Where, r ProcedureCall) bool {
	if name.err != nil || arguments.err != nil || yieldItems.err != nil || optionalWhere.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.name, name) &&
		vcSame(r.arguments, arguments) &&
		vcSame(r.yieldItems, yieldItems) &&
		vcSame(r.optionalWhere, optionalWhere)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures ProcedureNameCreate1
// @ props C18 C01
func en_ProcedureNameCreate1(value string, r ProcedureName) bool {
	if !(r.err == nil && r.notNil &&
		r.value == value &&
		!r.optionalNamespace.notNil) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures ProcedureNameCreate2
// @ props C18 C01 C04
func en_ProcedureNameCreate2(namespace Namespace, value string, r ProcedureName) bool {
	if namespace.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.value == value &&
		vcSame(r.optionalNamespace, namespace)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures ProcedureNameCreate
// @ props C18 C01
func en_ProcedureNameCreate(namespaceAndProcedure []string, r ProcedureName) bool {
	if len(namespaceAndProcedure) == 0 {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		specQualified(r, namespaceAndProcedure)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// specQualified: the last part is the name, the others are its namespace.
func specQualified(p ProcedureName, parts []string) bool {
	n := len(parts) - 1
	if p.value != parts[n] {
		return false
	}
	if n == 0 {
		return !p.optionalNamespace.notNil
	}
	return p.optionalNamespace.notNil && p.optionalNamespace.err == nil && len(p.optionalNamespace.content) == n &&
		vcAll(n, func(i int) bool { return p.optionalNamespace.content[i] == parts[i] })
}

// @ ensures RelationshipLengthCreate
// @ props C16
func en_RelationshipLengthCreate(unbounded bool, r RelationshipLength) bool {
	if !(r.err == nil && r.notNil &&
		r.unbounded == unbounded &&
		r.minimum == nil && r.maximum == nil) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures RelationshipLengthCreate1
// @ props C16
func en_RelationshipLengthCreate1(minimum *int, maximum *int, r RelationshipLength) bool {
	if !(r.err == nil && r.notNil &&
		r.minimum == minimum && r.maximum == maximum &&
		!r.unbounded) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures RelationshipTypesCreate
// @ props C16
func en_RelationshipTypesCreate(types []string, r RelationshipTypes) bool {
	if !(r.err == nil && r.notNil &&
		len(r.values) == len(types) && vcAll(len(types), func(i int) bool { return vcSame(r.values[i], types[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures SubqueryCreate
// @ props C18 C04
func en_SubqueryCreate(statement Statement, r Subquery) bool {
	if specErr(statement) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.statement, statement)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures SubqueryCall
// @ props C18 C04
func en_SubqueryCall(statement Statement, r Subquery) bool {
	if specErr(statement) || !specReturns(statement) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		vcSame(r.statement, statement)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// specReturns: the statement returns elements, by RETURN or by YIELD.
func specReturns(s Statement) bool {
	single, isSingle := s.(SinglePartQuery)
	if isSingle {
		return single.aReturn.notNil
	}
	multi, isMulti := s.(MultiPartQuery)
	if isMulti {
		return multi.remainder.aReturn.notNil
	}
	call, isCall := s.(ProcedureCall)
	if isCall {
		return call.yieldItems.notNil
	}
	_, isUnion := s.(UnionQuery)
	return isUnion
}

// @ ensures UnionPartCreate
// @ props C18 C04
func en_UnionPartCreate(all bool, query SingleQuery, r UnionPart) bool {
	if specErr(query) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.all == all &&
		vcSame(r.query, query)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures UnionQueryCreate
// @ props C18 C04
func en_UnionQueryCreate(all bool, queries []SingleQuery, r UnionQuery) bool {
	if len(queries) < 2 || vcAny(len(queries), func(i int) bool { return specErr(queries[i]) }) {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		r.all == all &&
		vcSame(r.firstQuery, queries[0]) &&
		len(r.additionalQueries) == len(queries)-1 && vcAll(len(queries)-1, func(i int) bool { return specUnionPart(r.additionalQueries[i], all, queries[i+1]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

func specUnionPart(p UnionPart, all bool, query SingleQuery) bool {
	return p.err == nil && p.notNil && p.all == all && vcSame(p.query, query)
}

// @ ensures unionQueryCreate1
// @ props C18
func en_unionQueryCreate1(all bool, firstQuery SingleQuery, additionalQueries []UnionPart, r UnionQuery) bool {
	if !(r.err == nil && r.notNil &&
		r.all == all &&
		vcSame(r.firstQuery, firstQuery) &&
		len(r.additionalQueries) == len(additionalQueries) && vcAll(len(additionalQueries), func(i int) bool { return vcSame(r.additionalQueries[i], additionalQueries[i]) })) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures SinglePartQueryCreate
// @ props C08 C13 C04
func en_SinglePartQueryCreate(clauses []Visitable, aReturn Return, r SinglePartQuery) bool {
	if specUnfinished(clauses) && !aReturn.notNil || vcAny(len(clauses), func(i int) bool { return specErr(clauses[i]) }) || aReturn.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		len(r.precedingClauses) == len(clauses) && vcAll(len(clauses), func(i int) bool { return vcSame(r.precedingClauses[i], clauses[i]) }) &&
		vcSame(r.aReturn, aReturn)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// specUnfinished: nothing, or reading without anything done with it.
func specUnfinished(clauses []Visitable) bool {
	if len(clauses) == 0 {
		return true
	}
	_, isMatch := clauses[len(clauses)-1].(MatchPhrase)
	return isMatch
}

// @ ensures MultiPartElementCreate
// @ props C08 C13 C04
func en_MultiPartElementCreate(precedingClauses []Visitable, with with, r MultiPartElement) bool {
	if vcAny(len(precedingClauses), func(i int) bool { return specErr(precedingClauses[i]) }) || with.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		specAllOf(r.precedingClauses, precedingClauses) &&
		vcSame(r.with, with)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// specAllOf: the same clauses in the same order.
func specAllOf(r []Visitable, clauses []Visitable) bool {
	if len(clauses) == 0 {
		return len(r) == 0
	}
	return len(r) == len(clauses) && vcAll(len(clauses), func(i int) bool { return vcSame(r[i], clauses[i]) })
}

// @ ensures CreateBuilder.build
// @ props C20 C13 C04
func en_CreateBuilder_build(c CreateBuilder, r UpdatingClause) bool {
	if vcAny(len(c.patternElements), func(i int) bool { return specErr(c.patternElements[i]) }) {
		return specErr(r)
	}
	made, ok := r.(create)
	return ok && made.err == nil && made.notNil && specPatternOf(made.pattern, c.patternElements)
}

// @ ensures MergeBuilder.build
// @ props C20 C13 C04
func en_MergeBuilder_build(c MergeBuilder, r UpdatingClause) bool {
	if vcAny(len(c.patternElements), func(i int) bool { return specErr(c.patternElements[i]) }) ||
		vcAny(len(c.mergeActions), func(i int) bool { return c.mergeActions[i].err != nil }) {
		return specErr(r)
	}
	made, ok := r.(merge)
	return ok && made.err == nil && made.notNil && specPatternOf(made.pattern, c.patternElements) && specActions(made, c.mergeActions)
}

func specPatternOf(p Pattern, elements []PatternElement) bool {
	return p.err == nil && p.notNil && len(p.patternElements) == len(elements) &&
		vcAll(len(elements), func(i int) bool { return vcSame(p.patternElements[i], elements[i]) })
}

// @ ensures MultiPartQueryCreate
// @ props C08 C13 C04
func en_MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery, r MultiPartQuery) bool {
	if vcAny(len(parts), func(i int) bool { return parts[i].err != nil }) || remainder.err != nil {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		len(r.parts) == len(parts) && vcAll(len(parts), func(i int) bool { return vcSame(r.parts[i], parts[i]) }) &&
		vcSame(r.remainder, remainder)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures SinglePartQuery.doesReturnElements
// @ props C18
func en_SinglePartQuery_doesReturnElements(s SinglePartQuery, r bool) bool {
	return r == s.aReturn.notNil
}

// @ ensures MultiPartQuery.doesReturnElements
// @ props C18
func en_MultiPartQuery_doesReturnElements(m MultiPartQuery, r bool) bool {
	return r == m.remainder.aReturn.notNil
}

// @ ensures ProcedureCall.doesReturnElements
// @ props C18
func en_ProcedureCall_doesReturnElements(p ProcedureCall, r bool) bool {
	return r == p.yieldItems.notNil
}

// @ ensures Delete.isDetach
// @ props C20
func en_Delete_isDetach(d Delete, r bool) bool {
	return r == d.detach
}

// @ ensures MatchPhrase.isOptional
// @ props C08
func en_MatchPhrase_isOptional(match MatchPhrase, r bool) bool {
	return r == match.optional
}

// @ ensures UnionPart.isAll
// @ props C18
func en_UnionPart_isAll(u UnionPart, r bool) bool {
	return r == u.all
}

// @ ensures merge.hasEvent
// @ props C20
func en_merge_hasEvent(m merge, r bool) bool {
	return r == (len(m.onCreateOrMatchEvents) > 0)
}

// @ ensures AliasedExpression.GetAlias
// @ props C09
func en_AliasedExpression_GetAlias(aliased AliasedExpression, r string) bool {
	return r == aliased.alias
}

// @ ensures FunctionArgumentListCreate
// @ props C12 C04
func en_FunctionArgumentListCreate(visitables []Visitable, r FunctionArgumentList) bool {
	return (r.err != nil) == vcAny(len(visitables), func(i int) bool { return specErr(visitables[i]) }) &&
		len(r.expressions) == len(visitables) && vcAll(len(visitables), func(i int) bool { return vcSame(r.expressions[i], visitables[i]) })
}

// @ ensures LimitCreate
// @ props C17
func en_LimitCreate(number int, r Limit) bool {
	if number <= 0 {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		specNumber(r.limitAmount, number)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// @ ensures SkipCreate
// @ props C17
func en_SkipCreate(number int, r Skip) bool {
	if number < 0 {
		return r.err != nil
	}
	if !(r.err == nil && r.notNil &&
		specNumber(r.skipAmount, number)) {
		return false
	}
	if !vcFresh(r.key) {
		return false
	}
	return true
}

// specNumber: the literal of this number.
func specNumber(l NumberLiteral, number int) bool {
	return vcSame(l, NumberLiteralCreate1(number))
}

// @ ensures MatchBuilder.buildMatch
// @ props C08 C13
func en_MatchBuilder_buildMatch(builder MatchBuilder, r MatchPhrase) bool {
	return vcSame(r, MatchPhraseCreate(builder.optional, PatternCreate(builder.patternList), specBuiltWhere(builder.conditionBuilder)))
}

func specBuiltWhere(b ConditionBuilder) Where {
	if specConditioned(b) || specErr(b.condition) {
		return WhereCreate(b.condition)
	}
	return Where{}
}

// @ ensures AnAsterisk
// @ props C08
func en_AnAsterisk(r Asterisk) bool {
	return vcSame(r, ASTERISK)
}

// @ ensures APropertyByExpression
// @ props C01
func en_APropertyByExpression(expression Expression, name string, r Property) bool {
	return vcSame(r, PropertyCreate2(expression, name))
}

// @ ensures AProperty
// @ props C01
func en_AProperty(containerName string, name string, r Property) bool {
	return vcSame(r, PropertyCreate2(SymbolicNameCreate(containerName), name))
}

// @ ensures ASymbolic
// @ props C01
func en_ASymbolic(value string, r SymbolicName) bool {
	return vcSame(r, SymbolicNameCreate(value))
}

// @ ensures AParam
// @ props C01
func en_AParam(name string, r Parameter) bool {
	return vcSame(r, ParameterCreate(name))
}

// @ ensures Sort
// @ props C17
func en_Sort(expression Expression, r SortItem) bool {
	return vcSame(r, SortItemCreate(expression, UNDEFINED))
}

// @ ensures CreateAscendingSortItem
// @ props C17
func en_CreateAscendingSortItem(expression Expression, r SortItem) bool {
	return vcSame(r, SortItemCreate(expression, ASC))
}

// @ ensures CreateDescendingSortItem
// @ props C17
func en_CreateDescendingSortItem(expression Expression, r SortItem) bool {
	return vcSame(r, SortItemCreate(expression, DESC))
}

// @ ensures LiteralTrue
// @ props C03
func en_LiteralTrue(r BooleanLiteral) bool {
	return vcSame(r, BooleanLiteralCreate(true))
}

// @ ensures LiteralFalse
// @ props C03
func en_LiteralFalse(r BooleanLiteral) bool {
	return vcSame(r, BooleanLiteralCreate(false))
}

// @ ensures GenericCaseExpression
// @ props C19
func en_GenericCaseExpression(r Case) bool {
	return vcSame(r, GenericCaseCreate1())
}

// @ ensures CaseExpression
// @ props C19
func en_CaseExpression(expression Expression, r Case) bool {
	return vcSame(r, SimpleCaseCreate1(expression))
}

// @ ensures ExistentialSubqueryExists
// @ props C18
func en_ExistentialSubqueryExists(fragment MatchPhrase, r ExistentialSubquery) bool {
	return vcSame(r, ExistentialSubqueryCreate(fragment))
}

// @ ensures StatementCall
// @ props C18
func en_StatementCall(namespaceAndProcedure []string, r OngoingStandaloneCallWithoutArguments) bool {
	return vcSame(r, StandaloneCallBuilderCreate(ProcedureNameCreate(namespaceAndProcedure...)))
}

// @ ensures ACall
// @ props C18
func en_ACall(namespaceAndProcedure []string, r OngoingStandaloneCallWithoutArguments) bool {
	return vcSame(r, StandaloneCallBuilderCreate(ProcedureNameCreate(namespaceAndProcedure...)))
}

// @ ensures RelationshipLength.Unbounded
// @ props C16
func en_RelationshipLength_Unbounded(relationshipLength RelationshipLength, r RelationshipLength) bool {
	return vcSame(r, RelationshipLengthCreate(true))
}

// @ ensures DeleteBuilder.build
// @ props C20 C13
func en_DeleteBuilder_build(c DeleteBuilder, r UpdatingClause) bool {
	return vcSame(r, c.delete)
}

// @ ensures SetBuilder.build
// @ props C20 C13
func en_SetBuilder_build(s SetBuilder, r UpdatingClause) bool {
	return vcSame(r, s.set)
}

// @ ensures RemoveBuilder.build
// @ props C20 C13
func en_RemoveBuilder_build(b RemoveBuilder, r UpdatingClause) bool {
	return vcSame(r, b.remove)
}

// @ ensures ASubList
// @ props C19
func en_ASubList(targetExpression Expression, start int, end int, r Expression) bool {
	return specAccess(r, targetExpression, true, true, start, true, true, end)
}

// @ ensures CypherSubListFrom
// @ props C19
func en_CypherSubListFrom(targetExpression Expression, start int, r Expression) bool {
	return specAccess(r, targetExpression, true, true, start, true, false, 0)
}

// @ ensures ASubListUntil
// @ props C19
func en_ASubListUntil(targetExpression Expression, end int, r Expression) bool {
	return specAccess(r, targetExpression, true, false, 0, true, true, end)
}

// @ ensures CypherValueAt
// @ props C19
func en_CypherValueAt(targetExpression Expression, index int, r Expression) bool {
	return specAccess(r, targetExpression, true, true, index, false, false, 0)
}

func specAccess(x Expression, target Expression, _ bool, hasStart bool, start int, dots bool, hasEnd bool, end int) bool {
	if !specPart(target) || specErr(target) {
		return specErr(x)
	}
	l, ok := x.(ListOperator)
	if !ok || l.err != nil || !l.notNil || !vcSame(l.targetExpression, target) || l.details.err != nil || !l.details.notNil {
		return false
	}
	if dots != l.details.dots.notNil || dots && l.details.dots.content != ".." {
		return false
	}
	if hasStart {
		s, ok := l.details.optionalStart.(NumberLiteral)
		if !ok || !specNumber(s, start) {
			return false
		}
	} else if l.details.optionalStart != nil {
		return false
	}
	if hasEnd {
		e, ok := l.details.optionalEnd.(NumberLiteral)
		return ok && specNumber(e, end)
	}
	return l.details.optionalEnd == nil
}

// @ ensures ASubListFromByExpression
// @ props C19
func en_ASubListFromByExpression(targetExpression Expression, start Expression, r Expression) bool {
	return vcSame(r, SubListFrom(targetExpression, start))
}

// @ ensures CypherSubListUntilByExpression
// @ props C19
func en_CypherSubListUntilByExpression(targetExpression Expression, end Expression, r Expression) bool {
	return vcSame(r, SubListUntil(targetExpression, end))
}

// @ ensures CypherValueAtByExpression
// @ props C19
func en_CypherValueAtByExpression(targetExpression Expression, index Expression, r Expression) bool {
	return vcSame(r, ValueAt(targetExpression, index))
}

// @ ensures LiteralOf
// @ props C03 C04
func en_LiteralOf(object interface{}, r Literal) bool {
	if object == nil {
		l, ok := r.(NilLiteral)
		return ok && l.notNil && l.err == nil
	}
	if text, isString := object.(string); isString {
		l, ok := r.(StringLiteral)
		return ok && l.notNil && l.err == nil && l.content == text
	}
	if number, isInt := object.(int); isInt {
		return vcSame(r, NumberLiteralCreate1(number))
	}
	if number, isFloat := object.(float64); isFloat {
		return vcSame(r, NumberLiteralCreate2(number))
	}
	if truth, isBool := object.(bool); isBool {
		l, ok := r.(BooleanLiteral)
		return ok && l.notNil && l.err == nil && l.content == truth
	}
	if list, isList := object.([]Literal); isList {
		l, ok := r.(ListLiteral)
		if vcAny(len(list), func(i int) bool { return specErr(list[i]) }) {
			return specErr(r)
		}
		return ok && l.err == nil && l.notNil && len(l.content) == len(list) && vcAll(len(list), func(i int) bool { return vcSame(l.content[i], list[i]) })
	}
	return specErr(r)
}
