package cypher

import "strings"

// Contracts on conversions and on steps that extend a value already built.

//@ hide prepareSetExpression ExpressionListCreate OngoingWhenThenCreate LiteralOf NodeLabelCreate NodeLabelsCreate MapExpressionCreate EntryExpressionCreate MergeBuilder.on
//@ hide KeyValueMapEntryCreate PropertyLookupCreate contentAt Property.getName AliasedExpression.GetAlias
//@ hide SortItemCreate
//@ via Node.GetRequiredSymbolicName

// @ ensures NewExpressionList
// @ props C07 C12
func mo_NewExpressionList(xs []Expression, r ExpressionList) bool {
	return vcSame(r, ExpressionListCreate(append(make([]Expression, 0), xs...)))
}

// @ ensures CaseWhenThen.When
// @ props C19
func mo_CaseWhenThen_When(c CaseWhenThen, next Expression, r OngoingWhenThen) bool {
	if c.err != nil || c.caseInstance == nil {
		return r.err != nil
	}
	return vcSame(r, OngoingWhenThenCreate(c.caseInstance, next))
}

// @ ensures OngoingWhenThenCreate
// @ props C19 C04
func mo_OngoingWhenThenCreate(c *Case, when Expression, r OngoingWhenThen) bool {
	if when == nil || when.GetError() != nil {
		return r.err != nil
	}
	return r.err == nil && r.whenExpression == when && r.caseInstance == c
}

// @ ensures PredicateBuilderCreate
// @ props C19 C04
func mo_PredicateBuilderCreate(predicate Predicate, name SymbolicName, r PredicateBuilder) bool {
	if !name.isNotNil() {
		return r.err != nil
	}
	return r.err == nil && r.predicate == predicate && vcSame(r.name, name)
}

// @ ensures MergeBuilder.on
// @ props C20 C13
func mo_MergeBuilder_on(c MergeBuilder, kind MERGE_TYPE, xs []Expression, r SupportsActionsOnTheUpdatingClause, err error) bool {
	pairs, bad := prepareSetExpression(xs)
	if bad != nil {
		return err != nil
	}
	m, ok := r.(MergeBuilder)
	return err == nil && ok && vcSame(m.patternElements, c.patternElements) && len(m.mergeActions) == len(c.mergeActions)+1 &&
		vcAll(len(c.mergeActions), func(i int) bool { return vcSame(m.mergeActions[i], c.mergeActions[i]) }) &&
		vcSame(m.mergeActions[len(c.mergeActions)], MergeActionCreate(kind, SetCreate(ExpressionListCreate(pairs))))
}

// @ ensures OngoingMergeActionInBuilder.Set
// @ props C20 C13
func mo_OngoingMergeActionInBuilder_Set(o OngoingMergeActionInBuilder, xs []Expression, r OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction) bool {
	if o.err != nil || specBadExpressions(xs) || o.defaultBuilder.err != nil {
		return true
	}
	m, ok := o.defaultBuilder.currentOngoingUpdate.builder.(MergeBuilder)
	if !ok {
		return true
	}
	next, err := m.on(o.mergeType, xs...)
	if err != nil {
		return true
	}
	n, _ := next.(MergeBuilder)
	d := *o.defaultBuilder
	d.currentOngoingUpdate.builder = n
	b, ok := r.(DefaultStatementBuilder)
	return ok && vcSame(b, d)
}

// @ ensures OngoingMergeActionInBuilder.SetWithNamed
// @ props C20 C13
func mo_OngoingMergeActionInBuilder_SetWithNamed(o OngoingMergeActionInBuilder, variable Named, x Expression, r OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction) bool {
	if o.err != nil || variable == nil || variable.GetError() != nil || x != nil && x.GetError() != nil {
		return true
	}
	return vcSame(r, o.Set(variable.GetRequiredSymbolicName(), x))
}

// specLabelled: the first n labels.
// @ rec
func specLabelled(xs []string, n int) []NodeLabel {
	if n <= 0 {
		return []NodeLabel{}
	}
	return append(specLabelled(xs, n-1), NodeLabelCreate(xs[n-1]))
}

func specBadLabels(node Node, operator Operator, labels []string) bool {
	return node.err != nil || operator.err != nil || !node.isNotNil() || !operator.isNotNil() || len(labels) == 0 || node.GetRequiredSymbolicName().err != nil ||
		operator.representation != SET_LABEL.representation && operator.representation != REMOVE_LABEL.representation
}

// @ ensures OperationCreate2
// @ props C20 C11 C04
func mo_OperationCreate2(node Node, operator Operator, labels []string, r Operation) bool {
	if specBadLabels(node, operator, labels) {
		return r.err != nil
	}
	left, ok := r.left.(SymbolicName)
	return r.err == nil && r.notNil && vcFresh(r.key) && ok && vcSame(left, node.GetRequiredSymbolicName()) && vcSame(r.operator, operator)
}

// @ ensures OperationCreate2
// @ props C20 C11
func mo_OperationCreate2Labels(node Node, operator Operator, labels []string, r Operation) bool {
	right, ok := r.right.(NodeLabels)
	return specBadLabels(node, operator, labels) || ok && vcSame(right, NodeLabelsCreate(specLabelled(labels, len(labels))))
}

// specEntries: the entries of the first n pairs.
// @ rec len
func specEntries(objects []interface{}, n int) []Expression {
	if n <= 0 {
		return []Expression{}
	}
	key, _ := objects[2*n-2].(string)
	value, ok := objects[2*n-1].(Expression)
	if !ok {
		value = LiteralOf(objects[2*n-1])
	}
	return append(specEntries(objects, n-1), EntryExpressionCreate(key, value))
}

// @ ensures NewMapExpression
// @ props C15 C04
func mo_NewMapExpression(objects []interface{}, r MapExpression) bool {
	if len(objects)%2 != 0 || vcAny(len(objects)/2, func(i int) bool { _, ok := objects[2*i].(string); return !ok }) {
		return r.err != nil
	}
	return r.err != nil || vcSame(r, MapExpressionCreate(specEntries(objects, len(objects)/2)))
}

// specTwice: a key is given twice.
func specTwice(objects []interface{}) bool {
	return vcAny(len(objects)/2, func(i int) bool {
		key, _ := objects[2*i].(string)
		return vcAny(i, func(j int) bool { other, _ := objects[2*j].(string); return other == key })
	})
}

// @ ensures NewMapExpression
// @ props C15 C04
func mo_NewMapExpressionKeys(objects []interface{}, r MapExpression) bool {
	if len(objects)%2 != 0 || vcAny(len(objects)/2, func(i int) bool { _, ok := objects[2*i].(string); return !ok }) {
		return true
	}
	if specTwice(objects) {
		return r.err != nil
	}
	return vcSame(r, MapExpressionCreate(specEntries(objects, len(objects)/2)))
}

// specEntry: what one part of a projection becomes.
func specEntry(key string, x Expression) Expression {
	if _, ok := x.(Asterisk); ok {
		x = PropertyLookupCreate("*")
	}
	if key != "" {
		return KeyValueMapEntryCreate(key, x)
	}
	if p, ok := x.(Property); ok {
		return p.getName()
	}
	if a, ok := x.(AliasedExpression); ok {
		return KeyValueMapEntryCreate(a.GetAlias(), a.delegate)
	}
	return x
}

// specContent: what the last n parts of a projection become.
// @ rec
func specContent(content []interface{}, n int) []Expression {
	if n <= 0 {
		return []Expression{}
	}
	i := len(content) - n
	x := contentAt(content, i)
	if name, ok := x.(string); ok {
		if n > 1 {
			if value, ok := contentAt(content, i+1).(Expression); ok {
				return append([]Expression{specEntry(name, value)}, specContent(content, n-2)...)
			}
		}
		return append([]Expression{PropertyLookupCreate(name)}, specContent(content, n-1)...)
	}
	value, _ := x.(Expression)
	return append([]Expression{specEntry("", value)}, specContent(content, n-1)...)
}

// @ ensures createNewContent
// @ props C15
func mo_createNewContent(content []interface{}, r []Expression, err error) bool {
	return err != nil || vcSame(r, specContent(content, len(content)))
}

// specRawItem: "name", "name ASC" or "name DESC".
func specRawItem(text string) SortItem {
	words := strings.Split(text, " ")
	direction := UNDEFINED
	if len(words) > 1 && words[1] == "ASC" {
		direction = ASC
	}
	if len(words) > 1 && words[1] == "DESC" {
		direction = DESC
	}
	return SortItemCreate(LiteralOf(words[0]), direction)
}

// specRawItems: the items of the first n texts.
// @ rec len
func specRawItems(xs []string, n int) []SortItem {
	if n <= 0 {
		return []SortItem{}
	}
	return append(specRawItems(xs, n-1), specRawItem(xs[n-1]))
}

// @ ensures SortItemsOfRaw
// @ props C17
func mo_SortItemsOfRaw(xs []string, r []SortItem) bool {
	return vcSame(r, specRawItems(xs, len(xs)))
}
