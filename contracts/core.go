package cypher

// Contracts of the steps of the statement builders that change the statement:
// what each adds, and that what was there before is kept, in order.

//@ fileprops C13
//@ opaque MatchBuilder.buildMatch UpdatingClauseBuilder.build ProcedureCallBuilder.Build
//@ use MultiPartElementCreate getUpdatingClauseBuilder
//@ via ExpressionsToVisitables DefaultStatementWithUpdateBuilderCreate2 PatternElementsToVisitables
//@ opaque SubqueryCall ProcedureNameCreate MultiPartElementCreate getUpdatingClauseBuilder OperationSetLabel OperationRemove
//@ opaque SinglePartQueryCreate MultiPartQueryCreate ReturnCreate1 withCreate WhereCreate ExpressionListCreate ExistentialSubqueryExists
//@ opaque OrderBuilder.BuildOrder ConditionBuilder.buildCondition ArgumentsCreate ProcedureCallCreate yieldAllOf unwindCreate

// specParts: the clauses of the part of the statement being built, in order,
// with the one that is still open.
func specParts(d DefaultStatementBuilder) []Visitable {
	parts := append(make([]Visitable, 0), d.currentSinglePartElements...)
	if d.currentOngoingMatch.notNil {
		parts = append(parts, d.currentOngoingMatch.buildMatch())
	}
	if specCalling(d) {
		call, _ := d.currentOngoingCall.Build()
		parts = append(parts, call)
	}
	if d.currentOngoingUpdate.notNil {
		parts = append(parts, d.currentOngoingUpdate.builder.build())
	}
	return parts
}

func specCalling(d DefaultStatementBuilder) bool {
	return d.currentOngoingCall != nil && d.currentOngoingCall.isNotNil()
}

// specBroken: the builder carries an error, or gets one as the open call is ended.
func specBroken(d DefaultStatementBuilder) bool {
	if d.err != nil {
		return true
	}
	if !specCalling(d) {
		return false
	}
	_, err := d.currentOngoingCall.Build()
	return err != nil
}

func specClosed(d DefaultStatementBuilder) bool {
	return !d.currentOngoingMatch.notNil && !d.currentOngoingUpdate.notNil && !specCalling(d)
}

// specAdds: b is d with one more clause, which is the last.
func specAdds(d DefaultStatementBuilder, b DefaultStatementBuilder, clause Visitable) bool {
	return b.err == nil && vcSame(b.multipartElements, d.multipartElements) && vcSame(specParts(b), append(specParts(d), clause))
}

// specEnds: b is d with the open clause ended.
func specEnds(d DefaultStatementBuilder, b DefaultStatementBuilder) bool {
	return b.err == nil && specClosed(b) && vcSame(b.multipartElements, d.multipartElements) && vcSame(b.currentSinglePartElements, specParts(d))
}

// @ ensures DefaultStatementBuilder.MatchDefault
// @ props C13 C08
func co_MatchDefault(d DefaultStatementBuilder, optional bool, patterns []PatternElement, r OngoingReadingWithoutWhere) bool {
	if specBroken(d) || specBadPatterns(patterns) {
		return true
	}
	b, ok := r.(DefaultStatementBuilder)
	m := MatchBuilder{optional: optional, patternList: patterns, notNil: true}
	return ok && specAdds(d, b, m.buildMatch()) && vcSame(b.currentOngoingMatch, m)
}

// specOneOpen: at most one clause can still be extended.
func specOneOpen(d DefaultStatementBuilder) bool {
	if d.currentOngoingMatch.notNil {
		return !d.currentOngoingUpdate.notNil && !specCalling(d)
	}
	return !d.currentOngoingUpdate.notNil || !specCalling(d)
}

func specNoOrder(o OrderBuilder) bool {
	return len(o.sortItemList) == 0 && !o.lastSortItem.isNotNil() && !o.skip.isNotNil() && !o.limit.isNotNil() && o.err == nil
}

// specUpdated: an updating clause that can still be extended.
func specUpdated(d DefaultStatementBuilder, kind UpdateType, items []Visitable, r interface{}) bool {
	u, err := getUpdatingClauseBuilder(kind, items...)
	if err != nil {
		return true
	}
	b, ok := r.(DefaultStatementBuilder)
	return ok && specOneOpen(b) && specAdds(d, b, u.build()) && b.currentOngoingUpdate.notNil && vcSame(b.currentOngoingUpdate.builder, u)
}

// @ ensures DefaultStatementBuilder.Create
// @ props C13 C20
func co_Create(d DefaultStatementBuilder, elements []PatternElement, r OngoingUpdateAndExposesSet) bool {
	return specBroken(d) || specBadPatterns(elements) || specUpdated(d, UPDATE_TYPE_CREATE, PatternElementsToVisitables(elements), r)
}

// @ ensures DefaultStatementBuilder.Merge
// @ props C13 C20
func co_Merge(d DefaultStatementBuilder, patterns []PatternElement, r OngoingUpdateAndExposesSet) bool {
	return specBroken(d) || specBadPatterns(patterns) || specUpdated(d, UPDATE_TYPE_MERGE, PatternElementsToVisitables(patterns), r)
}

// @ ensures DefaultStatementBuilder.Delete
// @ props C13 C20
func co_Delete(d DefaultStatementBuilder, expressions []Expression, r OngoingUpdate) bool {
	return specBroken(d) || specBadExpressions(expressions) || specUpdated(d, UPDATE_TYPE_DELETE, ExpressionsToVisitables(expressions), r)
}

// @ ensures DefaultStatementBuilder.DetachDelete
// @ props C13 C20
func co_DetachDelete(d DefaultStatementBuilder, expressions []Expression, r OngoingUpdate) bool {
	return specBroken(d) || specBadExpressions(expressions) || specUpdated(d, UPDATE_TYPE_DETACH_DELETE, ExpressionsToVisitables(expressions), r)
}

// @ ensures DefaultStatementBuilder.Call
// @ props C13 C18
func co_Call(d DefaultStatementBuilder, statement Statement, r OngoingReadingWithoutWhere) bool {
	if specBroken(d) || statement != nil && statement.GetError() != nil {
		return true
	}
	c := SubqueryCall(statement)
	b, ok := r.(DefaultStatementBuilder)
	return c.GetError() != nil || ok && specClosed(b) && specAdds(d, b, c)
}

// @ ensures DefaultStatementBuilder.Call1
// @ props C13 C18
func co_Call1(d DefaultStatementBuilder, namespaceAndProcedure []string, r OngoingInQueryCallWithoutArguments) bool {
	p := ProcedureNameCreate(namespaceAndProcedure...)
	if specBroken(d) || p.GetError() != nil {
		return true
	}
	b, ok := r.(InQueryCallBuilder)
	return ok && b.err == nil && b.isNotNil() && vcSame(b.procedureName, p) && b.arguments == nil && !b.yieldItems.isNotNil() &&
		b.conditionBuilder.condition == nil && specEnds(d, specWithoutCall(*b.defaultBuilder))
}

func specWithoutCall(d DefaultStatementBuilder) DefaultStatementBuilder {
	d.currentOngoingCall = nil
	return d
}

// @ ensures DefaultStatementBuilder.Unwind
// @ props C13 C08
func co_Unwind(d DefaultStatementBuilder, expression Expression, r OngoingUnwind) bool {
	if specBroken(d) || expression != nil && expression.GetError() != nil {
		return true
	}
	b, ok := r.(DefaultOngoingUnwind)
	return ok && b.err == nil && b.expressionToUnwind == expression && specEnds(d, *b.defaultBuilder)
}

// @ ensures DefaultStatementBuilder.WithDefault
func co_WithDefault(d DefaultStatementBuilder, distinct bool, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	if d.err != nil || specBadExpressions(expressions) {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && b.distinct == distinct && vcSame(b.returnList, expressions) && b.conditionBuilder.condition == nil &&
		specNoOrder(b.orderBuilder) && vcSame(*b.defaultBuilder, d)
}

// @ ensures DefaultStatementBuilder.ReturningDefault
func co_ReturningDefault(d DefaultStatementBuilder, distinct bool, expressions []Expression, r OngoingReadingAndReturn) bool {
	if d.err != nil || specBadExpressions(expressions) {
		return true
	}
	b, ok := r.(DefaultStatementWithReturnBuilder)
	return ok && b.err == nil && b.distinct == distinct && vcSame(b.returnList, expressions) && specNoOrder(b.orderBuilder) && vcSame(*b.defaultBuilder, d)
}

// specUpdating: an updating clause whose builder also returns.
func specUpdating(d DefaultStatementBuilder, kind UpdateType, items []Visitable, r interface{}) bool {
	u, err := getUpdatingClauseBuilder(kind, items...)
	if err != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && len(b.returnList) == 0 && !b.distinct && specNoOrder(b.orderBuilder) && vcSame(b.builder, u) &&
		b.defaultBuilder.err == nil && vcSame(b.defaultBuilder.multipartElements, d.multipartElements) && vcSame(specParts(*b.defaultBuilder), specParts(d))
}

// @ ensures DefaultStatementBuilder.Set
// @ props C13 C20
func co_Set(d DefaultStatementBuilder, expressions []Expression, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	return specBroken(d) || !specOneOpen(d) || specBadExpressions(expressions) || specUpdating(d, UPDATE_TYPE_SET, ExpressionsToVisitables(expressions), r)
}

// @ ensures DefaultStatementBuilder.SetByNode
// @ props C13 C20
func co_SetByNode(d DefaultStatementBuilder, node Node, labels []string, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	o := OperationSetLabel(node, labels...)
	return specBroken(d) || node.GetError() != nil || o.GetError() != nil || specUpdating(d, UPDATE_TYPE_SET, []Visitable{o}, r)
}

// @ ensures DefaultStatementBuilder.RemoveByNode
// @ props C13 C20
func co_RemoveByNode(d DefaultStatementBuilder, node Node, labels []string, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	o := OperationRemove(node, labels...)
	return specBroken(d) || node.GetError() != nil || o.GetError() != nil || specUpdating(d, UPDATE_TYPE_REMOVE, []Visitable{o}, r)
}

// @ ensures ExpressionsToVisitables
func co_ExpressionsToVisitables(expressions []Expression, r []Visitable) bool {
	return vcSame(expressions, r)
}

// @ ensures PatternElementsToVisitables
func co_PatternElementsToVisitables(patterns []PatternElement, r []Visitable) bool {
	return vcSame(patterns, r)
}

// @ ensures DefaultStatementBuilder.AddWith
func co_AddWith(d DefaultStatementBuilder, with with, r DefaultStatementBuilder) bool {
	if specBroken(d) || with.GetError() != nil || !specOneOpen(d) {
		return true
	}
	if !with.isNotNil() {
		return vcSame(r, d)
	}
	parts := append(make([]MultiPartElement, 0), d.multipartElements...)
	return r.err == nil && specClosed(r) && len(r.currentSinglePartElements) == 0 && vcSame(r.multipartElements, append(parts, MultiPartElementCreate(specParts(d), with)))
}

// @ ensures DefaultStatementBuilder.BuildImpl
func co_BuildImpl(d DefaultStatementBuilder, clearCurrentBuildSteps bool, returning Return, r Statement) bool {
	if specBroken(d) || !specOneOpen(d) {
		return true
	}
	q := SinglePartQueryCreate(specParts(d), returning)
	if len(d.multipartElements) == 0 {
		return vcSame(r, Statement(q))
	}
	return vcSame(r, Statement(MultiPartQueryCreate(d.multipartElements, q)))
}

// What a builder of a clause gives is there.

// @ method UpdatingClauseBuilder.build
func en_UpdatingClauseBuilder_build(b UpdatingClauseBuilder, r UpdatingClause) bool { return r != nil }

// @ method BuildableStatement.Build
func en_BuildableStatement_Build(b BuildableStatement, r Statement, err error) bool {
	return err != nil || r != nil
}
