package cypher

// Contracts of the steps of the builders that order, filter, return and build.
// Written by tools/mkbuilders.py.

//@ fileprops C13
//@ opaque DefaultStatementBuilder.AddWith DefaultStatementBuilder.BuildImpl DefaultStatementWithUpdateBuilder.statementBuilder
//@ opaque getUpdatingClauseBuilder UpdatingClauseBuilder.build ProcedureCallBuilder.Build
//@ hide ExpressionListCreate withCreate WhereCreate OrderBuilder.BuildOrder ConditionBuilder.buildCondition ReturnCreate1 ArgumentsCreate ProcedureCallCreate
//@ hide OperationSetLabel OperationRemove unwindCreate MatchPhraseCreate PatternCreate ExistentialSubqueryExists Sort SkipCreate LimitCreate
//@ hide SortItem.Ascending SortItem.Descending Condition.And Condition.Or ConditionContainer.Get MatchBuilder.buildMatch
//@ via ExpressionsToVisitables InQueryCallBuilder.checked StandaloneCallBuilder.checked DefaultStatementWithUpdateBuilderCreate2 DefaultStatementWithUpdateBuilderCreate1 YieldItemsCreate
//@ nonnil DefaultStatementBuilder.BuildImpl
//@ use getUpdatingClauseBuilder InQueryCallBuilder.checked StandaloneCallBuilder.checked
//@ nilok DefaultStatementBuilder.Where condition
//@ nilok InQueryCallBuilder.Where condition
//@ nilok StandaloneCallBuilder.Where condition
//@ nilok DefaultStatementWithWithBuilder.Where condition

// specItems: the items of the order, with the one that still takes a direction.
func specItems(o OrderBuilder) []SortItem {
	items := append(make([]SortItem, 0), o.sortItemList...)
	if o.lastSortItem.isNotNil() {
		items = append(items, o.lastSortItem)
	}
	return items
}

func specSameItems(o OrderBuilder, p OrderBuilder) bool {
	return p.err == nil && vcSame(p.sortItemList, o.sortItemList) && vcSame(p.lastSortItem, o.lastSortItem)
}

func specSkipLimit(o OrderBuilder, p OrderBuilder) bool {
	return p.err == nil && vcSame(p.skip, o.skip) && vcSame(p.limit, o.limit)
}

func specRestR(d DefaultStatementWithReturnBuilder, b DefaultStatementWithReturnBuilder) bool {
	return vcSame(b.returnList, d.returnList) && b.distinct == d.distinct && vcSame(b.defaultBuilder, d.defaultBuilder)
}

func specRestU(d DefaultStatementWithUpdateBuilder, b DefaultStatementWithUpdateBuilder) bool {
	return vcSame(b.returnList, d.returnList) && b.distinct == d.distinct && vcSame(b.defaultBuilder, d.defaultBuilder) && vcSame(b.builder, d.builder) && b.notNil == d.notNil
}

func specRestW(d DefaultStatementWithWithBuilder, b DefaultStatementWithWithBuilder) bool {
	return vcSame(b.returnList, d.returnList) && b.distinct == d.distinct && vcSame(b.defaultBuilder, d.defaultBuilder) && vcSame(b.conditionBuilder, d.conditionBuilder)
}

func specSameButMatch(d DefaultStatementBuilder, b DefaultStatementBuilder) bool {
	return vcSame(b.currentSinglePartElements, d.currentSinglePartElements) && vcSame(b.multipartElements, d.multipartElements) &&
		vcSame(b.currentOngoingUpdate, d.currentOngoingUpdate) && vcSame(b.currentOngoingCall, d.currentOngoingCall)
}

func specCallBad(arguments []Expression, y YieldItems) bool {
	return specBadExpressions(arguments) || y.GetError() != nil
}

func specSameCallI(d InQueryCallBuilder, b InQueryCallBuilder) bool {
	return vcSame(b.procedureName, d.procedureName) && vcSame(b.conditionBuilder, d.conditionBuilder) && b.notNil == d.notNil && vcSame(b.defaultBuilder, d.defaultBuilder)
}

func specSameCallS(d StandaloneCallBuilder, b StandaloneCallBuilder) bool {
	return vcSame(b.procedureName, d.procedureName) && vcSame(b.conditionBuilder, d.conditionBuilder) && b.notNil == d.notNil
}

// specWith: the WITH that is being built.
func specWith(d DefaultStatementWithWithBuilder) with {
	if len(d.returnList) == 0 {
		return with{}
	}
	where := Where{}
	if c := d.conditionBuilder.buildCondition(); c != nil {
		where = WhereCreate(c)
	}
	return withCreate(d.distinct, ExpressionListCreate(d.returnList), d.orderBuilder.BuildOrder(), d.orderBuilder.skip, d.orderBuilder.limit, where)
}

// specNext: another updating clause after the one of d.
func specNext(d DefaultStatementWithUpdateBuilder, kind UpdateType, items []Visitable, r interface{}) bool {
	u, err := getUpdatingClauseBuilder(kind, items...)
	if err != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && len(b.returnList) == 0 && !b.distinct && specNoOrder(b.orderBuilder) && vcSame(b.builder, u) && vcSame(*b.defaultBuilder, d.statementBuilder())
}

// @ ensures DefaultStatementWithReturnBuilder.And
// @ props C17 C13
func bu_DefaultStatementWithReturnBuilder_And(d DefaultStatementWithReturnBuilder, expression Expression, r TerminalOngoingOrderDefinition) bool {
	if d.err != nil || d.orderBuilder.err != nil || Sort(expression).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithReturnBuilder)
	return ok && b.err == nil && specRestR(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), Sort(expression))) && vcSame(b.orderBuilder.lastSortItem, Sort(expression))
}

// @ ensures DefaultStatementWithReturnBuilder.OrderBy
// @ props C17 C13
func bu_DefaultStatementWithReturnBuilder_OrderBy(d DefaultStatementWithReturnBuilder, expression Expression, r TerminalOngoingOrderDefinition) bool {
	if d.err != nil || d.orderBuilder.err != nil || Sort(expression).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithReturnBuilder)
	return ok && b.err == nil && specRestR(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), Sort(expression))) && vcSame(b.orderBuilder.lastSortItem, Sort(expression))
}

// @ ensures DefaultStatementWithReturnBuilder.Ascending
// @ props C17 C13
func bu_DefaultStatementWithReturnBuilder_Ascending(d DefaultStatementWithReturnBuilder, r OngoingMatchAndReturnWithOrder) bool {
	if d.err != nil || d.orderBuilder.err != nil || !d.orderBuilder.lastSortItem.isNotNil() || d.orderBuilder.lastSortItem.Ascending().GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithReturnBuilder)
	return ok && b.err == nil && specRestR(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(append(make([]SortItem, 0), d.orderBuilder.sortItemList...), d.orderBuilder.lastSortItem.Ascending())) && !b.orderBuilder.lastSortItem.isNotNil()
}

// @ ensures DefaultStatementWithReturnBuilder.Descending
// @ props C17 C13
func bu_DefaultStatementWithReturnBuilder_Descending(d DefaultStatementWithReturnBuilder, r OngoingMatchAndReturnWithOrder) bool {
	if d.err != nil || d.orderBuilder.err != nil || !d.orderBuilder.lastSortItem.isNotNil() || d.orderBuilder.lastSortItem.Descending().GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithReturnBuilder)
	return ok && b.err == nil && specRestR(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(append(make([]SortItem, 0), d.orderBuilder.sortItemList...), d.orderBuilder.lastSortItem.Descending())) && !b.orderBuilder.lastSortItem.isNotNil()
}

// @ ensures DefaultStatementWithReturnBuilder.OrderBySortItem
// @ props C17 C13
func bu_DefaultStatementWithReturnBuilder_OrderBySortItem(d DefaultStatementWithReturnBuilder, sortItem []SortItem, r OngoingMatchAndReturnWithOrder) bool {
	if d.err != nil || d.orderBuilder.err != nil || vcAny(len(sortItem), func(i int) bool { return sortItem[i].GetError() != nil }) || specFirstErr(nil, sortItem, len(sortItem)) != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithReturnBuilder)
	return ok && b.err == nil && specRestR(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), sortItem...)) && !b.orderBuilder.lastSortItem.isNotNil()
}

// @ ensures DefaultStatementWithReturnBuilder.Skip
// @ props C17 C13
func bu_DefaultStatementWithReturnBuilder_Skip(d DefaultStatementWithReturnBuilder, number int, r TerminalExposesLimitAndBuildableStatement) bool {
	if d.err != nil || d.orderBuilder.err != nil || SkipCreate(number).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithReturnBuilder)
	return ok && b.err == nil && specRestR(d, b) && specSameItems(d.orderBuilder, b.orderBuilder) && vcSame(b.orderBuilder.limit, d.orderBuilder.limit) && vcSame(b.orderBuilder.skip, SkipCreate(number))
}

// @ ensures DefaultStatementWithReturnBuilder.Limit
// @ props C17 C13
func bu_DefaultStatementWithReturnBuilder_Limit(d DefaultStatementWithReturnBuilder, number int, r BuildableStatement) bool {
	if d.err != nil || d.orderBuilder.err != nil || LimitCreate(number).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithReturnBuilder)
	return ok && b.err == nil && specRestR(d, b) && specSameItems(d.orderBuilder, b.orderBuilder) && vcSame(b.orderBuilder.skip, d.orderBuilder.skip) && vcSame(b.orderBuilder.limit, LimitCreate(number))
}

// @ ensures DefaultStatementWithUpdateBuilder.And
// @ props C17 C13
func bu_DefaultStatementWithUpdateBuilder_And(d DefaultStatementWithUpdateBuilder, expression Expression, r TerminalOngoingOrderDefinition) bool {
	if d.err != nil || d.orderBuilder.err != nil || Sort(expression).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && specRestU(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), Sort(expression))) && vcSame(b.orderBuilder.lastSortItem, Sort(expression))
}

// @ ensures DefaultStatementWithUpdateBuilder.OrderBy
// @ props C17 C13
func bu_DefaultStatementWithUpdateBuilder_OrderBy(d DefaultStatementWithUpdateBuilder, expression Expression, r TerminalOngoingOrderDefinition) bool {
	if d.err != nil || d.orderBuilder.err != nil || Sort(expression).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && specRestU(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), Sort(expression))) && vcSame(b.orderBuilder.lastSortItem, Sort(expression))
}

// @ ensures DefaultStatementWithUpdateBuilder.Ascending
// @ props C17 C13
func bu_DefaultStatementWithUpdateBuilder_Ascending(d DefaultStatementWithUpdateBuilder, r OngoingMatchAndReturnWithOrder) bool {
	if d.err != nil || d.orderBuilder.err != nil || !d.orderBuilder.lastSortItem.isNotNil() || d.orderBuilder.lastSortItem.Ascending().GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && specRestU(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(append(make([]SortItem, 0), d.orderBuilder.sortItemList...), d.orderBuilder.lastSortItem.Ascending())) && !b.orderBuilder.lastSortItem.isNotNil()
}

// @ ensures DefaultStatementWithUpdateBuilder.Descending
// @ props C17 C13
func bu_DefaultStatementWithUpdateBuilder_Descending(d DefaultStatementWithUpdateBuilder, r OngoingMatchAndReturnWithOrder) bool {
	if d.err != nil || d.orderBuilder.err != nil || !d.orderBuilder.lastSortItem.isNotNil() || d.orderBuilder.lastSortItem.Descending().GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && specRestU(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(append(make([]SortItem, 0), d.orderBuilder.sortItemList...), d.orderBuilder.lastSortItem.Descending())) && !b.orderBuilder.lastSortItem.isNotNil()
}

// @ ensures DefaultStatementWithUpdateBuilder.OrderBySortItem
// @ props C17 C13
func bu_DefaultStatementWithUpdateBuilder_OrderBySortItem(d DefaultStatementWithUpdateBuilder, sortItem []SortItem, r OngoingMatchAndReturnWithOrder) bool {
	if d.err != nil || d.orderBuilder.err != nil || vcAny(len(sortItem), func(i int) bool { return sortItem[i].GetError() != nil }) || specFirstErr(nil, sortItem, len(sortItem)) != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && specRestU(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), sortItem...)) && !b.orderBuilder.lastSortItem.isNotNil()
}

// @ ensures DefaultStatementWithUpdateBuilder.Skip
// @ props C17 C13
func bu_DefaultStatementWithUpdateBuilder_Skip(d DefaultStatementWithUpdateBuilder, number int, r TerminalExposesLimitAndBuildableStatement) bool {
	if d.err != nil || d.orderBuilder.err != nil || SkipCreate(number).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && specRestU(d, b) && specSameItems(d.orderBuilder, b.orderBuilder) && vcSame(b.orderBuilder.limit, d.orderBuilder.limit) && vcSame(b.orderBuilder.skip, SkipCreate(number))
}

// @ ensures DefaultStatementWithUpdateBuilder.Limit
// @ props C17 C13
func bu_DefaultStatementWithUpdateBuilder_Limit(d DefaultStatementWithUpdateBuilder, number int, r BuildableStatement) bool {
	if d.err != nil || d.orderBuilder.err != nil || LimitCreate(number).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && specRestU(d, b) && specSameItems(d.orderBuilder, b.orderBuilder) && vcSame(b.orderBuilder.skip, d.orderBuilder.skip) && vcSame(b.orderBuilder.limit, LimitCreate(number))
}

// @ ensures DefaultStatementWithWithBuilder.And1
// @ props C17 C13
func bu_DefaultStatementWithWithBuilder_And1(d DefaultStatementWithWithBuilder, expression Expression, r OngoingOrderDefinition) bool {
	if d.err != nil || d.orderBuilder.err != nil || d.conditionBuilder.getError() != nil || Sort(expression).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && specRestW(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), Sort(expression))) && vcSame(b.orderBuilder.lastSortItem, Sort(expression))
}

// @ ensures DefaultStatementWithWithBuilder.OrderByExpression
// @ props C17 C13
func bu_DefaultStatementWithWithBuilder_OrderByExpression(d DefaultStatementWithWithBuilder, expression Expression, r OngoingOrderDefinition) bool {
	if d.err != nil || d.orderBuilder.err != nil || d.conditionBuilder.getError() != nil || Sort(expression).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && specRestW(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), Sort(expression))) && vcSame(b.orderBuilder.lastSortItem, Sort(expression))
}

// @ ensures DefaultStatementWithWithBuilder.Ascending
// @ props C17 C13
func bu_DefaultStatementWithWithBuilder_Ascending(d DefaultStatementWithWithBuilder, r OngoingReadingAndWithWithWhereAndOrder) bool {
	if d.err != nil || d.orderBuilder.err != nil || d.conditionBuilder.getError() != nil || !d.orderBuilder.lastSortItem.isNotNil() || d.orderBuilder.lastSortItem.Ascending().GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && specRestW(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(append(make([]SortItem, 0), d.orderBuilder.sortItemList...), d.orderBuilder.lastSortItem.Ascending())) && !b.orderBuilder.lastSortItem.isNotNil()
}

// @ ensures DefaultStatementWithWithBuilder.Descending
// @ props C17 C13
func bu_DefaultStatementWithWithBuilder_Descending(d DefaultStatementWithWithBuilder, r OngoingReadingAndWithWithWhereAndOrder) bool {
	if d.err != nil || d.orderBuilder.err != nil || d.conditionBuilder.getError() != nil || !d.orderBuilder.lastSortItem.isNotNil() || d.orderBuilder.lastSortItem.Descending().GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && specRestW(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(append(make([]SortItem, 0), d.orderBuilder.sortItemList...), d.orderBuilder.lastSortItem.Descending())) && !b.orderBuilder.lastSortItem.isNotNil()
}

// @ ensures DefaultStatementWithWithBuilder.OrderBySortItem
// @ props C17 C13
func bu_DefaultStatementWithWithBuilder_OrderBySortItem(d DefaultStatementWithWithBuilder, sortItem []SortItem, r OrderableOngoingReadingAndWithWithWhere) bool {
	if d.err != nil || d.orderBuilder.err != nil || d.conditionBuilder.getError() != nil || vcAny(len(sortItem), func(i int) bool { return sortItem[i].GetError() != nil }) || specFirstErr(nil, sortItem, len(sortItem)) != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && specRestW(d, b) && specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), sortItem...)) && !b.orderBuilder.lastSortItem.isNotNil()
}

// @ ensures DefaultStatementWithWithBuilder.Skip
// @ props C17 C13
func bu_DefaultStatementWithWithBuilder_Skip(d DefaultStatementWithWithBuilder, number int, r ExposesLimitAndOngoingReadingAndWith) bool {
	if d.err != nil || d.orderBuilder.err != nil || d.conditionBuilder.getError() != nil || SkipCreate(number).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && specRestW(d, b) && specSameItems(d.orderBuilder, b.orderBuilder) && vcSame(b.orderBuilder.limit, d.orderBuilder.limit) && vcSame(b.orderBuilder.skip, SkipCreate(number))
}

// @ ensures DefaultStatementWithWithBuilder.Limit
// @ props C17 C13
func bu_DefaultStatementWithWithBuilder_Limit(d DefaultStatementWithWithBuilder, number int, r OngoingReadingAndWith) bool {
	if d.err != nil || d.orderBuilder.err != nil || d.conditionBuilder.getError() != nil || LimitCreate(number).GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && specRestW(d, b) && specSameItems(d.orderBuilder, b.orderBuilder) && vcSame(b.orderBuilder.skip, d.orderBuilder.skip) && vcSame(b.orderBuilder.limit, LimitCreate(number))
}

// @ ensures DefaultStatementWithWithBuilder.Where
// @ props C13 C10
func bu_DefaultStatementWithWithBuilder_Where(d DefaultStatementWithWithBuilder, condition Condition, r OrderableOngoingReadingAndWithWithWhere) bool {
	if d.err != nil || d.orderBuilder.err != nil || condition != nil && condition.GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && b.conditionBuilder.condition == condition && vcSame(b.defaultBuilder, d.defaultBuilder) && vcSame(b.returnList, d.returnList) &&
		vcSame(b.orderBuilder, d.orderBuilder) && b.distinct == d.distinct
}

// @ ensures DefaultStatementBuilder.Where
// @ props C13 C10
func bu_DefaultStatementBuilder_Where(d DefaultStatementBuilder, condition Condition, r OngoingReadingWithWhere) bool {
	if d.err != nil || !d.currentOngoingMatch.notNil || condition != nil && condition.GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementBuilder)
	return ok && b.err == nil && b.currentOngoingMatch.conditionBuilder.condition == condition && vcSame(b.currentOngoingMatch.patternList, d.currentOngoingMatch.patternList) &&
		b.currentOngoingMatch.optional == d.currentOngoingMatch.optional && b.currentOngoingMatch.notNil && specSameButMatch(d, b)
}

// @ ensures DefaultStatementWithWithBuilder.And
// @ props C13 C10
func bu_DefaultStatementWithWithBuilder_And(d DefaultStatementWithWithBuilder, condition Condition, r OrderableOngoingReadingAndWithWithWhere) bool {
	c := d.conditionBuilder.condition
	want := condition
	if c != nil {
		want = c.And(condition).Get()
	}
	if d.err != nil || d.orderBuilder.err != nil || want != nil && want.GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && b.conditionBuilder.condition == want && vcSame(b.defaultBuilder, d.defaultBuilder) && vcSame(b.returnList, d.returnList) &&
		vcSame(b.orderBuilder, d.orderBuilder) && b.distinct == d.distinct
}

// @ ensures DefaultStatementBuilder.And
// @ props C13 C10
func bu_DefaultStatementBuilder_And(d DefaultStatementBuilder, condition Condition, r OngoingReadingWithWhere) bool {
	c := d.currentOngoingMatch.conditionBuilder.condition
	want := condition
	if c != nil {
		want = c.And(condition).Get()
	}
	if d.err != nil || !d.currentOngoingMatch.notNil || condition != nil && condition.GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementBuilder)
	return ok && b.err == nil && b.currentOngoingMatch.conditionBuilder.condition == want && vcSame(b.currentOngoingMatch.patternList, d.currentOngoingMatch.patternList) &&
		b.currentOngoingMatch.optional == d.currentOngoingMatch.optional && b.currentOngoingMatch.notNil && specSameButMatch(d, b)
}

// @ ensures DefaultStatementWithWithBuilder.Or
// @ props C13 C10
func bu_DefaultStatementWithWithBuilder_Or(d DefaultStatementWithWithBuilder, condition Condition, r OrderableOngoingReadingAndWithWithWhere) bool {
	c := d.conditionBuilder.condition
	want := condition
	if c != nil {
		want = c.Or(condition).Get()
	}
	if d.err != nil || d.orderBuilder.err != nil || want != nil && want.GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithWithBuilder)
	return ok && b.err == nil && b.conditionBuilder.condition == want && vcSame(b.defaultBuilder, d.defaultBuilder) && vcSame(b.returnList, d.returnList) &&
		vcSame(b.orderBuilder, d.orderBuilder) && b.distinct == d.distinct
}

// @ ensures DefaultStatementBuilder.Or
// @ props C13 C10
func bu_DefaultStatementBuilder_Or(d DefaultStatementBuilder, condition Condition, r OngoingReadingWithWhere) bool {
	c := d.currentOngoingMatch.conditionBuilder.condition
	want := condition
	if c != nil {
		want = c.Or(condition).Get()
	}
	if d.err != nil || !d.currentOngoingMatch.notNil || condition != nil && condition.GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementBuilder)
	return ok && b.err == nil && b.currentOngoingMatch.conditionBuilder.condition == want && vcSame(b.currentOngoingMatch.patternList, d.currentOngoingMatch.patternList) &&
		b.currentOngoingMatch.optional == d.currentOngoingMatch.optional && b.currentOngoingMatch.notNil && specSameButMatch(d, b)
}

// @ ensures InQueryCallBuilder.Where
// @ props C13 C18
func bu_InQueryCallBuilder_Where(d InQueryCallBuilder, condition Condition, r OngoingReadingWithWhere) bool {
	if d.err != nil || specCallBad(d.arguments, d.yieldItems) || condition != nil && condition.GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementBuilder)
	if !ok {
		return false
	}
	c, ok := b.currentOngoingCall.(InQueryCallBuilder)
	return ok && c.err == nil && c.notNil == d.notNil && c.conditionBuilder.condition == condition && vcSame(c.procedureName, d.procedureName) && vcSame(c.arguments, d.arguments) &&
		vcSame(c.yieldItems, d.yieldItems) && vcSame(c.defaultBuilder, d.defaultBuilder) && vcSame(specWithoutCall(b), specWithoutCall(*d.defaultBuilder))
}

// @ ensures InQueryCallBuilder.WithArgs
// @ props C13 C18
func bu_InQueryCallBuilder_WithArgs(d InQueryCallBuilder, arguments []Expression, r OngoingInQueryCallWithArguments) bool {
	if d.err != nil || specBadExpressions(arguments) || d.yieldItems.GetError() != nil || d.conditionBuilder.getError() != nil {
		return true
	}
	b, ok := r.(InQueryCallBuilder)
	return ok && b.err == nil && vcSame(b.arguments, arguments) && vcSame(b.yieldItems, d.yieldItems) && specSameCallI(d, b)
}

// @ ensures InQueryCallBuilder.checked
// @ props C04 C13 C18
func bu_InQueryCallBuilder_checked(d InQueryCallBuilder, r InQueryCallBuilder) bool {
	if d.err != nil {
		return r.err == d.err
	}
	if specCallBad(d.arguments, d.yieldItems) || d.conditionBuilder.getError() != nil {
		return r.err != nil
	}
	return vcSame(r, d)
}

// @ ensures InQueryCallBuilder.Build
// @ props C18 C13 C08
func bu_InQueryCallBuilder_Build(d InQueryCallBuilder, r Statement, err error) bool {
	if d.err != nil {
		return err == d.err
	}
	args := Arguments{}
	if d.arguments == nil || len(d.arguments) > 0 {
		args = ArgumentsCreate(d.arguments)
	}
	where := Where{}
	if c := d.conditionBuilder.buildCondition(); c != nil {
		where = WhereCreate(c)
	}
	return err == nil && vcSame(r, Statement(ProcedureCallCreate(d.procedureName, args, d.yieldItems, where)))
}

// @ ensures StandaloneCallBuilder.Where
// @ props C13 C18
func bu_StandaloneCallBuilder_Where(d StandaloneCallBuilder, condition Condition, r OngoingReadingWithWhere) bool {
	if d.err != nil || specCallBad(d.arguments, d.yieldItems) || condition != nil && condition.GetError() != nil {
		return true
	}
	b, ok := r.(DefaultStatementBuilder)
	if !ok || b.err != nil {
		return false
	}
	c, ok := b.currentOngoingCall.(StandaloneCallBuilder)
	return ok && c.err == nil && c.notNil == d.notNil && c.conditionBuilder.condition == condition && vcSame(c.procedureName, d.procedureName) && vcSame(c.arguments, d.arguments) &&
		vcSame(c.yieldItems, d.yieldItems) && vcSame(specWithoutCall(b), specStart())
}

// @ ensures StandaloneCallBuilder.WithArgs
// @ props C13 C18
func bu_StandaloneCallBuilder_WithArgs(d StandaloneCallBuilder, arguments []Expression, r OngoingStandaloneCallWithoutArguments) bool {
	if d.err != nil || specBadExpressions(arguments) || d.yieldItems.GetError() != nil || d.conditionBuilder.getError() != nil {
		return true
	}
	b, ok := r.(StandaloneCallBuilder)
	return ok && b.err == nil && vcSame(b.arguments, arguments) && vcSame(b.yieldItems, d.yieldItems) && specSameCallS(d, b)
}

// @ ensures StandaloneCallBuilder.checked
// @ props C04 C13 C18
func bu_StandaloneCallBuilder_checked(d StandaloneCallBuilder, r StandaloneCallBuilder) bool {
	if d.err != nil {
		return r.err == d.err
	}
	if specCallBad(d.arguments, d.yieldItems) || d.conditionBuilder.getError() != nil {
		return r.err != nil
	}
	return vcSame(r, d)
}

// @ ensures StandaloneCallBuilder.Build
// @ props C18 C13 C08
func bu_StandaloneCallBuilder_Build(d StandaloneCallBuilder, r Statement, err error) bool {
	if d.err != nil {
		return err == d.err
	}
	args := Arguments{}
	if d.arguments == nil || len(d.arguments) > 0 {
		args = ArgumentsCreate(d.arguments)
	}
	where := Where{}
	if c := d.conditionBuilder.buildCondition(); c != nil {
		where = WhereCreate(c)
	}
	return err == nil && vcSame(r, Statement(ProcedureCallCreate(d.procedureName, args, d.yieldItems, where)))
}

// @ ensures InQueryCallBuilder.statementBuilder
// @ props C13 C18
func bu_InQueryCallBuilder_statementBuilder(d InQueryCallBuilder, r DefaultStatementBuilder) bool {
	if d.err != nil {
		return r.err != nil
	}
	c, ok := r.currentOngoingCall.(InQueryCallBuilder)
	return ok && vcSame(c, d) && vcSame(specWithoutCall(r), specWithoutCall(*d.defaultBuilder))
}

// @ ensures StandaloneCallBuilder.statementBuilder
// @ props C13 C18
func bu_StandaloneCallBuilder_statementBuilder(d StandaloneCallBuilder, r DefaultStatementBuilder) bool {
	if d.err != nil {
		return r.err != nil
	}
	c, ok := r.currentOngoingCall.(StandaloneCallBuilder)
	return ok && vcSame(c, d) && vcSame(specWithoutCall(r), specStart())
}

// @ ensures DefaultStatementWithWithBuilder.statementBuilder
// @ props C13 C08
func bu_DefaultStatementWithWithBuilder_statementBuilder(d DefaultStatementWithWithBuilder, r DefaultStatementBuilder) bool {
	if d.err != nil || d.defaultBuilder == nil {
		return d.err == nil || r.err != nil
	}
	return vcSame(r, d.defaultBuilder.AddWith(specWith(d)))
}

// @ ensures DefaultStatementWithReturnBuilder.Build
// @ props C13 C08
func bu_DefaultStatementWithReturnBuilder_Build(d DefaultStatementWithReturnBuilder, r Statement, err error) bool {
	if d.err != nil {
		return err == d.err
	}
	returning := Return{}
	if len(d.returnList) > 0 {
		returning = ReturnCreate1(d.distinct, ExpressionListCreate(d.returnList), d.orderBuilder.BuildOrder(), d.orderBuilder.skip, d.orderBuilder.limit)
	}
	return err == nil && vcSame(r, d.defaultBuilder.BuildImpl(false, returning))
}

// @ ensures DefaultStatementWithUpdateBuilder.Build
// @ props C13 C08 C20
func bu_DefaultStatementWithUpdateBuilder_Build(d DefaultStatementWithUpdateBuilder, r Statement, err error) bool {
	if d.err != nil {
		return err == d.err
	}
	returning := Return{}
	if len(d.returnList) > 0 {
		returning = ReturnCreate1(d.distinct, ExpressionListCreate(d.returnList), d.orderBuilder.BuildOrder(), d.orderBuilder.skip, d.orderBuilder.limit)
	}
	return err == nil && vcSame(r, d.statementBuilder().BuildImpl(false, returning))
}

// @ ensures DefaultStatementBuilder.Build
// @ props C13 C08
func bu_DefaultStatementBuilder_Build(d DefaultStatementBuilder, r Statement, err error) bool {
	if d.err != nil {
		return err == d.err
	}
	return err == nil && vcSame(r, d.BuildImpl(false, Return{}))
}

// @ ensures DefaultStatementWithUpdateBuilder.Returning
// @ props C13 C20
func bu_DefaultStatementWithUpdateBuilder_Returning(d DefaultStatementWithUpdateBuilder, expressions []Expression, r OngoingReadingAndReturn) bool {
	if d.err != nil || specBadExpressions(expressions) {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && vcSame(b.returnList, append(append(make([]Expression, 0), d.returnList...), expressions...)) && b.distinct == (d.distinct) &&
		vcSame(b.orderBuilder, d.orderBuilder) && vcSame(b.builder, d.builder) && vcSame(b.defaultBuilder, d.defaultBuilder) && b.notNil == d.notNil
}

// @ ensures DefaultStatementWithUpdateBuilder.ReturningDistinct
// @ props C13 C20
func bu_DefaultStatementWithUpdateBuilder_ReturningDistinct(d DefaultStatementWithUpdateBuilder, expressions []Expression, r OngoingReadingAndReturn) bool {
	if d.err != nil || specBadExpressions(expressions) {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && vcSame(b.returnList, append(append(make([]Expression, 0), d.returnList...), expressions...)) && b.distinct == (true) &&
		vcSame(b.orderBuilder, d.orderBuilder) && vcSame(b.builder, d.builder) && vcSame(b.defaultBuilder, d.defaultBuilder) && b.notNil == d.notNil
}

// @ ensures DefaultStatementWithUpdateBuilder.statementBuilder
// @ props C13 C20
func bu_DefaultStatementWithUpdateBuilder_statementBuilder(d DefaultStatementWithUpdateBuilder, r DefaultStatementBuilder) bool {
	if d.err != nil || specBroken(*d.defaultBuilder) || !specOneOpen(*d.defaultBuilder) {
		return d.err == nil || r.err != nil
	}
	return specClosed(r) && specAdds(*d.defaultBuilder, r, d.builder.build())
}

// @ ensures DefaultStatementWithUpdateBuilder.Set
// @ props C13 C20
func bu_DefaultStatementWithUpdateBuilder_Set(d DefaultStatementWithUpdateBuilder, expressions []Expression, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	return d.err != nil || d.statementBuilder().err != nil || specBadExpressions(expressions) || specNext(d, UPDATE_TYPE_SET, ExpressionsToVisitables(expressions), r)
}

// @ ensures DefaultStatementWithUpdateBuilder.SetByNode
// @ props C13 C20
func bu_DefaultStatementWithUpdateBuilder_SetByNode(d DefaultStatementWithUpdateBuilder, node Node, labels []string, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	o := OperationSetLabel(node, labels...)
	return d.err != nil || d.statementBuilder().err != nil || node.GetError() != nil || o.GetError() != nil || specNext(d, UPDATE_TYPE_SET, []Visitable{o}, r)
}

// @ ensures DefaultStatementWithUpdateBuilder.RemoveByNode
// @ props C13 C20
func bu_DefaultStatementWithUpdateBuilder_RemoveByNode(d DefaultStatementWithUpdateBuilder, node Node, labels []string, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	o := OperationSetLabel(node, labels...)
	return d.err != nil || d.statementBuilder().err != nil || node.GetError() != nil || o.GetError() != nil || specNext(d, UPDATE_TYPE_REMOVE, []Visitable{o}, r)
}

// @ ensures DefaultStatementWithUpdateBuilder.Remove
// @ props C13 C20
func bu_DefaultStatementWithUpdateBuilder_Remove(d DefaultStatementWithUpdateBuilder, properties []Property, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	expressions := specRemoved(properties, len(properties))
	bad := vcAny(len(properties), func(i int) bool { return properties[i].GetError() != nil })
	return d.err != nil || d.statementBuilder().err != nil || bad || specNext(d, UPDATE_TYPE_REMOVE, expressions, r)
}

// @ ensures DefaultStatementBuilder.Remove specs
// @ props C13 C20
func bu_DefaultStatementBuilder_Remove(d DefaultStatementBuilder, properties []Property, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	expressions := specRemoved(properties, len(properties))
	bad := vcAny(len(properties), func(i int) bool { return properties[i].GetError() != nil })
	return specBroken(d) || !specOneOpen(d) || bad || specUpdating(d, UPDATE_TYPE_REMOVE, expressions, r)
}

// @ ensures DefaultStatementWithUpdateBuilderCreate2
// @ props C13 C20
func bu_DefaultStatementWithUpdateBuilderCreate2(d *DefaultStatementBuilder, kind UpdateType, expressions []Expression, r DefaultStatementWithUpdateBuilder) bool {
	if d != nil && d.err != nil || specBadExpressions(expressions) {
		return r.err != nil
	}
	u, err := getUpdatingClauseBuilder(kind, ExpressionsToVisitables(expressions)...)
	if err != nil {
		return r.err == err
	}
	return r.err == nil && r.notNil && len(r.returnList) == 0 && !r.distinct && specNoOrder(r.orderBuilder) && vcSame(r.builder, u) && r.defaultBuilder == d
}

// @ ensures DefaultStatementWithUpdateBuilderCreate1
// @ props C13 C20
func bu_DefaultStatementWithUpdateBuilderCreate1(d *DefaultStatementBuilder, kind UpdateType, items []Visitable, r DefaultStatementWithUpdateBuilder) bool {
	u, err := getUpdatingClauseBuilder(kind, items...)
	if err != nil {
		return r.err == err
	}
	return r.err == nil && r.notNil && len(r.returnList) == 0 && !r.distinct && specNoOrder(r.orderBuilder) && vcSame(r.builder, u) && r.defaultBuilder == d
}

// @ ensures DefaultOngoingUnwind.As
// @ props C13 C08
func bu_DefaultOngoingUnwind_As(d DefaultOngoingUnwind, variable string, r OngoingReading) bool {
	if d.err != nil {
		return true
	}
	b, ok := r.(DefaultStatementBuilder)
	return ok && b.err == d.defaultBuilder.err && vcSame(b.multipartElements, d.defaultBuilder.multipartElements) &&
		vcSame(b.currentSinglePartElements, append(append(make([]Visitable, 0), d.defaultBuilder.currentSinglePartElements...), unwindCreate(d.expressionToUnwind, variable))) &&
		vcSame(b.currentOngoingMatch, d.defaultBuilder.currentOngoingMatch) && vcSame(b.currentOngoingUpdate, d.defaultBuilder.currentOngoingUpdate) && vcSame(b.currentOngoingCall, d.defaultBuilder.currentOngoingCall)
}

// @ ensures DefaultStatementBuilder.AsCondition
// @ props C18
func bu_DefaultStatementBuilder_AsCondition(d DefaultStatementBuilder, r Condition) bool {
	if d.err != nil || !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
		return r.GetError() != nil
	}
	return vcSame(r, Condition(ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())))
}

// @ ensures DefaultStatementBuilder.OnCreate
// @ props C20 C13
func bu_DefaultStatementBuilder_OnCreate(d DefaultStatementBuilder, r OngoingMergeAction) bool {
	if d.err != nil {
		return true
	}
	b, ok := r.(OngoingMergeActionInBuilder)
	return ok && (b.err != nil || b.mergeType == ON_CREATE && vcSame(*b.defaultBuilder, d))
}

// @ ensures DefaultStatementBuilder.OnMatch
// @ props C20 C13
func bu_DefaultStatementBuilder_OnMatch(d DefaultStatementBuilder, r OngoingMergeAction) bool {
	if d.err != nil {
		return true
	}
	b, ok := r.(OngoingMergeActionInBuilder)
	return ok && (b.err != nil || b.mergeType == ON_MATCH && vcSame(*b.defaultBuilder, d))
}
