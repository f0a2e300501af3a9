#!/usr/bin/env python3
"""Writes contracts/builders.go: the steps of the builders that order, filter, return and build."""
import subprocess
D, W, U, I, S, R = ('DefaultStatementBuilder', 'DefaultStatementWithWithBuilder', 'DefaultStatementWithUpdateBuilder',
                    'InQueryCallBuilder', 'StandaloneCallBuilder', 'DefaultStatementWithReturnBuilder')
out = []
def en(target, props, sig, body):
    out.append(f'// @ ensures {target}\n// @ props {props}\nfunc bu_{target.replace(".", "_")}({sig}) bool {{\n{body}\n}}\n')

# ---- order, skip, limit
ORD = {R: ('And', 'OrderBy', 'TerminalOngoingOrderDefinition', 'TerminalOngoingOrderDefinition', 'OngoingMatchAndReturnWithOrder', 'OngoingMatchAndReturnWithOrder', 'TerminalExposesLimitAndBuildableStatement', 'BuildableStatement'),
       U: ('And', 'OrderBy', 'TerminalOngoingOrderDefinition', 'TerminalOngoingOrderDefinition', 'OngoingMatchAndReturnWithOrder', 'OngoingMatchAndReturnWithOrder', 'TerminalExposesLimitAndBuildableStatement', 'BuildableStatement'),
       W: ('And1', 'OrderByExpression', 'OngoingOrderDefinition', 'OngoingOrderDefinition', 'OngoingReadingAndWithWithWhereAndOrder', 'OrderableOngoingReadingAndWithWithWhere', 'ExposesLimitAndOngoingReadingAndWith', 'OngoingReadingAndWith')}
for t, (a, o, ta, to, tasc, tsi, tsk, tli) in ORD.items():
    same = f'specOnlyOrder{t[-13:]}(d, b)' if False else None
    rest = {R: 'specRestR(d, b)', U: 'specRestU(d, b)', W: 'specRestW(d, b)'}[t]
    bad = 'd.err != nil || d.orderBuilder.err != nil' + (' || d.conditionBuilder.getError() != nil' if t == W else '')
    def order(m, sig, ty, extra, fact):
        en(f'{t}.{m}', 'C17 C13', f'd {t}, {sig}r {ty}' if sig else f'd {t}, r {ty}', f'''	if {bad}{extra} {{
		return true
	}}
	b, ok := r.({t})
	return ok && b.err == nil && {rest} && {fact}''')
    for m, ty in ((a, ta), (o, to)):
        order(m, 'expression Expression, ', ty, ' || Sort(expression).GetError() != nil',
              'specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), Sort(expression))) && vcSame(b.orderBuilder.lastSortItem, Sort(expression))')
    for m in ('Ascending', 'Descending'):
        order(m, '', tasc, f' || !d.orderBuilder.lastSortItem.isNotNil() || d.orderBuilder.lastSortItem.{m}().GetError() != nil',
              f'specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(append(make([]SortItem, 0), d.orderBuilder.sortItemList...), d.orderBuilder.lastSortItem.{m}())) && !b.orderBuilder.lastSortItem.isNotNil()')
    order('OrderBySortItem', 'sortItem []SortItem, ', tsi, ' || vcAny(len(sortItem), func(i int) bool { return sortItem[i].GetError() != nil }) || specFirstErr(nil, sortItem, len(sortItem)) != nil',
          'specSkipLimit(d.orderBuilder, b.orderBuilder) && vcSame(specItems(b.orderBuilder), append(specItems(d.orderBuilder), sortItem...)) && !b.orderBuilder.lastSortItem.isNotNil()')
    order('Skip', 'number int, ', tsk, ' || SkipCreate(number).GetError() != nil',
          'specSameItems(d.orderBuilder, b.orderBuilder) && vcSame(b.orderBuilder.limit, d.orderBuilder.limit) && vcSame(b.orderBuilder.skip, SkipCreate(number))')
    order('Limit', 'number int, ', tli, ' || LimitCreate(number).GetError() != nil',
          'specSameItems(d.orderBuilder, b.orderBuilder) && vcSame(b.orderBuilder.skip, d.orderBuilder.skip) && vcSame(b.orderBuilder.limit, LimitCreate(number))')

# ---- conditions
def cond(t, m, ty, expr):
    c = {'Where': 'condition'}.get(m)
    pre = '' if c else f'''	c := {expr}.condition
	want := condition
	if c != nil {{
		want = c.{m}(condition).Get()
	}}
'''
    return pre, c or 'want'
for m in ('Where', 'And', 'Or'):
    ty = 'OrderableOngoingReadingAndWithWithWhere'
    pre, want = cond(W, m, ty, 'd.conditionBuilder')
    en(f'{W}.{m}', 'C13 C10', f'd {W}, condition Condition, r {ty}', f'''{pre}	if d.err != nil || d.orderBuilder.err != nil || {want} != nil && {want}.GetError() != nil {{
		return true
	}}
	b, ok := r.({W})
	return ok && b.err == nil && b.conditionBuilder.condition == {want} && vcSame(b.defaultBuilder, d.defaultBuilder) && vcSame(b.returnList, d.returnList) &&
		vcSame(b.orderBuilder, d.orderBuilder) && b.distinct == d.distinct''')
    ty = 'OngoingReadingWithWhere'
    pre, want = cond(D, m, ty, 'd.currentOngoingMatch.conditionBuilder')
    en(f'{D}.{m}', 'C13 C10', f'd {D}, condition Condition, r {ty}', f'''{pre}	if d.err != nil || !d.currentOngoingMatch.notNil || condition != nil && condition.GetError() != nil {{
		return true
	}}
	b, ok := r.({D})
	return ok && b.err == nil && b.currentOngoingMatch.conditionBuilder.condition == {want} && vcSame(b.currentOngoingMatch.patternList, d.currentOngoingMatch.patternList) &&
		b.currentOngoingMatch.optional == d.currentOngoingMatch.optional && b.currentOngoingMatch.notNil && specSameButMatch(d, b)''')
for t in (I, S):
    en(f'{t}.Where', 'C13 C18', f'd {t}, condition Condition, r OngoingReadingWithWhere', f'''	if d.err != nil || specCallBad(d.arguments, d.yieldItems) || condition != nil && condition.GetError() != nil {{
		return true
	}}
	b, ok := r.({D})
	if !ok''' + ('' if t == I else ' || b.err != nil') + f''' {{
		return false
	}}
	c, ok := b.currentOngoingCall.({t})
	return ok && c.err == nil && c.notNil == d.notNil && c.conditionBuilder.condition == condition && vcSame(c.procedureName, d.procedureName) && vcSame(c.arguments, d.arguments) &&
		vcSame(c.yieldItems, d.yieldItems) && ''' + ('vcSame(c.defaultBuilder, d.defaultBuilder) && vcSame(specWithoutCall(b), specWithoutCall(*d.defaultBuilder))' if t == I else 'vcSame(specWithoutCall(b), specStart())'))
    en(f'{t}.WithArgs', 'C13 C18', f'd {t}, arguments []Expression, r ' + ('OngoingInQueryCallWithArguments' if t == I else 'OngoingStandaloneCallWithoutArguments'), f'''	if d.err != nil || specBadExpressions(arguments) || d.yieldItems.GetError() != nil || d.conditionBuilder.getError() != nil {{
		return true
	}}
	b, ok := r.({t})
	return ok && b.err == nil && vcSame(b.arguments, arguments) && vcSame(b.yieldItems, d.yieldItems) && specSameCall{t[0]}(d, b)''')
    en(f'{t}.checked', 'C04 C13 C18', f'd {t}, r {t}', f'''	if d.err != nil {{
		return r.err == d.err
	}}
	if specCallBad(d.arguments, d.yieldItems) || d.conditionBuilder.getError() != nil {{
		return r.err != nil
	}}
	return vcSame(r, d)''')
    en(f'{t}.Build', 'C18 C13 C08', f'd {t}, r Statement, err error', f'''	if d.err != nil {{
		return err == d.err
	}}
	args := Arguments{{}}
	if d.arguments == nil || len(d.arguments) > 0 {{
		args = ArgumentsCreate(d.arguments)
	}}
	where := Where{{}}
	if c := d.conditionBuilder.buildCondition(); c != nil {{
		where = WhereCreate(c)
	}}
	return err == nil && vcSame(r, Statement(ProcedureCallCreate(d.procedureName, args, d.yieldItems, where)))''')
en(f'{I}.statementBuilder', 'C13 C18', f'd {I}, r {D}', '''	if d.err != nil {
		return r.err != nil
	}
	c, ok := r.currentOngoingCall.(InQueryCallBuilder)
	return ok && vcSame(c, d) && vcSame(specWithoutCall(r), specWithoutCall(*d.defaultBuilder))''')
en(f'{S}.statementBuilder', 'C13 C18', f'd {S}, r {D}', '''	if d.err != nil {
		return r.err != nil
	}
	c, ok := r.currentOngoingCall.(StandaloneCallBuilder)
	return ok && vcSame(c, d) && vcSame(specWithoutCall(r), specStart())''')

# ---- with, returning, build
en(f'{W}.statementBuilder', 'C13 C08', f'd {W}, r {D}', '''	if d.err != nil || d.defaultBuilder == nil {
		return d.err == nil || r.err != nil
	}
	return vcSame(r, d.defaultBuilder.AddWith(specWith(d)))''')
en(f'{R}.Build', 'C13 C08', f'd {R}, r Statement, err error', '''	if d.err != nil {
		return err == d.err
	}
	returning := Return{}
	if len(d.returnList) > 0 {
		returning = ReturnCreate1(d.distinct, ExpressionListCreate(d.returnList), d.orderBuilder.BuildOrder(), d.orderBuilder.skip, d.orderBuilder.limit)
	}
	return err == nil && vcSame(r, d.defaultBuilder.BuildImpl(false, returning))''')
en(f'{U}.Build', 'C13 C08 C20', f'd {U}, r Statement, err error', '''	if d.err != nil {
		return err == d.err
	}
	returning := Return{}
	if len(d.returnList) > 0 {
		returning = ReturnCreate1(d.distinct, ExpressionListCreate(d.returnList), d.orderBuilder.BuildOrder(), d.orderBuilder.skip, d.orderBuilder.limit)
	}
	return err == nil && vcSame(r, d.statementBuilder().BuildImpl(false, returning))''')
en(f'{D}.Build', 'C13 C08', f'd {D}, r Statement, err error', '''	if d.err != nil {
		return err == d.err
	}
	return err == nil && vcSame(r, d.BuildImpl(false, Return{}))''')
for m in ('Returning', 'ReturningDistinct'):
    en(f'{U}.{m}', 'C13 C20', f'd {U}, expressions []Expression, r OngoingReadingAndReturn', f'''	if d.err != nil || specBadExpressions(expressions) {{
		return true
	}}
	b, ok := r.({U})
	return ok && b.err == nil && vcSame(b.returnList, append(append(make([]Expression, 0), d.returnList...), expressions...)) && b.distinct == ({"true" if m.endswith("Distinct") else "d.distinct"}) &&
		vcSame(b.orderBuilder, d.orderBuilder) && vcSame(b.builder, d.builder) && vcSame(b.defaultBuilder, d.defaultBuilder) && b.notNil == d.notNil''')
en(f'{U}.statementBuilder', 'C13 C20', f'd {U}, r {D}', '''	if d.err != nil || specBroken(*d.defaultBuilder) || !specOneOpen(*d.defaultBuilder) {
		return d.err == nil || r.err != nil
	}
	return specClosed(r) && specAdds(*d.defaultBuilder, r, d.builder.build())''')
ty = 'BuildableStatementAndOngoingMatchAndUpdate'
en(f'{U}.Set', 'C13 C20', f'd {U}, expressions []Expression, r {ty}', '''	return d.err != nil || d.statementBuilder().err != nil || specBadExpressions(expressions) || specNext(d, UPDATE_TYPE_SET, ExpressionsToVisitables(expressions), r)''')
en(f'{U}.SetByNode', 'C13 C20', f'd {U}, node Node, labels []string, r {ty}', '''	o := OperationSetLabel(node, labels...)
	return d.err != nil || d.statementBuilder().err != nil || node.GetError() != nil || o.GetError() != nil || specNext(d, UPDATE_TYPE_SET, []Visitable{o}, r)''')
en(f'{U}.RemoveByNode', 'C13 C20', f'd {U}, node Node, labels []string, r {ty}', '''	o := OperationSetLabel(node, labels...)
	return d.err != nil || d.statementBuilder().err != nil || node.GetError() != nil || o.GetError() != nil || specNext(d, UPDATE_TYPE_REMOVE, []Visitable{o}, r)''')
for t in (U, D):
    en(f'{t}.Remove', 'C13 C20', f'd {t}, properties []Property, r {ty}', '''	expressions := specRemoved(properties, len(properties))
	bad := vcAny(len(properties), func(i int) bool { return properties[i].GetError() != nil })
''' + ('	return d.err != nil || d.statementBuilder().err != nil || bad || specNext(d, UPDATE_TYPE_REMOVE, expressions, r)' if t == U else
       '	return specBroken(d) || !specOneOpen(d) || bad || specUpdating(d, UPDATE_TYPE_REMOVE, expressions, r)'))
en('DefaultStatementWithUpdateBuilderCreate2', 'C13 C20', f'd *{D}, kind UpdateType, expressions []Expression, r {U}', '''	if d != nil && d.err != nil || specBadExpressions(expressions) {
		return r.err != nil
	}
	u, err := getUpdatingClauseBuilder(kind, ExpressionsToVisitables(expressions)...)
	if err != nil {
		return r.err == err
	}
	return r.err == nil && r.notNil && len(r.returnList) == 0 && !r.distinct && specNoOrder(r.orderBuilder) && vcSame(r.builder, u) && r.defaultBuilder == d''')
en('DefaultStatementWithUpdateBuilderCreate1', 'C13 C20', f'd *{D}, kind UpdateType, items []Visitable, r {U}', '''	u, err := getUpdatingClauseBuilder(kind, items...)
	if err != nil {
		return r.err == err
	}
	return r.err == nil && r.notNil && len(r.returnList) == 0 && !r.distinct && specNoOrder(r.orderBuilder) && vcSame(r.builder, u) && r.defaultBuilder == d''')
en('DefaultOngoingUnwind.As', 'C13 C08', f'd DefaultOngoingUnwind, variable string, r OngoingReading', f'''	if d.err != nil {{
		return true
	}}
	b, ok := r.({D})
	return ok && b.err == d.defaultBuilder.err && vcSame(b.multipartElements, d.defaultBuilder.multipartElements) &&
		vcSame(b.currentSinglePartElements, append(append(make([]Visitable, 0), d.defaultBuilder.currentSinglePartElements...), unwindCreate(d.expressionToUnwind, variable))) &&
		vcSame(b.currentOngoingMatch, d.defaultBuilder.currentOngoingMatch) && vcSame(b.currentOngoingUpdate, d.defaultBuilder.currentOngoingUpdate) && vcSame(b.currentOngoingCall, d.defaultBuilder.currentOngoingCall)''')
en(f'{D}.AsCondition', 'C18', f'd {D}, r Condition', '''	if d.err != nil || !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
		return r.GetError() != nil
	}
	return vcSame(r, Condition(ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())))''')
for m, k in (('OnCreate', 'ON_CREATE'), ('OnMatch', 'ON_MATCH')):
    en(f'{D}.{m}', 'C20 C13', f'd {D}, r OngoingMergeAction', f'''	if d.err != nil {{
		return true
	}}
	b, ok := r.(OngoingMergeActionInBuilder)
	return ok && (b.err != nil || b.mergeType == {k} && vcSame(*b.defaultBuilder, d))''')

open('/verif/contracts/builders.go', 'w').write('''package cypher

// Contracts of the steps of the builders that order, filter, return and build.
// Written by tools/mkbuilders.py.

//@ fileprops C13
//@ opaque DefaultStatementBuilder.AddWith DefaultStatementBuilder.BuildImpl DefaultStatementWithUpdateBuilder.statementBuilder
//@ opaque getUpdatingClauseBuilder UpdatingClauseBuilder.build ProcedureCallBuilder.Build
//@ hide ExpressionListCreate withCreate WhereCreate OrderBuilder.BuildOrder ConditionBuilder.buildCondition ReturnCreate1 ArgumentsCreate ProcedureCallCreate
//@ hide OperationSetLabel OperationRemove unwindCreate MatchPhraseCreate PatternCreate ExistentialSubqueryExists Sort SkipCreate LimitCreate
//@ hide SortItem.Ascending SortItem.Descending Condition.And Condition.Or ConditionContainer.Get MatchBuilder.buildMatch
//@ via ExpressionsToVisitables InQueryCallBuilder.checked StandaloneCallBuilder.checked DefaultStatementWithUpdateBuilderCreate2 DefaultStatementWithUpdateBuilderCreate1 YieldItemsCreate
//@ nonnil DefaultStatementBuilder.BuildImpl
//@ use getUpdatingClauseBuilder InQueryCallBuilder.checked StandaloneCallBuilder.checked
//@ nilok DefaultStatementBuilder.Where condition
//@ nilok InQueryCallBuilder.Where condition
//@ nilok StandaloneCallBuilder.Where condition
//@ nilok DefaultStatementWithWithBuilder.Where condition

// specItems: the items of the order, with the one that still takes a direction.
func specItems(o OrderBuilder) []SortItem {
	items := append(make([]SortItem, 0), o.sortItemList...)
	if o.lastSortItem.isNotNil() {
		items = append(items, o.lastSortItem)
	}
	return items
}

func specSameItems(o OrderBuilder, p OrderBuilder) bool {
	return p.err == nil && vcSame(p.sortItemList, o.sortItemList) && vcSame(p.lastSortItem, o.lastSortItem)
}

func specSkipLimit(o OrderBuilder, p OrderBuilder) bool {
	return p.err == nil && vcSame(p.skip, o.skip) && vcSame(p.limit, o.limit)
}

func specRestR(d DefaultStatementWithReturnBuilder, b DefaultStatementWithReturnBuilder) bool {
	return vcSame(b.returnList, d.returnList) && b.distinct == d.distinct && vcSame(b.defaultBuilder, d.defaultBuilder)
}

func specRestU(d DefaultStatementWithUpdateBuilder, b DefaultStatementWithUpdateBuilder) bool {
	return vcSame(b.returnList, d.returnList) && b.distinct == d.distinct && vcSame(b.defaultBuilder, d.defaultBuilder) && vcSame(b.builder, d.builder) && b.notNil == d.notNil
}

func specRestW(d DefaultStatementWithWithBuilder, b DefaultStatementWithWithBuilder) bool {
	return vcSame(b.returnList, d.returnList) && b.distinct == d.distinct && vcSame(b.defaultBuilder, d.defaultBuilder) && vcSame(b.conditionBuilder, d.conditionBuilder)
}

func specSameButMatch(d DefaultStatementBuilder, b DefaultStatementBuilder) bool {
	return vcSame(b.currentSinglePartElements, d.currentSinglePartElements) && vcSame(b.multipartElements, d.multipartElements) &&
		vcSame(b.currentOngoingUpdate, d.currentOngoingUpdate) && vcSame(b.currentOngoingCall, d.currentOngoingCall)
}

func specCallBad(arguments []Expression, y YieldItems) bool {
	return specBadExpressions(arguments) || y.GetError() != nil
}

func specSameCallI(d InQueryCallBuilder, b InQueryCallBuilder) bool {
	return vcSame(b.procedureName, d.procedureName) && vcSame(b.conditionBuilder, d.conditionBuilder) && b.notNil == d.notNil && vcSame(b.defaultBuilder, d.defaultBuilder)
}

func specSameCallS(d StandaloneCallBuilder, b StandaloneCallBuilder) bool {
	return vcSame(b.procedureName, d.procedureName) && vcSame(b.conditionBuilder, d.conditionBuilder) && b.notNil == d.notNil
}

// specWith: the WITH that is being built.
func specWith(d DefaultStatementWithWithBuilder) with {
	if len(d.returnList) == 0 {
		return with{}
	}
	where := Where{}
	if c := d.conditionBuilder.buildCondition(); c != nil {
		where = WhereCreate(c)
	}
	return withCreate(d.distinct, ExpressionListCreate(d.returnList), d.orderBuilder.BuildOrder(), d.orderBuilder.skip, d.orderBuilder.limit, where)
}

// specNext: another updating clause after the one of d.
func specNext(d DefaultStatementWithUpdateBuilder, kind UpdateType, items []Visitable, r interface{}) bool {
	u, err := getUpdatingClauseBuilder(kind, items...)
	if err != nil {
		return true
	}
	b, ok := r.(DefaultStatementWithUpdateBuilder)
	return ok && b.err == nil && len(b.returnList) == 0 && !b.distinct && specNoOrder(b.orderBuilder) && vcSame(b.builder, u) && vcSame(*b.defaultBuilder, d.statementBuilder())
}

''' + '\n'.join(out))
subprocess.run(['gofmt', '-w', '/verif/contracts/builders.go'])
