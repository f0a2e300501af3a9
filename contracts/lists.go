package cypher

// Contracts on functions that turn a list of values into a list of expressions.

//@ opaque UnionQueryCreate UnionQuery.addAdditionalQueries
//@ hide SymbolicNameCreate Named.GetRequiredSymbolicName LiteralOf ListExpressionCreate1 NewExpressionList YieldItemsCreate ExpressionListCreate prepareSetExpression
//@ via InQueryCallBuilder.checked StandaloneCallBuilder.checked

// specNamesOf: the names of the first n values.
// @ rec
func specNamesOf(xs []Named, n int) []Expression {
	if n <= 0 {
		return []Expression{}
	}
	p := specNamesOf(xs, n-1)
	if xs[n-1] == nil {
		return p
	}
	return append(p, xs[n-1].GetRequiredSymbolicName())
}

// @ ensures CreateSymbolicNameByNamed
// @ props C13 C17 C19
func li_CreateSymbolicNameByNamed(xs []Named, r []Expression) bool {
	return vcSame(r, specNamesOf(xs, len(xs)))
}

// specSymbols: names for the first n texts.
// @ rec
func specSymbols(xs []string, n int) []Expression {
	if n <= 0 {
		return []Expression{}
	}
	p := specSymbols(xs, n-1)
	if xs[n-1] == "" {
		return p
	}
	return append(p, SymbolicNameCreate(xs[n-1]))
}

// @ ensures CreateSymbolicNameByString
// @ props C13 C01
func li_CreateSymbolicNameByString(xs []string, r []Expression) bool {
	return vcSame(r, specSymbols(xs, len(xs)))
}

// specSingles: the first n statements, all of them single queries.
// @ rec
func specSingles(xs []Statement, n int) []SingleQuery {
	if n <= 0 {
		return []SingleQuery{}
	}
	q, _ := xs[n-1].(SingleQuery)
	return append(specSingles(xs, n-1), q)
}

func specNotSingle(xs []Statement) bool {
	return vcAny(len(xs), func(i int) bool { _, ok := xs[i].(SingleQuery); return !ok })
}

// @ ensures unionImpl specs
// @ props C18 C04
func li_unionImpl(all bool, xs []Statement, r Statement) bool {
	if len(xs) < 2 {
		return r.GetError() != nil
	}
	u, isUnion := xs[0].(UnionQuery)
	if !isUnion {
		if specNotSingle(xs) {
			return r.GetError() != nil
		}
		return vcSame(r, UnionQueryCreate(all, specSingles(xs, len(xs))))
	}
	if u.err != nil || u.all != all || specNotSingle(xs[1:]) {
		return r.GetError() != nil
	}
	if !u.notNil {
		return vcSame(r, UnionQueryCreate(all, specSingles(xs[1:], len(xs)-1)))
	}
	return vcSame(r, u.addAdditionalQueries(specSingles(xs[1:], len(xs)-1)))
}

// specBoxed: the first n names as expressions.
// @ rec len
func specBoxed(xs []SymbolicName, n int) []Expression {
	if n <= 0 {
		return []Expression{}
	}
	return append(specBoxed(xs, n-1), xs[n-1])
}

// specFields: the first n fields as expressions.
// @ rec len
func specFields(xs []AliasedExpression, n int) []Expression {
	if n <= 0 {
		return []Expression{}
	}
	return append(specFields(xs, n-1), xs[n-1])
}

// specRemoved: the first n properties as parts.
// @ rec len
func specRemoved(xs []Property, n int) []Visitable {
	if n <= 0 {
		return []Visitable{}
	}
	return append(specRemoved(xs, n-1), xs[n-1])
}

// specLiterals: the literals of the first n values.
// @ rec len
func specLiterals(xs []interface{}, n int) []Expression {
	if n <= 0 {
		return []Expression{}
	}
	return append(specLiterals(xs, n-1), LiteralOf(xs[n-1]))
}

// @ ensures ListOfRaw specs
// @ props C03 C19
func li_ListOfRaw(xs []interface{}, r ListExpression) bool {
	if vcAny(len(xs), func(i int) bool { return LiteralOf(xs[i]).GetError() != nil }) {
		return r.err != nil
	}
	return vcSame(r, ListExpressionCreate1(specLiterals(xs, len(xs))...))
}

// @ ensures InQueryCallBuilder.YieldSymbolic
// @ props C13 C18
func li_InQueryCallBuilder_YieldSymbolic(d InQueryCallBuilder, names []SymbolicName, r OngoingInQueryCallWithReturnFields) bool {
	d.yieldItems = YieldItemsCreate(specBoxed(names, len(names)))
	if d.err != nil || specCallBad(d.arguments, d.yieldItems) || d.conditionBuilder.getError() != nil {
		return true
	}
	b, ok := r.(InQueryCallBuilder)
	return ok && vcSame(b, d)
}

// @ ensures InQueryCallBuilder.Yield
// @ props C13 C18
func li_InQueryCallBuilder_Yield(d InQueryCallBuilder, fields []AliasedExpression, r OngoingInQueryCallWithReturnFields) bool {
	d.yieldItems = YieldItemsCreate(specFields(fields, len(fields)))
	if d.err != nil || specCallBad(d.arguments, d.yieldItems) || d.conditionBuilder.getError() != nil {
		return true
	}
	b, ok := r.(InQueryCallBuilder)
	return ok && vcSame(b, d)
}

// @ ensures StandaloneCallBuilder.YieldSymbolic
// @ props C13 C18
func li_StandaloneCallBuilder_YieldSymbolic(d StandaloneCallBuilder, names []SymbolicName, r OngoingStandaloneCallWithReturnFields) bool {
	d.yieldItems = YieldItemsCreate(specBoxed(names, len(names)))
	if d.err != nil || specCallBad(d.arguments, d.yieldItems) || d.conditionBuilder.getError() != nil {
		return true
	}
	b, ok := r.(StandaloneCallBuilder)
	return ok && vcSame(b, d)
}

// @ ensures StandaloneCallBuilder.Yield
// @ props C13 C18
func li_StandaloneCallBuilder_Yield(d StandaloneCallBuilder, fields []AliasedExpression, r OngoingStandaloneCallWithReturnFields) bool {
	d.yieldItems = YieldItemsCreate(specFields(fields, len(fields)))
	if d.err != nil || specCallBad(d.arguments, d.yieldItems) || d.conditionBuilder.getError() != nil {
		return true
	}
	b, ok := r.(StandaloneCallBuilder)
	return ok && vcSame(b, d)
}

// specPatternElements: the first n parts, which are patterns.
// @ rec
func specPatternElements(xs []Visitable, n int) []PatternElement {
	if n <= 0 {
		return []PatternElement{}
	}
	x, _ := xs[n-1].(PatternElement)
	return append(specPatternElements(xs, n-1), x)
}

// specExpressions: the first n parts, which are expressions.
// @ rec
func specExpressions(xs []Visitable, n int) []Expression {
	if n <= 0 {
		return []Expression{}
	}
	x, _ := xs[n-1].(Expression)
	return append(specExpressions(xs, n-1), x)
}

// @ ensures getUpdatingClauseBuilder specs
// @ props C20 C13 C08
func li_getUpdatingClauseBuilder(k UpdateType, xs []Visitable, r UpdatingClauseBuilder, err error) bool {
	if r == nil {
		return false
	}
	if k == UPDATE_TYPE_MERGE || k == UPDATE_TYPE_CREATE {
		patterns := specPatternElements(xs, len(xs))
		if len(xs) == 0 {
			return err != nil
		}
		if k == UPDATE_TYPE_CREATE {
			return err == nil && vcSame(r, UpdatingClauseBuilder(CreateBuilder{patternElements: patterns}))
		}
		m, ok := r.(MergeBuilder)
		return err == nil && ok && vcSame(m.patternElements, patterns) && len(m.mergeActions) == 0
	}
	items := specExpressions(xs, len(xs))
	if k == UPDATE_TYPE_SET {
		pairs, bad := prepareSetExpression(items)
		if bad != nil {
			return err != nil
		}
		return err == nil && vcSame(r, UpdatingClauseBuilder(SetBuilderCreate(ExpressionListCreate(pairs))))
	}
	list := ExpressionListCreate(items)
	switch k {
	case UPDATE_TYPE_DETACH_DELETE:
		return err == nil && vcSame(r, UpdatingClauseBuilder(DeleteBuilderCreate(list, true)))
	case UPDATE_TYPE_DELETE:
		return err == nil && vcSame(r, UpdatingClauseBuilder(DeleteBuilderCreate(list, false)))
	case UPDATE_TYPE_REMOVE:
		return err == nil && vcSame(r, UpdatingClauseBuilder(RemoveBuilderCreate(list)))
	}
	return err != nil
}

// @ ensures getUpdatingClauseBuilder
func li_getUpdatingClauseBuilder_nonNil(k UpdateType, xs []Visitable, r UpdatingClauseBuilder, err error) bool {
	return r != nil
}
