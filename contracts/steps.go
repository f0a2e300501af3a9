package cypher

// Contracts of the steps of the statement builders that hand on to another step.
// Written by tools/mksteps.py.

//@ fileprops C13
//@ opaque DefaultStatementBuilder.MatchDefault DefaultStatementBuilder.Create DefaultStatementBuilder.Merge DefaultStatementBuilder.Delete DefaultStatementBuilder.DetachDelete
//@ opaque DefaultStatementBuilder.Set DefaultStatementBuilder.SetByNode DefaultStatementBuilder.RemoveByNode DefaultStatementBuilder.Remove DefaultStatementBuilder.Unwind
//@ opaque DefaultStatementBuilder.Call DefaultStatementBuilder.Call1 DefaultStatementBuilder.WithDefault DefaultStatementBuilder.ReturningDefault DefaultStatementBuilder.Where
//@ opaque DefaultStatementBuilder.And DefaultStatementBuilder.Or DefaultStatementBuilder.AddWith DefaultStatementBuilder.BuildImpl DefaultStatementWithWithBuilder.statementBuilder
//@ opaque DefaultStatementWithUpdateBuilder.statementBuilder InQueryCallBuilder.statementBuilder StandaloneCallBuilder.statementBuilder DefaultStatementWithUpdateBuilder.Returning
//@ opaque DefaultStatementWithUpdateBuilder.ReturningDistinct DefaultStatementWithUpdateBuilder.Set DefaultStatementWithUpdateBuilder.SetByNode DefaultStatementWithUpdateBuilder.RemoveByNode
//@ opaque DefaultStatementWithUpdateBuilder.Remove InQueryCallBuilder.Where InQueryCallBuilder.YieldSymbolic StandaloneCallBuilder.Where StandaloneCallBuilder.YieldSymbolic
//@ opaque DefaultStatementWithWithBuilder.Where DefaultStatementWithWithBuilder.And DefaultStatementWithWithBuilder.Or
//@ hide CreateSymbolicNameByString CreateSymbolicNameByNamed ListOf ASymbolic OperationSetLabel OperationRemove RelationshipPatternConditionCreate Named.GetRequiredSymbolicName
//@ hide ConditionContainer.Get StandaloneCallBuilderCreate ProcedureNameCreate
//@ via DefaultStatementBuilder.WhereConditionContainer DefaultStatementBuilder.WherePattern DefaultStatementBuilder.ReturningByString DefaultStatementBuilder.ReturningByNamed
//@ via DefaultStatementBuilder.ReturningDistinctByString DefaultStatementBuilder.ReturningDistinctByNamed DefaultStatementBuilder.WithByString DefaultStatementBuilder.WithByNamed
//@ via DefaultStatementBuilder.With DefaultStatementBuilder.WithDistinctByString DefaultStatementBuilder.WithDistinctByNamed DefaultStatementBuilder.WithDistinct
//@ via DefaultStatementBuilder.DeleteByString DefaultStatementBuilder.DeleteByNamed DefaultStatementBuilder.DetachDeleteByString DefaultStatementBuilder.DetachDeleteByNamed
//@ via DefaultStatementBuilder.SetWithNamed DefaultStatementBuilder.Unwinds DefaultStatementBuilder.UnwindByString DefaultStatementBuilder.AndPattern
//@ via DefaultStatementBuilder.OrPattern DefaultStatementBuilder.OptionalMatch DefaultStatementBuilder.Match DefaultStatementBuilder.Returning DefaultStatementBuilder.ReturningDistinct
//@ via DefaultStatementWithWithBuilder.ReturningByString DefaultStatementWithWithBuilder.ReturningByNamed DefaultStatementWithWithBuilder.Returning
//@ via DefaultStatementWithWithBuilder.ReturningDistinctByString DefaultStatementWithWithBuilder.ReturningDistinctByNamed DefaultStatementWithWithBuilder.ReturningDistinct
//@ via DefaultStatementWithWithBuilder.WithByString DefaultStatementWithWithBuilder.WithByNamed DefaultStatementWithWithBuilder.With DefaultStatementWithWithBuilder.WithDistinctByString
//@ via DefaultStatementWithWithBuilder.WithDistinctByNamed DefaultStatementWithWithBuilder.WithDistinct DefaultStatementWithWithBuilder.DeleteByString
//@ via DefaultStatementWithWithBuilder.DeleteByNamed DefaultStatementWithWithBuilder.Delete DefaultStatementWithWithBuilder.DetachDeleteByString DefaultStatementWithWithBuilder.DetachDeleteByNamed
//@ via DefaultStatementWithWithBuilder.DetachDelete DefaultStatementWithWithBuilder.Merge DefaultStatementWithWithBuilder.Set DefaultStatementWithWithBuilder.SetWithNamed
//@ via DefaultStatementWithWithBuilder.SetByNode DefaultStatementWithWithBuilder.RemoveByNode DefaultStatementWithWithBuilder.Remove DefaultStatementWithWithBuilder.Unwinds
//@ via DefaultStatementWithWithBuilder.UnwindByString DefaultStatementWithWithBuilder.Unwind DefaultStatementWithWithBuilder.Create DefaultStatementWithWithBuilder.Call
//@ via DefaultStatementWithWithBuilder.Call1 DefaultStatementWithWithBuilder.Match DefaultStatementWithWithBuilder.OptionalMatch DefaultStatementWithWithBuilder.MatchDefault
//@ via DefaultStatementWithWithBuilder.WherePattern DefaultStatementWithWithBuilder.AndPattern DefaultStatementWithWithBuilder.OrPattern DefaultStatementWithUpdateBuilder.ReturningByString
//@ via DefaultStatementWithUpdateBuilder.ReturningByNamed DefaultStatementWithUpdateBuilder.ReturningDistinctByString DefaultStatementWithUpdateBuilder.ReturningDistinctByNamed
//@ via DefaultStatementWithUpdateBuilder.WithByString DefaultStatementWithUpdateBuilder.WithByNamed DefaultStatementWithUpdateBuilder.With DefaultStatementWithUpdateBuilder.WithDefault
//@ via DefaultStatementWithUpdateBuilder.WithDistinctByString DefaultStatementWithUpdateBuilder.WithDistinctByNamed DefaultStatementWithUpdateBuilder.WithDistinct
//@ via DefaultStatementWithUpdateBuilder.DeleteByString DefaultStatementWithUpdateBuilder.DeleteByNamed DefaultStatementWithUpdateBuilder.Delete DefaultStatementWithUpdateBuilder.DetachDeleteByString
//@ via DefaultStatementWithUpdateBuilder.DetachDeleteByNamed DefaultStatementWithUpdateBuilder.DetachDelete DefaultStatementWithUpdateBuilder.Merge
//@ via DefaultStatementWithUpdateBuilder.SetWithNamed DefaultStatementWithUpdateBuilder.Create InQueryCallBuilder.WhereConditionContainer InQueryCallBuilder.WherePattern
//@ via InQueryCallBuilder.ReturningByString InQueryCallBuilder.ReturningByNamed InQueryCallBuilder.Returning InQueryCallBuilder.ReturningDistinctByString
//@ via InQueryCallBuilder.ReturningDistinctByNamed InQueryCallBuilder.ReturningDistinct InQueryCallBuilder.WithByString InQueryCallBuilder.WithByNamed
//@ via InQueryCallBuilder.With InQueryCallBuilder.WithDistinctByString InQueryCallBuilder.WithDistinctByNamed InQueryCallBuilder.WithDistinct InQueryCallBuilder.Call
//@ via StandaloneCallBuilder.WhereConditionContainer StandaloneCallBuilder.WherePattern StandaloneCallBuilder.ReturningByString StandaloneCallBuilder.ReturningByNamed
//@ via StandaloneCallBuilder.Returning StandaloneCallBuilder.ReturningDistinctByString StandaloneCallBuilder.ReturningDistinctByNamed StandaloneCallBuilder.ReturningDistinct
//@ via StandaloneCallBuilder.WithByString StandaloneCallBuilder.WithByNamed StandaloneCallBuilder.With StandaloneCallBuilder.WithDistinctByString StandaloneCallBuilder.WithDistinctByNamed
//@ via StandaloneCallBuilder.WithDistinct StandaloneCallBuilder.Call

func specStart() DefaultStatementBuilder {
	return DefaultStatementBuilder{currentSinglePartElements: make([]Visitable, 0), multipartElements: make([]MultiPartElement, 0)}
}

func specBadExpressions(es []Expression) bool {
	return vcAny(len(es), func(i int) bool { return es[i] != nil && es[i].GetError() != nil })
}

func specBadPatterns(es []PatternElement) bool {
	return vcAny(len(es), func(i int) bool { return es[i] != nil && es[i].GetError() != nil })
}

func specBadNamed(es []Named) bool {
	return vcAny(len(es), func(i int) bool { return es[i] != nil && es[i].GetError() != nil })
}

// @ ensures DefaultStatementBuilder.WhereConditionContainer
func st_DefaultStatementBuilder_WhereConditionContainer(b DefaultStatementBuilder, container ConditionContainer, r OngoingReadingWithWhere) bool {
	return b.err != nil || vcSame(r, b.Where(container.Get()))
}

// @ ensures DefaultStatementBuilder.WherePattern
func st_DefaultStatementBuilder_WherePattern(b DefaultStatementBuilder, pattern RelationshipPattern, r OngoingReadingWithWhere) bool {
	return b.err != nil || pattern == nil || pattern.GetError() != nil || vcSame(r, b.Where(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures DefaultStatementBuilder.ReturningByString
func st_DefaultStatementBuilder_ReturningByString(b DefaultStatementBuilder, variables []string, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, b.ReturningDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementBuilder.ReturningByNamed
func st_DefaultStatementBuilder_ReturningByNamed(b DefaultStatementBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, b.ReturningDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementBuilder.ReturningDistinctByString
func st_DefaultStatementBuilder_ReturningDistinctByString(b DefaultStatementBuilder, variables []string, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, b.ReturningDefault(true, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementBuilder.ReturningDistinctByNamed
func st_DefaultStatementBuilder_ReturningDistinctByNamed(b DefaultStatementBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, b.ReturningDefault(true, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementBuilder.WithByString
func st_DefaultStatementBuilder_WithByString(b DefaultStatementBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	return b.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, b.WithDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementBuilder.WithByNamed
func st_DefaultStatementBuilder_WithByNamed(b DefaultStatementBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	return b.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, b.WithDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementBuilder.With
func st_DefaultStatementBuilder_With(b DefaultStatementBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	return b.err != nil || specBadExpressions(expressions) || vcSame(r, b.WithDefault(false, expressions...))
}

// @ ensures DefaultStatementBuilder.WithDistinctByString
func st_DefaultStatementBuilder_WithDistinctByString(b DefaultStatementBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	return b.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, b.WithDefault(true, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementBuilder.WithDistinctByNamed
func st_DefaultStatementBuilder_WithDistinctByNamed(b DefaultStatementBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	return b.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, b.WithDefault(true, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementBuilder.WithDistinct
func st_DefaultStatementBuilder_WithDistinct(b DefaultStatementBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	return b.err != nil || specBadExpressions(expressions) || vcSame(r, b.WithDefault(true, expressions...))
}

// @ ensures DefaultStatementBuilder.DeleteByString
func st_DefaultStatementBuilder_DeleteByString(b DefaultStatementBuilder, variables []string, r OngoingUpdate) bool {
	return b.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, b.Delete(CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementBuilder.DeleteByNamed
func st_DefaultStatementBuilder_DeleteByNamed(b DefaultStatementBuilder, variables []Named, r OngoingUpdate) bool {
	return b.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, b.Delete(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementBuilder.DetachDeleteByString
func st_DefaultStatementBuilder_DetachDeleteByString(b DefaultStatementBuilder, variables []string, r OngoingUpdate) bool {
	return b.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, b.DetachDelete(CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementBuilder.DetachDeleteByNamed
func st_DefaultStatementBuilder_DetachDeleteByNamed(b DefaultStatementBuilder, variables []Named, r OngoingUpdate) bool {
	return b.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, b.DetachDelete(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementBuilder.SetWithNamed
func st_DefaultStatementBuilder_SetWithNamed(b DefaultStatementBuilder, variable Named, expression Expression, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	return b.err != nil || variable == nil || variable.GetError() != nil || variable.GetRequiredSymbolicName().GetError() != nil || expression != nil && expression.GetError() != nil || vcSame(r, b.Set(variable.GetRequiredSymbolicName(), expression))
}

// @ ensures DefaultStatementBuilder.Unwinds
func st_DefaultStatementBuilder_Unwinds(b DefaultStatementBuilder, expressions []Expression, r OngoingUnwind) bool {
	return b.err != nil || specBadExpressions(expressions) || ListOf(expressions...).GetError() != nil || vcSame(r, b.Unwind(ListOf(expressions...)))
}

// @ ensures DefaultStatementBuilder.UnwindByString
func st_DefaultStatementBuilder_UnwindByString(b DefaultStatementBuilder, variable string, r OngoingUnwind) bool {
	return b.err != nil || ASymbolic(variable).GetError() != nil || vcSame(r, b.Unwind(ASymbolic(variable)))
}

// @ ensures DefaultStatementBuilder.AndPattern
func st_DefaultStatementBuilder_AndPattern(b DefaultStatementBuilder, pattern RelationshipPattern, r OngoingReadingWithWhere) bool {
	return b.err != nil || pattern == nil || pattern.GetError() != nil || vcSame(r, b.And(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures DefaultStatementBuilder.OrPattern
func st_DefaultStatementBuilder_OrPattern(b DefaultStatementBuilder, pattern RelationshipPattern, r OngoingReadingWithWhere) bool {
	return b.err != nil || pattern == nil || pattern.GetError() != nil || vcSame(r, b.Or(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures DefaultStatementBuilder.OptionalMatch
func st_DefaultStatementBuilder_OptionalMatch(b DefaultStatementBuilder, patterns []PatternElement, r OngoingReadingWithoutWhere) bool {
	return b.err != nil || specBadPatterns(patterns) || vcSame(r, b.MatchDefault(true, patterns...))
}

// @ ensures DefaultStatementBuilder.Match
func st_DefaultStatementBuilder_Match(b DefaultStatementBuilder, patterns []PatternElement, r OngoingReadingWithoutWhere) bool {
	return b.err != nil || specBadPatterns(patterns) || vcSame(r, b.MatchDefault(false, patterns...))
}

// @ ensures DefaultStatementBuilder.Returning
func st_DefaultStatementBuilder_Returning(b DefaultStatementBuilder, expressions []Expression, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadExpressions(expressions) || vcSame(r, b.ReturningDefault(false, expressions...))
}

// @ ensures DefaultStatementBuilder.ReturningDistinct
func st_DefaultStatementBuilder_ReturningDistinct(b DefaultStatementBuilder, expression []Expression, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadExpressions(expression) || vcSame(r, b.ReturningDefault(true, expression...))
}

// @ ensures DefaultStatementWithWithBuilder.ReturningByString
func st_DefaultStatementWithWithBuilder_ReturningByString(b DefaultStatementWithWithBuilder, variables []string, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.ReturningDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.ReturningByNamed
func st_DefaultStatementWithWithBuilder_ReturningByNamed(b DefaultStatementWithWithBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.ReturningDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.Returning
func st_DefaultStatementWithWithBuilder_Returning(b DefaultStatementWithWithBuilder, expression []Expression, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expression) || vcSame(r, base.ReturningDefault(false, expression...))
}

// @ ensures DefaultStatementWithWithBuilder.ReturningDistinctByString
func st_DefaultStatementWithWithBuilder_ReturningDistinctByString(b DefaultStatementWithWithBuilder, variables []string, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.ReturningDefault(true, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.ReturningDistinctByNamed
func st_DefaultStatementWithWithBuilder_ReturningDistinctByNamed(b DefaultStatementWithWithBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.ReturningDefault(true, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.ReturningDistinct
func st_DefaultStatementWithWithBuilder_ReturningDistinct(b DefaultStatementWithWithBuilder, expression []Expression, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expression) || vcSame(r, base.ReturningDefault(true, expression...))
}

// @ ensures DefaultStatementWithWithBuilder.WithByString
func st_DefaultStatementWithWithBuilder_WithByString(b DefaultStatementWithWithBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.WithDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.WithByNamed
func st_DefaultStatementWithWithBuilder_WithByNamed(b DefaultStatementWithWithBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.WithDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.With
func st_DefaultStatementWithWithBuilder_With(b DefaultStatementWithWithBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.WithDefault(false, expressions...))
}

// @ ensures DefaultStatementWithWithBuilder.WithDistinctByString
func st_DefaultStatementWithWithBuilder_WithDistinctByString(b DefaultStatementWithWithBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.WithDefault(true, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.WithDistinctByNamed
func st_DefaultStatementWithWithBuilder_WithDistinctByNamed(b DefaultStatementWithWithBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.WithDefault(true, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.WithDistinct
func st_DefaultStatementWithWithBuilder_WithDistinct(b DefaultStatementWithWithBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.WithDefault(true, expressions...))
}

// @ ensures DefaultStatementWithWithBuilder.DeleteByString
func st_DefaultStatementWithWithBuilder_DeleteByString(b DefaultStatementWithWithBuilder, variables []string, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.Delete(CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.DeleteByNamed
func st_DefaultStatementWithWithBuilder_DeleteByNamed(b DefaultStatementWithWithBuilder, variables []Named, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.Delete(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.Delete
func st_DefaultStatementWithWithBuilder_Delete(b DefaultStatementWithWithBuilder, expressions []Expression, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.Delete(expressions...))
}

// @ ensures DefaultStatementWithWithBuilder.DetachDeleteByString
func st_DefaultStatementWithWithBuilder_DetachDeleteByString(b DefaultStatementWithWithBuilder, variables []string, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.DetachDelete(CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.DetachDeleteByNamed
func st_DefaultStatementWithWithBuilder_DetachDeleteByNamed(b DefaultStatementWithWithBuilder, variables []Named, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.DetachDelete(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithWithBuilder.DetachDelete
func st_DefaultStatementWithWithBuilder_DetachDelete(b DefaultStatementWithWithBuilder, expressions []Expression, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.DetachDelete(expressions...))
}

// @ ensures DefaultStatementWithWithBuilder.Merge
func st_DefaultStatementWithWithBuilder_Merge(b DefaultStatementWithWithBuilder, pattern []PatternElement, r OngoingUpdateAndExposesSet) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadPatterns(pattern) || vcSame(r, base.Merge(pattern...))
}

// @ ensures DefaultStatementWithWithBuilder.Set
func st_DefaultStatementWithWithBuilder_Set(b DefaultStatementWithWithBuilder, expressions []Expression, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.Set(expressions...))
}

// @ ensures DefaultStatementWithWithBuilder.SetWithNamed
func st_DefaultStatementWithWithBuilder_SetWithNamed(b DefaultStatementWithWithBuilder, variable Named, expression Expression, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || variable == nil || variable.GetError() != nil || variable.GetRequiredSymbolicName().GetError() != nil || expression != nil && expression.GetError() != nil || vcSame(r, base.Set(variable.GetRequiredSymbolicName(), expression))
}

// @ ensures DefaultStatementWithWithBuilder.SetByNode
func st_DefaultStatementWithWithBuilder_SetByNode(b DefaultStatementWithWithBuilder, node Node, labels []string, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || node.GetError() != nil || vcSame(r, base.SetByNode(node, labels...))
}

// @ ensures DefaultStatementWithWithBuilder.RemoveByNode
func st_DefaultStatementWithWithBuilder_RemoveByNode(b DefaultStatementWithWithBuilder, node Node, labels []string, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || node.GetError() != nil || vcSame(r, base.RemoveByNode(node, labels...))
}

// @ ensures DefaultStatementWithWithBuilder.Remove
func st_DefaultStatementWithWithBuilder_Remove(b DefaultStatementWithWithBuilder, properties []Property, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || vcAny(len(properties), func(i int) bool { return properties[i].GetError() != nil }) || vcSame(r, base.Remove(properties...))
}

// @ ensures DefaultStatementWithWithBuilder.Unwinds
func st_DefaultStatementWithWithBuilder_Unwinds(b DefaultStatementWithWithBuilder, expression []Expression, r OngoingUnwind) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expression) || ListOf(expression...).GetError() != nil || vcSame(r, base.Unwind(ListOf(expression...)))
}

// @ ensures DefaultStatementWithWithBuilder.UnwindByString
func st_DefaultStatementWithWithBuilder_UnwindByString(b DefaultStatementWithWithBuilder, variable string, r OngoingUnwind) bool {
	base := b.statementBuilder()
	return base.err != nil || ASymbolic(variable).GetError() != nil || vcSame(r, base.Unwind(ASymbolic(variable)))
}

// @ ensures DefaultStatementWithWithBuilder.Unwind
func st_DefaultStatementWithWithBuilder_Unwind(b DefaultStatementWithWithBuilder, expression Expression, r OngoingUnwind) bool {
	base := b.statementBuilder()
	return base.err != nil || expression != nil && expression.GetError() != nil || vcSame(r, base.Unwind(expression))
}

// @ ensures DefaultStatementWithWithBuilder.Create
func st_DefaultStatementWithWithBuilder_Create(b DefaultStatementWithWithBuilder, element []PatternElement, r OngoingUpdateAndExposesSet) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadPatterns(element) || vcSame(r, base.Create(element...))
}

// @ ensures DefaultStatementWithWithBuilder.Call
func st_DefaultStatementWithWithBuilder_Call(b DefaultStatementWithWithBuilder, statement Statement, r OngoingReadingWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || statement != nil && statement.GetError() != nil || vcSame(r, base.Call(statement))
}

// @ ensures DefaultStatementWithWithBuilder.Call1
func st_DefaultStatementWithWithBuilder_Call1(b DefaultStatementWithWithBuilder, namespaceAndProcedure []string, r OngoingInQueryCallWithoutArguments) bool {
	base := b.statementBuilder()
	return base.err != nil || vcSame(r, base.Call1(namespaceAndProcedure...))
}

// @ ensures DefaultStatementWithWithBuilder.Match
func st_DefaultStatementWithWithBuilder_Match(b DefaultStatementWithWithBuilder, pattern []PatternElement, r OngoingReadingWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadPatterns(pattern) || vcSame(r, base.MatchDefault(false, pattern...))
}

// @ ensures DefaultStatementWithWithBuilder.OptionalMatch
func st_DefaultStatementWithWithBuilder_OptionalMatch(b DefaultStatementWithWithBuilder, pattern []PatternElement, r OngoingReadingWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadPatterns(pattern) || vcSame(r, base.MatchDefault(true, pattern...))
}

// @ ensures DefaultStatementWithWithBuilder.MatchDefault
func st_DefaultStatementWithWithBuilder_MatchDefault(b DefaultStatementWithWithBuilder, optional bool, pattern []PatternElement, r OngoingReadingWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadPatterns(pattern) || vcSame(r, base.MatchDefault(optional, pattern...))
}

// @ ensures DefaultStatementWithWithBuilder.WherePattern
func st_DefaultStatementWithWithBuilder_WherePattern(b DefaultStatementWithWithBuilder, pattern RelationshipPattern, r OrderableOngoingReadingAndWithWithWhere) bool {
	return b.err != nil || pattern == nil || pattern.GetError() != nil || vcSame(r, b.Where(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures DefaultStatementWithWithBuilder.AndPattern
func st_DefaultStatementWithWithBuilder_AndPattern(b DefaultStatementWithWithBuilder, pattern RelationshipPattern, r OrderableOngoingReadingAndWithWithWhere) bool {
	return b.err != nil || pattern == nil || pattern.GetError() != nil || vcSame(r, b.And(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures DefaultStatementWithWithBuilder.OrPattern
func st_DefaultStatementWithWithBuilder_OrPattern(b DefaultStatementWithWithBuilder, pattern RelationshipPattern, r OrderableOngoingReadingAndWithWithWhere) bool {
	return b.err != nil || pattern == nil || pattern.GetError() != nil || vcSame(r, b.Or(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures DefaultStatementWithUpdateBuilder.ReturningByString
func st_DefaultStatementWithUpdateBuilder_ReturningByString(b DefaultStatementWithUpdateBuilder, variables []string, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, b.Returning(CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.ReturningByNamed
func st_DefaultStatementWithUpdateBuilder_ReturningByNamed(b DefaultStatementWithUpdateBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, b.Returning(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.ReturningDistinctByString
func st_DefaultStatementWithUpdateBuilder_ReturningDistinctByString(b DefaultStatementWithUpdateBuilder, variables []string, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, b.ReturningDistinct(CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.ReturningDistinctByNamed
func st_DefaultStatementWithUpdateBuilder_ReturningDistinctByNamed(b DefaultStatementWithUpdateBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	return b.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, b.ReturningDistinct(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.WithByString
func st_DefaultStatementWithUpdateBuilder_WithByString(b DefaultStatementWithUpdateBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.WithDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.WithByNamed
func st_DefaultStatementWithUpdateBuilder_WithByNamed(b DefaultStatementWithUpdateBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.WithDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.With
func st_DefaultStatementWithUpdateBuilder_With(b DefaultStatementWithUpdateBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.WithDefault(false, expressions...))
}

// @ ensures DefaultStatementWithUpdateBuilder.WithDefault
func st_DefaultStatementWithUpdateBuilder_WithDefault(b DefaultStatementWithUpdateBuilder, distinct bool, returnedExpressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(returnedExpressions) || vcSame(r, base.WithDefault(distinct, returnedExpressions...))
}

// @ ensures DefaultStatementWithUpdateBuilder.WithDistinctByString
func st_DefaultStatementWithUpdateBuilder_WithDistinctByString(b DefaultStatementWithUpdateBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.WithDefault(true, CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.WithDistinctByNamed
func st_DefaultStatementWithUpdateBuilder_WithDistinctByNamed(b DefaultStatementWithUpdateBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.WithDefault(true, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.WithDistinct
func st_DefaultStatementWithUpdateBuilder_WithDistinct(b DefaultStatementWithUpdateBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.WithDefault(true, expressions...))
}

// @ ensures DefaultStatementWithUpdateBuilder.DeleteByString
func st_DefaultStatementWithUpdateBuilder_DeleteByString(b DefaultStatementWithUpdateBuilder, variables []string, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.Delete(CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.DeleteByNamed
func st_DefaultStatementWithUpdateBuilder_DeleteByNamed(b DefaultStatementWithUpdateBuilder, variables []Named, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.Delete(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.Delete
func st_DefaultStatementWithUpdateBuilder_Delete(b DefaultStatementWithUpdateBuilder, expressions []Expression, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.Delete(expressions...))
}

// @ ensures DefaultStatementWithUpdateBuilder.DetachDeleteByString
func st_DefaultStatementWithUpdateBuilder_DetachDeleteByString(b DefaultStatementWithUpdateBuilder, variables []string, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.DetachDelete(CreateSymbolicNameByString(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.DetachDeleteByNamed
func st_DefaultStatementWithUpdateBuilder_DetachDeleteByNamed(b DefaultStatementWithUpdateBuilder, variables []Named, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.DetachDelete(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures DefaultStatementWithUpdateBuilder.DetachDelete
func st_DefaultStatementWithUpdateBuilder_DetachDelete(b DefaultStatementWithUpdateBuilder, expressions []Expression, r OngoingUpdate) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.DetachDelete(expressions...))
}

// @ ensures DefaultStatementWithUpdateBuilder.Merge
func st_DefaultStatementWithUpdateBuilder_Merge(b DefaultStatementWithUpdateBuilder, pattern []PatternElement, r OngoingUpdateAndExposesSet) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadPatterns(pattern) || vcSame(r, base.Merge(pattern...))
}

// @ ensures DefaultStatementWithUpdateBuilder.SetWithNamed
func st_DefaultStatementWithUpdateBuilder_SetWithNamed(b DefaultStatementWithUpdateBuilder, variable Named, expression Expression, r BuildableStatementAndOngoingMatchAndUpdate) bool {
	return b.err != nil || variable == nil || variable.GetError() != nil || variable.GetRequiredSymbolicName().GetError() != nil || expression != nil && expression.GetError() != nil || vcSame(r, b.Set(variable.GetRequiredSymbolicName(), expression))
}

// @ ensures DefaultStatementWithUpdateBuilder.Create
func st_DefaultStatementWithUpdateBuilder_Create(b DefaultStatementWithUpdateBuilder, element []PatternElement, r OngoingUpdateAndExposesSet) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadPatterns(element) || vcSame(r, base.Create(element...))
}

// @ ensures InQueryCallBuilder.WhereConditionContainer
func st_InQueryCallBuilder_WhereConditionContainer(b InQueryCallBuilder, container ConditionContainer, r OngoingReadingWithWhere) bool {
	return b.err != nil || vcSame(r, b.Where(container.Get()))
}

// @ ensures InQueryCallBuilder.WherePattern
func st_InQueryCallBuilder_WherePattern(b InQueryCallBuilder, pattern RelationshipPattern, r OngoingReadingWithWhere) bool {
	return b.err != nil || pattern == nil || pattern.GetError() != nil || vcSame(r, b.Where(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures InQueryCallBuilder.ReturningByString
func st_InQueryCallBuilder_ReturningByString(b InQueryCallBuilder, variables []string, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.ReturningDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures InQueryCallBuilder.ReturningByNamed
func st_InQueryCallBuilder_ReturningByNamed(b InQueryCallBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.ReturningDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures InQueryCallBuilder.Returning
func st_InQueryCallBuilder_Returning(b InQueryCallBuilder, expression []Expression, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expression) || vcSame(r, base.ReturningDefault(false, expression...))
}

// @ ensures InQueryCallBuilder.ReturningDistinctByString
func st_InQueryCallBuilder_ReturningDistinctByString(b InQueryCallBuilder, variables []string, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.ReturningDefault(true, CreateSymbolicNameByString(variables...)...))
}

// @ ensures InQueryCallBuilder.ReturningDistinctByNamed
func st_InQueryCallBuilder_ReturningDistinctByNamed(b InQueryCallBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.ReturningDefault(true, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures InQueryCallBuilder.ReturningDistinct
func st_InQueryCallBuilder_ReturningDistinct(b InQueryCallBuilder, expression []Expression, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expression) || vcSame(r, base.ReturningDefault(true, expression...))
}

// @ ensures InQueryCallBuilder.WithByString
func st_InQueryCallBuilder_WithByString(b InQueryCallBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.WithDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures InQueryCallBuilder.WithByNamed
func st_InQueryCallBuilder_WithByNamed(b InQueryCallBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.WithDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures InQueryCallBuilder.With
func st_InQueryCallBuilder_With(b InQueryCallBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.WithDefault(false, expressions...))
}

// @ ensures InQueryCallBuilder.WithDistinctByString
func st_InQueryCallBuilder_WithDistinctByString(b InQueryCallBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.WithDefault(true, CreateSymbolicNameByString(variables...)...))
}

// @ ensures InQueryCallBuilder.WithDistinctByNamed
func st_InQueryCallBuilder_WithDistinctByNamed(b InQueryCallBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.WithDefault(true, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures InQueryCallBuilder.WithDistinct
func st_InQueryCallBuilder_WithDistinct(b InQueryCallBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.WithDefault(true, expressions...))
}

// @ ensures InQueryCallBuilder.Call
func st_InQueryCallBuilder_Call(b InQueryCallBuilder, statement Statement, r OngoingReadingWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || statement != nil && statement.GetError() != nil || vcSame(r, base.Call(statement))
}

// @ ensures StandaloneCallBuilder.WhereConditionContainer
func st_StandaloneCallBuilder_WhereConditionContainer(b StandaloneCallBuilder, container ConditionContainer, r OngoingReadingWithWhere) bool {
	return b.err != nil || vcSame(r, b.Where(container.Get()))
}

// @ ensures StandaloneCallBuilder.WherePattern
func st_StandaloneCallBuilder_WherePattern(b StandaloneCallBuilder, pattern RelationshipPattern, r OngoingReadingWithWhere) bool {
	return b.err != nil || pattern == nil || pattern.GetError() != nil || vcSame(r, b.Where(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures StandaloneCallBuilder.ReturningByString
func st_StandaloneCallBuilder_ReturningByString(b StandaloneCallBuilder, variables []string, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.ReturningDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures StandaloneCallBuilder.ReturningByNamed
func st_StandaloneCallBuilder_ReturningByNamed(b StandaloneCallBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.ReturningDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures StandaloneCallBuilder.Returning
func st_StandaloneCallBuilder_Returning(b StandaloneCallBuilder, expression []Expression, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expression) || vcSame(r, base.ReturningDefault(false, expression...))
}

// @ ensures StandaloneCallBuilder.ReturningDistinctByString
func st_StandaloneCallBuilder_ReturningDistinctByString(b StandaloneCallBuilder, variables []string, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.ReturningDefault(true, CreateSymbolicNameByString(variables...)...))
}

// @ ensures StandaloneCallBuilder.ReturningDistinctByNamed
func st_StandaloneCallBuilder_ReturningDistinctByNamed(b StandaloneCallBuilder, variables []Named, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.ReturningDefault(true, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures StandaloneCallBuilder.ReturningDistinct
func st_StandaloneCallBuilder_ReturningDistinct(b StandaloneCallBuilder, expression []Expression, r OngoingReadingAndReturn) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expression) || vcSame(r, base.ReturningDefault(true, expression...))
}

// @ ensures StandaloneCallBuilder.WithByString
func st_StandaloneCallBuilder_WithByString(b StandaloneCallBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.WithDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures StandaloneCallBuilder.WithByNamed
func st_StandaloneCallBuilder_WithByNamed(b StandaloneCallBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.WithDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures StandaloneCallBuilder.With
func st_StandaloneCallBuilder_With(b StandaloneCallBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.WithDefault(false, expressions...))
}

// @ ensures StandaloneCallBuilder.WithDistinctByString
func st_StandaloneCallBuilder_WithDistinctByString(b StandaloneCallBuilder, variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, base.WithDefault(true, CreateSymbolicNameByString(variables...)...))
}

// @ ensures StandaloneCallBuilder.WithDistinctByNamed
func st_StandaloneCallBuilder_WithDistinctByNamed(b StandaloneCallBuilder, variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, base.WithDefault(true, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures StandaloneCallBuilder.WithDistinct
func st_StandaloneCallBuilder_WithDistinct(b StandaloneCallBuilder, expressions []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || specBadExpressions(expressions) || vcSame(r, base.WithDefault(true, expressions...))
}

// @ ensures StandaloneCallBuilder.Call
func st_StandaloneCallBuilder_Call(b StandaloneCallBuilder, statement Statement, r OngoingReadingWithoutWhere) bool {
	base := b.statementBuilder()
	return base.err != nil || statement != nil && statement.GetError() != nil || vcSame(r, base.Call(statement))
}

// @ ensures Match
func st_Match(element []PatternElement, r OngoingReadingWithoutWhere) bool {
	return specBadPatterns(element) || vcSame(r, specStart().MatchDefault(false, element...))
}

// @ ensures AnOptionalMatch
func st_AnOptionalMatch(element []PatternElement, r OngoingReadingWithoutWhere) bool {
	return specBadPatterns(element) || vcSame(r, specStart().MatchDefault(true, element...))
}

// @ ensures MatchWithOption
func st_MatchWithOption(optional bool, element []PatternElement, r OngoingReadingWithoutWhere) bool {
	return specBadPatterns(element) || vcSame(r, specStart().MatchDefault(optional, element...))
}

// @ ensures Create
func st_Create(patterns []PatternElement, r OngoingUpdateAndExposesSet) bool {
	return specBadPatterns(patterns) || vcSame(r, specStart().Create(patterns...))
}

// @ ensures Merge
func st_Merge(patterns []PatternElement, r OngoingUpdateAndExposesSet) bool {
	return specBadPatterns(patterns) || vcSame(r, specStart().Merge(patterns...))
}

// @ ensures With
func st_With(variables []Expression, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	return specBadExpressions(variables) || vcSame(r, specStart().WithDefault(false, variables...))
}

// @ ensures WithByString
func st_WithByString(variables []string, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	return specBadExpressions(CreateSymbolicNameByString(variables...)) || vcSame(r, specStart().WithDefault(false, CreateSymbolicNameByString(variables...)...))
}

// @ ensures WithByNamed
func st_WithByNamed(variables []Named, r OrderableOngoingReadingAndWithWithoutWhere) bool {
	return specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...)) || vcSame(r, specStart().WithDefault(false, CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures Unwind
func st_Unwind(expression Expression, r OngoingUnwind) bool {
	return expression != nil && expression.GetError() != nil || vcSame(r, specStart().Unwind(expression))
}

// @ ensures UnwindMulti
func st_UnwindMulti(expressions []Expression, r OngoingUnwind) bool {
	return specBadExpressions(expressions) || vcSame(r, specStart().Unwind(ListOf(expressions...)))
}

// @ ensures CypherReturning
func st_CypherReturning(expressions []Expression, r OngoingReadingAndReturn) bool {
	return specBadExpressions(expressions) || vcSame(r, specStart().ReturningDefault(false, expressions...))
}

// @ props C18 C13
// @ ensures ACallByStatement
func st_ACallByStatement(subquery Statement, r OngoingReadingWithoutWhere) bool {
	return subquery != nil && subquery.GetError() != nil || vcSame(r, specStart().Call(subquery))
}

// @ props C18 C13
// @ ensures StatementCall
func st_StatementCall(namespaceAndProcedure []string, r OngoingStandaloneCallWithoutArguments) bool {
	return vcSame(r, OngoingStandaloneCallWithoutArguments(StandaloneCallBuilderCreate(ProcedureNameCreate(namespaceAndProcedure...))))
}

// @ props C18 C13
// @ ensures ACall
func st_ACall(namespaceAndProcedure []string, r OngoingStandaloneCallWithoutArguments) bool {
	return vcSame(r, OngoingStandaloneCallWithoutArguments(StandaloneCallBuilderCreate(ProcedureNameCreate(namespaceAndProcedure...))))
}
