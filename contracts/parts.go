package cypher

import "strings"

// Contracts on parts of the language that delegate to others, on SET pairs and on unions.

//@ opaque createNewContent
//@ hide HasLabelConditionCreate OperationSet FunctionInvocationCreate NewMapExpression unionImpl MapProjectionCreate CreateSymbolicNameByNamed MapExpressionCreate relationshipChainOf
//@ hide ListComprehensionBuilder.Returning PatternComprehensionBuilder.Returning Node.WithProperties Relationship.WithProperties MapProjectionCreateWithMapExpression UnionQueryCreate MapExpression.AddEntries Relationship.WithRawProperties

// ---- properties, entries, parameters

// @ ensures PropertyCreate
// @ props C08 C15
func pa_PropertyCreate(parent Named, name string, r Property) bool {
	if parent == nil || parent.GetError() != nil || name == "" {
		return r.err != nil
	}
	s := parent.GetRequiredSymbolicName()
	if s.err != nil {
		return r.err != nil
	}
	return vcSame(r, PropertyCreate1(s, PropertyLookupCreate(name)))
}

// @ ensures PropertyLookupCreate
// @ props C01 C15
func pa_PropertyLookupCreate(name string, r PropertyLookup) bool {
	w, ok := r.expression.(PropertyLookup)
	return r.err == nil && r.propertyKeyName == name && vcFresh(r.key) && ok && w.propertyKeyName == name && w.key == r.key && w.err == nil
}

// @ ensures PropertyLookup.GetPropertyKeyName
// @ props C01 C15
func pa_GetPropertyKeyName(p PropertyLookup, r string) bool {
	return r == p.propertyKeyName
}

// @ ensures Property.getName
// @ props C15
func pa_Property_getName(p Property, r PropertyLookup) bool {
	return vcSame(r, p.name)
}

// @ ensures KeyValueMapEntryCreate
// @ props C15 C04
func pa_KeyValueMapEntryCreate(key string, value Expression, r KeyValueMapEntry) bool {
	if value == nil || value.GetError() != nil {
		return r.err != nil
	}
	w, ok := r.expression.(KeyValueMapEntry)
	return r.err == nil && r.entryKey == key && r.value == value && vcFresh(r.key) && ok && w.entryKey == key && w.value == value && w.err == nil
}

// @ ensures ParameterCreate
// @ props C03 C01
func pa_ParameterCreate(name string, r Parameter) bool {
	if name == "" {
		return r.err != nil
	}
	if strings.HasPrefix(name, "$") {
		return vcSame(r, ParameterCreate(name[1:]))
	}
	w, ok := r.expression.(Parameter)
	return r.err == nil && r.notNil && r.name == name && vcFresh(r.key) && ok && w.name == name && w.err == nil && w.notNil
}

// ---- nodes

// @ ensures Node.Property
// @ props C08 C15
func pa_Node_Property(n Node, name string, r Property) bool {
	return vcSame(r, PropertyCreate(n, name))
}

// @ ensures Node.As
// @ props C09
func pa_Node_As(n Node, alias string, r AliasedExpression) bool {
	s := n.GetRequiredSymbolicName()
	if s.err != nil || alias == "" {
		return r.err != nil
	}
	return r.err == nil && r.alias == alias && vcSame(r.delegate, Expression(s))
}

// @ ensures Node.InternalId
// @ props C12
func pa_Node_InternalId(n Node, r FunctionInvocation) bool {
	return vcSame(r, IdByNode(n))
}

// @ ensures Node.Labels
// @ props C12
func pa_Node_Labels(n Node, r FunctionInvocation) bool {
	return vcSame(r, Labels(n))
}

// @ ensures Node.HasLabels
// @ props C11 C16
func pa_Node_HasLabels(n Node, labels []string, r Condition) bool {
	return vcSame(r, Condition(HasLabelConditionCreate(n.GetRequiredSymbolicName(), labels...)))
}

// @ ensures Node.Project
// @ props C15
func pa_Node_Project(n Node, entries []interface{}, r MapProjection) bool {
	return vcSame(r, MapProjectionCreate(n.GetRequiredSymbolicName(), entries...))
}

// @ ensures Node.hasSymbolic
// @ props C09 C16
func pa_Node_hasSymbolic(n Node, r bool) bool {
	return r == n.symbolicName.isNotNil()
}

// @ ensures Node.WithRawProperties
// @ props C15 C16
func pa_Node_WithRawProperties(n Node, raw []interface{}, r Node) bool {
	if len(raw) == 0 {
		return vcSame(r, n.WithProperties(MapExpression{}))
	}
	m := NewMapExpression(raw...)
	if m.err != nil {
		return r.err != nil
	}
	return vcSame(r, n.WithProperties(m))
}

// ---- relationships

// @ ensures Relationship.withDetails
// @ props C16
func pa_Relationship_withDetails(rel Relationship, details RelationshipDetails, r Relationship) bool {
	if rel.err != nil {
		return r.err != nil
	}
	return vcSame(r, RelationshipCreate3(rel.left, details, rel.right))
}

// @ ensures Relationship.Property
// @ props C08 C15
func pa_Relationship_Property(rel Relationship, name string, r Property) bool {
	return vcSame(r, PropertyCreate(rel, name))
}

// @ ensures Relationship.Project
// @ props C15
func pa_Relationship_Project(rel Relationship, entries []interface{}, r MapProjection) bool {
	return vcSame(r, MapProjectionCreate(rel.GetRequiredSymbolicName(), entries...))
}

// @ ensures Relationship.NamedC
// @ props C16 C04
func pa_Relationship_NamedC(rel Relationship, name string, r RelationshipChain) bool {
	return r.err != nil
}

// @ ensures RelationshipChain.Named
// @ props C16 C04
func pa_RelationshipChain_Named(c RelationshipChain, name string, r Relationship) bool {
	return r.err != nil
}

// @ ensures Relationship.WithRawProperties
// @ props C15 C16
func pa_Relationship_WithRawProperties(rel Relationship, raw []interface{}, r Relationship) bool {
	if len(raw) == 0 {
		return vcSame(r, rel.WithProperties(MapExpression{}))
	}
	m := NewMapExpression(raw...)
	if m.err != nil {
		return r.err != nil
	}
	return vcSame(r, rel.WithProperties(m))
}

// @ ensures relationshipChainOf
// @ props C16 C04
func pa_relationshipChainOf(relationships []Relationship, r RelationshipChain) bool {
	if vcAny(len(relationships), func(i int) bool { return relationships[i].err != nil }) {
		return r.err != nil
	}
	return r.err == nil && r.notNil && vcSame(r.relationships, relationships) && vcFresh(r.key)
}

// @ ensures RelationshipChainCreate
// @ props C16 C04
func pa_RelationshipChainCreate(relationship Relationship, r RelationshipChain) bool {
	return vcSame(r, relationshipChainOf([]Relationship{relationship}))
}

// @ ensures RelationshipChain.last
// @ props C16
func pa_RelationshipChain_last(c RelationshipChain, r Relationship) bool {
	if len(c.relationships) == 0 {
		return r.err != nil
	}
	return vcSame(r, c.relationships[len(c.relationships)-1])
}

// @ ensures RelationshipChain.replaceLast
// @ props C16
func pa_RelationshipChain_replaceLast(c RelationshipChain, relationship Relationship, r RelationshipChain) bool {
	n := len(c.relationships)
	if c.err != nil || n == 0 {
		return c.err == nil || r.err != nil
	}
	return vcSame(r, relationshipChainOf(append(append(make([]Relationship, 0), c.relationships[:n-1]...), relationship)))
}

// @ ensures RelationshipChain.PropertiesRaw
// @ props C15 C16
func pa_RelationshipChain_PropertiesRaw(c RelationshipChain, raw []interface{}, r RelationshipChain) bool {
	return vcSame(r, c.replaceLast(c.last().WithRawProperties(raw...)))
}

// @ ensures RelationshipDetailsCreate1
// @ props C16 C04
func pa_RelationshipDetailsCreate1(direction Direction, types RelationshipTypes, r RelationshipDetails) bool {
	if types.err != nil {
		return r.err != nil
	}
	return vcFresh(r.key) && vcSame(r, RelationshipDetailsCreate(direction, SymbolicName{}, types, RelationshipLength{}, Properties{}))
}

// @ ensures RelationshipDetailsCreate2
// @ props C16 C04
func pa_RelationshipDetailsCreate2(direction Direction, name SymbolicName, types RelationshipTypes, r RelationshipDetails) bool {
	if types.err != nil || name.err != nil {
		return r.err != nil
	}
	return vcFresh(r.key) && vcSame(r, RelationshipDetailsCreate(direction, name, types, RelationshipLength{}, Properties{}))
}

// ---- comprehensions, paths

// @ ensures PatternComprehensionBuilderCreate
// @ props C19 C04
func pa_PatternComprehensionBuilderCreate(pattern PatternElement, r PatternComprehensionBuilder) bool {
	return r.pattern == pattern && r.conditionBuilder.condition == nil && r.err == pattern.GetError()
}

// specComprehends: the builder with the condition, or the error of the condition.
func specComprehends(p PatternComprehensionBuilder, condition Condition, r PatternComprehensionOngoingDefinitionWithPatternAndWhere) bool {
	b, ok := r.(PatternComprehensionBuilder)
	if !ok {
		return false
	}
	if p.err != nil {
		return b.err == p.err
	}
	if condition != nil && condition.GetError() != nil {
		return b.err != nil
	}
	return b.err == nil && b.pattern == p.pattern && b.conditionBuilder.condition == condition
}

// @ ensures PatternComprehensionBuilder.Where
// @ props C19 C04
func pa_PatternComprehensionBuilder_Where(p PatternComprehensionBuilder, condition Condition, r PatternComprehensionOngoingDefinitionWithPatternAndWhere) bool {
	return specComprehends(p, condition, r)
}

// @ ensures PatternComprehensionBuilder.And
// @ props C19 C10 C04
func pa_PatternComprehensionBuilder_And(p PatternComprehensionBuilder, condition Condition, r PatternComprehensionOngoingDefinitionWithPatternAndWhere) bool {
	if p.conditionBuilder.condition != nil {
		condition = p.conditionBuilder.condition.And(condition).Get()
	}
	return specComprehends(p, condition, r)
}

// @ ensures PatternComprehensionBuilder.Or
// @ props C19 C10 C04
func pa_PatternComprehensionBuilder_Or(p PatternComprehensionBuilder, condition Condition, r PatternComprehensionOngoingDefinitionWithPatternAndWhere) bool {
	if p.conditionBuilder.condition != nil {
		condition = p.conditionBuilder.condition.Or(condition).Get()
	}
	return specComprehends(p, condition, r)
}

// @ ensures PatternComprehensionBuilder.WherePattern
// @ props C19 C04
func pa_PatternComprehensionBuilder_WherePattern(p PatternComprehensionBuilder, pattern RelationshipPattern, r PatternComprehensionOngoingDefinitionWithPatternAndWhere) bool {
	if p.err != nil || pattern.GetError() != nil || !pattern.isNotNil() {
		return r.GetError() != nil
	}
	return vcSame(r, p.Where(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures PatternComprehensionBuilder.AndPattern
// @ props C19 C10
func pa_PatternComprehensionBuilder_AndPattern(p PatternComprehensionBuilder, pattern RelationshipPattern, r PatternComprehensionOngoingDefinitionWithPatternAndWhere) bool {
	return vcSame(r, p.And(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures PatternComprehensionBuilder.OrPattern
// @ props C19 C10
func pa_PatternComprehensionBuilder_OrPattern(p PatternComprehensionBuilder, pattern RelationshipPattern, r PatternComprehensionOngoingDefinitionWithPatternAndWhere) bool {
	return vcSame(r, p.Or(RelationshipPatternConditionCreate(pattern)))
}

// @ ensures PatternComprehensionBuilder.ReturningByNamed
// @ props C19
func pa_PatternComprehensionBuilder_ReturningByNamed(p PatternComprehensionBuilder, variables []Named, r PatternComprehension) bool {
	return vcSame(r, p.Returning(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures ListComprehensionBuilder.ReturningByNamed
// @ props C19
func pa_ListComprehensionBuilder_ReturningByNamed(l ListComprehensionBuilder, variables []Named, r ListComprehension) bool {
	return vcSame(r, l.Returning(CreateSymbolicNameByNamed(variables...)...))
}

// @ ensures ListComprehensionWith
// @ props C19 C04
func pa_ListComprehensionWith(variable SymbolicName, r OngoingDefinitionWithVariable) bool {
	b, ok := r.(ListComprehensionBuilder)
	if variable.err != nil || !variable.isNotNil() {
		return ok && b.err != nil
	}
	return ok && b.err == nil && vcSame(b.variable, variable) && b.listExpression == nil && !b.where.isNotNil()
}

// @ ensures CypherListWith
// @ props C19 C04
func pa_CypherListWith(variable SymbolicName, r OngoingDefinitionWithVariable) bool {
	b, ok := r.(ListComprehensionBuilder)
	if variable.err != nil {
		return ok && b.err != nil
	}
	return ok && b.err == nil && vcSame(b.variable, variable) && b.listExpression == nil && !b.where.isNotNil()
}

// @ ensures NamedPathBuilderCreate
// @ props C16 C04
func pa_NamedPathBuilderCreate(name SymbolicName, r NamedPathBuilder) bool {
	return vcSame(r.name, name) && r.err == name.err
}

// @ ensures ShortestPathBuilderCreate
// @ props C16 C04
func pa_ShortestPathBuilderCreate(name SymbolicName, algorithm FunctionDefinition, r ShortestPathBuilder) bool {
	return vcSame(r.name, name) && r.algorithm == algorithm && r.err == name.err
}

// @ ensures APathBySymbolic
// @ props C16
func pa_APathBySymbolic(name SymbolicName, r OngoingDefinitionWithName) bool {
	return vcSame(r, NamedPathBuilderWithName(name))
}

// @ ensures AShortestPath
// @ props C16
func pa_AShortestPath(name string, r OngoingShortestPathDefinitionWithName) bool {
	return vcSame(r, NamedPathShortestPathWithNameByString(name, SHORTEST_PATH))
}

// @ ensures AShortestPathBySymbolic
// @ props C16
func pa_AShortestPathBySymbolic(name SymbolicName, r OngoingShortestPathDefinitionWithName) bool {
	return vcSame(r, NamedPathShortestPathWithName(name, SHORTEST_PATH))
}

// ---- maps, projections

// @ ensures MapOf
// @ props C15
func pa_MapOf(objects []interface{}, r MapExpression) bool {
	return vcSame(r, NewMapExpression(objects...))
}

// @ ensures MapProjectionCreate
// @ props C15 C04
func pa_MapProjectionCreate(name SymbolicName, content []interface{}, r MapProjection) bool {
	entries, err := createNewContent(content...)
	if name.err != nil || err != nil {
		return r.err != nil
	}
	return vcFresh(r.key) && r.notNil && vcSame(r.name, name) && vcSame(r.mapExpression, MapExpressionCreate(entries))
}

// @ ensures MapProjection.And
// @ props C15 C04
func pa_MapProjection_And(m MapProjection, content []interface{}, r MapProjection) bool {
	entries, err := createNewContent(content...)
	if m.err != nil || err != nil {
		return r.err != nil
	}
	return vcSame(r, MapProjectionCreateWithMapExpression(m.name, m.mapExpression.AddEntries(entries)))
}

// @ ensures MapExpression.AddEntries
// @ props C15 C14
func pa_MapExpression_AddEntries(m MapExpression, entries []Expression, r MapExpression) bool {
	if m.err != nil {
		return r.err != nil
	}
	return vcSame(r, MapExpressionCreate(append(append(make([]Expression, 0), m.expressions...), entries...)))
}

// ---- SET

func specSets(x Expression) bool {
	o, ok := x.(Operation)
	return ok && o.isUpdating()
}

// specTarget: the expression that waits for its value after the first n ones.
// @ rec
func specTarget(xs []Expression, n int) Expression {
	if n <= 0 {
		return nil
	}
	t := specTarget(xs, n-1)
	if specSets(xs[n-1]) {
		return t
	}
	if t == nil {
		return xs[n-1]
	}
	return nil
}

// specPairs: the assignments among the first n expressions, in order.
// @ rec
func specPairs(xs []Expression, n int) []Expression {
	if n <= 0 {
		return []Expression{}
	}
	p := specPairs(xs, n-1)
	if specSets(xs[n-1]) {
		return append(p, xs[n-1])
	}
	if t := specTarget(xs, n-1); t != nil {
		return append(p, OperationSet(t, xs[n-1]))
	}
	return p
}

// @ ensures prepareSetExpression
// @ props C20
func pa_prepareSetExpression(xs []Expression, r []Expression, err error) bool {
	if specTarget(xs, len(xs)) != nil {
		return err != nil
	}
	return err == nil && vcSame(r, specPairs(xs, len(xs)))
}

// ---- unions

// @ ensures Union
// @ props C18
func pa_Union(statements []Statement, r Statement) bool {
	return vcSame(r, unionImpl(false, statements...))
}

// @ ensures UnionAll
// @ props C18
func pa_UnionAll(statements []Statement, r Statement) bool {
	return vcSame(r, unionImpl(true, statements...))
}

// specQueries: the queries of the first n parts.
// @ rec
func specQueries(first SingleQuery, parts []UnionPart, n int) []SingleQuery {
	if n <= 0 {
		return []SingleQuery{first}
	}
	return append(specQueries(first, parts, n-1), parts[n-1].query)
}

// @ ensures UnionQuery.addAdditionalQueries
// @ props C18
func pa_addAdditionalQueries(q UnionQuery, more []SingleQuery, r UnionQuery) bool {
	return vcSame(r, UnionQueryCreate(q.all, append(specQueries(q.firstQuery, q.additionalQueries, len(q.additionalQueries)), more...)))
}
