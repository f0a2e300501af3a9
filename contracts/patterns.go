package cypher

// Contracts of the pattern API: nodes, relationships, chains and named paths.

//@ fileprops C16

// specLabels: exactly these labels, in order.
func specLabels(r Node, primary string, more []string) bool {
	return len(r.labels) == len(more)+1 && specLabel(r.labels[0], primary) &&
		vcAll(len(more), func(i int) bool { return specLabel(r.labels[i+1], more[i]) })
}

func specLabel(l NodeLabel, value string) bool {
	return l.value == value && l.notNil && l.err == nil
}

func specNoneEmpty(xs []string) bool {
	return vcAll(len(xs), func(i int) bool { return xs[i] != "" })
}

// specNewNode: a node of its own.
func specNewNode(r Node) bool { return r.err == nil && r.notNil && vcFresh(r.key) }

// @ ensures NodeCreate
// @ props C16 C09
func en_NodeCreate(r Node) bool {
	return specNewNode(r) && !r.symbolicName.isNotNil() && len(r.labels) == 0 && !r.properties.isNotNil()
}

// @ ensures NodeCreate1
// @ props C16 C09
func en_NodeCreate1(primary string, properties Properties, more []string, r Node) bool {
	if primary == "" || !specNoneEmpty(more) || properties.err != nil {
		return r.err != nil
	}
	return specNewNode(r) && !r.symbolicName.isNotNil() && specLabels(r, primary, more) && vcSame(r.properties, properties)
}

// @ ensures NodeCreate2
// @ props C16 C09
func en_NodeCreate2(primary string, r Node) bool {
	if primary == "" {
		return r.err != nil
	}
	return specNewNode(r) && !r.symbolicName.isNotNil() && specLabels(r, primary, nil) && !r.properties.isNotNil()
}

// @ ensures NodeCreate3
// @ props C16 C09
func en_NodeCreate3(primary string, more []string, r Node) bool {
	if primary == "" || !specNoneEmpty(more) {
		return r.err != nil
	}
	return specNewNode(r) && !r.symbolicName.isNotNil() && specLabels(r, primary, more) && !r.properties.isNotNil()
}

// specProperties: these properties and no others.
func specProperties(p Properties, m MapExpression) bool {
	return p.notNil && p.err == nil && vcSame(p.properties, m)
}

// @ ensures NodeCreate4
// @ props C16 C09
func en_NodeCreate4(m MapExpression, n Node, r Node) bool {
	if n.err != nil || m.err != nil {
		return r.err != nil
	}
	return specNewNode(r) && vcSame(r.symbolicName, n.symbolicName) && vcSame(r.labels, n.labels) && specProperties(r.properties, m)
}

// @ ensures NodeCreate5
// @ props C16 C09
func en_NodeCreate5(primary string, m MapExpression, more []string, r Node) bool {
	if primary == "" || !specNoneEmpty(more) || m.err != nil {
		return r.err != nil
	}
	return specNewNode(r) && !r.symbolicName.isNotNil() && specLabels(r, primary, more) && specProperties(r.properties, m)
}

// @ ensures Node.WithProperties
// @ props C16 C09 C14
func en_Node_WithProperties(n Node, m MapExpression, r Node) bool { return en_NodeCreate4(m, n, r) }

// @ ensures Node.Named
// @ props C16 C09 C14
func en_Node_Named(n Node, name SymbolicName, r Node) bool {
	if n.err != nil || name.err != nil || !name.notNil {
		return r.err != nil
	}
	return r.err == nil && vcFresh(r.key) && vcSame(r.symbolicName, name) && vcSame(r.labels, n.labels) && vcSame(r.properties, n.properties)
}

// specName: the name.
func specName(s SymbolicName, value string) bool {
	return s.err == nil && s.notNil && s.value == value
}

// @ ensures Node.NamedByString
// @ props C16 C09 C14
func en_Node_NamedByString(n Node, name string, r Node) bool {
	if n.err != nil || name == "" {
		return r.err != nil
	}
	return r.err == nil && vcFresh(r.key) && specName(r.symbolicName, name) && vcSame(r.labels, n.labels) && vcSame(r.properties, n.properties)
}

// @ ensures Node.GetRequiredSymbolicName
// @ props C16 C09
func en_Node_GetRequiredSymbolicName(n Node, r SymbolicName) bool {
	if n.err != nil || !n.symbolicName.notNil {
		return r.err != nil
	}
	return vcSame(r, n.symbolicName)
}

// @ ensures Node.GetSymbolicName
// @ props C16 C09
func en_Node_GetSymbolicName(n Node, r SymbolicName) bool { return vcSame(r, n.symbolicName) }

// @ ensures NewNodeWithLabels
// @ props C16 C09
func en_NewNodeWithLabels(primary string, more []string, r Node) bool {
	return en_NodeCreate3(primary, more, r)
}

// @ ensures NewNodeWithProperties
// @ props C16 C09
func en_NewNodeWithProperties(primary string, m MapExpression, more []string, r Node) bool {
	return en_NodeCreate5(primary, m, more, r)
}

// @ ensures AnyNode
// @ props C16 C09
func en_AnyNode(r Node) bool { return en_NodeCreate(r) }

// @ ensures AnyNodeNamed
// @ props C16 C09
func en_AnyNodeNamed(name string, r Node) bool {
	if name == "" {
		return r.err != nil
	}
	return specNewNode(r) && specName(r.symbolicName, name) && len(r.labels) == 0 && !r.properties.isNotNil()
}

// @ ensures ANode
// @ props C16 C09
func en_ANode(primary string, r Node) bool { return en_NodeCreate2(primary, r) }

// @ ensures NodeLabelCreate
// @ props C16 C01 C09
func en_NodeLabelCreate(value string, r NodeLabel) bool {
	return specLabel(r, value) && vcFresh(r.key)
}

// @ ensures NodeLabelsCreate
// @ props C16 C20
func en_NodeLabelsCreate(values []NodeLabel, r NodeLabels) bool {
	if vcAny(len(values), func(i int) bool { return values[i].err != nil }) {
		return r.err != nil
	}
	return r.err == nil && r.notNil && vcSame(r.values, values)
}

// @ ensures PropertiesCreate
// @ props C16 C15
func en_PropertiesCreate(m MapExpression, r Properties) bool {
	if m.err != nil {
		return r.err != nil
	}
	return specProperties(r, m) && vcFresh(r.key)
}

// ---- relationships

func specArrow(d Direction, left string, right string) bool {
	return d.symbolLeft == left && d.symbolRight == right
}

// @ ensures LTR
func en_LTR(r Direction) bool { return specArrow(r, "-", "->") }

// @ ensures RTL
func en_RTL(r Direction) bool { return specArrow(r, "<-", "-") }

// @ ensures UNI
func en_UNI(r Direction) bool { return specArrow(r, "-", "-") }

// @ ensures DirectionCreate
func en_DirectionCreate(left string, right string, r Direction) bool {
	return specArrow(r, left, right)
}

// specBetween: a relationship of its own from one node to the other.
func specBetween(r Relationship, left Node, right Node) bool {
	return r.err == nil && r.notNil && vcFresh(r.key) && vcSame(r.left, left) && vcSame(r.right, right)
}

// specPlain: nothing but the types inside the brackets.
func specPlain(d RelationshipDetails, types []string) bool {
	if d.symbolicName.isNotNil() || d.length.isNotNil() || d.properties.isNotNil() {
		return false
	}
	if len(types) == 0 {
		return !d.types.isNotNil()
	}
	return d.types.notNil && d.types.err == nil && len(d.types.values) == len(types) &&
		vcAll(len(types), func(i int) bool { return d.types.values[i] == types[i] })
}

// @ ensures RelationshipCreate
// @ props C16 C09
func en_RelationshipCreate(left Node, direction Direction, right Node, types []string, r Relationship) bool {
	if left.err != nil || right.err != nil {
		return r.err != nil
	}
	return specBetween(r, left, right) && vcSame(r.details.direction, direction) && specPlain(r.details, types)
}

// @ ensures RelationshipCreate3
// @ props C16 C09
func en_RelationshipCreate3(left Node, details RelationshipDetails, right Node, r Relationship) bool {
	if left.err != nil || right.err != nil || details.err != nil {
		return r.err != nil
	}
	return specBetween(r, left, right) && vcSame(r.details, details)
}

func specNewRelationship(left Node, right Node, types []string, arrowL string, arrowR string, r Relationship) bool {
	if left.err != nil || right.err != nil {
		return r.err != nil
	}
	return specBetween(r, left, right) && specArrow(r.details.direction, arrowL, arrowR) && specPlain(r.details, types)
}

// @ ensures Node.RelationshipTo
// @ props C16 C09
func en_Node_RelationshipTo(n Node, other Node, types []string, r Relationship) bool {
	return specNewRelationship(n, other, types, "-", "->", r)
}

// @ ensures Node.RelationshipFrom
// @ props C16 C09
func en_Node_RelationshipFrom(n Node, other Node, types []string, r Relationship) bool {
	return specNewRelationship(n, other, types, "<-", "-", r)
}

// @ ensures Node.RelationshipBetween
// @ props C16 C09
func en_Node_RelationshipBetween(n Node, other Node, types []string, r Relationship) bool {
	return specNewRelationship(n, other, types, "-", "-", r)
}

// specDetailsLike: the details with the given parts changed.
func specDetailsLike(r RelationshipDetails, d RelationshipDetails, named bool, length bool, properties bool) bool {
	return r.err == nil && r.notNil && vcSame(r.direction, d.direction) && vcSame(r.types, d.types) &&
		(named || vcSame(r.symbolicName, d.symbolicName)) && (length || vcSame(r.length, d.length)) &&
		(properties || vcSame(r.properties, d.properties))
}

// specRange: from minimum to maximum, where given.
func specRange(l RelationshipLength, minimum *int, maximum *int) bool {
	return l.notNil && l.err == nil && !l.unbounded && specSameBound(l.minimum, minimum) && specSameBound(l.maximum, maximum)
}

func specSameBound(a *int, b *int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

// @ ensures RelationshipDetails.named
func en_RelationshipDetails_named(d RelationshipDetails, name SymbolicName, r RelationshipDetails) bool {
	if d.err != nil || name.err != nil || !name.notNil {
		return r.err != nil
	}
	return specDetailsLike(r, d, true, false, false) && vcSame(r.symbolicName, name)
}

// @ ensures RelationshipDetails.namedByString
func en_RelationshipDetails_namedByString(d RelationshipDetails, name string, r RelationshipDetails) bool {
	if d.err != nil || name == "" {
		return r.err != nil
	}
	return specDetailsLike(r, d, true, false, false) && specName(r.symbolicName, name)
}

// @ ensures RelationshipDetails.with
func en_RelationshipDetails_with(d RelationshipDetails, p Properties, r RelationshipDetails) bool {
	if d.err != nil || p.err != nil {
		return r.err != nil
	}
	return specDetailsLike(r, d, false, false, true) && vcSame(r.properties, p)
}

// @ ensures RelationshipDetails.unbounded
func en_RelationshipDetails_unbounded(d RelationshipDetails, r RelationshipDetails) bool {
	if d.err != nil {
		return r.err != nil
	}
	return specDetailsLike(r, d, false, true, false) && r.length.notNil && r.length.unbounded
}

// @ ensures RelationshipDetails.min
func en_RelationshipDetails_min(d RelationshipDetails, minimum int, r RelationshipDetails) bool {
	if d.err != nil {
		return r.err != nil
	}
	if !d.length.notNil {
		return specDetailsLike(r, d, false, true, false) && specRange(r.length, &minimum, nil)
	}
	return specDetailsLike(r, d, false, true, false) && specRange(r.length, &minimum, d.length.maximum)
}

// @ ensures RelationshipDetails.max
func en_RelationshipDetails_max(d RelationshipDetails, maximum int, r RelationshipDetails) bool {
	if d.err != nil {
		return r.err != nil
	}
	if !d.length.notNil {
		return specDetailsLike(r, d, false, true, false) && specRange(r.length, nil, &maximum)
	}
	return specDetailsLike(r, d, false, true, false) && specRange(r.length, d.length.minimum, &maximum)
}

// @ ensures RelationshipDetails.hasContent
func en_RelationshipDetails_hasContent(d RelationshipDetails, r bool) bool {
	return r == (d.symbolicName.notNil || d.types.notNil || d.length.notNil || d.properties.notNil)
}

// specSameEnds: the same two nodes.
func specSameEnds(r Relationship, v Relationship) bool {
	return specBetween(r, v.left, v.right)
}

// @ ensures Relationship.Named
// @ props C16 C09 C14
func en_Relationship_Named(v Relationship, name string, r Relationship) bool {
	if v.err != nil || name == "" {
		return r.err != nil
	}
	return specSameEnds(r, v) && specDetailsLike(r.details, v.details, true, false, false) && specName(r.details.symbolicName, name)
}

// @ ensures Relationship.NamedByString
// @ props C16 C09 C14
func en_Relationship_NamedByString(v Relationship, name string, r Relationship) bool {
	return en_Relationship_Named(v, name, r)
}

// @ ensures Relationship.Unbounded
func en_Relationship_Unbounded(v Relationship, r Relationship) bool {
	if v.err != nil {
		return r.err != nil
	}
	return specSameEnds(r, v) && en_RelationshipDetails_unbounded(v.details, r.details)
}

// @ ensures Relationship.Min
func en_Relationship_Min(v Relationship, minimum int, r Relationship) bool {
	if v.err != nil {
		return r.err != nil
	}
	return specSameEnds(r, v) && en_RelationshipDetails_min(v.details, minimum, r.details)
}

// @ ensures Relationship.Max
func en_Relationship_Max(v Relationship, maximum int, r Relationship) bool {
	if v.err != nil {
		return r.err != nil
	}
	return specSameEnds(r, v) && en_RelationshipDetails_max(v.details, maximum, r.details)
}

// @ ensures Relationship.Length
func en_Relationship_Length(v Relationship, minimum int, maximum int, r Relationship) bool {
	if v.err != nil {
		return r.err != nil
	}
	return specSameEnds(r, v) && specDetailsLike(r.details, v.details, false, true, false) && specRange(r.details.length, &minimum, &maximum)
}

// @ ensures Relationship.WithProperties
// @ props C16 C14 C09
func en_Relationship_WithProperties(v Relationship, m MapExpression, r Relationship) bool {
	if v.err != nil || m.err != nil {
		return r.err != nil
	}
	if !m.notNil {
		return vcSame(r.left, v.left) && vcSame(r.right, v.right) && !r.details.properties.notNil &&
			vcSame(r.details.symbolicName, v.details.symbolicName) && vcSame(r.details.types, v.details.types) && vcSame(r.details.length, v.details.length)
	}
	return specSameEnds(r, v) && specDetailsLike(r.details, v.details, false, false, true) && specProperties(r.details.properties, m)
}

// @ ensures Relationship.GetRequiredSymbolicName
func en_Relationship_GetRequiredSymbolicName(v Relationship, r SymbolicName) bool {
	if v.err != nil || !v.details.symbolicName.notNil {
		return r.err != nil
	}
	return vcSame(r, v.details.symbolicName)
}

// @ ensures Relationship.GetSymbolicName
func en_Relationship_GetSymbolicName(v Relationship, r SymbolicName) bool {
	return vcSame(r, v.details.symbolicName)
}

// ---- chains

// specChain: this list of relationships, or an error for one in error among them.
func specChain(r RelationshipChain, first []Relationship, last Relationship) bool {
	if last.err != nil || vcAny(len(first), func(i int) bool { return first[i].err != nil }) {
		return r.err != nil
	}
	return r.err == nil && r.notNil && vcSame(r.relationships, append(append(make([]Relationship, 0), first...), last))
}

func specFromRelationship(v Relationship, next Relationship, r RelationshipChain) bool {
	if v.err != nil || next.err != nil {
		return r.err != nil
	}
	return r.err == nil && r.notNil && len(r.relationships) == 2 && vcSame(r.relationships[0], v) && vcSame(r.relationships[1], next)
}

// @ ensures Relationship.RelationshipTo
func en_Relationship_RelationshipTo(v Relationship, node Node, types []string, r RelationshipChain) bool {
	return specFromRelationship(v, v.right.RelationshipTo(node, types...), r)
}

// @ ensures Relationship.RelationshipFrom
func en_Relationship_RelationshipFrom(v Relationship, node Node, types []string, r RelationshipChain) bool {
	return specFromRelationship(v, v.right.RelationshipFrom(node, types...), r)
}

// @ ensures Relationship.RelationshipBetween
func en_Relationship_RelationshipBetween(v Relationship, node Node, types []string, r RelationshipChain) bool {
	return specFromRelationship(v, v.right.RelationshipBetween(node, types...), r)
}

// @ ensures RelationshipChain.RelationshipTo
// @ props C16 C14
func en_RelationshipChain_RelationshipTo(v RelationshipChain, node Node, types []string, r RelationshipChain) bool {
	n := len(v.relationships)
	if v.err != nil {
		return r.err != nil
	}
	if n == 0 {
		return true
	}
	return specChain(r, v.relationships, v.relationships[n-1].right.RelationshipTo(node, types...))
}

// @ ensures RelationshipChain.RelationshipFrom
// @ props C16 C14
func en_RelationshipChain_RelationshipFrom(v RelationshipChain, node Node, types []string, r RelationshipChain) bool {
	n := len(v.relationships)
	if v.err != nil {
		return r.err != nil
	}
	if n == 0 {
		return true
	}
	return specChain(r, v.relationships, v.relationships[n-1].right.RelationshipFrom(node, types...))
}

// @ ensures RelationshipChain.RelationshipBetween
// @ props C16 C14
func en_RelationshipChain_RelationshipBetween(v RelationshipChain, node Node, types []string, r RelationshipChain) bool {
	n := len(v.relationships)
	if v.err != nil {
		return r.err != nil
	}
	if n == 0 {
		return true
	}
	return specChain(r, v.relationships, v.relationships[n-1].right.RelationshipBetween(node, types...))
}

// @ ensures RelationshipChain.Add
// @ props C16 C14
func en_RelationshipChain_Add(v RelationshipChain, x Relationship, r RelationshipChain) bool {
	if v.err != nil {
		return r.err != nil
	}
	return specChain(r, v.relationships, x)
}

// @ ensures RelationshipChain.NamedC
func en_RelationshipChain_NamedC(v RelationshipChain, name string, r RelationshipChain) bool {
	n := len(v.relationships)
	if v.err != nil || n == 0 {
		return r.err != nil
	}
	return specChain(r, v.relationships[:n-1], v.relationships[n-1].Named(name))
}

// @ ensures RelationshipChain.Unbounded
func en_RelationshipChain_Unbounded(v RelationshipChain, r RelationshipChain) bool {
	n := len(v.relationships)
	if v.err != nil || n == 0 {
		return r.err != nil
	}
	return specChain(r, v.relationships[:n-1], v.relationships[n-1].Unbounded())
}

// @ ensures RelationshipChain.Min
func en_RelationshipChain_Min(v RelationshipChain, minimum int, r RelationshipChain) bool {
	n := len(v.relationships)
	if v.err != nil || n == 0 {
		return r.err != nil
	}
	return specChain(r, v.relationships[:n-1], v.relationships[n-1].Min(minimum))
}

// @ ensures RelationshipChain.Max
func en_RelationshipChain_Max(v RelationshipChain, maximum int, r RelationshipChain) bool {
	n := len(v.relationships)
	if v.err != nil || n == 0 {
		return r.err != nil
	}
	return specChain(r, v.relationships[:n-1], v.relationships[n-1].Max(maximum))
}

// @ ensures RelationshipChain.Length
func en_RelationshipChain_Length(v RelationshipChain, minimum int, maximum int, r RelationshipChain) bool {
	n := len(v.relationships)
	if v.err != nil || n == 0 {
		return r.err != nil
	}
	return specChain(r, v.relationships[:n-1], v.relationships[n-1].Length(minimum, maximum))
}

// @ ensures RelationshipChain.Properties
func en_RelationshipChain_Properties(v RelationshipChain, m MapExpression, r RelationshipChain) bool {
	n := len(v.relationships)
	if v.err != nil || n == 0 {
		return r.err != nil
	}
	return specChain(r, v.relationships[:n-1], v.relationships[n-1].WithProperties(m))
}

// ---- named paths

// specPath: the path has this name and this pattern.
func specPath(r NamedPath, name SymbolicName, pattern Visitable) bool {
	return r.err == nil && r.notNil && vcFresh(r.key) && vcSame(r.name, name) && vcSame(r.pattern, pattern)
}

// @ ensures NamedPathCreate
func en_NamedPathCreate(name SymbolicName, pattern RelationshipPattern, r NamedPath) bool {
	if name.err != nil || !name.notNil || pattern == nil || pattern.GetError() != nil {
		return r.err != nil
	}
	return specPath(r, name, pattern)
}

// @ ensures NamedPathCreate1
func en_NamedPathCreate1(name SymbolicName, algorithm FunctionInvocation, r NamedPath) bool {
	if name.err != nil || !name.notNil || algorithm.err != nil {
		return r.err != nil
	}
	return specPath(r, name, algorithm)
}

// @ ensures NamedPathBuilder.DefinedBy
func en_NamedPathBuilder_DefinedBy(n NamedPathBuilder, pattern RelationshipPattern, r NamedPath) bool {
	if n.err != nil {
		return r.err != nil
	}
	return en_NamedPathCreate(n.name, pattern, r)
}

// @ ensures ShortestPathBuilder.DefinedBy
func en_ShortestPathBuilder_DefinedBy(s ShortestPathBuilder, x Relationship, r NamedPath) bool {
	if s.err != nil || x.err != nil || s.name.err != nil || !s.name.notNil {
		return r.err != nil
	}
	f, call := r.pattern.(FunctionInvocation)
	if s.algorithm == nil {
		return true
	}
	return r.err != nil || call && vcSame(r.name, s.name) && f.functionName == s.algorithm.getImplementationName()
}

// @ ensures NamedPathBuilderWithName
func en_NamedPathBuilderWithName(name SymbolicName, r OngoingDefinitionWithName) bool {
	b, ok := r.(NamedPathBuilder)
	if name.err != nil || !name.notNil {
		return ok && b.err != nil
	}
	return ok && b.err == nil && vcSame(b.name, name)
}

// @ ensures NamedPathBuilderWithNameByString
func en_NamedPathBuilderWithNameByString(name string, r OngoingDefinitionWithName) bool {
	b, ok := r.(NamedPathBuilder)
	if name == "" {
		return ok && b.err != nil
	}
	return ok && b.err == nil && specName(b.name, name)
}

// @ ensures NamedPathShortestPathWithName
func en_NamedPathShortestPathWithName(name SymbolicName, algorithm FunctionDefinition, r OngoingShortestPathDefinitionWithName) bool {
	b, ok := r.(ShortestPathBuilder)
	if name.err != nil || !name.notNil {
		return ok && b.err != nil
	}
	return ok && b.err == nil && vcSame(b.name, name) && b.algorithm == algorithm
}

// @ ensures NamedPathShortestPathWithNameByString
func en_NamedPathShortestPathWithNameByString(name string, algorithm FunctionDefinition, r OngoingShortestPathDefinitionWithName) bool {
	b, ok := r.(ShortestPathBuilder)
	if name == "" {
		return ok && b.err != nil
	}
	return ok && b.err == nil && specName(b.name, name) && b.algorithm == algorithm
}

// @ ensures NamedPath.GetRequiredSymbolicName
func en_NamedPath_GetRequiredSymbolicName(n NamedPath, r SymbolicName) bool {
	if n.err != nil || !n.name.notNil {
		return r.err != nil
	}
	return vcSame(r, n.name)
}

// @ ensures APath
func en_APath(name string, r OngoingDefinitionWithName) bool {
	return en_NamedPathBuilderWithNameByString(name, r)
}
