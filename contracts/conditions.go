package cypher

// Contracts on how conditions are joined: CompoundCondition, ConditionContainer,
// ConditionBuilder.  What is written for the joined condition is the contract of
// CompoundCondition.accept (ast.go).

//@ fileprops C10
//@ opaque CompoundCondition.canBeFlattenedWith CompoundCondition.canBeFollowedBy CompoundCondition.noneBindsLooserThan
//@ via CompoundConditionCreate CompoundCondition.add

// specHas: the condition has something to say.
func specHas(c CompoundCondition) bool {
	return c.conditionType != EMPTY_CONDITION_EXPRESSION && len(c.conditions) > 0
}

func specJoins(op Operator) bool {
	return op == AND || op == OR || op == XOR
}

// specCompound: the conditions in a row, joined with the operator.
func specCompound(op Operator, conditions []Condition) CompoundCondition {
	c := CompoundCondition{operator: op, conditions: conditions, notNil: true}
	c.injectKey()
	c.ConditionContainer = ConditionWrap(c)
	return c
}

// specJoinedAs: what is put in a row of conditions joined with op for one more condition.
func specJoinedAs(op Operator, x Condition) []Condition {
	c, ok := x.(CompoundCondition)
	if !ok {
		return []Condition{x}
	}
	if !specHas(c) {
		return []Condition{}
	}
	if c.operator == op {
		if c.canBeFlattenedWith(op) {
			return c.conditions
		}
		return []Condition{c}
	}
	return []Condition{specCompound(op, []Condition{c})}
}

// @ ensures CompoundCondition.hasCondition
func cd_hasCondition(c CompoundCondition, r bool) bool {
	return r == specHas(c)
}

// @ ensures CompoundCondition.with
func cd_with(c CompoundCondition, conditions []Condition, r CompoundCondition) bool {
	return vcFresh(r.key) && vcSame(r, specCompound(c.operator, append(append(make([]Condition, 0), c.conditions...), conditions...)))
}

// @ ensures CompoundCondition.canBeFlattenedWith
func cd_canBeFlattenedWith(c CompoundCondition, op Operator, r bool) bool {
	return r == vcAll(len(c.conditions), func(i int) bool {
		x, ok := c.conditions[i].(CompoundCondition)
		return !ok || x.operator == op
	})
}

// @ ensures CompoundCondition.noneBindsLooserThan
func cd_noneBindsLooserThan(c CompoundCondition, op Operator, r bool) bool {
	return r == vcAll(len(c.conditions), func(i int) bool {
		x, ok := c.conditions[i].(CompoundCondition)
		return i == 0 || !ok || specBinds(x.operator) >= specBinds(op)
	})
}

// specBinds: how tight Cypher binds the operator.
func specBinds(op Operator) int {
	if op == AND {
		return 3
	}
	if op == XOR {
		return 2
	}
	if op == OR {
		return 1
	}
	return 0
}

// @ ensures Operator.precedence
func cd_precedence(op Operator, r int) bool {
	return r == specBinds(op)
}

// @ ensures CompoundCondition.canBeFollowedBy
func cd_canBeFollowedBy(c CompoundCondition, op Operator, r bool) bool {
	if len(c.conditions) == 1 {
		return r == (c.operator == op)
	}
	return r == (specBinds(c.operator) >= specBinds(op) && c.noneBindsLooserThan(op))
}

// @ ensures CompoundCondition.add
func cd_add(c CompoundCondition, op Operator, x Condition, r CompoundCondition) bool {
	if c.err != nil || specErr(x) || x == nil {
		return r.err != nil
	}
	if !specJoins(op) {
		return true
	}
	o, isCompound := x.(CompoundCondition)
	if isCompound && !specHas(o) {
		return vcSame(r, c)
	}
	if !specHas(c) {
		return vcSame(r, specCompound(op, specJoinedAs(op, x)))
	}
	if c.operator == op && (!isCompound || c.canBeFollowedBy(op)) {
		return vcSame(r, specCompound(op, append(append(make([]Condition, 0), c.conditions...), specJoinedAs(op, x)...)))
	}
	if isCompound && c.canBeFollowedBy(op) {
		return vcSame(r, specCompound(c.operator, append(append(make([]Condition, 0), c.conditions...), specCompound(op, []Condition{o}))))
	}
	return vcSame(r, specCompound(op, append(append(make([]Condition, 0), specJoinedAs(op, c)...), specJoinedAs(op, x)...)))
}

// @ ensures CompoundConditionCreate
func cd_Create(left Condition, op Operator, right Condition, r CompoundCondition) bool {
	if specErr(left) || left == nil || !left.isNotNil() || op.err != nil || !specJoins(op) || specErr(right) || right == nil || !right.isNotNil() {
		return r.err != nil
	}
	return vcSame(r, specCompound(op, append(append(make([]Condition, 0), specJoinedAs(op, left)...), specJoinedAs(op, right)...)))
}

// @ ensures CompoundCondition.And
func cd_And(c CompoundCondition, x Condition, r ConditionContainer) bool {
	return vcSame(r, ConditionWrap(c.add(AND, x)))
}

// @ ensures CompoundCondition.Or
func cd_Or(c CompoundCondition, x Condition, r ConditionContainer) bool {
	return vcSame(r, ConditionWrap(c.add(OR, x)))
}

// @ ensures CompoundCondition.Xor
func cd_Xor(c CompoundCondition, x Condition, r ConditionContainer) bool {
	return vcSame(r, ConditionWrap(c.add(XOR, x)))
}

// @ ensures ConditionContainer.Get
func cd_Get(b ConditionContainer, r Condition) bool {
	if c, ok := b.expression.(Condition); ok {
		return r == c
	}
	return specErr(r)
}

// specJoin: the condition of a container joined with another one.
func specJoin(b ConditionContainer, op Operator, x Condition) Expression {
	if c, ok := b.expression.(CompoundCondition); ok {
		return c.add(op, x)
	}
	return CompoundConditionCreate(b.Get(), op, x)
}

// @ ensures ConditionContainer.And
func cd_ContainerAnd(b ConditionContainer, x Condition, r ConditionContainer) bool {
	return vcSame(r.expression, specJoin(b, AND, x))
}

// @ ensures ConditionContainer.Or
func cd_ContainerOr(b ConditionContainer, x Condition, r ConditionContainer) bool {
	return vcSame(r.expression, specJoin(b, OR, x))
}

// @ ensures ConditionContainer.Xor
func cd_ContainerXor(b ConditionContainer, x Condition, r ConditionContainer) bool {
	return vcSame(r.expression, specJoin(b, XOR, x))
}

// @ ensures ConditionContainer.AndPattern
func cd_ContainerAndPattern(b ConditionContainer, x RelationshipPattern, r ConditionContainer) bool {
	return vcSame(r.expression, Expression(CompoundConditionCreate(b.Get(), AND, RelationshipPatternConditionCreate(x))))
}

// @ ensures ConditionContainer.OrPattern
func cd_ContainerOrPattern(b ConditionContainer, x RelationshipPattern, r ConditionContainer) bool {
	return vcSame(r.expression, Expression(CompoundConditionCreate(b.Get(), OR, RelationshipPatternConditionCreate(x))))
}

// @ ensures ConditionContainer.XorPattern
func cd_ContainerXorPattern(b ConditionContainer, x RelationshipPattern, r ConditionContainer) bool {
	return vcSame(r.expression, Expression(CompoundConditionCreate(b.Get(), XOR, RelationshipPatternConditionCreate(x))))
}

// @ ensures ConditionWrap
func cd_Wrap(x Condition, r ConditionContainer) bool {
	return r.expression == Expression(x)
}

// @ spec ConditionBuilder.Where
func cd_BuilderWhere(c *ConditionBuilder, x Condition) {
	c.condition = x
}

// @ spec ConditionBuilder.And
func cd_BuilderAnd(c *ConditionBuilder, x Condition) {
	if c.condition != nil {
		x = c.condition.And(x).Get()
	}
	c.condition = x
}

// @ spec ConditionBuilder.Or
func cd_BuilderOr(c *ConditionBuilder, x Condition) {
	if c.condition != nil {
		x = c.condition.Or(x).Get()
	}
	c.condition = x
}
