package cypher

// Class invariants written by hand.

//@ fileprops C05

// A node that carries an error, or none at all, has no name.
//
//@ invariant Node
func invh_Node_1(v Node) bool {
	return v.GetError() == nil && v.isNotNil() || !v.symbolicName.isNotNil()
}

// What carries an error is not there.
//
//@ invariant SymbolicName
func invh_SymbolicName_1(v SymbolicName) bool { return v.err == nil || !v.notNil }

//@ invariant CompoundCondition
func invh_CompoundCondition_1(v CompoundCondition) bool { return v.err == nil || !v.notNil }

//@ invariant Node
func invh_Node_2(v Node) bool { return v.err == nil || !v.notNil }

//@ invariant Relationship
func invh_Relationship_1(v Relationship) bool { return v.err == nil || !v.notNil }

//@ invariant InQueryCallBuilder
func inv_InQueryCallBuilder_set(v InQueryCallBuilder) bool {
	return v.err != nil || v.notNil
}
