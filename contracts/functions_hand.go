package cypher

//@ via FunctionArgumentListCreate

// @ props C12
// @ ensures FunctionInvocationCreateDistinct
func fn_FunctionInvocationCreateDistinct(def FunctionDefinition, es []Expression, r FunctionInvocation) bool {
	if vcAny(len(es), func(i int) bool { return specBad(es[i]) }) || len(es) == 0 || !specGood(es[0]) || !def.isAggregate() {
		return specFails(r)
	}
	return r.GetError() == nil && r.isNotNil() && r.functionName == def.getImplementationName() && len(r.arguments.expressions) == len(es) &&
		vcAll(len(es), func(i int) bool { return specArg(r.arguments.expressions, i, true, es[i]) })
}
