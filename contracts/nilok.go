package cypher

// Generated by tools/nilok.py: parameters for which the contract of a function
// covers nil as well.

//@ nilok APropertyByExpression expression
//@ nilok ASubList targetExpression
//@ nilok ASubListFromByExpression targetExpression start
//@ nilok ASubListUntil targetExpression
//@ nilok AliasedExpressionCreate delegate
//@ nilok Case.ElseDefault defaultExpression
//@ nilok Case.When nextExpression
//@ nilok CaseElseCreate elseExpression
//@ nilok CaseExpression expression
//@ nilok CaseWhenThenCreate whenExpression thenExpression
//@ nilok CollectByNamed variable
//@ nilok CollectDistinctByNamed variable
//@ nilok ComparisonCreate left right
//@ nilok ComparisonCreate1 expression
//@ nilok CreateAscendingSortItem expression
//@ nilok CreateDescendingSortItem expression
//@ nilok CypherSubListFrom targetExpression
//@ nilok CypherSubListUntilByExpression targetExpression end
//@ nilok CypherValueAt targetExpression
//@ nilok CypherValueAtByExpression targetExpression index
//@ nilok Distance point1 point2
//@ nilok EndingSimpleCaseCreate caseExpression
//@ nilok ExpressionContainer.Add rhs
//@ nilok ExpressionContainer.Concat rhs
//@ nilok ExpressionContainer.Contains rhs
//@ nilok ExpressionContainer.Divide rhs
//@ nilok ExpressionContainer.EndsWith rhs
//@ nilok ExpressionContainer.Gt rhs
//@ nilok ExpressionContainer.Gte rhs
//@ nilok ExpressionContainer.In haystack
//@ nilok ExpressionContainer.IsEqualTo rhs
//@ nilok ExpressionContainer.IsNotEqualTo rhs
//@ nilok ExpressionContainer.Lt rhs
//@ nilok ExpressionContainer.Lte rhs
//@ nilok ExpressionContainer.Matches expression
//@ nilok ExpressionContainer.Multiply rhs
//@ nilok ExpressionContainer.Pow rhs
//@ nilok ExpressionContainer.Remainder rhs
//@ nilok ExpressionContainer.StartWiths rhs
//@ nilok ExpressionContainer.Subtract rhs
//@ nilok FunctionInvocationCreateDistinct definition
//@ nilok FunctionInvocationCreateWithPatternElement element
//@ nilok ListComprehensionBuilder.In list
//@ nilok ListComprehensionBuilder.build listDefinition
//@ nilok ListComprehensionCreate listExpression listDefinition
//@ nilok ListOperatorDetailsCreate optionalStart optionalEnd
//@ nilok ListPredicateCreate listExpression
//@ nilok NamedPathBuilder.DefinedBy pattern
//@ nilok NamedPathCreate pattern
//@ nilok OngoingWhenThen.Then expression
//@ nilok OngoingWhenThenCreate whenExpression
//@ nilok OperationAdd op1 op2
//@ nilok OperationConcat op1 op2
//@ nilok OperationCreate left right
//@ nilok OperationCreate1 left
//@ nilok OperationDivide op1 op2
//@ nilok OperationMultiply op1 op2
//@ nilok OperationPow op1 op2
//@ nilok OperationRemainder op1 op2
//@ nilok OperationSet target value
//@ nilok OperationSubtract op1 op2
//@ nilok PatternComprehensionCreate pattern listDefinition
//@ nilok PercentileCont expression
//@ nilok PercentileContDistinct expression
//@ nilok PercentileDisc expression
//@ nilok PercentileDiscDistinct expression
//@ nilok PredicateBuilder.In list
//@ nilok PredicateBuilder.Where condition
//@ nilok PredicateExistsByPattern pattern
//@ nilok Property.To expression
//@ nilok PropertyCreate1 container
//@ nilok PropertyCreate2 container
//@ nilok Range start end
//@ nilok RangeWithStep start end step
//@ nilok SimpleCaseCreate caseExpression
//@ nilok SimpleCaseCreate1 caseExpression
//@ nilok SizeByPattern pattern
//@ nilok Sort expression
//@ nilok SortItemCreate expression
//@ nilok SubList targetExpression start end
//@ nilok SubListFrom targetExpression start
//@ nilok SubListUntil targetExpression end
//@ nilok SubqueryCall statement
//@ nilok ValueAt targetExpression index
//@ nilok unwindCreate expressionToUnwind
