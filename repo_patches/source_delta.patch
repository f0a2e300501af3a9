From d781d4a3f9632c37791369e2d8c1fe4766e87f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 01/45] fix: give every element a key that is never reused

---
 support.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support.go b/support.go
index 1e177de..fcb0c0d 100644
--- a/support.go
+++ b/support.go
@@ -1,8 +1,9 @@
 package cypher
 
 import (
-	"fmt"
 	"github.com/rs/xid"
+	"strconv"
+	"sync/atomic"
 )
 
 var SYMBOLIC_GENERATOR = xid.New()
@@ -23,7 +24,11 @@ func PatternElementsToVisitables(patterns []PatternElement) []Visitable {
 	return visitables
 }
 
+var lastKey uint64
+
+// getAddress returns the key of a newly created element. The address of the element itself
+// can't serve as key: it is reused once the element has been garbage collected.
 func getAddress(a interface{}) string {
-	return fmt.Sprintf("%p", a)
+	return strconv.FormatUint(atomic.AddUint64(&lastKey, 1), 10)
 }
 
-- 
2.43.0


From 29023bf8c1efd7593dddf697702fe7c94b281102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 02/45] fix: error constructors return an error value instead
 of recursing for ever

---
 multi_part_query.go   | 5 ++++-
 raw_string_literal.go | 4 +++-
 string_literal.go     | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/multi_part_query.go b/multi_part_query.go
index c04645d..ce6b4b6 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -20,13 +20,16 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 	m := MultiPartQuery{
 		parts:     parts,
 		remainder: remainder,
+		notNil:    true,
 	}
 	m.key = getAddress(&m)
 	return m
 }
 
 func MultiPartQueryError(err error) MultiPartQuery {
-	return MultiPartQueryError(err)
+	return MultiPartQuery{
+		err: err,
+	}
 }
 
 func (m MultiPartQuery) GetError() error {
diff --git a/raw_string_literal.go b/raw_string_literal.go
index 682fad6..8ef74c6 100644
--- a/raw_string_literal.go
+++ b/raw_string_literal.go
@@ -19,7 +19,9 @@ func RawStringLiteralCreate(content string) RawStringLiteral {
 }
 
 func RawStringLiteralError(err error) RawStringLiteral {
-	return RawStringLiteralError(err)
+	return RawStringLiteral{
+		err: err,
+	}
 }
 
 func (s RawStringLiteral) GetError() error {
diff --git a/string_literal.go b/string_literal.go
index 1322ef6..7268682 100644
--- a/string_literal.go
+++ b/string_literal.go
@@ -32,7 +32,9 @@ func StringLiteralCreate(content string) StringLiteral {
 }
 
 func StringLiteralError(err error) StringLiteral {
-	return StringLiteralError(err)
+	return StringLiteral{
+		err: err,
+	}
 }
 
 func (s StringLiteral) GetError() error {
-- 
2.43.0


From a1875ae916c6a1c79d0ed2f7e91c7107d080014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 03/45] fix: keep the error of an erroneous expression when a
 further operation is called on it

---
 alias_expression.go               | 6 +++---
 boolean_function_condition.go     | 1 +
 comparison.go                     | 6 +++---
 compound_condition.go             | 6 +++---
 constant_condition.go             | 4 +++-
 distinct_expression.go            | 4 +++-
 excluded_pattern.go               | 6 +++---
 existential_subquery.go           | 6 +++---
 expression_list.go                | 6 +++---
 function_invocation.go            | 6 +++---
 has_label_condition.go            | 6 +++---
 key_value_map_entry.go            | 6 +++---
 list_comprehension.go             | 6 +++---
 list_expression.go                | 6 +++---
 list_literal.go                   | 6 +++---
 list_operator.go                  | 4 +++-
 list_predicate.go                 | 4 +++-
 map_expression.go                 | 6 +++---
 map_projection.go                 | 4 +++-
 nested_expression.go              | 6 +++---
 operation.go                      | 4 +++-
 parameter.go                      | 6 +++---
 pattern_comprehension.go          | 4 +++-
 raw_string_literal.go             | 6 +++---
 relationship_pattern_condition.go | 6 +++---
 string_literal.go                 | 6 +++---
 symbolic_name.go                  | 6 +++---
 27 files changed, 79 insertions(+), 64 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 3030c05..d45f4e4 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -34,9 +34,9 @@ func AliasedExpressionCreate(delegate Expression, alias string) AliasedExpressio
 }
 
 func AliasedExpressionError(err error) AliasedExpression {
-	return AliasedExpression{
-		err: err,
-	}
+	aliasedExpression := AliasedExpression{err: err}
+	aliasedExpression.ExpressionContainer = ExpressionWrap(aliasedExpression)
+	return aliasedExpression
 }
 
 func (aliased AliasedExpression) GetError() error {
diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index c6fe40f..7f7cb3f 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -22,6 +22,7 @@ func BooleanFunctionConditionError(err error) BooleanFunctionCondition {
 	function := BooleanFunctionCondition{
 		err: err,
 	}
+	function.ConditionContainer = ConditionWrap(function)
 	return function
 }
 
diff --git a/comparison.go b/comparison.go
index de49515..aac1d2f 100644
--- a/comparison.go
+++ b/comparison.go
@@ -81,9 +81,9 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 }
 
 func ComparisonError(err error) Comparison {
-	return Comparison{
-		err: err,
-	}
+	comparison := Comparison{err: err}
+	comparison.ConditionContainer = ConditionWrap(comparison)
+	return comparison
 }
 
 func (c Comparison) GetError() error {
diff --git a/compound_condition.go b/compound_condition.go
index 6d24572..36e3bdd 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -63,9 +63,9 @@ func CompoundConditionCreate1(operator Operator) CompoundCondition {
 }
 
 func CompoundConditionError(err error) CompoundCondition {
-	return CompoundCondition{
-		err: err,
-	}
+	compoundCondition := CompoundCondition{err: err}
+	compoundCondition.ConditionContainer = ConditionWrap(compoundCondition)
+	return compoundCondition
 }
 
 func (c CompoundCondition) GetError() error {
diff --git a/constant_condition.go b/constant_condition.go
index 8b07d2e..46d7a7b 100644
--- a/constant_condition.go
+++ b/constant_condition.go
@@ -25,7 +25,9 @@ func ConstantConditionCreate(value BooleanLiteral) ConstantCondition {
 }
 
 func ConstantConditionError(err error) ConstantCondition {
-	return ConstantCondition{err: err}
+	constantCondition := ConstantCondition{err: err}
+	constantCondition.ConditionContainer = ConditionWrap(constantCondition)
+	return constantCondition
 }
 
 func (c ConstantCondition) GetError() error {
diff --git a/distinct_expression.go b/distinct_expression.go
index a61612d..295c6cf 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -22,7 +22,9 @@ func DistinctExpressionCreate(delegate Expression) DistinctExpression {
 }
 
 func DistinctExpressionError(err error) DistinctExpression {
-	return DistinctExpression{err: err}
+	distinctExpression := DistinctExpression{err: err}
+	distinctExpression.ExpressionContainer = ExpressionWrap(distinctExpression)
+	return distinctExpression
 }
 
 func (d DistinctExpression) GetError() error {
diff --git a/excluded_pattern.go b/excluded_pattern.go
index 6798cf1..205223d 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -22,9 +22,9 @@ func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
 }
 
 func ExcludedPatternError(err error) ExcludedPattern {
-	return ExcludedPattern{
-		err: err,
-	}
+	excludedPattern := ExcludedPattern{err: err}
+	excludedPattern.ConditionContainer = ConditionWrap(excludedPattern)
+	return excludedPattern
 }
 
 func (e ExcludedPattern) GetError() error {
diff --git a/existential_subquery.go b/existential_subquery.go
index 8f741af..0c4c520 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -22,9 +22,9 @@ func ExistentialSubqueryCreate(fragment MatchPhrase) ExistentialSubquery {
 }
 
 func ExistentialSubqueryError(err error) ExistentialSubquery {
-	return ExistentialSubquery{
-		err: err,
-	}
+	existentialSubquery := ExistentialSubquery{err: err}
+	existentialSubquery.ConditionContainer = ConditionWrap(existentialSubquery)
+	return existentialSubquery
 }
 
 func ExistentialSubqueryExists(fragment MatchPhrase) ExistentialSubquery {
diff --git a/expression_list.go b/expression_list.go
index c9a7596..5b6b881 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -24,9 +24,9 @@ func ExpressionListCreate(expressions []Expression) ExpressionList {
 }
 
 func ExpressionListError(err error) ExpressionList {
-	return ExpressionList{
-		err: err,
-	}
+	expressionList := ExpressionList{err: err}
+	expressionList.ExpressionContainer = ExpressionWrap(expressionList)
+	return expressionList
 }
 
 func (e ExpressionList) GetExpressionType() ExpressionType {
diff --git a/function_invocation.go b/function_invocation.go
index 4467e61..34c4337 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -136,9 +136,9 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 }
 
 func FunctionInvocationError(err error) FunctionInvocation {
-	return FunctionInvocation{
-		err: err,
-	}
+	functionInvocation := FunctionInvocation{err: err}
+	functionInvocation.ExpressionContainer = ExpressionWrap(functionInvocation)
+	return functionInvocation
 }
 
 func (f FunctionInvocation) GetError() error {
diff --git a/has_label_condition.go b/has_label_condition.go
index ed13d8a..2c0c26f 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -56,9 +56,9 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 }
 
 func HasLabelConditionError(err error) HasLabelCondition {
-	return HasLabelCondition{
-		err: err,
-	}
+	hasLabelCondition := HasLabelCondition{err: err}
+	hasLabelCondition.ConditionContainer = ConditionWrap(hasLabelCondition)
+	return hasLabelCondition
 }
 
 func (h HasLabelCondition) GetError() error {
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index b4c659a..d036a76 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -23,9 +23,9 @@ func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
 }
 
 func KeyValueMapEntryError(err error) KeyValueMapEntry {
-	return KeyValueMapEntry{
-		err: err,
-	}
+	keyValueMapEntry := KeyValueMapEntry{err: err}
+	keyValueMapEntry.ExpressionContainer = ExpressionWrap(keyValueMapEntry)
+	return keyValueMapEntry
 }
 
 func (k KeyValueMapEntry) GetError() error {
diff --git a/list_comprehension.go b/list_comprehension.go
index 4feb036..0fca217 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -30,9 +30,9 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 }
 
 func ListComprehensionError(err error) ListComprehension {
-	return ListComprehension{
-		err: err,
-	}
+	listComprehension := ListComprehension{err: err}
+	listComprehension.ExpressionContainer = ExpressionWrap(listComprehension)
+	return listComprehension
 }
 
 func ListComprehensionWith(variable SymbolicName) OngoingDefinitionWithVariable {
diff --git a/list_expression.go b/list_expression.go
index 9cd5d54..196496b 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -28,9 +28,9 @@ func ListExpressionCreate1(expressions ...Expression) ListExpression {
 }
 
 func ListExpressionError(err error) ListExpression {
-	return ListExpression{
-		err: err,
-	}
+	listExpression := ListExpression{err: err}
+	listExpression.ExpressionContainer = ExpressionWrap(listExpression)
+	return listExpression
 }
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
diff --git a/list_literal.go b/list_literal.go
index 7ada298..48bb4e5 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -26,9 +26,9 @@ func ListLiteralCreate(contents []Literal) ListLiteral {
 }
 
 func ListLiteralError(err error) ListLiteral {
-	return ListLiteral{
-		err: err,
-	}
+	listLiteral := ListLiteral{err: err}
+	listLiteral.ExpressionContainer = ExpressionWrap(listLiteral)
+	return listLiteral
 }
 
 func (l ListLiteral) GetError() error {
diff --git a/list_operator.go b/list_operator.go
index a11ffc1..b085d49 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -23,7 +23,9 @@ func listOperatorCreate(targetExpression Expression, optionalStart Expression, d
 }
 
 func ListOperatorError(err error) ListOperator {
-	return ListOperator{err: err}
+	listOperator := ListOperator{err: err}
+	listOperator.ExpressionContainer = ExpressionWrap(listOperator)
+	return listOperator
 }
 
 /**
diff --git a/list_predicate.go b/list_predicate.go
index a006a80..6a0a646 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -32,7 +32,9 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 }
 
 func ListPredicateError(err error) ListPredicate {
-	return ListPredicate{err: err}
+	listPredicate := ListPredicate{err: err}
+	listPredicate.ExpressionContainer = ExpressionWrap(listPredicate)
+	return listPredicate
 }
 
 func (l ListPredicate) GetError() error {
diff --git a/map_expression.go b/map_expression.go
index 2ea7be0..ea06159 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -28,9 +28,9 @@ func MapExpressionCreate(newContents []Expression) MapExpression {
 }
 
 func MapExpressionError(err error) MapExpression {
-	return MapExpression{
-		err: err,
-	}
+	mapExpression := MapExpression{err: err}
+	mapExpression.ExpressionContainer = ExpressionWrap(mapExpression)
+	return mapExpression
 }
 
 func (m MapExpression) GetExpressionType() ExpressionType {
diff --git a/map_projection.go b/map_projection.go
index 090d0f2..1a828c1 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -50,7 +50,9 @@ func MapProjectionCreateWithMapExpression(name SymbolicName, mapExpression MapEx
 }
 
 func MapProjectionError(err error) MapProjection {
-	return MapProjection{err: err}
+	mapProjection := MapProjection{err: err}
+	mapProjection.ExpressionContainer = ExpressionWrap(mapProjection)
+	return mapProjection
 }
 
 func (m MapProjection) GetError() error {
diff --git a/nested_expression.go b/nested_expression.go
index bb39916..6c19588 100644
--- a/nested_expression.go
+++ b/nested_expression.go
@@ -22,9 +22,9 @@ func NestedExpressionCreate(delegate Expression) NestedExpression {
 }
 
 func NestedExpressionError(err error) NestedExpression {
-	return NestedExpression{
-		err: err,
-	}
+	nestedExpression := NestedExpression{err: err}
+	nestedExpression.ExpressionContainer = ExpressionWrap(nestedExpression)
+	return nestedExpression
 }
 
 func (n NestedExpression) GetError() error {
diff --git a/operation.go b/operation.go
index 9e3f3db..f44b2f0 100644
--- a/operation.go
+++ b/operation.go
@@ -110,7 +110,9 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 }
 
 func OperationError(err error) Operation {
-	return Operation{err: err}
+	operation := Operation{err: err}
+	operation.ExpressionContainer = ExpressionWrap(operation)
+	return operation
 }
 
 func (o Operation) GetError() error {
diff --git a/parameter.go b/parameter.go
index 1ab0a93..79bca6d 100644
--- a/parameter.go
+++ b/parameter.go
@@ -30,9 +30,9 @@ func ParameterCreate(name string) Parameter {
 }
 
 func ParameterError(err error) Parameter {
-	return Parameter{
-		err: err,
-	}
+	parameter := Parameter{err: err}
+	parameter.ExpressionContainer = ExpressionWrap(parameter)
+	return parameter
 }
 
 func (p Parameter) GetError() error {
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index ce0f866..934f86e 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -25,7 +25,9 @@ func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinit
 }
 
 func PatternComprehensionError(err error) PatternComprehension {
-	return PatternComprehension{err: err}
+	patternComprehension := PatternComprehension{err: err}
+	patternComprehension.ExpressionContainer = ExpressionWrap(patternComprehension)
+	return patternComprehension
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
diff --git a/raw_string_literal.go b/raw_string_literal.go
index 8ef74c6..d2f9a77 100644
--- a/raw_string_literal.go
+++ b/raw_string_literal.go
@@ -19,9 +19,9 @@ func RawStringLiteralCreate(content string) RawStringLiteral {
 }
 
 func RawStringLiteralError(err error) RawStringLiteral {
-	return RawStringLiteral{
-		err: err,
-	}
+	rawStringLiteral := RawStringLiteral{err: err}
+	rawStringLiteral.ExpressionContainer = ExpressionWrap(rawStringLiteral)
+	return rawStringLiteral
 }
 
 func (s RawStringLiteral) GetError() error {
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 478ec00..c5d91e1 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -22,9 +22,9 @@ func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) Relatio
 }
 
 func RelationshipPatternConditionError(err error) RelationshipPatternCondition {
-	return RelationshipPatternCondition{
-		err: err,
-	}
+	relationshipPatternCondition := RelationshipPatternCondition{err: err}
+	relationshipPatternCondition.ConditionContainer = ConditionWrap(relationshipPatternCondition)
+	return relationshipPatternCondition
 }
 
 func (r RelationshipPatternCondition) getConditionType() string {
diff --git a/string_literal.go b/string_literal.go
index 7268682..c135a57 100644
--- a/string_literal.go
+++ b/string_literal.go
@@ -32,9 +32,9 @@ func StringLiteralCreate(content string) StringLiteral {
 }
 
 func StringLiteralError(err error) StringLiteral {
-	return StringLiteral{
-		err: err,
-	}
+	stringLiteral := StringLiteral{err: err}
+	stringLiteral.ExpressionContainer = ExpressionWrap(stringLiteral)
+	return stringLiteral
 }
 
 func (s StringLiteral) GetError() error {
diff --git a/symbolic_name.go b/symbolic_name.go
index e9e68f2..6d5ced7 100644
--- a/symbolic_name.go
+++ b/symbolic_name.go
@@ -36,9 +36,9 @@ func SymbolicNameUnResolve() SymbolicName {
 }
 
 func SymbolicNameError(err error) SymbolicName {
-	return SymbolicName{
-		err: err,
-	}
+	symbolicName := SymbolicName{err: err}
+	symbolicName.ExpressionContainer = ExpressionWrap(symbolicName)
+	return symbolicName
 }
 
 func (s SymbolicName) GetError() error {
-- 
2.43.0


From 07dc0764444892cc040e4a400f56408b83fb72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 04/45] fix: check the operands of comparisons and operations,
 not their opposite

---
 comparison.go |  4 ++--
 operation.go  | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/comparison.go b/comparison.go
index aac1d2f..ecf19bf 100644
--- a/comparison.go
+++ b/comparison.go
@@ -30,7 +30,7 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 	if left == nil || !left.isNotNil() {
 		return ComparisonError(errors.New("left expression must be not nil"))
 	}
-	if right == nil || !left.isNotNil() {
+	if right == nil || !right.isNotNil() {
 		return ComparisonError(errors.New("right expression must be not nil"))
 	}
 	comparison := Comparison{
@@ -72,7 +72,7 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 			right:    nil,
 		}
 	default:
-		return Comparison{}
+		return ComparisonError(errors.New("comparison: operator must be a prefix or postfix operator"))
 	}
 	comparison.key = getAddress(&comparison)
 	comparison.notNil = true
diff --git a/operation.go b/operation.go
index f44b2f0..b88d8a8 100644
--- a/operation.go
+++ b/operation.go
@@ -55,13 +55,13 @@ func OperationCreate1(left Expression, operator Operator, right NodeLabel) Opera
 	if right.GetError() != nil {
 		return OperationError(right.GetError())
 	}
-	if left == nil || left.isNotNil() {
+	if left == nil || !left.isNotNil() {
 		return OperationError(errors.New("left can not be nil"))
 	}
-	if operator.isNotNil() {
+	if !operator.isNotNil() {
 		return OperationError(errors.New("operator can not be nil"))
 	}
-	if right.isNotNil() {
+	if !right.isNotNil() {
 		return OperationError(errors.New("right can not be nil"))
 	}
 	o := Operation{
@@ -94,12 +94,16 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 	if nodeLabels == nil || len(nodeLabels) == 0 {
 		return OperationError(errors.New("labels can not be nil or empty"))
 	}
+	name := op1.GetRequiredSymbolicName()
+	if name.GetError() != nil {
+		return OperationError(name.GetError())
+	}
 	labels := make([]NodeLabel, 0)
 	for _, nodeLabel := range nodeLabels {
 		labels = append(labels, NodeLabelCreate(nodeLabel))
 	}
 	o := Operation{
-		left:     op1.GetRequiredSymbolicName(),
+		left:     name,
 		operator: operator,
 		right:    NodeLabelsCreate(labels),
 		notNil:   true,
-- 
2.43.0


From f515224b567a88e761524b65982a0fb8316ff747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 05/45] fix: nodes and labels always get a key and count as
 present

---
 cypher.go | 9 ++++++---
 node.go   | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cypher.go b/cypher.go
index 9d89e1e..1d5c41e 100644
--- a/cypher.go
+++ b/cypher.go
@@ -15,13 +15,16 @@ import (
  */
 func NewNodeWithLabels(primaryLabel string, additionalLabel ...string) Node {
 	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabel {
-		labels = append(labels, NodeLabel{value: label})
+		labels = append(labels, NodeLabelCreate(label))
 	}
-	return Node{
+	node := Node{
 		labels: labels,
+		notNil: true,
 	}
+	node.injectKey()
+	return node
 }
 
 /**
diff --git a/node.go b/node.go
index c6b77af..56cbdb8 100644
--- a/node.go
+++ b/node.go
@@ -17,6 +17,7 @@ func NodeCreate() Node {
 	node := Node{
 		notNil: true,
 	}
+	node.injectKey()
 	return node
 }
 
@@ -30,7 +31,7 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 		}
 	}
 	labels := make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
 		labels = append(labels, NodeLabelCreate(label))
 	}
@@ -67,12 +68,13 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 		}
 	}
 	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabel {
 		labels = append(labels, NodeLabelCreate(label))
 	}
 	node := Node{
 		labels: labels,
+		notNil: true,
 	}
 	node.injectKey()
 	return node
-- 
2.43.0


From 777f539cf578e968807a7b9713ac9ca60e2c74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 06/45] fix: a renamed node is another element than the node it
 was derived from

---
 node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 56cbdb8..7e64c07 100644
--- a/node.go
+++ b/node.go
@@ -190,11 +190,13 @@ func (node Node) Property(name string) Property {
 }
 
 func (node Node) NamedByString(name string) Node {
-	node.symbolicName = SymbolicNameCreate(name)
-	return node
+	return node.Named(SymbolicNameCreate(name))
 }
 
 func (node Node) Named(name SymbolicName) Node {
+	if node.GetError() != nil {
+		return node
+	}
 	if name.GetError() != nil {
 		return NodeError(name.GetError())
 	}
@@ -202,6 +204,7 @@ func (node Node) Named(name SymbolicName) Node {
 		return NodeError(errors.New("node named: symbolic name is required"))
 	}
 	node.symbolicName = name
+	node.injectKey()
 	return node
 }
 
-- 
2.43.0


From 039a95a17514881bc771cfc51d4cc40bfd2ae871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 07/45] fix: quote the name of a node when it is mentioned
 again

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 7e64c07..9111d02 100644
--- a/node.go
+++ b/node.go
@@ -149,7 +149,7 @@ func (node Node) enter(renderer *CypherRenderer) {
 	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]
 	renderer.visitedNamed[node.key] = 1
 	if renderer.skipNodeContent {
-		renderer.append(node.symbolicName.value)
+		renderer.append(renderer.resolve(node.symbolicName))
 	}
 }
 
-- 
2.43.0


From a2b02f9693f72e6594ff1ff25453ead5b3103f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 08/45] fix: a node keeps the errors of its properties and of
 the node it is derived from

---
 node.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/node.go b/node.go
index 9111d02..5dff2ce 100644
--- a/node.go
+++ b/node.go
@@ -30,6 +30,9 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 			return NodeError(errors.New("empty label is not allowed"))
 		}
 	}
+	if properties.GetError() != nil {
+		return NodeError(properties.GetError())
+	}
 	labels := make([]NodeLabel, 0)
 	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
@@ -81,6 +84,12 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 }
 
 func NodeCreate4(newProperties MapExpression, node Node) Node {
+	if node.GetError() != nil {
+		return node
+	}
+	if newProperties.GetError() != nil {
+		return NodeError(newProperties.GetError())
+	}
 	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: PropertiesCreate(newProperties)}
 	newNode.injectKey()
 	return newNode
@@ -101,6 +110,9 @@ func NodeError(err error) Node {
 }
 
 func (node Node) GetRequiredSymbolicName() SymbolicName {
+	if node.GetError() != nil {
+		return SymbolicNameError(node.GetError())
+	}
 	if node.symbolicName.isNotNil() {
 		return node.symbolicName
 	}
-- 
2.43.0


From fbb82d9387fa22d3c3a541fc41909cbbbce83334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 09/45] fix: keep the errors of map entries, list predicates
 and boolean functions

---
 boolean_function_condition.go |  3 +++
 entry_expression.go           |  4 +++-
 has_label_condition.go        |  5 +++++
 list_expression.go            |  2 +-
 list_predicate.go             |  4 ++--
 map_projection.go             |  3 +++
 predicates.go                 | 17 ++++++++++++++++-
 7 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index 7f7cb3f..3710dff 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -9,6 +9,9 @@ type BooleanFunctionCondition struct {
 }
 
 func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunctionCondition {
+	if delegate.GetError() != nil {
+		return BooleanFunctionConditionError(delegate.GetError())
+	}
 	function := BooleanFunctionCondition{
 		delegate: delegate,
 		notNil:   true,
diff --git a/entry_expression.go b/entry_expression.go
index ee0db5b..b31e984 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -11,9 +11,11 @@ type EntryExpression struct {
 
 func EntryExpressionCreate(key string, value Expression) EntryExpression {
 	if value != nil && value.GetError() != nil {
-		return EntryExpression{
+		e := EntryExpression{
 			err: value.GetError(),
 		}
+		e.ExpressionContainer = ExpressionWrap(e)
+		return e
 	}
 	e := EntryExpression{
 		Value:  value,
diff --git a/has_label_condition.go b/has_label_condition.go
index 2c0c26f..e714f35 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -45,6 +45,11 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 	if labels == nil || len(labels) == 0 {
 		return HasLabelConditionError(errors.New("labels is required"))
 	}
+	for _, label := range labels {
+		if label.GetError() != nil {
+			return HasLabelConditionError(label.GetError())
+		}
+	}
 	hasLabelCondition := HasLabelCondition{
 		nodeName:   nodeName,
 		nodeLabels: labels,
diff --git a/list_expression.go b/list_expression.go
index 196496b..43030dd 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -35,7 +35,7 @@ func ListExpressionError(err error) ListExpression {
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
 	if expressions == nil || len(expressions) == 0 {
-		ListExpressionError(errors.New("expressions are required"))
+		return ListExpressionError(errors.New("expressions are required"))
 	}
 	if len(expressions) == 1 {
 		return expressions[0]
diff --git a/list_predicate.go b/list_predicate.go
index 6a0a646..357c9ea 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -15,10 +15,10 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 		return ListPredicateError(variable.GetError())
 	}
 	if listExpression != nil && listExpression.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(listExpression.GetError())
 	}
 	if where.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(where.GetError())
 	}
 	listPredicate := ListPredicate{
 		variable:       variable,
diff --git a/map_projection.go b/map_projection.go
index 1a828c1..3f61e45 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -141,6 +141,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		if _, isAsterisk := lastExpression.(Asterisk); isAsterisk {
 			lastExpression = PropertyLookupCreate("*")
 		}
+		if lastExpression != nil && lastExpression.GetError() != nil {
+			return nil, lastExpression.GetError()
+		}
 		var entry Expression
 		if lastKey != "" {
 			_, isDuplicateKey := knownKeys[lastKey]
diff --git a/predicates.go b/predicates.go
index f930db8..e22c5c3 100644
--- a/predicates.go
+++ b/predicates.go
@@ -61,6 +61,9 @@ type PredicateBuilder struct {
 
 func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBuilder {
 	if !name.isNotNil() {
+		if name.GetError() != nil {
+			return PredicateBuilder{err: name.GetError()}
+		}
 		return PredicateBuilder{err: xerrors.New("name for predicate is require")}
 	}
 	return PredicateBuilder{
@@ -70,6 +73,12 @@ func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBui
 }
 
 func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionWithList {
+	if p.err != nil {
+		return p
+	}
+	if list != nil && list.GetError() != nil {
+		return PredicateBuilder{err: list.GetError()}
+	}
 	if list == nil || !list.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("predicate builder: the list expression is required")}
 	}
@@ -78,6 +87,12 @@ func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionW
 }
 
 func (p PredicateBuilder) Where(condition Condition) Condition {
+	if p.err != nil {
+		return BooleanFunctionConditionError(p.err)
+	}
+	if condition != nil && condition.GetError() != nil {
+		return BooleanFunctionConditionError(condition.GetError())
+	}
 	if condition == nil || !condition.isNotNil() {
 		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition is required"))
 	}
@@ -85,5 +100,5 @@ func (p PredicateBuilder) Where(condition Condition) Condition {
 }
 
 func (p PredicateBuilder) GetError() error {
-	panic("implement me")
+	return p.err
 }
-- 
2.43.0


From 19c2995b6c7a0251362274912f58b83f28f951af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 10/45] fix: expression lists and distinct arguments get a key
 like every other element

---
 expression_list.go     | 2 +-
 function_invocation.go | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/expression_list.go b/expression_list.go
index 5b6b881..97b0184 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -72,5 +72,5 @@ func NewExpressionList(expression ...Expression) ExpressionList {
 	for i := range expression {
 		expressions[i] = expression[i]
 	}
-	return ExpressionList{expressions: expressions}
+	return ExpressionListCreate(expressions)
 }
diff --git a/function_invocation.go b/function_invocation.go
index 34c4337..fd3b2a9 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -119,9 +119,7 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 		return FunctionInvocationError(errors.Errorf("expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, 0)
-	arguments = append(arguments, DistinctExpression{
-		delegate: expressions[0],
-	})
+	arguments = append(arguments, DistinctExpressionCreate(expressions[0]))
 	for _, expression := range expressions[1:] {
 		arguments = append(arguments, expression)
 	}
-- 
2.43.0


From fd90447ee4908427d6472d2b34bc1babf1a75d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 11/45] fix: function calls without arguments

---
 function_invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_invocation.go b/function_invocation.go
index fd3b2a9..95932e6 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -14,7 +14,7 @@ type FunctionInvocation struct {
 }
 
 func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation {
-	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName(), nil)
+	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName())
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
-- 
2.43.0


From 65fd2cd905bcf578d662d34eeecf128bb014a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 12/45] fix: types of conditions are returned instead of
 panicking

---
 excluded_pattern.go     | 4 ++--
 existential_subquery.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/excluded_pattern.go b/excluded_pattern.go
index 205223d..aa55aeb 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -53,9 +53,9 @@ func (e ExcludedPattern) isNotNil() bool {
 }
 
 func (e ExcludedPattern) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExcludedPattern"
 }
 
 func (e ExcludedPattern) getConditionType() string {
-	panic("implement me")
+	return "ExcludedPattern"
 }
diff --git a/existential_subquery.go b/existential_subquery.go
index 0c4c520..0324c0e 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -58,7 +58,7 @@ func (e ExistentialSubquery) isNotNil() bool {
 }
 
 func (e ExistentialSubquery) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExistentialSubquery"
 }
 
 func (e ExistentialSubquery) getConditionType() string {
-- 
2.43.0


From 8da8c6338e46883fbd3b63fcca2990c660d8613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 13/45] fix: CollectDistinct calls collect

---
 functions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index 1f4217e..1b2fd6e 100644
--- a/functions.go
+++ b/functions.go
@@ -194,7 +194,7 @@ func CollectDistinct(expression Expression) FunctionInvocation {
 	if expression != nil && expression.GetError() != nil {
 		return FunctionInvocationError(expression.GetError())
 	}
-	return FunctionInvocationCreateDistinct(AVG, expression)
+	return FunctionInvocationCreateDistinct(COLLECT, expression)
 }
 
 /**
-- 
2.43.0


From 850c70b36a09a54da39bc8f39feaccb4d4a942bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 14/45] fix: datetime, localdatetime, localtime and time can be
 called without argument

---
 functions.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/functions.go b/functions.go
index 1b2fd6e..353a39e 100644
--- a/functions.go
+++ b/functions.go
@@ -732,7 +732,7 @@ func DateWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Datetime() FunctionInvocation {
-	return FunctionInvocationCreate(DATETIME)
+	return FunctionInvocationCreate1(DATETIME)
 }
 
 /**
@@ -797,7 +797,7 @@ func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDatetime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALDATETIME)
+	return FunctionInvocationCreate1(LOCALDATETIME)
 }
 
 /**
@@ -877,7 +877,7 @@ func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Localtime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALTIME)
+	return FunctionInvocationCreate1(LOCALTIME)
 }
 
 /**
@@ -956,7 +956,7 @@ func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Time() FunctionInvocation {
-	return FunctionInvocationCreate(TIME)
+	return FunctionInvocationCreate1(TIME)
 }
 
 /**
-- 
2.43.0


From 318586e84ad1e8a91e763369298aab5e4e502c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 15/45] fix: number literals denote the number given, exactly

---
 number_literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_literal.go b/number_literal.go
index 1cb365d..5944ca6 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -63,7 +63,7 @@ func (n NumberLiteral) GetContent() interface{} {
 }
 
 func (n NumberLiteral) AsString() string {
-	return n.content.String()
+	return n.content.Text('f', -1)
 }
 
 func (n NumberLiteral) accept(visitor *CypherRenderer) {
-- 
2.43.0


From 1690c1846078c880bd35aefd3b505ce03e3a7199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 16/45] fix: reject floating point values that have no literal
 form

---
 number_literal.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/number_literal.go b/number_literal.go
index 5944ca6..9ad02ed 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -1,6 +1,8 @@
 package cypher
 
 import (
+	"errors"
+	"math"
 	"math/big"
 )
 
@@ -23,6 +25,9 @@ func NumberLiteralCreate(content int64) NumberLiteral {
 }
 
 func NumberLiteralCreate2(content float64) NumberLiteral {
+	if math.IsNaN(content) || math.IsInf(content, 0) {
+		return NumberLiteralError(errors.New("number literal: only finite numbers have a literal form"))
+	}
 	n := NumberLiteral{
 		content: big.NewFloat(content),
 		notNil:  true,
@@ -42,6 +47,15 @@ func NumberLiteralCreate1(content int) NumberLiteral {
 	return n
 }
 
+func NumberLiteralError(err error) NumberLiteral {
+	n := NumberLiteral{
+		content: new(big.Float),
+		err:     err,
+	}
+	n.ExpressionContainer = ExpressionWrap(n)
+	return n
+}
+
 func (n NumberLiteral) GetError() error {
 	return n.err
 }
-- 
2.43.0


From 54e75d196189f75c5ebbde16d75e9c3b06bf2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 17/45] fix: create and merge keep all their patterns

---
 default_statement_builder.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 44fda57..a09fa45 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -612,15 +612,17 @@ func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visita
 func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visitable) (UpdatingClauseBuilder, error) {
 	mergeOrCreate := updateType == UPDATE_TYPE_MERGE || updateType == UPDATE_TYPE_CREATE
 	if mergeOrCreate {
+		if len(patternOrExpression) == 0 {
+			return RemoveBuilder{}, xerrors.Errorf("at least one pattern is required to %s", updateType)
+		}
 		patternElements := make([]PatternElement, 0)
 		for _, visitable := range patternOrExpression {
-			patternElements := append(patternElements, visitable.(PatternElement))
-			if updateType == UPDATE_TYPE_CREATE {
-				return CreateBuilderCreate(patternElements), nil
-			} else {
-				return MergeBuilderCreate(patternElements), nil
-			}
+			patternElements = append(patternElements, visitable.(PatternElement))
+		}
+		if updateType == UPDATE_TYPE_CREATE {
+			return CreateBuilderCreate(patternElements), nil
 		}
+		return MergeBuilderCreate(patternElements), nil
 	} else {
 		expressions := make([]Expression, 0)
 		for _, visitable := range patternOrExpression {
@@ -649,8 +651,6 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 			return RemoveBuilder{}, xerrors.Errorf("unsupported update type %s", updateType)
 		}
 	}
-	//Just return to make compiler happy
-	return RemoveBuilder{}, xerrors.Errorf("unexpected behavior")
 }
 
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
-- 
2.43.0


From 4e1f6fd8ba9109506996c8ecdc474f25d000f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 18/45] fix: set pairs targets and values in order, whatever
 the values are

---
 default_statement_builder.go | 15 ++++++++-------
 operation.go                 |  5 +++++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index a09fa45..f445066 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -655,20 +655,21 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
 	propertyOperations := make([]Expression, 0)
-	listOfExpressions := make([]Expression, 0)
+	var target Expression
 	for _, possibleSetOperation := range possibleSetOperations {
-		if operation, isOperation := possibleSetOperation.(Operation); isOperation {
+		operation, isOperation := possibleSetOperation.(Operation)
+		if isOperation && operation.isUpdating() {
 			propertyOperations = append(propertyOperations, operation)
+		} else if target == nil {
+			target = possibleSetOperation
 		} else {
-			listOfExpressions = append(listOfExpressions, possibleSetOperation)
+			propertyOperations = append(propertyOperations, OperationSet(target, possibleSetOperation))
+			target = nil
 		}
 	}
-	if len(listOfExpressions)%2 != 0 {
+	if target != nil {
 		return nil, xerrors.New("the list of expression to OperationSet must be even")
 	}
-	for i := 0; i < len(listOfExpressions); i += 2 {
-		propertyOperations = append(propertyOperations, OperationSet(listOfExpressions[i], listOfExpressions[i+1]))
-	}
 	return propertyOperations, nil
 }
 
diff --git a/operation.go b/operation.go
index b88d8a8..a7f1419 100644
--- a/operation.go
+++ b/operation.go
@@ -155,6 +155,11 @@ func (o Operation) GetExpressionType() ExpressionType {
 	return "Operation"
 }
 
+// isUpdating tells whether the operation is an assignment or changes labels.
+func (o Operation) isUpdating() bool {
+	return o.operator.operatorType == PROPERTY || o.operator.operatorType == LABEL
+}
+
 func (o Operation) needsGrouping() bool {
 	return (o.operator.operatorType != PROPERTY && o.operator.operatorType != LABEL) &&
 		(o.operator != EXPONENTIATION && o.operator != PIPE)
-- 
2.43.0


From 7b9241f91f51ceddd7552e92f7705440ada6b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 19/45] fix: a builder step leaves the builder it is called on
 as it is

---
 default_ongoing_unwind.go        |  5 ++--
 default_statement_builder.go     | 29 +++++++++++++--------
 default_statement_with_update.go | 44 +++++++++++++++++---------------
 in_query_call_builder.go         | 25 +++++++++---------
 order_builder.go                 | 19 +++++++++-----
 updating_clause_builder.go       |  3 ++-
 6 files changed, 73 insertions(+), 52 deletions(-)

diff --git a/default_ongoing_unwind.go b/default_ongoing_unwind.go
index 23f30e1..2dd04e9 100644
--- a/default_ongoing_unwind.go
+++ b/default_ongoing_unwind.go
@@ -22,6 +22,7 @@ func (d DefaultOngoingUnwind) GetError() error {
 }
 
 func (d DefaultOngoingUnwind) As(variable string) OngoingReading {
-	d.defaultBuilder.currentSinglePartElements = append(d.defaultBuilder.currentSinglePartElements, unwindCreate(d.expressionToUnwind, variable))
-	return d.defaultBuilder
+	builder := *d.defaultBuilder
+	builder.addSinglePartElement(unwindCreate(d.expressionToUnwind, variable))
+	return builder
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index f445066..919f1b0 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -58,7 +58,8 @@ func (d DefaultStatementBuilder) AddWith(with with) DefaultStatementBuilder {
 		return DefaultStatementBuilderError(with.GetError())
 	}
 	if with.isNotNil() {
-		d.multipartElements = append(d.multipartElements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
+		count := len(d.multipartElements)
+		d.multipartElements = append(d.multipartElements[:count:count], MultiPartElementCreate(d.BuildListOfVisitable(true), with))
 	}
 	return d
 }
@@ -368,7 +369,7 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 		d.err = singlePart.GetError()
 		return d
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, singlePart)
+	d.addSinglePartElement(singlePart)
 	return d
 }
 
@@ -500,11 +501,17 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 	return d
 }
 
+// addSinglePartElement leaves the elements of the builders this one was derived from as they are.
+func (d *DefaultStatementBuilder) addSinglePartElement(element Visitable) {
+	count := len(d.currentSinglePartElements)
+	d.currentSinglePartElements = append(d.currentSinglePartElements[:count:count], element)
+}
+
 func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingMatch.buildMatch())
+	d.addSinglePartElement(d.currentOngoingMatch.buildMatch())
 	d.currentOngoingMatch = MatchBuilder{}
 }
 
@@ -517,7 +524,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingCall() {
 		d.err = err
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, builtCall)
+	d.addSinglePartElement(builtCall)
 	d.currentOngoingCall = InQueryCallBuilder{}
 }
 
@@ -525,7 +532,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingUpdate() {
 	if !d.currentOngoingUpdate.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingUpdate.builder.build())
+	d.addSinglePartElement(d.currentOngoingUpdate.builder.build())
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilder{}
 }
 
@@ -597,7 +604,7 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 
 func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
 	d.CloseCurrentOngoingMatch()
-	d.currentSinglePartElements = append(d.currentSinglePartElements, clause)
+	d.addSinglePartElement(clause)
 	return *d
 }
 
@@ -709,15 +716,15 @@ func (o OngoingMergeActionInBuilder) Set(expressions ...Expression) OngoingMatch
 			return DefaultStatementBuilderError(expression.GetError())
 		}
 	}
-	support := o.defaultBuilder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
+	builder := *o.defaultBuilder
+	support := builder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
 	newSupport, err := support.on(o.mergeType, expressions...)
 	newMergeBuilder, _ := newSupport.(MergeBuilder)
 	if err != nil {
-		o.defaultBuilder.err = err
-		return o.defaultBuilder
+		return DefaultStatementBuilderError(err)
 	}
-	o.defaultBuilder.currentOngoingUpdate.builder = newMergeBuilder
-	return o.defaultBuilder
+	builder.currentOngoingUpdate.builder = newMergeBuilder
+	return builder
 }
 
 func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Expression) OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 5c2f70e..4d33b4c 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -69,6 +69,12 @@ func (d DefaultStatementWithUpdateBuilder) isNotNil() bool {
 	return d.notNil
 }
 
+// statementBuilder returns the builder of the statement with this updating clause added.
+func (d DefaultStatementWithUpdateBuilder) statementBuilder() DefaultStatementBuilder {
+	builder := *d.defaultBuilder
+	return builder.addUpdatingClause(d.builder.build())
+}
+
 func (d DefaultStatementWithUpdateBuilder) And(expression Expression) TerminalOngoingOrderDefinition {
 	d.orderBuilder.And(expression)
 	return d
@@ -108,14 +114,13 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
 	var returning Return
 	if len(d.returnList) > 0 {
 		returnItems := ExpressionList{expressions: d.returnList}
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	return d.statementBuilder().BuildImpl(false, returning), nil
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningByString(variables ...string) OngoingReadingAndReturn {
@@ -127,7 +132,8 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList, expression...)
+	count := len(d.returnList)
+	d.returnList = append(d.returnList[:count:count], expression...)
 	return d
 }
 
@@ -140,7 +146,8 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	d.Returning(expression...)
+	count := len(d.returnList)
+	d.returnList = append(d.returnList[:count:count], expression...)
 	d.distinct = true
 	return d
 }
@@ -158,8 +165,7 @@ func (d DefaultStatementWithUpdateBuilder) With(expressions ...Expression) Order
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDefault(distinct bool, returnedExpressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.WithDefault(distinct, returnedExpressions...)
+	return d.statementBuilder().WithDefault(distinct, returnedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -187,7 +193,7 @@ func (d DefaultStatementWithUpdateBuilder) Delete(expressions ...Expression) Ong
 }
 
 func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, deletedExpressions ...Expression) OngoingUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
+	builder := d.statementBuilder()
 	var deleteType UpdateType
 	if nextDetach {
 		deleteType = UPDATE_TYPE_DETACH_DELETE
@@ -198,7 +204,7 @@ func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, delete
 	for i := range deletedExpressions {
 		visitables[i] = deletedExpressions[i]
 	}
-	return d.defaultBuilder.Update(deleteType, visitables)
+	return builder.Update(deleteType, visitables)
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -214,13 +220,12 @@ func (d DefaultStatementWithUpdateBuilder) DetachDelete(expressions ...Expressio
 }
 
 func (d DefaultStatementWithUpdateBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Merge(pattern...)
+	return d.statementBuilder().Merge(pattern...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, expressions...)
+	builder := d.statementBuilder()
+	return DefaultStatementWithUpdateBuilderCreate2(&builder, UPDATE_TYPE_SET, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
@@ -228,16 +233,16 @@ func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expressi
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
+	builder := d.statementBuilder()
+	return DefaultStatementWithUpdateBuilderCreate2(&builder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
 	if d.err != nil {
 		return d
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
+	builder := d.statementBuilder()
+	return DefaultStatementWithUpdateBuilderCreate2(&builder, UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
@@ -245,11 +250,10 @@ func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) Builda
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, expressions...)
+	builder := d.statementBuilder()
+	return DefaultStatementWithUpdateBuilderCreate2(&builder, UPDATE_TYPE_REMOVE, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Create(element...)
+	return d.statementBuilder().Create(element...)
 }
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 3fa7feb..1b1bc90 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -19,10 +19,16 @@ func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedure
 	}
 }
 
+// statementBuilder returns the builder of the statement with this call as its ongoing one.
+func (i InQueryCallBuilder) statementBuilder() DefaultStatementBuilder {
+	builder := *i.defaultBuilder
+	builder.currentOngoingCall = i
+	return builder
+}
+
 func (i InQueryCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	i.conditionBuilder.Where(condition)
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder
+	return i.statementBuilder()
 }
 
 func (i InQueryCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -42,8 +48,7 @@ func (i InQueryCallBuilder) ReturningByNamed(variables ...Named) OngoingReadingA
 }
 
 func (i InQueryCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Returning(expression...)
+	return i.statementBuilder().Returning(expression...)
 }
 
 func (i InQueryCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -55,8 +60,7 @@ func (i InQueryCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongoing
 }
 
 func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.ReturningDistinct(expression...)
+	return i.statementBuilder().ReturningDistinct(expression...)
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
@@ -112,8 +116,7 @@ func (i InQueryCallBuilder) WithByNamed(variables ...Named) OrderableOngoingRead
 }
 
 func (i InQueryCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.With(expressions...)
+	return i.statementBuilder().With(expressions...)
 }
 
 func (i InQueryCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,13 +128,11 @@ func (i InQueryCallBuilder) WithDistinctByNamed(variables ...Named) OrderableOng
 }
 
 func (i InQueryCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.WithDistinct(expressions...)
+	return i.statementBuilder().WithDistinct(expressions...)
 }
 
 func (i InQueryCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Call(statement)
+	return i.statementBuilder().Call(statement)
 }
 
 func (i InQueryCallBuilder) isNotNil() bool {
diff --git a/order_builder.go b/order_builder.go
index bbc40d4..46d0aed 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -14,8 +14,14 @@ func OrderBuilderCreate() OrderBuilder {
 	}
 }
 
+// addSortItem leaves the items of the builders this one was copied from as they are.
+func (o *OrderBuilder) addSortItem(item ...SortItem) {
+	count := len(o.sortItemList)
+	o.sortItemList = append(o.sortItemList[:count:count], item...)
+}
+
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
-	o.sortItemList = append(o.sortItemList, item...)
+	o.addSortItem(item...)
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
@@ -27,12 +33,12 @@ func (o *OrderBuilder) And(expression Expression) {
 }
 
 func (o *OrderBuilder) Descending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Descending())
+	o.addSortItem(o.lastSortItem.Descending())
 	o.lastSortItem = SortItem{}
 }
 
 func (o *OrderBuilder) Ascending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Ascending())
+	o.addSortItem(o.lastSortItem.Ascending())
 	o.lastSortItem = SortItem{}
 }
 
@@ -45,11 +51,12 @@ func (o *OrderBuilder) Limit(number int) {
 }
 
 func (o *OrderBuilder) BuildOrder() Order {
+	sortItems := append(make([]SortItem, 0), o.sortItemList...)
 	if o.lastSortItem.isNotNil() {
-		o.sortItemList = append(o.sortItemList, o.lastSortItem)
+		sortItems = append(sortItems, o.lastSortItem)
 	}
-	if o.sortItemList != nil && len(o.sortItemList) > 0 {
-		return OrderCreate(o.sortItemList)
+	if len(sortItems) > 0 {
+		return OrderCreate(sortItems)
 	}
 	return Order{}
 }
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 814f336..2fc7b15 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -25,7 +25,8 @@ func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (Suppo
 		return MergeBuilder{}, err
 	}
 	expressionList := ExpressionListCreate(expression)
-	c.mergeActions = append(c.mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
+	count := len(c.mergeActions)
+	c.mergeActions = append(c.mergeActions[:count:count], MergeActionCreate(mergeType, SetCreate(expressionList)))
 	return c, nil
 }
 
-- 
2.43.0


From a879a68ee4cac4d7d4ed4ac5368b306568987e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 20/45] fix: builder steps and clauses keep the errors of their
 parts

---
 condition_builder.go                     | 17 ++++-
 default_ongoing_unwind.go                |  3 +
 default_statement_builder.go             | 21 ++++--
 default_statement_with_return_builder.go | 24 ++++---
 default_statement_with_update.go         | 57 ++++++++++-----
 default_statement_with_with_builder.go   | 90 ++++++++++++------------
 expressions.go                           |  2 +-
 in_query_call_builder.go                 | 38 ++++++++--
 match_builder.go                         |  4 +-
 merge_action.go                          |  3 +
 order_builder.go                         | 15 ++++
 procedure_call.go                        | 63 +++++++++++------
 return_body.go                           |  8 +--
 sort_item.go                             |  9 ++-
 with.go                                  | 10 +--
 yield_items.go                           |  2 +-
 16 files changed, 248 insertions(+), 118 deletions(-)

diff --git a/condition_builder.go b/condition_builder.go
index 764c75d..3e59d6c 100644
--- a/condition_builder.go
+++ b/condition_builder.go
@@ -13,10 +13,18 @@ func (c *ConditionBuilder) Where(newCondition Condition) {
 }
 
 func (c *ConditionBuilder) And(additionalCondition Condition) {
+	if c.condition == nil {
+		c.condition = additionalCondition
+		return
+	}
 	c.condition = c.condition.And(additionalCondition).Get()
 }
 
 func (c *ConditionBuilder) Or(additionalCondition Condition) {
+	if c.condition == nil {
+		c.condition = additionalCondition
+		return
+	}
 	c.condition = c.condition.Or(additionalCondition).Get()
 }
 
@@ -29,8 +37,15 @@ func (c *ConditionBuilder) hasCondition() bool {
 }
 
 func (c *ConditionBuilder) buildCondition() Condition {
-	if c.hasCondition() {
+	if c.hasCondition() || c.getError() != nil {
 		return c.condition
 	}
 	return nil
 }
+
+func (c *ConditionBuilder) getError() error {
+	if c.condition == nil {
+		return nil
+	}
+	return c.condition.GetError()
+}
diff --git a/default_ongoing_unwind.go b/default_ongoing_unwind.go
index 2dd04e9..6352dc9 100644
--- a/default_ongoing_unwind.go
+++ b/default_ongoing_unwind.go
@@ -22,6 +22,9 @@ func (d DefaultOngoingUnwind) GetError() error {
 }
 
 func (d DefaultOngoingUnwind) As(variable string) OngoingReading {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
 	builder := *d.defaultBuilder
 	builder.addSinglePartElement(unwindCreate(d.expressionToUnwind, variable))
 	return builder
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 919f1b0..3daa428 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -282,7 +282,7 @@ func (d DefaultStatementBuilder) SetWithNamed(variable Named, expression Express
 	if expression != nil && expression.GetError() != nil {
 		return DefaultStatementBuilderError(expression.GetError())
 	}
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.Set(variable.GetRequiredSymbolicName(), expression)
 }
 
 func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
@@ -385,8 +385,11 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 }
 
 func (d DefaultStatementBuilder) AsCondition() Condition {
+	if d.err != nil {
+		return ExistentialSubqueryError(d.err)
+	}
 	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
-		panic("only simple MATCH statements can be used as existential subqueries")
+		return ExistentialSubqueryError(errors.New("only simple MATCH statements can be used as existential subqueries"))
 	}
 	return ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())
 }
@@ -395,6 +398,9 @@ func (d DefaultStatementBuilder) And(condition Condition) OngoingReadingWithWher
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementBuilderError(condition.GetError())
+	}
 	d.currentOngoingMatch.conditionBuilder.And(condition)
 	return d
 }
@@ -569,7 +575,11 @@ func (d DefaultStatementBuilder) Build() (Statement, error) {
 }
 
 func (d DefaultStatementBuilder) BuildImpl(clearCurrentBuildSteps bool, returning Return) Statement {
-	singlePartQuery := SinglePartQueryCreate(d.BuildListOfVisitable(clearCurrentBuildSteps), returning)
+	visitables := d.BuildListOfVisitable(clearCurrentBuildSteps)
+	if d.err != nil {
+		return SinglePartQueryError(d.err)
+	}
+	singlePartQuery := SinglePartQueryCreate(visitables, returning)
 	if len(d.multipartElements) == 0 {
 		return singlePartQuery
 	}
@@ -613,6 +623,9 @@ func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visita
 	d.CloseCurrentOngoingCall()
 	d.CloseCurrentOngoingUpdate()
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
+	if d.err == nil {
+		d.err = d.currentOngoingUpdate.err
+	}
 	return *d
 }
 
@@ -737,5 +750,5 @@ func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Exp
 	if expression != nil && expression.GetError() != nil {
 		return DefaultStatementBuilderError(expression.GetError())
 	}
-	return o.Set(variable.GetSymbolicName(), expression)
+	return o.Set(variable.GetRequiredSymbolicName(), expression)
 }
diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 47b428b..6ee1260 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -16,13 +16,21 @@ func (d *DefaultStatementWithReturnBuilder) AddExpression(expression ...Expressi
 	d.returnList = append(d.returnList, expression...)
 }
 
+// checked returns the builder with the error of its order, if there is one.
+func (d DefaultStatementWithReturnBuilder) checked() DefaultStatementWithReturnBuilder {
+	if d.err == nil {
+		d.err = d.orderBuilder.err
+	}
+	return d
+}
+
 func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
@@ -31,35 +39,35 @@ func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 
 func (d DefaultStatementWithReturnBuilder) And(expression Expression) TerminalOngoingOrderDefinition {
 	d.orderBuilder.And(expression)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithReturnBuilder) Descending() OngoingMatchAndReturnWithOrder {
 	d.orderBuilder.Descending()
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithReturnBuilder) Ascending() OngoingMatchAndReturnWithOrder {
 	d.orderBuilder.Ascending()
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithReturnBuilder) OrderBySortItem(sortItem ...SortItem) OngoingMatchAndReturnWithOrder {
 	d.orderBuilder.OrderBySortItem(sortItem...)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithReturnBuilder) OrderBy(expression Expression) TerminalOngoingOrderDefinition {
 	d.orderBuilder.OrderByExpression(expression)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithReturnBuilder) Skip(number int) TerminalExposesLimitAndBuildableStatement {
 	d.orderBuilder.Skip(number)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithReturnBuilder) Limit(number int) BuildableStatement {
 	d.orderBuilder.Limit(number)
-	return d
+	return d.checked()
 }
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 4d33b4c..065384c 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -69,45 +69,56 @@ func (d DefaultStatementWithUpdateBuilder) isNotNil() bool {
 	return d.notNil
 }
 
+// checked returns the builder with the error of its order, if there is one.
+func (d DefaultStatementWithUpdateBuilder) checked() DefaultStatementWithUpdateBuilder {
+	if d.err == nil {
+		d.err = d.orderBuilder.err
+	}
+	return d
+}
+
 // statementBuilder returns the builder of the statement with this updating clause added.
 func (d DefaultStatementWithUpdateBuilder) statementBuilder() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
 	builder := *d.defaultBuilder
 	return builder.addUpdatingClause(d.builder.build())
 }
 
 func (d DefaultStatementWithUpdateBuilder) And(expression Expression) TerminalOngoingOrderDefinition {
 	d.orderBuilder.And(expression)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithUpdateBuilder) Descending() OngoingMatchAndReturnWithOrder {
 	d.orderBuilder.Descending()
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithUpdateBuilder) Ascending() OngoingMatchAndReturnWithOrder {
 	d.orderBuilder.Ascending()
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithUpdateBuilder) OrderBySortItem(sortItem ...SortItem) OngoingMatchAndReturnWithOrder {
 	d.orderBuilder.OrderBySortItem(sortItem...)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithUpdateBuilder) OrderBy(expression Expression) TerminalOngoingOrderDefinition {
 	d.orderBuilder.OrderByExpression(expression)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithUpdateBuilder) Skip(number int) TerminalExposesLimitAndBuildableStatement {
 	d.orderBuilder.Skip(number)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithUpdateBuilder) Limit(number int) BuildableStatement {
 	d.orderBuilder.Limit(number)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
@@ -116,7 +127,7 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
@@ -132,6 +143,14 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
+	if d.err != nil {
+		return d
+	}
+	for i := range expression {
+		if expression[i] != nil && expression[i].GetError() != nil {
+			return DefaultStatementWithUpdateBuilderError(expression[i].GetError())
+		}
+	}
 	count := len(d.returnList)
 	d.returnList = append(d.returnList[:count:count], expression...)
 	return d
@@ -146,6 +165,14 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
+	if d.err != nil {
+		return d
+	}
+	for i := range expression {
+		if expression[i] != nil && expression[i].GetError() != nil {
+			return DefaultStatementWithUpdateBuilderError(expression[i].GetError())
+		}
+	}
 	count := len(d.returnList)
 	d.returnList = append(d.returnList[:count:count], expression...)
 	d.distinct = true
@@ -193,18 +220,10 @@ func (d DefaultStatementWithUpdateBuilder) Delete(expressions ...Expression) Ong
 }
 
 func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, deletedExpressions ...Expression) OngoingUpdate {
-	builder := d.statementBuilder()
-	var deleteType UpdateType
 	if nextDetach {
-		deleteType = UPDATE_TYPE_DETACH_DELETE
-	} else {
-		deleteType = UPDATE_TYPE_DELETE
-	}
-	visitables := make([]Visitable, len(deletedExpressions))
-	for i := range deletedExpressions {
-		visitables[i] = deletedExpressions[i]
+		return d.statementBuilder().DetachDelete(deletedExpressions...)
 	}
-	return builder.Update(deleteType, visitables)
+	return d.statementBuilder().Delete(deletedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -229,7 +248,7 @@ func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) Builda
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.Set(variable.GetRequiredSymbolicName(), expression)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index af51013..3070a35 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -30,9 +30,8 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	returnItems := ExpressionListCreate(d.returnList)
 	condition := d.conditionBuilder.buildCondition()
 	var where Where
-	if condition == nil || !condition.isNotNil() {
+	if condition == nil {
 		where = Where{}
-
 	} else {
 		where = WhereCreate(condition)
 	}
@@ -43,38 +42,57 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	return returnedWith
 }
 
+// statementBuilder returns the builder of the statement with this WITH added.
+func (d DefaultStatementWithWithBuilder) statementBuilder() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	return d.defaultBuilder.AddWith(d.buildWith())
+}
+
+// checked returns the builder with the error of its order or condition, if there is one.
+func (d DefaultStatementWithWithBuilder) checked() DefaultStatementWithWithBuilder {
+	if d.err == nil {
+		d.err = d.orderBuilder.err
+	}
+	if d.err == nil {
+		d.err = d.conditionBuilder.getError()
+	}
+	return d
+}
+
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
 	d.returnList = append(d.returnList, expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Skip(number int) ExposesLimitAndOngoingReadingAndWith {
 	d.orderBuilder.Skip(number)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithWithBuilder) Limit(number int) OngoingReadingAndWith {
 	d.orderBuilder.Limit(number)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithWithBuilder) Descending() OngoingReadingAndWithWithWhereAndOrder {
 	d.orderBuilder.Descending()
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithWithBuilder) Ascending() OngoingReadingAndWithWithWhereAndOrder {
 	d.orderBuilder.Ascending()
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithWithBuilder) OrderBySortItem(sortItem ...SortItem) OrderableOngoingReadingAndWithWithWhere {
 	d.orderBuilder.OrderBySortItem(sortItem...)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithWithBuilder) OrderByExpression(expression Expression) OngoingOrderDefinition {
 	d.orderBuilder.OrderByExpression(expression)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningByString(variables ...string) OngoingReadingAndReturn {
@@ -86,8 +104,7 @@ func (d DefaultStatementWithWithBuilder) ReturningByNamed(variables ...Named) On
 }
 
 func (d DefaultStatementWithWithBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Returning(expression...)
+	return d.statementBuilder().Returning(expression...)
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -99,8 +116,7 @@ func (d DefaultStatementWithWithBuilder) ReturningDistinctByNamed(variables ...N
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		ReturningDistinct(expression...)
+	return d.statementBuilder().ReturningDistinct(expression...)
 }
 
 func (d DefaultStatementWithWithBuilder) WithByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -112,8 +128,7 @@ func (d DefaultStatementWithWithBuilder) WithByNamed(variables ...Named) Orderab
 }
 
 func (d DefaultStatementWithWithBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		With(expressions...)
+	return d.statementBuilder().With(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,8 +140,7 @@ func (d DefaultStatementWithWithBuilder) WithDistinctByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		WithDistinct(expressions...)
+	return d.statementBuilder().WithDistinct(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) DeleteByString(variables ...string) OngoingUpdate {
@@ -138,8 +152,7 @@ func (d DefaultStatementWithWithBuilder) DeleteByNamed(variables ...Named) Ongoi
 }
 
 func (d DefaultStatementWithWithBuilder) Delete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Delete(expressions...)
+	return d.statementBuilder().Delete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -151,18 +164,15 @@ func (d DefaultStatementWithWithBuilder) DetachDeleteByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDelete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		DetachDelete(expressions...)
+	return d.statementBuilder().DetachDelete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Merge(pattern...)
+	return d.statementBuilder().Merge(pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Set(expressions...)
+	return d.statementBuilder().Set(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
@@ -170,18 +180,15 @@ func (d DefaultStatementWithWithBuilder) SetWithNamed(variable Named, expression
 }
 
 func (d DefaultStatementWithWithBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		SetByNode(node, labels...)
+	return d.statementBuilder().SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		RemoveByNode(node, labels...)
+	return d.statementBuilder().RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Remove(properties...)
+	return d.statementBuilder().Remove(properties...)
 }
 
 func (d DefaultStatementWithWithBuilder) Unwinds(expression ...Expression) OngoingUnwind {
@@ -193,23 +200,19 @@ func (d DefaultStatementWithWithBuilder) UnwindByString(variable string) Ongoing
 }
 
 func (d DefaultStatementWithWithBuilder) Unwind(expression Expression) OngoingUnwind {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Unwind(expression)
+	return d.statementBuilder().Unwind(expression)
 }
 
 func (d DefaultStatementWithWithBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Create(element...)
+	return d.statementBuilder().Create(element...)
 }
 
 func (d DefaultStatementWithWithBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Call(statement)
+	return d.statementBuilder().Call(statement)
 }
 
 func (d DefaultStatementWithWithBuilder) Call1(namespaceAndProcedure ...string) OngoingInQueryCallWithoutArguments {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Call1(namespaceAndProcedure...)
+	return d.statementBuilder().Call1(namespaceAndProcedure...)
 }
 
 func (d DefaultStatementWithWithBuilder) Match(pattern ...PatternElement) OngoingReadingWithoutWhere {
@@ -221,13 +224,12 @@ func (d DefaultStatementWithWithBuilder) OptionalMatch(pattern ...PatternElement
 }
 
 func (d DefaultStatementWithWithBuilder) MatchDefault(optional bool, pattern ...PatternElement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		MatchDefault(optional, pattern...)
+	return d.statementBuilder().MatchDefault(optional, pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Where(condition Condition) OrderableOngoingReadingAndWithWithWhere {
 	d.conditionBuilder.Where(condition)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithWithBuilder) WherePattern(pattern RelationshipPattern) OrderableOngoingReadingAndWithWithWhere {
@@ -236,7 +238,7 @@ func (d DefaultStatementWithWithBuilder) WherePattern(pattern RelationshipPatter
 
 func (d DefaultStatementWithWithBuilder) And(condition Condition) OrderableOngoingReadingAndWithWithWhere {
 	d.conditionBuilder.And(condition)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithWithBuilder) AndPattern(pattern RelationshipPattern) OrderableOngoingReadingAndWithWithWhere {
@@ -245,7 +247,7 @@ func (d DefaultStatementWithWithBuilder) AndPattern(pattern RelationshipPattern)
 
 func (d DefaultStatementWithWithBuilder) Or(condition Condition) OrderableOngoingReadingAndWithWithWhere {
 	d.conditionBuilder.Or(condition)
-	return d
+	return d.checked()
 }
 
 func (d DefaultStatementWithWithBuilder) OrPattern(pattern RelationshipPattern) OrderableOngoingReadingAndWithWithWhere {
@@ -254,5 +256,5 @@ func (d DefaultStatementWithWithBuilder) OrPattern(pattern RelationshipPattern)
 
 func (d DefaultStatementWithWithBuilder) And1(expression Expression) OngoingOrderDefinition {
 	d.orderBuilder.And(expression)
-	return d
+	return d.checked()
 }
diff --git a/expressions.go b/expressions.go
index d5fd352..bd29196 100644
--- a/expressions.go
+++ b/expressions.go
@@ -12,7 +12,7 @@ func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 	expressions := make([]Expression, 0)
 	for _, named := range nameds {
 		if named != nil {
-			expressions = append(expressions, named.GetSymbolicName())
+			expressions = append(expressions, named.GetRequiredSymbolicName())
 		}
 	}
 	return expressions
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 1b1bc90..81d69d8 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -11,6 +11,12 @@ type InQueryCallBuilder struct {
 }
 
 func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedureName ProcedureName) InQueryCallBuilder {
+	if defaultBuilder != nil && defaultBuilder.err != nil {
+		return InQueryCallBuilder{err: defaultBuilder.err}
+	}
+	if procedureName.GetError() != nil {
+		return InQueryCallBuilder{err: procedureName.GetError()}
+	}
 	return InQueryCallBuilder{
 		defaultBuilder:   defaultBuilder,
 		procedureName:    procedureName,
@@ -19,8 +25,27 @@ func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedure
 	}
 }
 
+// checked returns the builder with the error of its parts, if there is one.
+func (i InQueryCallBuilder) checked() InQueryCallBuilder {
+	for _, argument := range i.arguments {
+		if i.err == nil && argument != nil {
+			i.err = argument.GetError()
+		}
+	}
+	if i.err == nil {
+		i.err = i.yieldItems.GetError()
+	}
+	if i.err == nil {
+		i.err = i.conditionBuilder.getError()
+	}
+	return i
+}
+
 // statementBuilder returns the builder of the statement with this call as its ongoing one.
 func (i InQueryCallBuilder) statementBuilder() DefaultStatementBuilder {
+	if i.err != nil {
+		return DefaultStatementBuilderError(i.err)
+	}
 	builder := *i.defaultBuilder
 	builder.currentOngoingCall = i
 	return builder
@@ -28,7 +53,7 @@ func (i InQueryCallBuilder) statementBuilder() DefaultStatementBuilder {
 
 func (i InQueryCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	i.conditionBuilder.Where(condition)
-	return i.statementBuilder()
+	return i.checked().statementBuilder()
 }
 
 func (i InQueryCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -64,12 +89,15 @@ func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingR
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
+	if i.err != nil {
+		return nil, i.err
+	}
 	argumentsList := Arguments{}
 	if i.arguments == nil || len(i.arguments) > 0 {
 		argumentsList = ArgumentsCreate(i.arguments)
 	}
 	condition := i.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
 			WhereCreate(condition)), nil
 	}
@@ -78,7 +106,7 @@ func (i InQueryCallBuilder) Build() (Statement, error) {
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
 	i.arguments = arguments
-	return i
+	return i.checked()
 }
 
 func (i InQueryCallBuilder) YieldSymbolic(name ...SymbolicName) OngoingInQueryCallWithReturnFields {
@@ -87,7 +115,7 @@ func (i InQueryCallBuilder) YieldSymbolic(name ...SymbolicName) OngoingInQueryCa
 		expressions[i] = name[i]
 	}
 	i.yieldItems = yieldAllOf(expressions...)
-	return i
+	return i.checked()
 }
 
 func (i InQueryCallBuilder) YieldString(yieldedItems ...string) OngoingInQueryCallWithReturnFields {
@@ -104,7 +132,7 @@ func (i InQueryCallBuilder) Yield(aliasedResultFields ...AliasedExpression) Ongo
 		expressions[i] = aliasedResultFields[i]
 	}
 	i.yieldItems = yieldAllOf(expressions...)
-	return i
+	return i.checked()
 }
 
 func (i InQueryCallBuilder) WithByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
diff --git a/match_builder.go b/match_builder.go
index 889d50e..cde488b 100644
--- a/match_builder.go
+++ b/match_builder.go
@@ -16,10 +16,10 @@ func MatchBuilderCreate(optional bool) MatchBuilder {
 }
 
 func (builder MatchBuilder) buildMatch() MatchPhrase {
-	pattern := Pattern{patternElements: builder.patternList}
+	pattern := PatternCreate(builder.patternList)
 	conditionBuilder := builder.conditionBuilder
 	builtCondition := conditionBuilder.buildCondition()
-	if builtCondition == nil || !builtCondition.isNotNil() {
+	if builtCondition == nil {
 		return MatchPhraseCreate(builder.optional, pattern, Where{})
 	}
 	return MatchPhraseCreate(builder.optional, pattern, WhereCreate(builtCondition))
diff --git a/merge_action.go b/merge_action.go
index 0ad34d9..a24a0ab 100644
--- a/merge_action.go
+++ b/merge_action.go
@@ -9,6 +9,9 @@ type MergeAction struct {
 }
 
 func MergeActionCreate(mergeType MERGE_TYPE, set Set) MergeAction {
+	if set.GetError() != nil {
+		return MergeAction{err: set.GetError()}
+	}
 	m := MergeAction{
 		mergeType: mergeType,
 		set:       set,
diff --git a/order_builder.go b/order_builder.go
index 46d0aed..c381c60 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -6,6 +6,7 @@ type OrderBuilder struct {
 	skip         Skip
 	limit        Limit
 	notNil       bool
+	err          error
 }
 
 func OrderBuilderCreate() OrderBuilder {
@@ -14,8 +15,18 @@ func OrderBuilderCreate() OrderBuilder {
 	}
 }
 
+// addError keeps the first error of the requested items and numbers.
+func (o *OrderBuilder) addError(err error) {
+	if o.err == nil {
+		o.err = err
+	}
+}
+
 // addSortItem leaves the items of the builders this one was copied from as they are.
 func (o *OrderBuilder) addSortItem(item ...SortItem) {
+	for i := range item {
+		o.addError(item[i].GetError())
+	}
 	count := len(o.sortItemList)
 	o.sortItemList = append(o.sortItemList[:count:count], item...)
 }
@@ -26,6 +37,7 @@ func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
 	o.lastSortItem = Sort(expression)
+	o.addError(o.lastSortItem.GetError())
 }
 
 func (o *OrderBuilder) And(expression Expression) {
@@ -44,10 +56,12 @@ func (o *OrderBuilder) Ascending() {
 
 func (o *OrderBuilder) Skip(number int) {
 	o.skip = SkipCreate(number)
+	o.addError(o.skip.GetError())
 }
 
 func (o *OrderBuilder) Limit(number int) {
 	o.limit = LimitCreate(number)
+	o.addError(o.limit.GetError())
 }
 
 func (o *OrderBuilder) BuildOrder() Order {
@@ -66,4 +80,5 @@ func (o *OrderBuilder) reset() {
 	o.lastSortItem = SortItem{}
 	o.skip = Skip{}
 	o.limit = Limit{}
+	o.err = nil
 }
diff --git a/procedure_call.go b/procedure_call.go
index fe8fa7e..24099b3 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -143,6 +143,9 @@ type StandaloneCallBuilder struct {
 }
 
 func StandaloneCallBuilderCreate(procedureName ProcedureName) StandaloneCallBuilder {
+	if procedureName.GetError() != nil {
+		return StandaloneCallBuilderError(procedureName.GetError())
+	}
 	return StandaloneCallBuilder{
 		procedureName: procedureName,
 		notNil:        true,
@@ -155,9 +158,33 @@ func StandaloneCallBuilderError(err error) StandaloneCallBuilder {
 	}
 }
 
+// checked returns the builder with the error of its parts, if there is one.
+func (s StandaloneCallBuilder) checked() StandaloneCallBuilder {
+	for _, argument := range s.arguments {
+		if s.err == nil && argument != nil {
+			s.err = argument.GetError()
+		}
+	}
+	if s.err == nil {
+		s.err = s.yieldItems.GetError()
+	}
+	if s.err == nil {
+		s.err = s.conditionBuilder.getError()
+	}
+	return s
+}
+
+// statementBuilder returns the builder of a statement starting with this call.
+func (s StandaloneCallBuilder) statementBuilder() DefaultStatementBuilder {
+	if s.err != nil {
+		return DefaultStatementBuilderError(s.err)
+	}
+	return DefaultStatementBuilderCreate1(s)
+}
+
 func (s StandaloneCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	s.conditionBuilder.Where(condition)
-	return DefaultStatementBuilderCreate1(s)
+	return s.checked().statementBuilder()
 }
 
 func (s StandaloneCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -177,7 +204,7 @@ func (s StandaloneCallBuilder) ReturningByNamed(variables ...Named) OngoingReadi
 }
 
 func (s StandaloneCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return DefaultStatementBuilderCreate1(s).Returning(expression...)
+	return s.statementBuilder().Returning(expression...)
 }
 
 func (s StandaloneCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -189,28 +216,19 @@ func (s StandaloneCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongo
 }
 
 func (s StandaloneCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return DefaultStatementBuilderCreate1(s).ReturningDistinct(expression...)
+	return s.statementBuilder().ReturningDistinct(expression...)
 }
 
 func (s StandaloneCallBuilder) Build() (Statement, error) {
-	if s.procedureName.GetError() != nil {
-		return nil, s.procedureName.GetError()
-	}
-	if s.yieldItems.GetError() != nil {
-		return nil, s.yieldItems.GetError()
+	if s.err != nil {
+		return nil, s.err
 	}
 	argumentsList := Arguments{}
 	if s.arguments == nil || len(s.arguments) > 0 {
 		argumentsList = ArgumentsCreate(s.arguments)
 	}
-	if argumentsList.GetError() != nil {
-		return nil, argumentsList.GetError()
-	}
 	condition := s.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
-		if condition.GetError() != nil {
-			return nil, condition.GetError()
-		}
+	if condition != nil {
 		return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems,
 			WhereCreate(condition)), nil
 	}
@@ -222,12 +240,15 @@ func (s StandaloneCallBuilder) isNotNil() bool {
 }
 
 func (s StandaloneCallBuilder) AsFunction() Expression {
+	if s.err != nil {
+		return FunctionInvocationError(s.err)
+	}
 	return FunctionInvocationCreate(FunctionDefinitionDefault{s.procedureName.getQualifiedName()}, s.arguments...)
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
 	s.arguments = arguments
-	return s
+	return s.checked()
 }
 
 func (s StandaloneCallBuilder) YieldSymbolic(name ...SymbolicName) OngoingStandaloneCallWithReturnFields {
@@ -236,7 +257,7 @@ func (s StandaloneCallBuilder) YieldSymbolic(name ...SymbolicName) OngoingStanda
 		expressions[i] = name[i]
 	}
 	s.yieldItems = yieldAllOf(expressions...)
-	return s
+	return s.checked()
 }
 
 func (s StandaloneCallBuilder) YieldString(yieldedItems ...string) OngoingStandaloneCallWithReturnFields {
@@ -253,7 +274,7 @@ func (s StandaloneCallBuilder) Yield(aliasedResultFields ...AliasedExpression) O
 		expressions[i] = aliasedResultFields[i]
 	}
 	s.yieldItems = yieldAllOf(expressions...)
-	return s
+	return s.checked()
 }
 
 func (s StandaloneCallBuilder) WithByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -265,7 +286,7 @@ func (s StandaloneCallBuilder) WithByNamed(variables ...Named) OrderableOngoingR
 }
 
 func (s StandaloneCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).With(expressions...)
+	return s.statementBuilder().With(expressions...)
 }
 
 func (s StandaloneCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -277,9 +298,9 @@ func (s StandaloneCallBuilder) WithDistinctByNamed(variables ...Named) Orderable
 }
 
 func (s StandaloneCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).WithDistinct(expressions...)
+	return s.statementBuilder().WithDistinct(expressions...)
 }
 
 func (s StandaloneCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).Call(statement)
+	return s.statementBuilder().Call(statement)
 }
diff --git a/return_body.go b/return_body.go
index 0cd30ff..e8d89fa 100644
--- a/return_body.go
+++ b/return_body.go
@@ -12,16 +12,16 @@ type ReturnBody struct {
 
 func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit Limit) ReturnBody {
 	if returnItems.GetError() != nil {
-		ReturnBodyError(returnItems.GetError())
+		return ReturnBodyError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		ReturnBodyError(order.GetError())
+		return ReturnBodyError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		ReturnBodyError(skip.GetError())
+		return ReturnBodyError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		ReturnBodyError(limit.GetError())
+		return ReturnBodyError(limit.GetError())
 	}
 	r := ReturnBody{
 		returnItems: returnItems,
diff --git a/sort_item.go b/sort_item.go
index 5ef4f7f..932722c 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -38,14 +38,17 @@ func (item SortItem) getKey() string {
 }
 
 func (item SortItem) Ascending() SortItem {
+	if item.err != nil {
+		return item
+	}
 	return SortItemCreate(item.expression, ASC)
 }
 
 func (item SortItem) Descending() SortItem {
-	return SortItem{
-		expression: item.expression,
-		direction:  SortDirection{value: DESC},
+	if item.err != nil {
+		return item
 	}
+	return SortItemCreate(item.expression, DESC)
 }
 
 func (item SortItem) accept(visitor *CypherRenderer) {
diff --git a/with.go b/with.go
index e321cf8..d9680b2 100644
--- a/with.go
+++ b/with.go
@@ -11,19 +11,19 @@ type with struct {
 
 func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Skip, limit Limit, where Where) with {
 	if returnItems.GetError() != nil {
-		withError(returnItems.GetError())
+		return withError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		withError(order.GetError())
+		return withError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		withError(skip.GetError())
+		return withError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		withError(limit.GetError())
+		return withError(limit.GetError())
 	}
 	if where.GetError() != nil {
-		withError(where.GetError())
+		return withError(where.GetError())
 	}
 	distinctInstance := Distinct{}
 	if distinct {
diff --git a/yield_items.go b/yield_items.go
index 026a586..7164ae7 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -28,7 +28,7 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 
 func YieldItemsError(err error) YieldItems {
 	return YieldItems{
-		err: nil,
+		err: err,
 	}
 }
 
-- 
2.43.0


From 442cf3479626418815533280192e549b695b3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 21/45] fix: every clause being built is closed before the next
 one starts

---
 default_statement_builder.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 3daa428..6a4a126 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -347,7 +347,7 @@ func (d DefaultStatementBuilder) Unwind(expression Expression) OngoingUnwind {
 	if expression != nil && expression.GetError() != nil {
 		return DefaultOngoingUnwindError(expression.GetError())
 	}
-	d.CloseCurrentOngoingMatch()
+	d.closeCurrentOngoings()
 	return DefaultOngoingUnwindCreate(&d, expression)
 }
 
@@ -361,9 +361,7 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 	if d.err != nil {
 		return d
 	}
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoings()
 	singlePart := SubqueryCall(statement)
 	if singlePart.GetError() != nil {
 		d.err = singlePart.GetError()
@@ -377,8 +375,7 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 	if d.err != nil {
 		return InQueryCallBuilder{err: d.err}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentOngoings()
 	inQueryCallBuilder := InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
 	d.currentOngoingCall = inQueryCallBuilder
 	return inQueryCallBuilder
@@ -500,8 +497,7 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 			return DefaultStatementBuilderError(pattern.GetError())
 		}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentOngoings()
 	d.currentOngoingMatch = MatchBuilderCreate(optional)
 	d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)
 	return d
@@ -513,6 +509,13 @@ func (d *DefaultStatementBuilder) addSinglePartElement(element Visitable) {
 	d.currentSinglePartElements = append(d.currentSinglePartElements[:count:count], element)
 }
 
+// closeCurrentOngoings ends the clause being built before the next one starts.
+func (d *DefaultStatementBuilder) closeCurrentOngoings() {
+	d.CloseCurrentOngoingMatch()
+	d.CloseCurrentOngoingCall()
+	d.CloseCurrentOngoingUpdate()
+}
+
 func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
@@ -613,15 +616,13 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 }
 
 func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
+	d.closeCurrentOngoings()
 	d.addSinglePartElement(clause)
 	return *d
 }
 
 func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoings()
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
 	if d.err == nil {
 		d.err = d.currentOngoingUpdate.err
-- 
2.43.0


From 311f1d657debacdf6bc126ded8203ebc2ebb51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 22/45] fix: conditions are added to the match or call they
 follow

---
 default_statement_builder.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 6a4a126..89f2eb0 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -42,6 +42,9 @@ func (d DefaultStatementBuilder) Where(condition Condition) OngoingReadingWithWh
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
+	if !d.currentOngoingMatch.notNil {
+		return DefaultStatementBuilderError(errors.New("where must follow a match"))
+	}
 	d.currentOngoingMatch.conditionBuilder.Where(condition)
 	return d
 }
@@ -398,7 +401,17 @@ func (d DefaultStatementBuilder) And(condition Condition) OngoingReadingWithWher
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.And(condition)
+	if d.currentOngoingMatch.notNil {
+		d.currentOngoingMatch.conditionBuilder.And(condition)
+	} else if inQueryCall, isInQueryCall := d.currentOngoingCall.(InQueryCallBuilder); isInQueryCall && inQueryCall.notNil {
+		inQueryCall.conditionBuilder.And(condition)
+		d.currentOngoingCall = inQueryCall
+	} else if standaloneCall, isStandaloneCall := d.currentOngoingCall.(StandaloneCallBuilder); isStandaloneCall {
+		standaloneCall.conditionBuilder.And(condition)
+		d.currentOngoingCall = standaloneCall
+	} else {
+		return DefaultStatementBuilderError(errors.New("a further condition must follow the condition of a match or call"))
+	}
 	return d
 }
 
@@ -419,7 +432,17 @@ func (d DefaultStatementBuilder) Or(condition Condition) OngoingReadingWithWhere
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Or(condition)
+	if d.currentOngoingMatch.notNil {
+		d.currentOngoingMatch.conditionBuilder.Or(condition)
+	} else if inQueryCall, isInQueryCall := d.currentOngoingCall.(InQueryCallBuilder); isInQueryCall && inQueryCall.notNil {
+		inQueryCall.conditionBuilder.Or(condition)
+		d.currentOngoingCall = inQueryCall
+	} else if standaloneCall, isStandaloneCall := d.currentOngoingCall.(StandaloneCallBuilder); isStandaloneCall {
+		standaloneCall.conditionBuilder.Or(condition)
+		d.currentOngoingCall = standaloneCall
+	} else {
+		return DefaultStatementBuilderError(errors.New("a further condition must follow the condition of a match or call"))
+	}
 	return d
 }
 
-- 
2.43.0


From f421849f7fd0e8f41a858c8b95a8b3924f436055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 23/45] fix: adding a condition neither changes the compound
 nor loses errors or conditions

---
 compound_condition.go  | 81 +++++++++++++++++++++++++-----------------
 condition_container.go | 19 ++++++----
 function_invocation.go |  6 ++--
 3 files changed, 64 insertions(+), 42 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index 36e3bdd..7bea728 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -43,12 +43,7 @@ func CompoundConditionCreate(left Condition, operator Operator, right Condition)
 	if right == nil || !right.isNotNil() {
 		return CompoundConditionError(errors.New("right hand side condition is required"))
 	}
-	condition := CompoundCondition{operator: operator, notNil: true}
-	condition.add(operator, left)
-	condition.add(operator, right)
-	condition.injectKey()
-	condition.ConditionContainer = ConditionWrap(condition)
-	return condition
+	return CompoundConditionCreate1(operator).add(operator, left).add(operator, right)
 }
 
 func CompoundConditionCreate1(operator Operator) CompoundCondition {
@@ -137,42 +132,64 @@ func (c *CompoundCondition) injectKey() {
 	c.key = getAddress(c)
 }
 
-var EMPTY_CONDITION = CompoundCondition{
-	conditions:    make([]Condition, 0),
-	conditionType: EMPTY_CONDITION_EXPRESSION,
-	notNil:        true,
+var EMPTY_CONDITION = emptyCondition()
+
+func emptyCondition() CompoundCondition {
+	condition := CompoundCondition{
+		conditions:    make([]Condition, 0),
+		conditionType: EMPTY_CONDITION_EXPRESSION,
+		notNil:        true,
+	}
+	condition.injectKey()
+	condition.ConditionContainer = ConditionWrap(condition)
+	return condition
 }
 
 var VALID_OPERATORS = []Operator{AND, OR, XOR}
 
-func (c *CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
-	if c.GetExpressionType() == EMPTY_CONDITION_EXPRESSION {
-		newCompound := CompoundConditionCreate1(chainingOperator)
-		return newCompound.add(chainingOperator, condition)
+// add returns a new condition, neither this one nor the given one is changed.
+func (c CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+	if c.err != nil {
+		return c
+	}
+	if condition == nil {
+		return CompoundConditionError(errors.New("a condition to add is required"))
+	}
+	if condition.GetError() != nil {
+		return CompoundConditionError(condition.GetError())
 	}
-	if compoundCondition, isCompound := condition.(CompoundCondition); isCompound {
-		if !compoundCondition.hasCondition() {
-			return *c
+	compoundCondition, isCompound := condition.(CompoundCondition)
+	if isCompound && !compoundCondition.hasCondition() {
+		return c
+	}
+	if !c.hasCondition() {
+		c = CompoundConditionCreate1(chainingOperator)
+	}
+	if !isCompound {
+		if c.operator == chainingOperator {
+			return c.with(condition)
 		}
-		if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
-			if compoundCondition.canBeFlattenedWith(chainingOperator) {
-				c.conditions = append(c.conditions, compoundCondition.conditions...)
-			} else {
-				c.conditions = append(c.conditions, compoundCondition)
-			}
-		} else {
-			inner := CompoundConditionCreate1(chainingOperator)
-			inner.conditions = append(inner.conditions, compoundCondition)
-			c.conditions = append(c.conditions, inner)
+		return CompoundConditionCreate(c, chainingOperator, condition)
+	}
+	if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
+		if compoundCondition.canBeFlattenedWith(chainingOperator) {
+			return c.with(compoundCondition.conditions...)
 		}
-		return *c
+		return c.with(compoundCondition)
 	}
+	return c.with(CompoundConditionCreate1(chainingOperator).with(compoundCondition))
+}
 
-	if c.operator == chainingOperator {
-		c.conditions = append(c.conditions, condition)
-		return *c
+// with returns a new condition consisting of the conditions of this one and the given ones.
+func (c CompoundCondition) with(conditions ...Condition) CompoundCondition {
+	condition := CompoundCondition{
+		operator:   c.operator,
+		conditions: append(append(make([]Condition, 0), c.conditions...), conditions...),
+		notNil:     true,
 	}
-	return CompoundConditionCreate(*c, chainingOperator, condition)
+	condition.injectKey()
+	condition.ConditionContainer = ConditionWrap(condition)
+	return condition
 }
 
 func (c CompoundCondition) hasCondition() bool {
diff --git a/condition_container.go b/condition_container.go
index c1e6007..ad13313 100644
--- a/condition_container.go
+++ b/condition_container.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ConditionContainer struct {
 	ExpressionContainer
 }
@@ -14,7 +16,7 @@ func (b ConditionContainer) And(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.And(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, condition)
+	b.expression = CompoundConditionCreate(b.Get(), AND, condition)
 	return b
 }
 
@@ -22,7 +24,7 @@ func (b ConditionContainer) Or(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.Or(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, condition)
+	b.expression = CompoundConditionCreate(b.Get(), OR, condition)
 	return b
 }
 
@@ -30,22 +32,22 @@ func (b ConditionContainer) Xor(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.Xor(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, condition)
+	b.expression = CompoundConditionCreate(b.Get(), XOR, condition)
 	return b
 }
 
 func (b ConditionContainer) AndPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, RelationshipPatternConditionCreate(pathPattern))
+	b.expression = CompoundConditionCreate(b.Get(), AND, RelationshipPatternConditionCreate(pathPattern))
 	return b
 }
 
 func (b ConditionContainer) OrPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, RelationshipPatternConditionCreate(pathPattern))
+	b.expression = CompoundConditionCreate(b.Get(), OR, RelationshipPatternConditionCreate(pathPattern))
 	return b
 }
 
 func (b ConditionContainer) XorPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, RelationshipPatternConditionCreate(pathPattern))
+	b.expression = CompoundConditionCreate(b.Get(), XOR, RelationshipPatternConditionCreate(pathPattern))
 	return b
 }
 
@@ -55,5 +57,8 @@ func (b ConditionContainer) Not() ConditionContainer {
 }
 
 func (b ConditionContainer) Get() Condition {
-	return b.expression.(Condition)
+	if condition, isCondition := b.expression.(Condition); isCondition {
+		return condition
+	}
+	return CompoundConditionError(errors.New("a condition is required"))
 }
diff --git a/function_invocation.go b/function_invocation.go
index 95932e6..35c8b45 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -20,7 +20,7 @@ func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
 	if arguments != nil {
 		for _, expression := range arguments {
-			if expression.GetError() != nil {
+			if expression != nil && expression.GetError() != nil {
 				return FunctionInvocationError(expression.GetError())
 			}
 		}
@@ -42,7 +42,7 @@ func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...
 func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
 	if expressions != nil {
 		for _, expression := range expressions {
-			if expression.GetError() != nil {
+			if expression != nil && expression.GetError() != nil {
 				return FunctionInvocationError(expression.GetError())
 			}
 		}
@@ -107,7 +107,7 @@ func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern
 func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
 	if expressions != nil {
 		for _, expression := range expressions {
-			if expression.GetError() != nil {
+			if expression != nil && expression.GetError() != nil {
 				return FunctionInvocationError(expression.GetError())
 			}
 		}
-- 
2.43.0


From e21f9616c0759715f4a0ade3ab0a81a87f16629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 24/45] fix: group conditions where Cypher's precedence would
 read them differently

---
 compound_condition.go | 22 ++++++++++++++++++++++
 operator.go           | 13 +++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/compound_condition.go b/compound_condition.go
index 7bea728..48ffa76 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -171,6 +171,9 @@ func (c CompoundCondition) add(chainingOperator Operator, condition Condition) C
 		}
 		return CompoundConditionCreate(c, chainingOperator, condition)
 	}
+	if len(c.conditions) > 0 && !c.canBeFollowedBy(chainingOperator) {
+		return CompoundConditionCreate(c, chainingOperator, condition)
+	}
 	if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
 		if compoundCondition.canBeFlattenedWith(chainingOperator) {
 			return c.with(compoundCondition.conditions...)
@@ -206,6 +209,25 @@ func (c CompoundCondition) canBeFlattenedWith(operatorBefore Operator) bool {
 	return true
 }
 
+// canBeFollowedBy tells whether a further condition joined with the operator is read as joined with
+// all of the conditions and not just with the last one.
+func (c CompoundCondition) canBeFollowedBy(operator Operator) bool {
+	if len(c.conditions) == 1 {
+		return c.operator == operator
+	}
+	return c.operator.precedence() >= operator.precedence() && c.noneBindsLooserThan(operator)
+}
+
+func (c CompoundCondition) noneBindsLooserThan(operator Operator) bool {
+	for i, condition := range c.conditions {
+		compound, isCompound := condition.(CompoundCondition)
+		if i > 0 && isCompound && compound.operator.precedence() < operator.precedence() {
+			return false
+		}
+	}
+	return true
+}
+
 func acceptVisitorWithOperatorForChildCondition(visitor *CypherRenderer, operator Operator, condition Condition) {
 	VisitIfNotNull(operator, visitor)
 	condition.accept(visitor)
diff --git a/operator.go b/operator.go
index 1cb225c..cd6d5ae 100644
--- a/operator.go
+++ b/operator.go
@@ -61,6 +61,19 @@ func (o Operator) isUnary() bool {
 	return o.operatorType != BINARY
 }
 
+// precedence of the logical operators, the one that binds tightest has the highest.
+func (o Operator) precedence() int {
+	switch o {
+	case AND:
+		return 3
+	case XOR:
+		return 2
+	case OR:
+		return 1
+	}
+	return 0
+}
+
 var ADDITION = createBinaryOperator("+")
 var SUBTRACTION = createBinaryOperator("-")
 var MULTIPLICATION = createBinaryOperator("*")
-- 
2.43.0


From c8abcfcf2d1e0f8d0b16c0d437a3761a421c5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 25/45] fix: an absent condition stays absent when negated

---
 condition_container.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/condition_container.go b/condition_container.go
index ad13313..80b91f2 100644
--- a/condition_container.go
+++ b/condition_container.go
@@ -52,6 +52,10 @@ func (b ConditionContainer) XorPattern(pathPattern RelationshipPattern) Conditio
 }
 
 func (b ConditionContainer) Not() ConditionContainer {
+	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound &&
+		compoundCondition.notNil && !compoundCondition.hasCondition() {
+		return b
+	}
 	b.expression = ComparisonCreate1(NOT, b.expression)
 	return b
 }
-- 
2.43.0


From 08616f520264b3f528a2fea6a6fd5b8d9189ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 26/45] fix: relationships and chains keep errors and leave
 those they are derived from as they are

---
 relationship.go         | 40 +++++++++++++++-----
 relationship_chain.go   | 84 ++++++++++++++++++++++++-----------------
 relationship_details.go | 25 +++++++++++-
 3 files changed, 103 insertions(+), 46 deletions(-)

diff --git a/relationship.go b/relationship.go
index 327a29c..0861fe8 100644
--- a/relationship.go
+++ b/relationship.go
@@ -63,6 +63,9 @@ func (r Relationship) isNotNil() bool {
 }
 
 func (r Relationship) GetRequiredSymbolicName() SymbolicName {
+	if r.err != nil {
+		return SymbolicNameError(r.err)
+	}
 	if r.details.symbolicName.isNotNil() {
 		return r.details.symbolicName
 	}
@@ -77,24 +80,32 @@ func (r Relationship) getKey() string {
 	return r.key
 }
 
+// withDetails returns a relationship between the same nodes.
+func (r Relationship) withDetails(details RelationshipDetails) Relationship {
+	if r.err != nil {
+		return r
+	}
+	return RelationshipCreate3(r.left, details, r.right)
+}
+
 func (r Relationship) NamedByString(newSymbolicName string) Relationship {
-	return RelationshipCreate3(r.left, r.details.namedByString(newSymbolicName), r.right)
+	return r.withDetails(r.details.namedByString(newSymbolicName))
 }
 
 func (r Relationship) Unbounded() Relationship {
-	return RelationshipCreate3(r.left, r.details.unbounded(), r.right)
+	return r.withDetails(r.details.unbounded())
 }
 
 func (r Relationship) Min(minimum int) Relationship {
-	return RelationshipCreate3(r.left, r.details.min(minimum), r.right)
+	return r.withDetails(r.details.min(minimum))
 }
 
 func (r Relationship) Length(minimum int, maximum int) Relationship {
-	return RelationshipCreate3(r.left, r.details.min(minimum).max(maximum), r.right)
+	return r.withDetails(r.details.min(minimum).max(maximum))
 }
 
 func (r Relationship) Max(maximum int) Relationship {
-	return RelationshipCreate3(r.left, r.details.max(maximum), r.right)
+	return r.withDetails(r.details.max(maximum))
 }
 
 func (r Relationship) accept(visitor *CypherRenderer) {
@@ -116,22 +127,25 @@ func (r Relationship) IsPatternElement() bool {
 }
 
 func (r Relationship) RelationshipTo(node Node, types ...string) RelationshipChain {
-	return RelationshipChainCreate(r).Add(r.right.RelationshipTo(node, types...))
+	return RelationshipChainCreate(r).RelationshipTo(node, types...)
 }
 
 func (r Relationship) RelationshipFrom(node Node, types ...string) RelationshipChain {
-	return RelationshipChainCreate(r).Add(r.right.RelationshipFrom(node, types...))
+	return RelationshipChainCreate(r).RelationshipFrom(node, types...)
 }
 
 func (r Relationship) RelationshipBetween(node Node, types ...string) RelationshipChain {
-	return RelationshipChainCreate(r).Add(r.right.RelationshipBetween(node, types...))
+	return RelationshipChainCreate(r).RelationshipBetween(node, types...)
 }
 
 func (r Relationship) Named(name string) Relationship {
-	return RelationshipCreate3(r.left, r.details.namedByString(name), r.right)
+	return r.withDetails(r.details.namedByString(name))
 }
 
 func (r Relationship) NamedC(name string) RelationshipChain {
+	if r.err != nil {
+		return RelationshipChain{err: r.err}
+	}
 	return RelationshipChainError("can not use namedC for relationship")
 }
 
@@ -151,6 +165,12 @@ func (r Relationship) WithRawProperties(keysAndValues ...interface{}) Relationsh
 }
 
 func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
+	if r.err != nil {
+		return r
+	}
+	if newProperties.GetError() != nil {
+		return RelationshipError(newProperties.GetError())
+	}
 	if !newProperties.isNotNil() && !r.details.properties.isNotNil() {
 		return r
 	}
@@ -158,7 +178,7 @@ func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
 	if newProperties.isNotNil() {
 		property = PropertiesCreate(newProperties)
 	}
-	return RelationshipCreate3(r.left, r.details.with(property), r.right)
+	return r.withDetails(r.details.with(property))
 }
 
 func (r Relationship) Project(entries ...interface{}) MapProjection {
diff --git a/relationship_chain.go b/relationship_chain.go
index 6cb37c9..8e3ee9c 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -10,9 +10,18 @@ type RelationshipChain struct {
 }
 
 func RelationshipChainCreate(relationship Relationship) RelationshipChain {
-	relations := make([]Relationship, 1)
-	relations[0] = relationship
-	return RelationshipChain{relationships: relations, notNil: true}
+	return relationshipChainOf([]Relationship{relationship})
+}
+
+func relationshipChainOf(relationships []Relationship) RelationshipChain {
+	for _, relationship := range relationships {
+		if relationship.GetError() != nil {
+			return RelationshipChain{err: relationship.GetError()}
+		}
+	}
+	r := RelationshipChain{relationships: relationships, notNil: true}
+	r.key = getAddress(&r)
+	return r
 }
 
 func RelationshipChainError(msg string) RelationshipChain {
@@ -31,68 +40,71 @@ func (r RelationshipChain) getKey() string {
 	return r.key
 }
 
+// last returns the relationship the modifiers of the chain apply to.
+func (r RelationshipChain) last() Relationship {
+	if len(r.relationships) == 0 {
+		return RelationshipError(errors.New("the relationship chain is empty"))
+	}
+	return r.relationships[len(r.relationships)-1]
+}
+
+// replaceLast returns a new chain, those sharing relationships with this one stay as they are.
+func (r RelationshipChain) replaceLast(relationship Relationship) RelationshipChain {
+	if r.err != nil {
+		return r
+	}
+	count := len(r.relationships)
+	if count == 0 {
+		return RelationshipChain{err: relationship.GetError()}
+	}
+	return relationshipChainOf(append(append(make([]Relationship, 0), r.relationships[:count-1]...), relationship))
+}
+
 func (r RelationshipChain) RelationshipTo(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.last().right.RelationshipTo(node, types...))
 }
 
 func (r RelationshipChain) RelationshipFrom(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.last().right.RelationshipFrom(node, types...))
 }
 
 func (r RelationshipChain) RelationshipBetween(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.last().right.RelationshipBetween(node, types...))
 }
 
 func (r RelationshipChain) Named(name string) Relationship {
+	if r.err != nil {
+		return RelationshipError(r.err)
+	}
 	return RelationshipError(errors.New("can not use named for relationship chain"))
 }
 
 func (r RelationshipChain) NamedC(name string) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Named(name)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Named(name))
 }
 
 func (r RelationshipChain) Unbounded() RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Unbounded()
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Unbounded())
 }
 
 func (r RelationshipChain) Min(minimum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Min(minimum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Min(minimum))
 }
 
 func (r RelationshipChain) Length(minimum int, maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Length(minimum, maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Length(minimum, maximum))
 }
 
 func (r RelationshipChain) Max(maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Max(maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Max(maximum))
 }
 
 func (r RelationshipChain) Properties(newProperties MapExpression) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithProperties(newProperties)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().WithProperties(newProperties))
 }
 
 func (r RelationshipChain) PropertiesRaw(keysAndValues ...interface{}) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithRawProperties(keysAndValues...)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().WithRawProperties(keysAndValues...))
 }
 
 func (r RelationshipChain) accept(visitor *CypherRenderer) {
@@ -114,8 +126,10 @@ func (r RelationshipChain) leave(renderer *CypherRenderer) {
 }
 
 func (r RelationshipChain) Add(relationship Relationship) RelationshipChain {
-	r.relationships = append(r.relationships, relationship)
-	return r
+	if r.err != nil {
+		return r
+	}
+	return relationshipChainOf(append(append(make([]Relationship, 0), r.relationships...), relationship))
 }
 
 func (r RelationshipChain) IsPatternElement() bool {
diff --git a/relationship_details.go b/relationship_details.go
index 622e5f7..7f26418 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -57,7 +57,7 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 	if properties.GetError() != nil {
 		return RelationshipDetailsError(properties.GetError())
 	}
-	return RelationshipDetails{
+	r := RelationshipDetails{
 		direction:    direction,
 		symbolicName: symbolicName,
 		types:        types,
@@ -65,6 +65,8 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 		properties:   properties,
 		notNil:       true,
 	}
+	r.key = getAddress(&r)
+	return r
 }
 
 func RelationshipDetailsError(err error) RelationshipDetails {
@@ -88,6 +90,9 @@ func (r RelationshipDetails) getKey() string {
 }
 
 func (r RelationshipDetails) namedByString(newNamed string) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	if newNamed == "" {
 		return RelationshipDetailsError(errors.New("symbolic name is required"))
 	}
@@ -95,6 +100,12 @@ func (r RelationshipDetails) namedByString(newNamed string) RelationshipDetails
 }
 
 func (r RelationshipDetails) named(newSymbolicName SymbolicName) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
+	if newSymbolicName.GetError() != nil {
+		return RelationshipDetailsError(newSymbolicName.GetError())
+	}
 	if !newSymbolicName.isNotNil() {
 		return RelationshipDetailsError(errors.New("symbolic name is required"))
 	}
@@ -102,14 +113,23 @@ func (r RelationshipDetails) named(newSymbolicName SymbolicName) RelationshipDet
 }
 
 func (r RelationshipDetails) with(newProperties Properties) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, r.length, newProperties)
 }
 
 func (r RelationshipDetails) unbounded() RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, RelationshipLengthCreate(true), r.properties)
 }
 
 func (r RelationshipDetails) min(minimum int) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	newLength := RelationshipLengthCreate1(&minimum, nil)
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(&minimum, r.length.maximum)
@@ -118,6 +138,9 @@ func (r RelationshipDetails) min(minimum int) RelationshipDetails {
 }
 
 func (r RelationshipDetails) max(maximum int) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	newLength := RelationshipLengthCreate1(nil, &maximum)
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(r.length.minimum, &maximum)
-- 
2.43.0


From d2949272790a1c7bca9a570791ee29d57ad7be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 27/45] fix: a relationship whose types are all empty has no
 type

---
 relationship_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relationship_type.go b/relationship_type.go
index 6fb36f2..8d9812d 100644
--- a/relationship_type.go
+++ b/relationship_type.go
@@ -49,7 +49,7 @@ func (r RelationshipTypes) enter(renderer *CypherRenderer) {
 		}
 		typeWithPrefix = append(typeWithPrefix, escapeName(typeRaw))
 	}
-	if len(r.values) > 0 {
+	if len(typeWithPrefix) > 0 {
 		renderer.append(RelTypeStart).append(strings.Join(typeWithPrefix, RelTypSeparator))
 	}
 }
-- 
2.43.0


From 1c4f266de81b822bda1b0e756481d229e116fd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 28/45] fix: merge and remove tell that they are updating
 clauses

---
 merge.go  | 2 +-
 remove.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 81fdf41..0b1636b 100644
--- a/merge.go
+++ b/merge.go
@@ -86,5 +86,5 @@ func (m merge) isNotNil() bool {
 }
 
 func (m merge) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/remove.go b/remove.go
index 29a8131..573a971 100644
--- a/remove.go
+++ b/remove.go
@@ -52,5 +52,5 @@ func (r Remove) isNotNil() bool {
 }
 
 func (r Remove) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
-- 
2.43.0


From d8b3df9694d3736a8fdd7da7c8152097b5da1e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 29/45] fix: case expressions keep errors, keys and the
 branches they are derived from

---
 case.go | 71 ++++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/case.go b/case.go
index 0d82f1a..d3d79c5 100644
--- a/case.go
+++ b/case.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Case struct {
 	ConditionContainer
 	caseElse       CaseElse
@@ -18,11 +20,11 @@ var ENDING_GENERIC_CASE = "EndingGenericCase"
 
 func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return CaseError(caseExpression.GetError())
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return CaseError(caseWhenThen.GetError())
 		}
 	}
 	simpleCase := Case{
@@ -38,7 +40,7 @@ func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) C
 
 func SimpleCaseCreate1(caseExpression Expression) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return CaseError(caseExpression.GetError())
 	}
 	simpleCase := Case{
 		caseExpression: caseExpression,
@@ -53,11 +55,11 @@ func SimpleCaseCreate1(caseExpression Expression) Case {
 
 func EndingSimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return CaseError(caseExpression.GetError())
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return CaseError(caseWhenThen.GetError())
 		}
 	}
 	simpleCase := Case{
@@ -85,7 +87,7 @@ func GenericCaseCreate1() Case {
 func GenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return CaseError(caseWhenThen.GetError())
 		}
 	}
 	genericCase := Case{
@@ -101,7 +103,7 @@ func GenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 func EndingGenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return CaseError(caseWhenThen.GetError())
 		}
 	}
 	genericCase := Case{
@@ -114,7 +116,16 @@ func EndingGenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	return genericCase
 }
 
+func CaseError(err error) Case {
+	erroneousCase := Case{err: err}
+	erroneousCase.ConditionContainer = ConditionWrap(erroneousCase)
+	return erroneousCase
+}
+
 func (c Case) When(nextExpression Expression) OngoingWhenThen {
+	if c.err != nil {
+		return OngoingWhenThen{err: c.err}
+	}
 	return OngoingWhenThenCreate(&c, nextExpression)
 }
 
@@ -165,12 +176,16 @@ func (c Case) getConditionType() string {
 }
 
 func (c Case) ElseDefault(defaultExpression Expression) CaseEnding {
+	if c.err != nil {
+		return c
+	}
 	caseElse := CaseElseCreate(defaultExpression)
 	if caseElse.GetError() != nil {
-		return Case{err: caseElse.GetError()}
+		return CaseError(caseElse.GetError())
 	}
 	c.caseElse = caseElse
-	c.ExpressionContainer = ExpressionWrap(c)
+	c.key = getAddress(&c)
+	c.ConditionContainer = ConditionWrap(c)
 	return c
 }
 
@@ -200,20 +215,32 @@ type OngoingWhenThen struct {
 }
 
 func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) OngoingWhenThen {
-	if whenExpression != nil && whenExpression.GetError() != nil {
+	if whenExpression == nil {
+		return OngoingWhenThen{err: errors.New("case: an expression is required to follow when")}
+	}
+	if whenExpression.GetError() != nil {
 		return OngoingWhenThen{err: whenExpression.GetError()}
 	}
 	return OngoingWhenThen{whenExpression: whenExpression, caseInstance: caseInstance}
 }
 
 func (o OngoingWhenThen) Then(expression Expression) CaseEnding {
+	if o.err != nil {
+		return CaseError(o.err)
+	}
 	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
-	o.caseInstance.caseWhenThens = append(o.caseInstance.caseWhenThens, caseWhenThen)
+	count := len(o.caseInstance.caseWhenThens)
+	caseWhenThens := append(o.caseInstance.caseWhenThens[:count:count], caseWhenThen)
+	var ending Case
 	if o.caseInstance.caseExpression != nil && o.caseInstance.caseExpression.isNotNil() {
-		return EndingSimpleCaseCreate(o.caseInstance.caseExpression, o.caseInstance.caseWhenThens)
+		ending = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)
 	} else {
-		return EndingGenericCaseCreate(o.caseInstance.caseWhenThens)
+		ending = EndingGenericCaseCreate(caseWhenThens)
+	}
+	if ending.err == nil && o.caseInstance.caseElse.isNotNil() {
+		return ending.ElseDefault(o.caseInstance.caseElse.elseExpression)
 	}
+	return ending
 }
 
 //CaseWhenThen
@@ -227,10 +254,13 @@ type CaseWhenThen struct {
 }
 
 func CaseWhenThenCreate(whenExpression Expression, thenExpression Expression) CaseWhenThen {
-	if thenExpression != nil && thenExpression.GetError() != nil {
+	if whenExpression == nil || thenExpression == nil {
+		return CaseWhenThen{err: errors.New("case: expressions are required to follow when and then")}
+	}
+	if thenExpression.GetError() != nil {
 		return CaseWhenThen{err: thenExpression.GetError()}
 	}
-	if whenExpression != nil && whenExpression.GetError() != nil {
+	if whenExpression.GetError() != nil {
 		return CaseWhenThen{err: whenExpression.GetError()}
 	}
 	caseWhenThen := CaseWhenThen{
@@ -243,6 +273,12 @@ func CaseWhenThenCreate(whenExpression Expression, thenExpression Expression) Ca
 }
 
 func (c CaseWhenThen) When(nextExpression Expression) OngoingWhenThen {
+	if c.err != nil {
+		return OngoingWhenThen{err: c.err}
+	}
+	if c.caseInstance == nil {
+		return OngoingWhenThen{err: errors.New("case: the branch isn't part of a case expression")}
+	}
 	return OngoingWhenThenCreate(c.caseInstance, nextExpression)
 }
 
@@ -282,7 +318,10 @@ type CaseElse struct {
 }
 
 func CaseElseCreate(elseExpression Expression) CaseElse {
-	if elseExpression != nil && elseExpression.GetError() != nil {
+	if elseExpression == nil {
+		return CaseElse{err: errors.New("case: an expression is required to follow else")}
+	}
+	if elseExpression.GetError() != nil {
 		return CaseElse{err: elseExpression.GetError()}
 	}
 	caseElse := CaseElse{elseExpression: elseExpression, notNil: true}
-- 
2.43.0


From cba3ba90a47787c7885babc27c7883a721fef3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 30/45] fix: list and pattern comprehensions keep the errors of
 their parts

---
 list_comprehension.go    | 28 ++++++++++++++++++++++---
 pattern_comprehension.go | 44 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 65 insertions(+), 7 deletions(-)

diff --git a/list_comprehension.go b/list_comprehension.go
index 0fca217..76ef9d6 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -17,6 +17,18 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 	if variable.GetError() != nil {
 		return ListComprehensionError(variable.GetError())
 	}
+	if listExpression == nil {
+		return ListComprehensionError(errors.New("list comprehension: a list is required"))
+	}
+	if listExpression.GetError() != nil {
+		return ListComprehensionError(listExpression.GetError())
+	}
+	if where.GetError() != nil {
+		return ListComprehensionError(where.GetError())
+	}
+	if listDefinition != nil && listDefinition.GetError() != nil {
+		return ListComprehensionError(listDefinition.GetError())
+	}
 	list := ListComprehension{
 		variable:       variable,
 		listExpression: listExpression,
@@ -36,6 +48,9 @@ func ListComprehensionError(err error) ListComprehension {
 }
 
 func ListComprehensionWith(variable SymbolicName) OngoingDefinitionWithVariable {
+	if variable.GetError() != nil {
+		return ListComprehensionBuilder{err: variable.GetError()}
+	}
 	if !variable.isNotNil() {
 		return ListComprehensionBuilder{err: errors.New("list comprehension: a variable is required")}
 	}
@@ -104,6 +119,7 @@ type ListComprehensionBuilder struct {
 func ListComprehensionBuilderCreate(variable SymbolicName) ListComprehensionBuilder {
 	return ListComprehensionBuilder{
 		variable: variable,
+		err:      variable.GetError(),
 	}
 }
 
@@ -117,12 +133,18 @@ func (l ListComprehensionBuilder) ReturningByNamed(variables ...Named) ListCompr
 }
 
 func (l ListComprehensionBuilder) Returning(expressions ...Expression) ListComprehension {
-	return ListComprehensionCreate(l.variable, l.listExpression, l.where,
-		ListOrSingleExpression(expressions...))
+	return l.build(ListOrSingleExpression(expressions...))
+}
+
+func (l ListComprehensionBuilder) build(listDefinition Expression) ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
+	return ListComprehensionCreate(l.variable, l.listExpression, l.where, listDefinition)
 }
 
 func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
-	return ListComprehensionCreate(l.variable, l.listExpression, l.where, nil)
+	return l.build(nil)
 }
 
 func (l ListComprehensionBuilder) Where(condition Condition) OngoingDefinitionWithoutReturn {
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index 934f86e..4e0f694 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -13,6 +13,18 @@ type PatternComprehension struct {
 }
 
 func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinition Expression) PatternComprehension {
+	if pattern == nil || listDefinition == nil {
+		return PatternComprehensionError(errors.New("pattern comprehension: a pattern and its list definition are required"))
+	}
+	if pattern.GetError() != nil {
+		return PatternComprehensionError(pattern.GetError())
+	}
+	if where.GetError() != nil {
+		return PatternComprehensionError(where.GetError())
+	}
+	if listDefinition.GetError() != nil {
+		return PatternComprehensionError(listDefinition.GetError())
+	}
 	patternComprehension := PatternComprehension{
 		pattern:        pattern,
 		where:          where,
@@ -31,6 +43,9 @@ func PatternComprehensionError(err error) PatternComprehension {
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
+	if pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -38,6 +53,9 @@ func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensi
 }
 
 func PatternComprehensionBasedOnNamePath(pattern NamedPath) PatternComprehensionOngoingDefinitionWithPattern {
+	if pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -116,7 +134,16 @@ func PatternComprehensionBuilderCreate(pattern PatternElement) PatternComprehens
 	return PatternComprehensionBuilder{
 		pattern:          pattern,
 		conditionBuilder: ConditionBuilderCreate(),
+		err:              pattern.GetError(),
+	}
+}
+
+// checked returns the builder with the error of its condition, if there is one.
+func (p PatternComprehensionBuilder) checked() PatternComprehensionBuilder {
+	if p.err == nil {
+		p.err = p.conditionBuilder.getError()
 	}
+	return p
 }
 
 func (p PatternComprehensionBuilder) ReturningByNamed(variables ...Named) PatternComprehension {
@@ -124,9 +151,12 @@ func (p PatternComprehensionBuilder) ReturningByNamed(variables ...Named) Patter
 }
 
 func (p PatternComprehensionBuilder) Returning(listDefinitions ...Expression) PatternComprehension {
+	if p.err != nil {
+		return PatternComprehensionError(p.err)
+	}
 	where := Where{}
 	condition := p.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
 	return PatternComprehensionCreate(p.pattern, where, ListOrSingleExpression(listDefinitions...))
@@ -134,10 +164,16 @@ func (p PatternComprehensionBuilder) Returning(listDefinitions ...Expression) Pa
 
 func (p PatternComprehensionBuilder) Where(condition Condition) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
 	p.conditionBuilder.Where(condition)
-	return p
+	return p.checked()
 }
 
 func (p PatternComprehensionBuilder) WherePattern(pathPattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
+	if p.err != nil {
+		return p
+	}
+	if pathPattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pathPattern.GetError()}
+	}
 	if !pathPattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: path pattern must not be nil")}
 	}
@@ -146,7 +182,7 @@ func (p PatternComprehensionBuilder) WherePattern(pathPattern RelationshipPatter
 
 func (p PatternComprehensionBuilder) And(condition Condition) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
 	p.conditionBuilder.And(condition)
-	return p
+	return p.checked()
 }
 
 func (p PatternComprehensionBuilder) AndPattern(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
@@ -155,7 +191,7 @@ func (p PatternComprehensionBuilder) AndPattern(pattern RelationshipPattern) Pat
 
 func (p PatternComprehensionBuilder) Or(condition Condition) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
 	p.conditionBuilder.Or(condition)
-	return p
+	return p.checked()
 }
 
 func (p PatternComprehensionBuilder) OrPattern(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
-- 
2.43.0


From 63410dfbeeab89a64b95bbfed2f15e44ae4def1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:03 +0000
Subject: [PATCH 31/45] fix: named paths keep the error and need the name they
 were requested with

---
 name_path.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/name_path.go b/name_path.go
index ed0148d..1a89ac1 100644
--- a/name_path.go
+++ b/name_path.go
@@ -14,7 +14,13 @@ func NamedPathCreate(name SymbolicName, pattern RelationshipPattern) NamedPath {
 	if name.GetError() != nil {
 		return NamedPathError(name.GetError())
 	}
-	if pattern != nil && pattern.GetError() != nil {
+	if !name.isNotNil() {
+		return NamedPathError(errors.New("named path: a name is required"))
+	}
+	if pattern == nil {
+		return NamedPathError(errors.New("named path: a pattern is required"))
+	}
+	if pattern.GetError() != nil {
 		return NamedPathError(pattern.GetError())
 	}
 	n := NamedPath{name: name, pattern: pattern, notNil: true}
@@ -26,6 +32,9 @@ func NamedPathCreate1(name SymbolicName, algorithm FunctionInvocation) NamedPath
 	if name.GetError() != nil {
 		return NamedPathError(name.GetError())
 	}
+	if !name.isNotNil() {
+		return NamedPathError(errors.New("named path: a name is required"))
+	}
 	if algorithm.GetError() != nil {
 		return NamedPathError(algorithm.GetError())
 	}
@@ -48,6 +57,9 @@ func NamedPathBuilderWithNameByString(name string) OngoingDefinitionWithName {
 }
 
 func NamedPathBuilderWithName(name SymbolicName) OngoingDefinitionWithName {
+	if name.GetError() != nil {
+		return NamedPathBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return NamedPathBuilder{
 			err: errors.New("a name is required"),
@@ -66,6 +78,9 @@ func NamedPathShortestPathWithNameByString(name string, algorithm FunctionDefini
 }
 
 func NamedPathShortestPathWithName(name SymbolicName, algorithm FunctionDefinition) OngoingShortestPathDefinitionWithName {
+	if name.GetError() != nil {
+		return ShortestPathBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return ShortestPathBuilder{
 			err: errors.New("a name is required"),
@@ -82,6 +97,9 @@ func (n NamedPath) GetError() error {
 }
 
 func (n NamedPath) GetRequiredSymbolicName() SymbolicName {
+	if n.err != nil {
+		return SymbolicNameError(n.err)
+	}
 	if n.name.isNotNil() {
 		return n.name
 	}
@@ -139,6 +157,9 @@ func NamedPathBuilderCreate(name SymbolicName) NamedPathBuilder {
 }
 
 func (n NamedPathBuilder) DefinedBy(pattern RelationshipPattern) NamedPath {
+	if n.err != nil {
+		return NamedPathError(n.err)
+	}
 	return NamedPathCreate(n.name, pattern)
 }
 
-- 
2.43.0


From 48e6a76efeaac68d10ac74057efe3e2d437c65a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:07 +0000
Subject: [PATCH 32/45] fix: every requested sort item is kept

---
 order_builder.go | 14 +++++++++++---
 sort_item.go     |  7 ++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/order_builder.go b/order_builder.go
index c381c60..ff86a82 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -28,7 +28,12 @@ func (o *OrderBuilder) addSortItem(item ...SortItem) {
 		o.addError(item[i].GetError())
 	}
 	count := len(o.sortItemList)
-	o.sortItemList = append(o.sortItemList[:count:count], item...)
+	sortItems := o.sortItemList[:count:count]
+	if o.lastSortItem.isNotNil() {
+		sortItems = append(sortItems, o.lastSortItem)
+		o.lastSortItem = SortItem{}
+	}
+	o.sortItemList = append(sortItems, item...)
 }
 
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
@@ -36,6 +41,7 @@ func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
+	o.addSortItem()
 	o.lastSortItem = Sort(expression)
 	o.addError(o.lastSortItem.GetError())
 }
@@ -45,13 +51,15 @@ func (o *OrderBuilder) And(expression Expression) {
 }
 
 func (o *OrderBuilder) Descending() {
-	o.addSortItem(o.lastSortItem.Descending())
+	item := o.lastSortItem.Descending()
 	o.lastSortItem = SortItem{}
+	o.addSortItem(item)
 }
 
 func (o *OrderBuilder) Ascending() {
-	o.addSortItem(o.lastSortItem.Ascending())
+	item := o.lastSortItem.Ascending()
 	o.lastSortItem = SortItem{}
+	o.addSortItem(item)
 }
 
 func (o *OrderBuilder) Skip(number int) {
diff --git a/sort_item.go b/sort_item.go
index 932722c..9adfb4f 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type SortItem struct {
 	expression Expression
 	direction  SortDirection
@@ -9,7 +11,10 @@ type SortItem struct {
 }
 
 func SortItemCreate(expression Expression, direction SortDirectionRaw) SortItem {
-	if expression != nil && expression.GetError() != nil {
+	if expression == nil {
+		return SortItemError(errors.New("sort item: an expression is required"))
+	}
+	if expression.GetError() != nil {
 		return SortItemError(expression.GetError())
 	}
 	sortItem := SortItem{
-- 
2.43.0


From 8dacf2741ccdafbc6ffebe9d40e6012ab786968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:47 +0000
Subject: [PATCH 33/45] fix: skip and limit need amounts that aren't negative

---
 limit.go |  3 +++
 skip.go  | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/limit.go b/limit.go
index 5a5fd5c..4895f71 100644
--- a/limit.go
+++ b/limit.go
@@ -13,6 +13,9 @@ func LimitCreate(number int) Limit {
 	if number == 0 {
 		return LimitError(errors.New("limit can not be zero"))
 	}
+	if number < 0 {
+		return LimitError(errors.New("limit can not be negative"))
+	}
 	literal := NumberLiteralCreate1(number)
 	l := Limit{limitAmount: literal, notNil: true}
 	l.key = getAddress(&l)
diff --git a/skip.go b/skip.go
index 55748c9..03955ac 100644
--- a/skip.go
+++ b/skip.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Skip struct {
 	skipAmount NumberLiteral
 	key        string
@@ -8,12 +10,21 @@ type Skip struct {
 }
 
 func SkipCreate(number int) Skip {
+	if number < 0 {
+		return SkipError(errors.New("skip can not be negative"))
+	}
 	literal := NumberLiteralCreate1(number)
 	skip := Skip{skipAmount: literal, notNil: true}
 	skip.key = getAddress(&skip)
 	return skip
 }
 
+func SkipError(err error) Skip {
+	return Skip{
+		err: err,
+	}
+}
+
 func (s Skip) GetError() error {
 	return s.err
 }
-- 
2.43.0


From 9d845f661be2f767aae0e693e1c8f5bac2705db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:51 +0000
Subject: [PATCH 34/45] fix: a procedure is called by its whole qualified name

---
 cypher.go         |  2 +-
 procedure_name.go | 27 ++++++++++++++-------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/cypher.go b/cypher.go
index 1d5c41e..06cde23 100644
--- a/cypher.go
+++ b/cypher.go
@@ -434,7 +434,7 @@ func ACallSimple(procedureName string) OngoingStandaloneCallWithoutArguments {
 	if procedureName == "" {
 		return StandaloneCallBuilderError(errors.New("the procedure name must not be nil or empty"))
 	}
-	return ACall(strings.Split(procedureName, "\\.")...)
+	return ACall(strings.Split(procedureName, ".")...)
 }
 
 /**
diff --git a/procedure_name.go b/procedure_name.go
index 9cd37e3..3b7b98f 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -1,8 +1,6 @@
 package cypher
 
-import (
-	"strings"
-)
+import "errors"
 
 type ProcedureName struct {
 	optionalNamespace Namespace
@@ -13,15 +11,16 @@ type ProcedureName struct {
 }
 
 func ProcedureNameCreate(namespaceAndProcedure ...string) ProcedureName {
-	if len(namespaceAndProcedure) == 1 {
+	inputLength := len(namespaceAndProcedure)
+	if inputLength == 0 {
+		return ProcedureName{err: errors.New("the procedure name must not be nil or empty")}
+	}
+	if inputLength == 1 {
 		return ProcedureNameCreate1(namespaceAndProcedure[0])
-	} else {
-		values := make([]string, 0)
-		inputLength := len(namespaceAndProcedure)
-		copy(values, namespaceAndProcedure[1:inputLength-1])
-		namespace := NameSpaceCreate(values)
-		return ProcedureNameCreate2(namespace, namespaceAndProcedure[inputLength-1])
 	}
+	values := make([]string, inputLength-1)
+	copy(values, namespaceAndProcedure)
+	return ProcedureNameCreate2(NameSpaceCreate(values), namespaceAndProcedure[inputLength-1])
 }
 
 func ProcedureNameCreate1(value string) ProcedureName {
@@ -47,11 +46,10 @@ func ProcedureNameCreate2(namespace Namespace, value string) ProcedureName {
 }
 
 func (p ProcedureName) getQualifiedName() string {
-	namespace := ""
 	if p.optionalNamespace.isNotNil() {
-		namespace = strings.Join(p.optionalNamespace.content[:], ".")
+		return p.optionalNamespace.AsString() + "." + p.value
 	}
-	return namespace + "." + p.value
+	return p.value
 }
 
 func (p ProcedureName) GetError() error {
@@ -68,6 +66,9 @@ func (p ProcedureName) enter(renderer *CypherRenderer) {
 }
 
 func (p ProcedureName) leave(renderer *CypherRenderer) {
+	if p.optionalNamespace.isNotNil() {
+		renderer.append(".")
+	}
 	renderer.append(p.value)
 }
 
-- 
2.43.0


From ee14870aa8b3d36d7e5ca655ca2f6b63c55767be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 35/45] fix: quote the variable of unwind where needed

---
 unwind.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/unwind.go b/unwind.go
index bf93a89..061c3f8 100644
--- a/unwind.go
+++ b/unwind.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UnwindPhrase struct {
 	expressionToUnwind Expression
 	variable           string
@@ -12,6 +14,12 @@ func unwindCreate(expressionToUnwind Expression, variable string) UnwindPhrase {
 	if expressionToUnwind != nil && expressionToUnwind.GetError() != nil {
 		return unwindError(expressionToUnwind.GetError())
 	}
+	if expressionToUnwind == nil {
+		return unwindError(errors.New("unwind: an expression is required"))
+	}
+	if variable == "" {
+		return unwindError(errors.New("unwind: a variable is required"))
+	}
 	var expression Expression
 	if aliased, isAliased := expressionToUnwind.(Aliased); isAliased {
 		expression = aliased.AsName()
@@ -47,7 +55,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(u.variable)
+	renderer.append(EscapeIfNecessary(u.variable))
 	renderer.append(" ")
 }
 
-- 
2.43.0


From 5b5febd6ba5af19ebd8c998219e6b16ebc43bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 36/45] fix: a union keeps the error of the union it is added
 to

---
 cypher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cypher.go b/cypher.go
index 06cde23..93cbd34 100644
--- a/cypher.go
+++ b/cypher.go
@@ -575,6 +575,9 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 	i := 0
 	existingUnionQuery := UnionQuery{}
 	if unionQuery, isUnion := statements[0].(UnionQuery); isUnion {
+		if unionQuery.err != nil {
+			return unionQuery
+		}
 		existingUnionQuery = unionQuery
 		if existingUnionQuery.all != unionAll {
 			return UnionQueryError(errors.New("cannot mix union and union all"))
-- 
2.43.0


From 30a831d767de8dedb2a61c2a45da6f81276c8150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 37/45] fix: a power that is the exponent of another one is
 grouped

---
 operation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operation.go b/operation.go
index a7f1419..9c0ef98 100644
--- a/operation.go
+++ b/operation.go
@@ -34,6 +34,9 @@ func OperationCreate(left Expression, operator Operator, right Expression) Opera
 	if right == nil || !right.isNotNil() {
 		return OperationError(errors.New("operation: right can not be nil"))
 	}
+	if power, isOperation := right.(Operation); isOperation && operator == EXPONENTIATION && power.operator == EXPONENTIATION {
+		right = NestedExpressionCreate(right)
+	}
 	o := Operation{
 		left:     left,
 		operator: operator,
-- 
2.43.0


From 3bac07f92eefc6331eb9c9f4e4ce094c1c9388f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 38/45] fix: maps and properties keep errors and need values
 and containers

---
 key_value_map_entry.go | 7 ++++++-
 map_expression.go      | 3 +++
 property.go            | 5 ++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index d036a76..3b1e9ba 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type KeyValueMapEntry struct {
 	ExpressionContainer
 	entryKey string
@@ -10,7 +12,10 @@ type KeyValueMapEntry struct {
 }
 
 func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
-	if value != nil && value.GetError() != nil {
+	if value == nil {
+		return KeyValueMapEntryError(errors.New("map entry: a value is required"))
+	}
+	if value.GetError() != nil {
 		return KeyValueMapEntryError(value.GetError())
 	}
 	entry := KeyValueMapEntry{
diff --git a/map_expression.go b/map_expression.go
index ea06159..a8da10b 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -90,6 +90,9 @@ func (m MapExpression) leave(renderer *CypherRenderer) {
 }
 
 func (m MapExpression) AddEntries(entries []Expression) MapExpression {
+	if m.err != nil {
+		return m
+	}
 	newContent := make([]Expression, len(m.expressions)+len(entries))
 	for i := range m.expressions {
 		newContent[i] = m.expressions[i]
diff --git a/property.go b/property.go
index 735bdae..b4e9cea 100644
--- a/property.go
+++ b/property.go
@@ -42,7 +42,10 @@ func PropertyCreate2(container Expression, name string) Property {
 }
 
 func PropertyCreate1(container Expression, name PropertyLookup) Property {
-	if container != nil && container.GetError() != nil {
+	if container == nil {
+		return PropertyError(errors.New("container is nil"))
+	}
+	if container.GetError() != nil {
 		return PropertyError(container.GetError())
 	}
 	if name.GetError() != nil {
-- 
2.43.0


From 79fce7d03f47422b3ad5ce6a583f8604d51bafd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 39/45] fix: rendering a statement doesn't depend on the
 renderer or on what it rendered before

---
 cypher_renderer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index d3be5ac..23f5651 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -46,8 +46,9 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	if statement.GetError() != nil {
 		return "", statement.GetError()
 	}
-	statement.accept(&renderer)
-	return strings.TrimSpace(renderer.builder.String()), nil
+	fresh := NewRenderer()
+	statement.accept(fresh)
+	return strings.TrimSpace(fresh.builder.String()), nil
 }
 
 func (renderer *CypherRenderer) enableSeparator(level int, on bool) {
@@ -73,7 +74,7 @@ func (renderer *CypherRenderer) resolve(name SymbolicName) string {
 		if len(value) > 0 {
 			return EscapeIfNecessary(value)
 		}
-		return renderer.guid.String()
+		return "unresolved" + name.key
 	}
 	return renderer.resolvedSymbolicNames[name]
 }
-- 
2.43.0


From 3aafa7f76340addd0e617ceda3b36c278b62479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:59 +0000
Subject: [PATCH 40/45] fix: sort items without direction don't panic

---
 cypher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cypher.go b/cypher.go
index 93cbd34..1470e7a 100644
--- a/cypher.go
+++ b/cypher.go
@@ -317,9 +317,9 @@ func SortItemsOfRaw(elements ...string) []SortItem {
 		sortElements := strings.Split(element, " ")
 		literal := LiteralOf(sortElements[0])
 		direction := UNDEFINED
-		if sortElements[1] == "ASC" {
+		if len(sortElements) > 1 && sortElements[1] == "ASC" {
 			direction = ASC
-		}else if sortElements[1] == "DESC" {
+		} else if len(sortElements) > 1 && sortElements[1] == "DESC" {
 			direction = DESC
 		}
 		sortItems[index] = SortItemCreate(literal, direction)
-- 
2.43.0


From c9d10da9bcff54046735af437fae77014f0766a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 41/45] fix: an aliased predicate function is written as its
 alias where it is used again

---
 boolean_function_condition.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index 3710dff..188d044 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -34,7 +34,9 @@ func (b BooleanFunctionCondition) GetError() error {
 }
 
 func (b BooleanFunctionCondition) accept(visitor *CypherRenderer) {
+	visitor.enter(b)
 	b.delegate.accept(visitor)
+	visitor.leave(b)
 }
 
 func (b BooleanFunctionCondition) enter(renderer *CypherRenderer) {
-- 
2.43.0


From a865083b8164d87e4ea4537286e3289856023880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:44 +0000
Subject: [PATCH 42/45] fix: negating an absent condition twice keeps it absent

---
 condition_container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/condition_container.go b/condition_container.go
index 80b91f2..f8b849c 100644
--- a/condition_container.go
+++ b/condition_container.go
@@ -54,7 +54,7 @@ func (b ConditionContainer) XorPattern(pathPattern RelationshipPattern) Conditio
 func (b ConditionContainer) Not() ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound &&
 		compoundCondition.notNil && !compoundCondition.hasCondition() {
-		return b
+		return ConditionWrap(EMPTY_CONDITION)
 	}
 	b.expression = ComparisonCreate1(NOT, b.expression)
 	return b
-- 
2.43.0


From bee0f63df0d565e6951b05221d2a50600f18e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:33 +0000
Subject: [PATCH 43/45] fix: errors of operators, names and calls are kept by
 the low-level constructors

---
 compound_condition.go | 3 +++
 list_predicate.go     | 8 ++++++++
 name_path.go          | 3 ++-
 visitable_list.go     | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/compound_condition.go b/compound_condition.go
index 48ffa76..ea10a4f 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -47,6 +47,9 @@ func CompoundConditionCreate(left Condition, operator Operator, right Condition)
 }
 
 func CompoundConditionCreate1(operator Operator) CompoundCondition {
+	if operator.GetError() != nil {
+		return CompoundConditionError(operator.GetError())
+	}
 	condition := CompoundCondition{
 		operator:   operator,
 		conditions: make([]Condition, 0),
diff --git a/list_predicate.go b/list_predicate.go
index 357c9ea..4a4a00c 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ListPredicate struct {
 	ExpressionContainer
 	variable       SymbolicName
@@ -20,6 +22,12 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 	if where.GetError() != nil {
 		return ListPredicateError(where.GetError())
 	}
+	if listExpression == nil || !listExpression.isNotNil() {
+		return ListPredicateError(errors.New("list predicate: list expression is required"))
+	}
+	if !where.isNotNil() {
+		return ListPredicateError(errors.New("list predicate: where is required"))
+	}
 	listPredicate := ListPredicate{
 		variable:       variable,
 		listExpression: listExpression,
diff --git a/name_path.go b/name_path.go
index 1a89ac1..4eb7126 100644
--- a/name_path.go
+++ b/name_path.go
@@ -153,7 +153,7 @@ type NamedPathBuilder struct {
 }
 
 func NamedPathBuilderCreate(name SymbolicName) NamedPathBuilder {
-	return NamedPathBuilder{name: name}
+	return NamedPathBuilder{name: name, err: name.GetError()}
 }
 
 func (n NamedPathBuilder) DefinedBy(pattern RelationshipPattern) NamedPath {
@@ -177,6 +177,7 @@ func ShortestPathBuilderCreate(name SymbolicName, algorithm FunctionDefinition)
 	return ShortestPathBuilder{
 		name:      name,
 		algorithm: algorithm,
+		err:       name.GetError(),
 	}
 }
 
diff --git a/visitable_list.go b/visitable_list.go
index aa56204..45f2078 100644
--- a/visitable_list.go
+++ b/visitable_list.go
@@ -9,6 +9,12 @@ type FunctionArgumentList struct {
 
 func FunctionArgumentListCreate(visitables ...Visitable) FunctionArgumentList {
 	argumentList := FunctionArgumentList{expressions: visitables}
+	for _, visitable := range visitables {
+		if visitable != nil && visitable.GetError() != nil {
+			argumentList.err = visitable.GetError()
+			break
+		}
+	}
 	argumentList.key = getAddress(&argumentList)
 	return argumentList
 }
-- 
2.43.0


From e1d4fee3801b7440eda6899e91f51aeecb242221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 44/45] fix: a statement builder for a broken procedure call
 keeps its error

---
 default_statement_builder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 89f2eb0..7925ca9 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -22,6 +22,16 @@ func DefaultStatementBuilderCreate() DefaultStatementBuilder {
 }
 
 func DefaultStatementBuilderCreate1(currentOngoingCall ProcedureCallBuilder) DefaultStatementBuilder {
+	switch call := currentOngoingCall.(type) {
+	case StandaloneCallBuilder:
+		if call.err != nil {
+			return DefaultStatementBuilderError(call.err)
+		}
+	case InQueryCallBuilder:
+		if call.err != nil {
+			return DefaultStatementBuilderError(call.err)
+		}
+	}
 	return DefaultStatementBuilder{
 		currentOngoingCall:        currentOngoingCall,
 		currentSinglePartElements: make([]Visitable, 0),
-- 
2.43.0


From 4d67c0a95dd24f26401577714cff827168318737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:54 +0000
Subject: [PATCH 45/45] fix: mark a list literal as set before wrapping it, so
 conditions on it are accepted

---
 list_literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_literal.go b/list_literal.go
index 48bb4e5..46acbd9 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -18,10 +18,10 @@ func ListLiteralCreate(contents []Literal) ListLiteral {
 	}
 	list := ListLiteral{
 		content: contents,
+		notNil:  true,
 	}
 	list.key = getAddress(&list)
 	list.ExpressionContainer = ExpressionWrap(list)
-	list.notNil = true
 	return list
 }
 
-- 
2.43.0

