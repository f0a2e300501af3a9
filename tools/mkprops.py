import json
def P(id,title,st,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    return d
ps=[
P("C01","Names are quoted so that they are read back as the same name",
"A name (variable, label, relationship type, property key, alias, map key) is written bare only when it is a plain identifier (letters, digits and underscores not starting with a digit), and otherwise between backticks with every backtick inside doubled; a name of only white space and the property selector * are left as they are. Labels and relationship types are always written quoted this way, so the name Cypher reads back is exactly the name given and no other name can break out of its position in the query.",
["inputs"],"Every string used as a name, in every position a name can take.",
"The tests use a handful of plain ASCII names; the guarantee is about all strings, including backticks, spaces, leading digits, non-ASCII letters.",
["cypher_renderer.go","symbolic_name.go","node.go","node_labels.go","relationship_type.go","property_lookup.go","alias_expression.go","key_value_map_entry.go"],
[("EscapeIfNecessary","cypher_renderer.go"),("escapeName","cypher_renderer.go"),("isIdentifier","cypher_renderer.go"),("resolve","cypher_renderer.go")],obs=["text returned by Render"]),
P("C02","String literals are escaped so that they denote exactly the given text",
"A string given as a literal is written between single quotes with every single quote, double quote and backslash preceded by a backslash and every other character unchanged. Reading the literal back yields the given string, and no string can end the literal early.",
["inputs"],"Every string.",
"A test can only try a few strings; closing-quote injection is a property of all strings and all positions in them.",
["string_literal.go","raw_string_literal.go","cypher.go"],
[("EscapeString","string_literal.go"),("CHARACTER_MAP, RESERVED_CHARS","string_literal.go")],obs=["text returned by Render","StringLiteral.GetContent"]),
P("C03","Number, boolean, null, list and raw literals denote the given value",
"A numeric literal is written as a decimal numeral that denotes exactly the number given, for every integer and every finite floating point value; booleans are written true or false and null is written NULL. A list literal writes exactly its elements, in order, between square brackets, and a Go value that has no literal form is rejected with an error.",
["inputs"],"Every value accepted by the literal constructors.",
"Tests use small integers; loss of digits or exponent notation shows up only for large or fractional values.",
["number_literal.go","bool_literal.go","null_literal.go","list_literal.go","cypher.go","parameter.go"],
[("NumberLiteral.AsString","number_literal.go"),("LiteralOf","cypher.go")],obs=["text returned by Render"]),
P("C04","An error in any part makes every whole built from it an error",
"When any argument or operand of a constructor, fluent method or builder step carries an error, or the step itself is given invalid input, the result carries an error, and so does everything built from it. A statement built from an erroneous part therefore never renders: the error is returned instead of query text that silently lacks the part.",
["inputs","programs"],"Every construction program: every constructor, fluent method and builder step, every argument position, every error.",
"There are hundreds of entry points times argument positions; tests exercise a few of them with erroneous input.",
["default_statement_builder.go","default_statement_with_return_builder.go","default_statement_with_with_builder.go","default_statement_with_update.go","in_query_call_builder.go","procedure_call.go","node.go","relationship.go","relationship_chain.go","expression_container.go","cypher.go","functions.go","case.go","list_comprehension.go","pattern_comprehension.go","name_path.go"],
[("err fields and GetError","all constructors"),("Render checks the statement's error","cypher_renderer.go")],obs=["GetError of any value","error returned by Build and Render"]),
P("C05","Invalid or unusual input yields an error value, never a crash",
"Every exported constructor, fluent method and builder step called with non-nil, API-built arguments returns, without panicking and without unbounded recursion, whatever strings, numbers, empty lists or erroneous values it is given. Rendering any statement obtained this way also returns.",
["inputs","programs"],"Every call of an exported operation with well-formed arguments, including erroneous values and empty or boundary inputs.",
"A crash hides behind specific inputs (no arguments, one element where two are expected, an erroneous intermediate value) that sampled tests do not reach.",
["cypher.go","functions.go","function_invocation.go","default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","in_query_call_builder.go","procedure_name.go","string_literal.go","raw_string_literal.go","multi_part_query.go","case.go","relationship_chain.go","list_operator.go"],
[("explicit error returns","constructors"),("nil and notNil checks","accept methods")],obs=["panics","termination of calls"]),
P("C06","Rendering is a pure function of the statement",
"Rendering a statement returns the same text every time it is rendered, in any order with other statements, with the same or another renderer, and does not change the statement or anything it was built from. Rendering a missing statement or one carrying an error returns an error and no text.",
["inputs","histories"],"Every statement and every history of renders.",
"It is a statement about all histories of renders and all statements; tests render each statement once with a fresh renderer.",
["cypher_renderer.go","node.go","alias_expression.go","support.go"],
[("Render","cypher_renderer.go"),("renderer state maps","cypher_renderer.go")],
state=[("visitedNamed","named nodes already written in this render","cypher_renderer.go"),("visitableToAliased","aliases already written in this render","cypher_renderer.go")],obs=["text returned by Render"]),
P("C07","List elements are separated by exactly one comma at every nesting depth",
"Wherever a construct lists elements (patterns, arguments, expressions, map entries, sort items, yielded items), consecutive elements are separated by one comma and a space, and there is none before the first or after the last, however deeply lists are nested inside elements. Visiting any element leaves the renderer's nesting and separator bookkeeping for the enclosing lists as it found it.",
["inputs","programs"],"Every nesting of list constructs of any length.",
"Separator bookkeeping is per nesting level and stateful; defects need particular nestings and lengths.",
["cypher_renderer.go","pattern.go","arguments.go","expression_list.go","visitable_list.go","map_expression.go","map_projection.go","order.go","yield_items.go","union_query.go","node_labels.go"],
[("PreEnter/postLeave","cypher_renderer.go"),("separatorOnLevel, currentLevel","cypher_renderer.go")],
state=[("separatorOnLevel","text to write before the next element on a level","cypher_renderer.go"),("currentLevel","nesting depth of the element being visited","cypher_renderer.go")],obs=["text returned by Render"]),
P("C08","Every clause is written with its keyword and all its parts in Cypher order",
"MATCH, OPTIONAL MATCH, WHERE, CREATE, MERGE, SET, REMOVE, DELETE, DETACH DELETE, UNWIND, WITH, RETURN (with DISTINCT), ORDER BY, SKIP and LIMIT clauses are written with exactly their keyword followed by every part they were given, each once, in Cypher's order, optional parts appearing exactly when given. Parts of a statement are written in the order they were added.",
["inputs","programs"],"Every clause value with any combination of optional parts.",
"Combinations of optional parts and list lengths are unbounded; tests cover selected combinations.",
["match.go","where.go","create.go","merge.go","merge_action.go","set.go","remove.go","delete.go","unwind.go","with.go","return.go","return_body.go","order.go","skip.go","limit.go","distinct.go","single_part_query.go","multi_part_query.go","multipart_element.go","union_query.go","union_part.go"],
[("accept/enter/leave of each clause","clause files")],obs=["text returned by Render"]),
P("C09","Aliased expressions and named nodes are spelled out once, then named",
"Within one rendered statement an expression given one alias is written in full with AS and the alias where it first occurs, and as the alias afterwards; a named node writes its labels and properties at its first occurrence and only its name afterwards. Two separately created elements are never mistaken for one another, whatever else was created or discarded in between.",
["inputs","histories","programs"],"Every statement and every history of element creation, including garbage collection between creations.",
"It depends on which elements recur and on the identity given to each element over the life of the process; tests build a few elements each.",
["cypher_renderer.go","alias_expression.go","node.go","relationship.go","support.go"],
[("getAddress","support.go"),("getAliasedIfSeen, enter, leave","cypher_renderer.go"),("Node.enter","node.go")],
state=[("key","identity of an element","every visitable"),("visitedNamed","names already spelled out","cypher_renderer.go")],obs=["text returned by Render"]),
P("C10","Combined conditions keep the logical meaning of how they were combined",
"Conditions joined with and, or, xor and negated with not are written so that Cypher's precedence reads them exactly as they were combined, with parentheses wherever precedence would otherwise regroup them. Every operand appears once and in order, and joining with an absent condition leaves the other one unchanged.",
["inputs","programs"],"Every nesting of and, or, xor and not over any conditions.",
"Regrouping shows only for particular nestings of different operators.",
["compound_condition.go","condition_builder.go","condition_container.go","comparison.go","boolean_function_condition.go","constant_condition.go","excluded_pattern.go","has_label_condition.go","list_predicate.go","nested_expression.go"],
[("CompoundCondition.add/accept","compound_condition.go"),("ConditionBuilder","condition_builder.go")],obs=["text returned by Render"]),
P("C11","Operators are written with the right symbol, operand order and arity",
"Each comparison, string, arithmetic, list, assignment and label operator offered on expressions writes exactly the Cypher operator it is named after, with the receiver on the left and the argument on the right (unary operators on the right side). Property access, subscripts, ranges and grouping write their parts likewise.",
["inputs","programs"],"Every operator and every pair of operands.",
"The catalogue of operators is wide and each can be swapped or mistyped for operands the tests do not use.",
["operator.go","operation.go","operations.go","comparison.go","expression_container.go","condition_container.go","predicates.go","property.go","property_lookup.go","list_operator.go","nested_expression.go","has_label_condition.go"],
[("operator table","operator.go"),("ComparisonCreate/OperationCreate","comparison.go, operation.go"),("fluent methods","expression_container.go")],obs=["text returned by Render"]),
P("C12","Each built-in function helper calls the function it is named after",
"Every helper for a Cypher built-in function writes a call of exactly that function with all the given arguments in the given order, with DISTINCT exactly in the distinct variants of aggregating functions. Calls with arguments outside the documented range (such as a percentile outside 0 to 1) are rejected with an error.",
["inputs"],"Every helper and all arguments.",
"There are over a hundred helpers; many are tested with one argument or not at all.",
["functions.go","function_invocation.go","built_in_function.go","predicates.go","distinct_expression.go","visitable_list.go"],
[("function catalogue","built_in_function.go"),("FunctionInvocationCreate*","function_invocation.go")],obs=["text returned by Render"]),
P("C13","Statement builders keep every clause, in the order of the calls",
"A built statement consists of exactly the clauses requested by the builder calls (a WITH or RETURN of nothing requests none), in the order of the calls: no clause is dropped, duplicated or moved, and conditions, aliases, actions, ordering and paging attach to the clause they were requested on. Building twice from the same builder gives the same statement.",
["programs","histories"],"Every sequence of builder calls the interfaces allow.",
"The guarantee ranges over all call sequences; tests fix some dozens of sequences.",
["default_statement_builder.go","default_statement_with_return_builder.go","default_statement_with_with_builder.go","default_statement_with_update.go","default_ongoing_unwind.go","in_query_call_builder.go","updating_clause_builder.go","statement_builder.go","order_builder.go","condition_builder.go"],
[("currentSinglePartElements and closing of ongoing clauses","default_statement_builder.go"),("Build","builders")],
state=[("ongoing match/update/call","clause being collected","default_statement_builder.go")],obs=["text returned by Render"]),
P("C14","Values are immutable: deriving from a value never changes it or its siblings",
"Calling a method on an expression, pattern, condition, clause or builder that yields a new value never changes how the receiver, its arguments or any value derived from them earlier renders. Any fragment can be reused in any number of statements.",
["programs","histories"],"Every program that derives several values from shared ones, in any order.",
"It needs two derivations from one value, in an order and with a list capacity that makes them overwrite one another; tests derive once.",
["relationship_chain.go","relationship.go","node.go","compound_condition.go","case.go","default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","list_comprehension.go","updating_clause_builder.go","order_builder.go"],
[("value receivers and copied lists","all files")],obs=["text returned by Render before and after a derivation"]),
P("C15","Maps and projections keep every entry once, in order, and reject duplicates",
"A map expression, property list or map projection writes every given key with its own value, in the given order, between braces, and rejects a repeated key among its key/value pairs, a key without value, or a key that is not a string with an error. A projection writes property selectors, the all-properties selector and added entries in the order given, after the projected name.",
["inputs"],"Every list of entries of any length.",
"Pairing and duplicate detection depend on positions in lists of any length.",
["map_expression.go","map_projection.go","key_value_map_entry.go","entry_expression.go","properties.go"],
[("NewMapExpression","map_expression.go"),("MapProjection create/project","map_projection.go")],obs=["text returned by Render"]),
P("C16","Patterns keep nodes, directions, types, lengths and properties as given",
"A node pattern writes its name, all its labels and its properties; a relationship pattern writes its two nodes in order with the arrow of its direction, its name, all its types, its length bounds and its properties exactly as given. A chain writes all its elements in order starting from the first node, and modifiers apply to the last relationship only.",
["inputs","programs"],"Every node, relationship, chain and named path.",
"The combinations of direction, types, bounds and chain length are unbounded.",
["node.go","node_labels.go","relationship.go","relationship_details.go","relationship_type.go","relationship_length.go","relationship_chain.go","relationship_pattern.go","relationship_pattern_condition.go","pattern.go","name_path.go","properties.go","cypher.go"],
[("RelationshipDetails","relationship_details.go"),("RelationshipChain","relationship_chain.go"),("Node","node.go")],obs=["text returned by Render"]),
P("C17","Ordering and paging are written exactly as requested",
"ORDER BY writes every sort item in order with exactly the direction last requested for it, and SKIP and LIMIT write exactly the requested numbers, in the order ORDER BY, SKIP, LIMIT after the returned items. A sort item, skip or limit that is not requested is not written; a negative number and a LIMIT of zero are rejected with an error.",
["inputs","programs"],"Every list of sort items, every direction and every number.",
"Any list of items and any number; tests use a few.",
["sort_item.go","order.go","order_builder.go","skip.go","limit.go","return_body.go","with.go","list_operator.go"],
[("OrderBuilder","order_builder.go"),("SortItem","sort_item.go"),("SkipCreate/LimitCreate","skip.go, limit.go")],obs=["text returned by Render"]),
P("C18","Unions, subqueries and procedure calls keep all their parts",
"A union writes every given query once, in order, joined by UNION or UNION ALL as requested; a subquery or existential subquery writes its whole inner statement between braces. A procedure call writes the full qualified name, all arguments in order and all yielded items with their aliases, and the condition on the yielded rows.",
["inputs","programs"],"Every list of queries, every procedure name, argument list and yield list.",
"Lists of any length and names of any number of parts.",
["union_query.go","union_part.go","subquery.go","existential_subquery.go","procedure_call.go","procedure_name.go","name_space.go","yield_items.go","in_query_call_builder.go","cypher.go"],
[("UnionQueryCreate","union_query.go"),("ProcedureCall","procedure_call.go"),("ProcedureName","procedure_name.go")],obs=["text returned by Render"]),
P("C19","CASE, comprehensions, list predicates and list access keep all their parts",
"A CASE expression writes its optional subject, every WHEN/THEN pair in order and its optional ELSE; list and pattern comprehensions write variable, source, optional condition and projection; all, any, none and single predicates write variable, list and condition; list access writes the list and its index or both range bounds. Each part appears exactly once and exactly when given.",
["inputs","programs"],"Every combination and number of parts.",
"Optional parts and list lengths combine without bound.",
["case.go","list_comprehension.go","pattern_comprehension.go","list_predicate.go","predicates.go","list_operator.go","list_expression.go","expression_list.go"],
[("Case","case.go"),("ListComprehension","list_comprehension.go"),("PredicateBuilder","predicates.go"),("ListOperator","list_operator.go")],obs=["text returned by Render"]),
P("C20","Update clauses carry exactly the requested changes",
"SET writes every requested assignment, with key/value lists paired in order, and every requested label; REMOVE and DELETE list every requested item; CREATE and MERGE list every given pattern; ON CREATE SET and ON MATCH SET actions stay attached to their MERGE in the order requested. Nothing requested is lost and nothing is written that was not requested.",
["inputs","programs"],"Every list of update items and every sequence of update calls.",
"The lists have any length and the calls any order; tests use mostly one or two items.",
["default_statement_builder.go","default_statement_with_update.go","updating_clause_builder.go","set.go","remove.go","delete.go","create.go","merge.go","merge_action.go","operation.go","operations.go"],
[("getUpdatingClauseBuilder, prepareSetExpression","default_statement_builder.go"),("Create/Merge/Delete/Set/RemoveBuilder","updating_clause_builder.go")],obs=["text returned by Render"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in ps:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
