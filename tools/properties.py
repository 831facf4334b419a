"""Writes /verif/properties.jsonl (the statements live here, in readable form)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "SnQL text denotes exactly the query that was built",
     "For every valid query, however it was built, the serialized, printed and str() texts are readable SnQL whose "
     "meaning is that query: the same match (entities with alias and sample, storage, join relationships, nested "
     "subquery) and every clause given and no other, with the same expressions, order, direction, aliases, entity "
     "qualifiers, operators, grouping of conditions and numbers. Columns carry their entity's alias exactly in the "
     "queries that match a join, at every nesting level.",
     ["inputs", "programs"], "every valid query: match kind x clauses x expression trees x nesting",
     "Tests compare a few dozen hand-written queries with fixed strings; clause combinations, nesting (join inside "
     "subquery inside subquery), long lists and rare expression kinds are unbounded.",
     ["snuba_sdk/query_visitors.py", "snuba_sdk/visitors.py", "snuba_sdk/query.py"],
     [("Printer", "query_visitors.py: clause by clause rendering, fresh Printer per subquery"),
      ("Translation", "visitors.py: expression rendering, use_entity_aliases only under a Join")],
     ["Query.serialize()", "Query.print()", "str(Query)", "Request.to_dict()['query']"])

prop("C02", "Literals survive SnQL encoding and can never change the query's structure",
     "Whatever literal is used (any text or UTF-8 bytes, number, boolean, null, date, naive or zoned datetime, nested "
     "lists and tuples) in any position of a query, the SnQL text contains an encoding that decodes to exactly that "
     "value (zoned datetimes as the same instant in UTC) and leaves the rest of the query unchanged. No string content "
     "can end its own literal or put a raw newline in the text.",
     ["inputs"], "every literal value in every literal position",
     "Tests sample about twenty strings; quoting bugs live in particular character sequences (backslash before quote, "
     "newline after escape, control characters) and in offset arithmetic.",
     ["snuba_sdk/visitors.py"], [("Translation._stringify_scalar", "visitors.py: escaping order, datetime conversion")],
     ["Query.serialize()", "Query.print()"])

prop("C03", "Folding OR conditions never changes what a filter selects",
     "Serializing may rewrite the conditions of a query (a where clause in SnQL, the filters of a timeseries or formula "
     "in MQL), but the filter in the text selects exactly the same rows as the conditions given: same columns, same "
     "values with the same types, same negations and an equivalent AND/OR structure. This holds in particular for operands that "
     "look alike (1, 1.0, true, '1'; functions differing in an alias), repeated values and deeply nested groups.",
     ["inputs"], "every group of nested AND/OR conditions over any operators, left hand sides and values",
     "Tests cover eleven fixed groups; soundness is a statement about all boolean combinations, value types, duplicate "
     "and look-alike operands.",
     ["snuba_sdk/query_optimizers/or_optimizer.py", "snuba_sdk/query.py", "snuba_sdk/metrics_query.py"],
     [("OrOptimizer.optimize", "or_optimizer.py: shared lhs, EQ only, OR only"),
      ("Query._optimize / MetricsQuery._optimize", "applied before printing")],
     ["Query.serialize()", "MetricsQuery.serialize()", "OrOptimizer().optimize()"])

prop("C04", "Rendering, validating, converting and building never modify their inputs",
     "No operation of the SDK (validate, serialize, print, str, repr, comparing, setters, request rendering, legacy "
     "conversion, MQL parsing, required-column checks, condition folding), successful or failing, changes any object, list "
     "or dictionary it was given; repeating the operation gives the same result. SnQL queries and expressions, delete "
     "queries, formulas, metrics and rollups cannot be altered by attribute assignment.",
     ["inputs", "histories"], "every operation on every object graph, including inputs shared between objects",
     "Tests render each object once and look only at the text; hidden mutation shows on the second use or in another "
     "object sharing a list.",
     ["snuba_sdk/query.py", "snuba_sdk/metrics_query.py", "snuba_sdk/legacy.py", "snuba_sdk/timeseries.py",
      "snuba_sdk/formula.py", "snuba_sdk/request.py"],
     [("frozen dataclasses, dataclasses.replace", "all expression classes, Query._replace, MetricsQuery._replace")],
     ["field-by-field snapshots of the inputs around each call"])

prop("C05", "Results do not depend on what the process did before",
     "The outcome of building, validating, rendering, parsing or converting depends only on the arguments: it is the "
     "same in a fresh process and after any sequence of other operations, including operations that failed validation or "
     "were interrupted by an exception at any point. Two values with the same content give the same result, in whatever "
     "order they are processed.",
     ["histories", "crash_points"], "every history of earlier (successful, failing, interrupted) operations; every interruption point",
     "Unit tests run each operation from one fixed state; leaked state (module-level visitors, printer modes, caches) "
     "needs a particular earlier operation or an abort between two lines.",
     ["snuba_sdk/query.py", "snuba_sdk/metrics_query.py", "snuba_sdk/visitors.py", "snuba_sdk/mql/mql.py"],
     [("new Printer/Translation per serialize", "query.py"), ("stateless module-level VALIDATOR and MQL_PRINTER", "query.py, metrics_query.py")],
     ["results of operations replayed after histories, in forked processes"],
     [("VALIDATOR, MQL_PRINTER, MQL_GRAMMAR", "module-level objects shared by all calls", "query.py, metrics_query.py, mql/mql.py"),
      ("use_entity_aliases", "printer mode toggled while a join is rendered", "visitors.py")])

prop("C06", "Expressions can be created if and only if they are legal",
     "Creating a column, entity, storage, function, curried function, lambda, identifier, alias, condition, boolean "
     "condition, ordering, limit-by, limit, offset, granularity, totals, relationship or join succeeds exactly when its "
     "arguments satisfy the documented rules (name characters, types, numeric ranges, arity of AND/OR, unary operators without operand, "
     "aliases present and unambiguous in joins). Otherwise it raises the SDK's error for that kind of expression, and a created object has "
     "exactly the given attributes (a subscripted column also its outer name and key).",
     ["inputs"], "every argument combination, in particular boundary numbers and names",
     "Tests try a handful of values per class; the accept/reject frontier is over all strings and integers.",
     ["snuba_sdk/column.py", "snuba_sdk/entity.py", "snuba_sdk/storage.py", "snuba_sdk/function.py", "snuba_sdk/conditions.py",
      "snuba_sdk/expressions.py", "snuba_sdk/orderby.py", "snuba_sdk/relationships.py", "snuba_sdk/aliased_expression.py"],
     [("validate() in __post_init__", "every Expression subclass")],
     ["constructor outcome (object or exception class) and attributes"])

prop("C07", "Only queries whose clauses and column references are consistent validate",
     "A query validates, and can be serialized, exactly when it selects something, asks for totals only with a group "
     "by, and every column used in any clause at any depth (function parameters and initializers, lambdas, lists and tuples, "
     "both sides of conditions) exists in what it matches: in the data model of the entity or storage (by outer name if "
     "subscripted), among the columns and function aliases selected by the subquery, or qualified with an alias and entity of the join. "
     "Inner queries must satisfy the same rule; a violation raises an SDK error and produces no text.",
     ["inputs", "programs"], "every query and every position a column reference can take",
     "Tests put a bad column in a few positions; the rule is over all positions, clauses, nesting depths and match kinds.",
     ["snuba_sdk/query_validation.py", "snuba_sdk/query_visitors.py", "snuba_sdk/visitors.py", "snuba_sdk/column.py"],
     [("Validator + validate_match", "query_visitors.py, query_validation.py"), ("ExpressionSearcher/ExpressionFinder", "visitors.py")],
     ["Query.validate()", "Query.serialize()", "Query constructor with an inner query"])

prop("C08", "Required columns are demanded exactly when no top-level condition provides them",
     "The required-column check accepts a query exactly when, for each matched entity with a data model (of the innermost query "
     "or of each side of a join), the where clause has, at top level or inside nested ANDs only, an = or IN "
     "condition on every required column and both a >= and a < condition on the time column, each on that entity's own "
     "alias. Conditions under an OR, on other columns or aliases, in having, or with other operators never count, and "
     "a rejection raises the required-column error.",
     ["inputs"], "every model, match and condition tree",
     "Tests list about twenty trees; which conditions count is a statement about all nestings, operators and aliases.",
     ["snuba_sdk/query_validation.py", "snuba_sdk/conditions.py"],
     [("validate_required_columns", "query_validation.py"), ("get_first_level_and_conditions", "conditions.py")],
     ["validate_required_columns()"])

prop("C09", "MQL strings parse to the metrics query they denote",
     "Parsing an MQL string gives the expression it denotes, whatever its layout: operator precedence, left "
     "associativity and parentheses, unary minus, aggregates with their parameters, arbitrary and curried functions, metrics "
     "by MRI (quoted or not) or public name, filters with their AND/OR nesting, negation, lists and suffix wildcards, and group by "
     "(outer filters and groupings before inner ones). Spacing (where the language permits it), the spelling of AND (AND, and, comma, blank) and "
     "redundant parentheses never change the result, and strings outside the language are rejected with an error.",
     ["inputs", "programs"], "every MQL expression in every layout",
     "Tests pin about a hundred strings; precedence, nesting and layout combine without bound.",
     ["snuba_sdk/mql/mql.py"], [("MQL_GRAMMAR and MQLVisitor", "mql/mql.py")],
     ["parse_mql()", "MetricsQuery(query=<string>)"])

prop("C10", "Metrics queries survive printing to MQL and parsing back",
     "For every valid timeseries or formula that MQL can express (tag keys, string values, suffix wildcards, "
     "=, !=, IN, NOT IN, LIKE, NOT LIKE, AND/OR, numbers), the MQL text denotes the same metrics, aggregates, parameters, arithmetic, "
     "filters and groupings, and parsing it with the SDK gives an equal query; text that came from an MQL string prints to "
     "an equivalent string. A condition or number MQL cannot express (infinite, undefined, too large) is refused, never written as something else.",
     ["inputs", "programs"], "every expressible metrics expression and string value",
     "Tests compare fixed strings in one direction; the round trip over nesting, escaping and number formats is never exercised.",
     ["snuba_sdk/metrics_visitors.py", "snuba_sdk/visitors.py", "snuba_sdk/mql_visitor.py", "snuba_sdk/mql/mql.py"],
     [("TimeseriesMQLPrinter, FormulaMQLPrinter, MetricMQLPrinter", "metrics_visitors.py"), ("Translation(is_mql=True)", "visitors.py")],
     ["MetricsQuery.serialize()['mql']", "parse_mql() of it"])

prop("C11", "Metrics objects are accepted if and only if they are legal",
     "Metrics, timeseries, rollups, scopes, formulas and metrics queries are accepted exactly when they satisfy the "
     "documented rules: a metric has a name or MRI; a rollup has an interval of at least 10 and at least its granularity, or totals given (true or false), one of the four "
     "granularities, and no ordering together with an interval; a formula has parameters of legal types, at least one timeseries and one grouping (the same columns in the same order) shared by all its parts; a "
     "metrics query has query, start, end, rollup with granularity and scope. Anything else raises an SDK error at creation or validation and is never serialized.",
     ["inputs"], "every argument combination and formula tree",
     "Tests sample one bad value per field; the frontier is over all combinations and depths of nested formulas.",
     ["snuba_sdk/timeseries.py", "snuba_sdk/formula.py", "snuba_sdk/metrics_query.py", "snuba_sdk/metrics_query_visitors.py"],
     [("validate() methods", "timeseries.py, formula.py"), ("metrics Validator", "metrics_query_visitors.py")],
     ["constructor / validate() / serialize() outcome"])

prop("C12", "The MQL context carries every query parameter unchanged",
     "Serializing a metrics query yields its MQL text and a context with exactly the given start and end (ISO format, "
     "offset kept), rollup (order, granularity, interval, totals), scope (organizations, projects, use case), limit, offset, extrapolate flag and "
     "indexer mappings, with null for what was not given; the same context is printed and sent in requests, and it is plain JSON data. "
     "Without indexer mappings it refuses to serialize.",
     ["inputs"], "every combination and value of the context parameters",
     "Tests compare a dozen fixed payloads; falsy and boundary values and combinations are not swept.",
     ["snuba_sdk/mql_visitor.py", "snuba_sdk/mql_context.py", "snuba_sdk/metrics_visitors.py", "snuba_sdk/metrics_query.py"],
     [("MQLPrinter._combine, MQLContext", "mql_visitor.py, mql_context.py"), ("RollupMQLPrinter, ScopeMQLPrinter", "metrics_visitors.py")],
     ["MetricsQuery.serialize()", "MetricsQuery.print()", "Request.to_dict()"])

prop("C13", "Requests carry query, routing and flags completely, or are rejected",
     "A valid request's JSON contains the text of its query (or the delete conditions, or MQL plus context), "
     "its dataset (except deletes), app id, tenant ids, parent API and exactly the flags that were set, with their values; serialize, "
     "str, print and to_dict agree and the JSON decodes to the same payload. A request with an empty or malformed dataset or app id, empty or non-string parent "
     "API, non-dictionary tenant ids, a non-boolean flag or an invalid query raises an SDK error and produces no payload.",
     ["inputs"], "every request: query kind x flags x names",
     "Tests use two queries and a few flags; all flag combinations, names and query kinds are not crossed.",
     ["snuba_sdk/request.py"], [("Request.validate/to_dict, Flags.to_dict", "request.py")],
     ["Request.to_dict()", "Request.serialize()", "Request.print()", "str(Request)"])

prop("C14", "Legacy bodies convert to requests with the same meaning",
     "Converting a legacy JSON body yields a request that means the same: aggregations then selected columns, array join, group by, "
     "organization, time range (>= from, < to on the entity's time column), project and other conditions with their AND/OR structure, "
     "having, ordering with direction, limit by, limit, offset, granularity, totals, sample and flags, each present exactly when the body has it and with the body's values. "
     "Date-like strings become dates except where they are compared with tags or release, and quoted strings stay strings.",
     ["inputs", "histories"], "every legacy body and entity, converted once or repeatedly",
     "Tests convert some fifty captured bodies; keys, nesting and value types combine freely.",
     ["snuba_sdk/legacy.py"], [("json_to_snql, parse_exp, parse_condition, parse_scalar", "legacy.py")],
     ["json_to_snql()", "text of the resulting request"])

prop("C15", "A delete request is never unbounded and deletes exactly what was asked",
     "A delete query is accepted exactly when it has at least one column condition and none of its value lists is empty; "
     "otherwise validating, serializing or sending it raises the delete error and no payload exists. The payload's conditions are "
     "exactly the given columns with exactly the given values, in serialize and in requests; printing a delete query shows its storage and conditions.",
     ["inputs", "histories"], "every condition dictionary, including ones emptied after creation",
     "Tests have one accepted and two rejected dictionaries; position and number of empty lists are not swept.",
     ["snuba_sdk/delete_query.py", "snuba_sdk/request.py"], [("DeleteQuery.validate", "delete_query.py")],
     ["DeleteQuery.validate/serialize()", "Request.to_dict()"])

prop("C16", "Concurrent use gives every thread its own correct result",
     "When several threads build, validate, serialize, print, parse or convert at the same time, on shared or separate "
     "objects, every call returns (or raises) exactly what it would alone, under every interleaving of their steps.",
     ["schedules"], "every interleaving of the steps of concurrent operations",
     "All tests are single-threaded; a printer or validator shared between calls only misbehaves under particular interleavings.",
     ["snuba_sdk/query.py", "snuba_sdk/query_visitors.py", "snuba_sdk/visitors.py", "snuba_sdk/metrics_query.py", "snuba_sdk/mql/mql.py"],
     [("a new Printer per serialize; shared visitors keep no per-call state", "query.py, metrics_query.py")],
     ["results per thread under a controlled scheduler and under free-running stress"],
     [("VALIDATOR, MQL_PRINTER", "module-level visitors used by all threads", "query.py, metrics_query.py")])

prop("C17", "Every input gets a result or an SDK error; what validates can be rendered",
     "A SnQL query made of well-typed parts either validates, and then serializes, prints and fits in a request, or each of these "
     "raises an error defined by the SDK; a metrics query is rendered only if it validates, and fails with nothing but SDK errors. Any string whatsoever (within Python's "
     "recursion limit) given as MQL is either accepted, and then serializes to MQL that is accepted again with the same meaning, or rejected with an SDK error. "
     "Constructing an expression or a metrics object from any arguments gives an object or an SDK error.",
     ["inputs"], "every assembled query, valid or not; every string as MQL",
     "Tests try a few malformed strings; crashes and half-accepted inputs hide in mutated ones.",
     ["snuba_sdk/query.py", "snuba_sdk/metrics_query.py", "snuba_sdk/metrics_query_visitors.py", "snuba_sdk/mql/mql.py"],
     [("validate before print", "query.py, metrics_query.py"), ("errors of the parser wrapped by the metrics Validator", "metrics_query_visitors.py")],
     ["validate()/serialize()/print() outcome and exception class"])

prop("C18", "Equality, hashing and copying of queries and expressions respect content",
     "Two objects built from the same arguments are equal, and equal objects that can be hashed have equal hashes; objects that "
     "differ in any argument are unequal, except that the alias of a curried function is ignored. "
     "Copies (copy, deepcopy, pickle) equal their original and render to the same text, and none of this changes after the object has been used.",
     ["inputs", "histories"], "every pair of objects differing in one argument; every copy",
     "Tests compare few pairs; equality over all argument positions and its agreement with hashing are not swept.",
     ["snuba_sdk/function.py", "snuba_sdk/column.py", "snuba_sdk/entity.py", "snuba_sdk/query.py"],
     [("dataclass eq/hash, CurriedFunction.__eq__", "function.py and all dataclasses")],
     ["==, !=, hash(), copy, pickle"])

prop("C19", "Searching a query finds every matching expression; aggregates are recognised",
     "Searching a query for columns returns exactly the set of distinct columns it mentions outside its inner query, in whatever clause and at "
     "whatever depth, and searching for entities those it matches (both sides of every join relationship). A function counts as an aggregate exactly when it or a function among its parameters at any depth is one of the known "
     "aggregation functions with an optional combinator suffix (also inside a raw legacy name), or refers to one of the given aggregate aliases; a column is found in a function exactly when it "
     "is a parameter at some depth.",
     ["inputs"], "every query and function tree",
     "Tests search a few fixed queries; positions and depths are unbounded.",
     ["snuba_sdk/query_visitors.py", "snuba_sdk/visitors.py", "snuba_sdk/snuba.py"],
     [("ExpressionSearcher, is_aggregate, find_column_in_function", "query_visitors.py"), ("is_aggregation_function", "snuba.py")],
     ["ExpressionSearcher(Column).visit()", "is_aggregate()", "find_column_in_function()"])

prop("C20", "Setters replace exactly one part, in any order, and check what they are given",
     "Each setter of queries, metrics queries, timeseries, formulas, metrics and scopes returns an object equal to the original in "
     "every other attribute and with exactly the new value (the last one set wins); building step by step in any order equals building at once. "
     "A setter given something of the wrong kind raises an SDK error and leaves everything as it was.",
     ["inputs", "histories"], "every sequence of setter calls with legal and illegal values",
     "Tests chain setters in one order; all orders, overwrites and rejected calls in between are not explored.",
     ["snuba_sdk/query.py", "snuba_sdk/metrics_query.py", "snuba_sdk/timeseries.py", "snuba_sdk/formula.py"],
     [("_replace / dataclasses.replace and the checks in set_*", "query.py, metrics_query.py, timeseries.py, formula.py")],
     ["attributes and text of the returned object"])

prop("C21", "Structure helpers report exactly what the structure contains",
     "For every join, get_entities gives exactly the distinct entities on either side of its relationships and get_alias_mappings exactly their (alias, entity name) pairs. "
     "For every list of conditions, get_first_level_and_conditions gives, in order, exactly the conditions reachable through ANDs alone at any depth (ORs stay whole). A column set or data model contains, iterates over and "
     "requires exactly the columns it was given. Flags report exactly the flags that were set, true or false, and get_required_time_column gives the time column of the entities it knows and None for any other name. Asking never changes the structure.",
     ["inputs"], "every join, condition tree, column list and flag combination",
     "Tests use joins of two or three entities and shallow trees; sizes, depth and repetitions are unbounded.",
     ["snuba_sdk/relationships.py", "snuba_sdk/conditions.py", "snuba_sdk/schema.py", "snuba_sdk/request.py"],
     [("Join.get_entities, get_alias_mappings", "relationships.py"), ("get_first_level_and_conditions", "conditions.py"), ("ColumnSet, DataModel", "schema.py"), ("Flags.to_dict", "request.py")],
     ["return values of the helpers"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
