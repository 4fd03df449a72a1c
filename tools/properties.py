"""Writes properties.jsonl and MANIFEST.json (kept together so that they stay in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

S = "snuba_sdk/"
P = [
 dict(
  id="C01", title="Serialized SnQL denotes exactly the query that was built",
  statement="For every valid Query, the text from serialize() reads back, under SnQL's grammar, as exactly the query that was built: every clause, expression, operator, literal, alias, entity qualifier, nesting and order, with nothing added, dropped, merged or reassociated. This holds for entities, storages, joins and nested subqueries alike. The only permitted rewriting is the OR collapse of C03.",
  over=["inputs"], q="every valid query: any match kind, any combination of clauses, any nesting of functions, lambdas, arrays and conditions, any names and literals",
  why="The tests compare a few dozen hand-written strings; they do not combine clauses, nesting, operators, aliases and match kinds.",
  files=[S+"visitors.py", S+"query_visitors.py", S+"query.py", S+"conditions.py", S+"relationships.py"],
  mech=[("Translation turns each expression into text", S+"visitors.py"), ("Printer combines the clauses", S+"query_visitors.py")],
  obs=["Query.serialize()"],
  tech="property-based round trip: generated queries, independent SnQL reader as oracle"),
 dict(
  id="C02", title="Literals survive serialization and cannot escape their quotes",
  statement="Every literal placed anywhere in a SnQL or MQL query (string, bytes, number, boolean, NULL, date, naive or aware datetime, array or tuple of these) is sent as one literal that denotes the same value, whatever characters it contains. No literal can change the structure of the text around it. Datetimes with an offset denote the same instant.",
  over=["inputs"], q="every value of every literal type in every place a literal can stand",
  why="The value space is infinite (quotes, backslashes, newlines, control and non-ASCII characters, offsets, number formats); the tests sample about ten strings.",
  files=[S+"visitors.py", S+"metrics_visitors.py", S+"expressions.py"],
  mech=[("string escaping and datetime conversion in Translation", S+"visitors.py"), ("filter value escaping in the MQL printers", S+"metrics_visitors.py")],
  obs=["Query.serialize()", "MetricsQuery.serialize()"],
  tech="property-based fuzzing of literals in every position, independent reader as oracle"),
 dict(
  id="C03", title="Collapsing OR-ed equalities never changes what a filter selects",
  statement="In the top-level filter of a query (WHERE of the outermost SnQL query, filters of the query of a MetricsQuery), an OR of equalities that are all on one same expression is sent as one IN on that expression with those values in order. Every other condition is sent exactly as written. For every row the filter that is sent has the same truth value as the filter that was built.",
  over=["inputs"], q="every filter: ORs of equalities and near misses (other operators, other expressions, nested ORs and ANDs, single and repeated members, mixed value types), in SnQL and MQL",
  why="The tests have a dozen fixed filters; near misses in one member at any position or depth are unbounded.",
  files=[S+"query_optimizers/or_optimizer.py", S+"query.py", S+"metrics_query.py"],
  mech=[("OrOptimizer", S+"query_optimizers/or_optimizer.py")],
  obs=["Query.serialize()", "MetricsQuery.serialize()"],
  tech="property-based differential evaluation of filters on all rows of a small domain, plus exact structural oracle"),
 dict(
  id="C04", title="print() and str() show the query that is sent",
  statement="print() of a Query is the built query, laid out over lines, and reads back as exactly that query; str() of a Query is its serialize(). print() and str() of a MetricsQuery are JSON with the same MQL meaning and context as what is sent, and print(), str(), serialize() and serialize_mql() of a Request are JSON of one same body.",
  over=["inputs"], q="every valid query, metrics query and request",
  why="The tests print a few examples and mostly compare with other code of the SDK, not with what is sent.",
  files=[S+"query.py", S+"query_visitors.py", S+"metrics_query.py", S+"request.py"],
  mech=[("Printer(pretty=True)", S+"query_visitors.py"), ("Request.print/serialize", S+"request.py")],
  obs=["Query.print()", "MetricsQuery.print()", "Request.print()", "str()"],
  tech="property-based differential testing of print/str against the generated query"),
 dict(
  id="C05", title="Building step by step equals building at once; nothing is modified",
  statement="Whatever the order of set_* calls on Query, MetricsQuery, Timeseries, Formula, Metric and MetricsScope, and whatever calls were overwritten or rejected on the way, the final object equals, and serializes like, the one constructed at once with the last values. Each call returns a new object and leaves its receiver and its arguments as they were. A call with an invalid value raises an SDK error.",
  over=["histories"], q="every sequence of setter calls with valid and invalid values, interleaved over several objects",
  why="The tests use one fixed order per object and never look back at the intermediate objects.",
  files=[S+"query.py", S+"metrics_query.py", S+"timeseries.py", S+"formula.py"],
  mech=[("_replace and dataclasses.replace", S+"query.py")],
  obs=["the set_* methods", "serialize()"],
  tech="stateful model-based testing of setter histories"),
 dict(
  id="C06", title="Serialization is a pure function of the query",
  statement="Serializing, printing or validating a query any number of times, in any order and interleaved with other (also failing, also merely similar) queries, always gives the same result, and that result is the right one for that query. No such operation changes the query or any object given to it. The result does not depend on the process or its hash seed.",
  over=["histories", "configurations"], q="every history of operations over several queries in one process, and every hash seed",
  why="Each test serializes one query once in a fresh state; leaks between calls through shared printers, caches or mutated arguments need a history.",
  files=[S+"query.py", S+"query_visitors.py", S+"metrics_query.py", S+"metrics_visitors.py", S+"mql_visitor.py", S+"visitors.py"],
  mech=[("printers without per-query state", S+"query_visitors.py"), ("module-level MQL printer and validators", S+"metrics_query.py")],
  obs=["serialize()", "print()", "repr()"],
  tech="stateful property-based testing of serialization histories, plus hash-seed differential"),
 dict(
  id="C07", title="Expressions can be built exactly when they are valid",
  statement="Constructing Column, Function, CurriedFunction, Identifier, Lambda, AliasedExpression, Condition, BooleanCondition, And, Or, Entity, Storage, Relationship, Join, OrderBy, LimitBy, Limit, Offset, Granularity or Totals succeeds exactly when every argument is valid as documented: type, name syntax, numeric bound, arity of the operator, aliases, data model. Otherwise an SDK error is raised; no invalid expression can exist. The object holds its arguments unchanged.",
  over=["inputs"], q="every constructor call: all argument values, including nearly valid ones and invalid ones deep inside nested parameters",
  why="The tests list a few bad values per class; validity is a predicate over all values, lengths, characters, bounds and nestings.",
  files=[S+"column.py", S+"function.py", S+"conditions.py", S+"entity.py", S+"storage.py", S+"relationships.py", S+"orderby.py", S+"expressions.py", S+"aliased_expression.py"],
  mech=[("validate() run by every constructor", S+"expressions.py")],
  obs=["constructors"],
  tech="property-based testing of constructors against an independent validity predicate"),
 dict(
  id="C08", title="A query is accepted exactly when it fits its match",
  statement="validate(), serialize() and print() of a Query succeed exactly when it has a select, asks for totals only together with groups, and every column it uses, in any clause and however deeply nested, can be resolved: known to the data model of its entity or storage if there is one, qualified by an alias of the join, or selected by the subquery. Subqueries are held to the same rules. A query that breaks a rule is never sent: an SDK error is raised.",
  over=["inputs"], q="every query over entities and storages with and without data model, joins and subqueries, with an offending column anywhere",
  why="An offending column can sit in any clause at any depth; the tests place it in a few.",
  files=[S+"query_validation.py", S+"query_visitors.py", S+"visitors.py", S+"column.py"],
  mech=[("validate_match", S+"query_validation.py"), ("Validator", S+"query_visitors.py"), ("ExpressionFinder", S+"visitors.py")],
  obs=["Query.validate()", "Query.serialize()", "Query.print()"],
  tech="property-based mutation of valid queries against an independent validity predicate"),
 dict(
  id="C09", title="The required-column check raises exactly when a condition is missing",
  statement="validate_required_columns accepts a query exactly when, for every entity of its match (alone, in a join, or at the bottom of subqueries) that has a data model, the WHERE of the level where the entity stands has an = or IN condition on each required column, and >= and < conditions on the required time column. Conditions count at the top level and inside ANDs, never inside ORs, and not when qualified by another entity's alias. In every other case it raises.",
  over=["inputs"], q="every data model, match and arrangement of the conditions",
  why="The arrangements (nesting of AND and OR, wrong operator, alias, side, level) are unbounded; the tests have a few fixed ones.",
  files=[S+"query_validation.py"],
  mech=[("validate_required_columns", S+"query_validation.py")],
  obs=["validate_required_columns()"],
  tech="property-based mutation of required conditions against an independent predicate"),
 dict(
  id="C10", title="Expression search finds everything, and only what is there",
  statement="Searching a query for columns (or functions, curried functions, lambdas, aliased expressions, orderings, relationships) returns exactly the ones that occur in any clause of that query, at any depth of functions, initializers, lambdas, arrays, conditions, orderings and limit by. The result does not depend on earlier searches.",
  over=["inputs", "histories"], q="every query and every place an expression can occur, and reuse of one searcher",
  why="The tests search a handful of expressions; a column missed in one kind of position lets invalid queries through.",
  files=[S+"visitors.py", S+"query_visitors.py"],
  mech=[("ExpressionFinder", S+"visitors.py"), ("ExpressionSearcher", S+"query_visitors.py")],
  obs=["ExpressionSearcher(T).visit(query)"],
  tech="property-based testing of the search against an independent walk of the generated query"),
 dict(
  id="C11", title="MQL text denotes exactly the metrics query that was built",
  statement="For every valid Timeseries or Formula, the MQL in what MetricsQuery.serialize() sends reads back, under MQL's syntax, as exactly that query: metric, aggregate, aggregate parameters, filters, groups, operators, operand order and nesting. parse_mql reads it back as the same query as well. A filter with an operator that MQL does not have (an ordering, a null test) or with a function as value, alone or in a list, at any depth, is rejected with an SDK error, never sent as something else.",
  over=["inputs"], q="every timeseries and formula of any nesting, metric names, MRIs, parameters, filters and groups",
  why="The tests compare about thirty fixed strings; precedence, quoting, nesting and group placement combine without bound.",
  files=[S+"metrics_visitors.py", S+"mql_visitor.py", S+"metrics_query.py", S+"mql/mql.py"],
  mech=[("TimeseriesMQLPrinter and FormulaMQLPrinter", S+"metrics_visitors.py"), ("parse_mql", S+"mql/mql.py")],
  obs=["MetricsQuery.serialize()", "parse_mql()"],
  tech="property-based round trip: independent MQL reader and the SDK's parser as oracles"),
 dict(
  id="C12", title="MQL text is parsed into exactly what it means",
  statement="parse_mql of any syntactically valid MQL text returns the query the text means: the usual precedence and left association of + - * /, unary minus, parentheses, aggregates and functions with their parameters in order, metric name or MRI, filters with OR weaker than AND, !, lists and trailing wildcards, and groups, attached to the part of the query they are written on. Whitespace and quoting style do not matter.",
  over=["inputs"], q="every MQL text generated by the syntax",
  why="The tests parse about a hundred texts; the syntax generates infinitely many combinations.",
  files=[S+"mql/mql.py"],
  mech=[("MQL_GRAMMAR and MQLVisitor", S+"mql/mql.py")],
  obs=["parse_mql()", "MetricsQuery with a text query"],
  tech="grammar-based generation of MQL text with its meaning as oracle"),
 dict(
  id="C13", title="Any MQL string is parsed or cleanly rejected",
  statement="For any string, parse_mql either returns a well-formed Timeseries or Formula, the same on every call, or raises InvalidMQLQueryError; nothing else escapes and it terminates. A MetricsQuery over the string either validates and sends MQL with the same meaning, or raises an SDK error.",
  over=["inputs"], q="every string: valid, nearly valid and arbitrary",
  why="The tests try about twenty invalid strings; robustness is about all of them.",
  files=[S+"mql/mql.py", S+"metrics_query_visitors.py", S+"mql_visitor.py"],
  mech=[("parse_mql error handling", S+"mql/mql.py")],
  obs=["parse_mql()", "MetricsQuery(query=text).serialize()"],
  tech="mutation-based and token-level fuzzing of MQL text"),
 dict(
  id="C14", title="A metrics query is sent exactly when valid, with exactly its context",
  statement="validate(), serialize() and print() of a MetricsQuery succeed exactly when query, start, end, rollup, scope and mappings are present and every field has its documented type and is itself valid; otherwise an SDK error is raised. The context that is sent has exactly the given start, end, rollup, scope, limit, offset, extrapolate and indexer mappings.",
  over=["inputs"], q="every metrics query: any field values, present, missing or of a wrong type",
  why="The tests fix one start, end, rollup and scope; combinations of fields and of missing and wrong ones are unbounded.",
  files=[S+"metrics_query.py", S+"metrics_query_visitors.py", S+"mql_visitor.py", S+"metrics_visitors.py", S+"mql_context.py"],
  mech=[("Validator", S+"metrics_query_visitors.py"), ("MQLPrinter and MQLContext", S+"mql_visitor.py")],
  obs=["MetricsQuery.validate()", "MetricsQuery.serialize()['mql_context']"],
  tech="property-based testing of context and validity against an independent predicate"),
 dict(
  id="C15", title="A request is sent exactly when valid and carries exactly its parts",
  statement="A Request can be validated, turned into a body, serialized and printed exactly when dataset, app id, parent api, tenant ids, flags and the query are each valid; otherwise each of these raises an SDK error. The body has exactly the query, dataset (not for deletes), app id, tenant ids, parent api, the flags that are set with the values given, and for metrics queries the context; nothing else.",
  over=["inputs"], q="every combination of query kind, flags and envelope fields, valid and invalid",
  why="The tests check a few envelopes; characters at any position and flag combinations are unbounded.",
  files=[S+"request.py"],
  mech=[("Request.validate and to_dict", S+"request.py"), ("Flags", S+"request.py")],
  obs=["Request.validate()", "Request.to_dict()", "Request.serialize()", "Request.print()"],
  tech="property-based testing of envelopes against an independent predicate and body model"),
 dict(
  id="C16", title="A delete query deletes exactly what was asked, and never everything",
  statement="A DeleteQuery that is sent carries exactly the given columns and values, in order and unchanged, and nothing else. A delete without conditions, or with a column that has no values, is always rejected and never sent. Neither validation nor sending changes the given conditions.",
  over=["inputs", "histories"], q="every set of column conditions, and sequences of deletes",
  why="The tests have three delete queries.",
  files=[S+"delete_query.py", S+"request.py"],
  mech=[("DeleteQuery.validate and serialize", S+"delete_query.py")],
  obs=["DeleteQuery.serialize()", "Request.to_dict()"],
  tech="property-based testing of delete bodies against an exact model"),
 dict(
  id="C17", title="A legacy body converts to the query it denotes",
  statement="json_to_snql turns every legacy body into a request whose query denotes what the body says: aggregations, selected columns, groups, conditions (AND of ORs, function expressions, date strings), having, orderings with their direction, limits, sample, array join, totals, and the organization, project and time-range extensions as conditions. Flags, dataset and tenant ids are carried over. The body itself is not modified and converting it again gives the same.",
  over=["inputs"], q="every legacy body of the documented form",
  why="The tests convert about twenty bodies; nesting of expressions and combinations of clauses are unbounded.",
  files=[S+"legacy.py"],
  mech=[("json_to_snql and parse_* helpers", S+"legacy.py")],
  obs=["json_to_snql(body, entity)"],
  tech="property-based generation of legacy bodies together with the query they denote"),
 dict(
  id="C18", title="Threads using the SDK at the same time do not disturb one another",
  statement="When several threads build, serialize, print and validate queries (shared or private), wrap them in requests, parse MQL or convert legacy bodies at the same time, every operation has the outcome it has alone, under every interleaving. No shared object changes and no thread waits forever.",
  over=["schedules"], q="every interleaving of SDK code of several threads, from a cold or a warm start",
  why="The tests are single threaded; a race needs a preemption at a particular line.",
  files=[S+"query.py", S+"metrics_query.py", S+"query_visitors.py", S+"visitors.py", S+"mql_visitor.py", S+"mql/mql.py"],
  mech=[("printers created per call; shared printers and validators hold no per-query state", S+"query.py")],
  obs=["results of operations in several threads"],
  tech="property-based schedule exploration: generated thread programs under a generated, controlled schedule"),
 dict(
  id="C19", title="Equality, hashing and immutability of SDK values",
  statement="Expressions, conditions, queries, metrics queries and their parts are equal exactly when they were built from equal arguments (the alias of a function aside, which may be ignored); equality is symmetric, equal hashable values hash alike, and copies are equal. Expressions, metrics, rollups, formulas, queries and delete queries cannot be changed by assigning or deleting an attribute.",
  over=["inputs"], q="every pair of values, in particular pairs that differ in one place",
  why="The tests compare a few equal values; that any single difference matters, and that hashes agree, is about all pairs.",
  files=[S+"function.py", S+"column.py", S+"conditions.py", S+"entity.py", S+"storage.py", S+"timeseries.py", S+"formula.py", S+"query.py", S+"schema.py"],
  mech=[("frozen dataclasses, CurriedFunction.__eq__", S+"function.py")],
  obs=["==", "hash()", "setattr"],
  tech="property-based testing of pairs against an independent structural comparison"),
 dict(
  id="C20", title="Metrics, timeseries, rollups, scopes and formulas are valid or rejected",
  statement="Constructing Metric, Timeseries, Rollup or MetricsScope, and validating a Formula, succeeds exactly when the arguments are valid as documented: types at every position, a public name or an MRI, an allowed granularity, interval at least the granularity, not both interval and ordering, interval or totals given; a formula needs parameters of the right types with at least one timeseries and one consistent grouping at every depth. Otherwise an SDK error is raised, and what is constructed holds its arguments unchanged.",
  over=["inputs"], q="every argument combination, and formulas of any nesting",
  why="The tests list a few bad values; validity is a predicate over all values and over trees of formulas.",
  files=[S+"timeseries.py", S+"formula.py"],
  mech=[("validate() of each class", S+"timeseries.py"), ("Formula consistency check", S+"formula.py")],
  obs=["constructors", "validate()"],
  tech="property-based testing of constructors against an independent validity predicate"),
 dict(
  id="C21", title="Malformed MQL is rejected, never guessed at",
  statement="Text that is not MQL is never turned into a query: when a bracket, quote, operand, operator, argument, filter key or value, colon, list element, group or metric is missing or left over, at any place and depth, or a number is not written as digits with optional decimals, parse_mql raises InvalidMQLQueryError, and validating or serializing a MetricsQuery over the text raises an SDK error.",
  over=["inputs"], q="every valid text with any one thing broken at any place and depth",
  why="The tests reject a handful of fixed strings; a grammar that became too lenient in one rule only shows with the right text broken at the right place.",
  files=[S+"mql/mql.py", S+"metrics_query_visitors.py"],
  mech=[("MQL_GRAMMAR", S+"mql/mql.py"), ("parsing of text queries in the Validator", S+"metrics_query_visitors.py")],
  obs=["parse_mql", "MetricsQuery.validate()", "MetricsQuery.serialize()"],
  tech="structure-aware fuzzing: generated syntax trees with one defect, which by construction must be rejected"),
]

NOTES = {
 "C11": " Two known findings about escaping and wildcards (known-findings.txt) are excluded from the comparison with the SDK's parser.",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["q"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["obs"], "hook_needed": None,
                },
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo'); import snuba_sdk, parsimonious\"",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["tech"],
                "level": "exploration",
                "level_note": "Holds on every generated case; the search is random and coverage-guided, not exhaustive. Trusts the independent oracle in /verif/lib and /verif/props, and the domain limits listed under assumptions in the evidence file."
                + NOTES.get(p["id"], ""),
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "No hooks: the checks import /repo's sources directly and never write bytecode or files there.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
