"""C10: searching a query for expressions finds all of them and nothing else."""
import copy
import re

from lib import build
from lib.colwalk import columns, levels, walk_query
from lib.common import short
from lib.engine import Violation
from lib.gen import G
from snuba_sdk import AliasedExpression, Column, CurriedFunction, Function, Lambda, OrderBy, Relationship
from snuba_sdk.query_visitors import ExpressionSearcher

ID = "C10"
SHARE = True
COUNT = {"quick": 40000, "thorough": 250000}
RULE = (
    "Queries over entities, storages, joins and subqueries are generated with columns in every "
    "place an expression can stand; the columns (and, when hashable, the outermost functions, "
    "curried functions, lambdas, aliased expressions, orderings and relationships) that ExpressionSearcher "
    "reports for each query level are compared, as sets, with a walk of the generated "
    "description. One searcher is reused for all cases, a fresh one for each. Non-trivial: the "
    "query has at least two distinct columns in at least two different places."
)
ASSUMPTIONS = [
    "a search reports what the query itself contains, not what its subquery contains",
    "a search for functions reports outermost matches; it needs hashable (tuple) parameters",
]
SHARED = ExpressionSearcher(Column)


def tuples(x):
    """The same spec with every sequence a tuple, so that everything hashes."""
    if isinstance(x, list):
        if x and x[0] == "list" and len(x) == 2 and isinstance(x[1], list):
            return ["tuple", [tuples(v) for v in x[1]]]
        out = [tuples(v) for v in x]
        if out and out[0] in ("fn", "cfn") and len(out) in (5, 6):
            out[-1] = "tuple"
        if out and out[0] == "lambda" and len(out) == 3:
            out.append("tuple")
        return out
    if isinstance(x, dict):
        return {k: tuples(v) for k, v in x.items()}
    return x


def gen(s):
    g = G(s)
    q = copy.deepcopy(g.query(s.choice([0, 1, 2])))
    # columns inside arrays and initializers are rare: put some there
    for _ in range(s.size(0, 2)):
        spots = []
        lv = q  # an inner query has to stay valid to be built

        def visit(x, place):
            if place in ("array", "init", "param", "rhs") and x[0] in ("int", "str", "null", "bool"):
                spots.append(x)

        walk_query(lv, visit)
        if spots:
            s.choice(spots)[:] = ["col", s.choice(["zz", "a", "tags[q]", "b.c"]), None]
    if s.bool(0.3):
        # a lambda that names its identifiers like columns of the query, and uses both
        names = sorted({x[1] for x in columns(q) if re.fullmatch("[a-zA-Z_]+", x[1])})
        names = s.sample(names, min(len(names), s.int(1, 2))) + ["x"]
        inside = [["col", s.choice([*names, "zz"]), None] for _ in range(s.int(1, 2))]
        inside += [["ident", s.choice(names)], ["int", 1]][: s.below(3)]
        body = ["fn", "plus", s.shuffle(inside), None, "list"]
        f = ["fn", "arrayMap", [["lambda", names, body], *s.list(lambda: ["col", s.choice(names), None], 0, 1)],
             "m1", "list"]  # fmt: skip
        k = s.below(3)
        if k == 0:
            q["select"].append(f)
        elif k == 1:
            q["where"] = [*(q.get("where") or []), ["cond", f, "EQ", ["int", 1]]]
        else:
            q["orderby"] = [*(q.get("orderby") or []), ["order", f, "ASC"]]
    kind = s.choice(["Column", "Column", "Function", "CurriedFunction", "AliasedExpression",
                     "OrderBy", "Lambda", "Relationship"])  # fmt: skip
    if kind != "Column":
        q = tuples(q)
    return {"q": q, "kind": kind}


TAG = {
    "Column": ("col",), "Function": ("fn",), "CurriedFunction": ("cfn", "fn"),
    "AliasedExpression": ("aliased",), "Lambda": ("lambda",),
}  # fmt: skip
TYPES = {
    "Column": Column, "Function": Function, "CurriedFunction": CurriedFunction,
    "AliasedExpression": AliasedExpression, "OrderBy": OrderBy, "Lambda": Lambda, "Relationship": Relationship,
}  # fmt: skip


def outermost(q, tags):
    out = []

    def rec(x):
        k = x[0]
        if k in tags:
            out.append(x)
            return
        if k in ("list", "tuple"):
            subs = x[1]
        elif k == "fn":
            subs = x[2] or []
        elif k == "cfn":
            subs = (x[2] or []) + (x[3] or [])
        elif k == "lambda":
            subs = [x[2]]
        elif k == "aliased":
            subs = [x[1]]
        else:
            subs = []
        for v in subs:
            rec(v)

    def recc(c):
        if c[0] == "bool":
            for x in c[2]:
                recc(x)
        else:
            rec(c[1])
            if c[3] is not None:
                rec(c[3])

    for f in ("select", "groupby", "array_join"):
        for x in q.get(f) or []:
            rec(x)
    for f in ("where", "having"):
        for c in q.get(f) or []:
            recc(c)
    for o in q.get("orderby") or []:
        rec(o[1])
    for x in (q.get("limitby") or {"cols": []})["cols"]:
        rec(x)
    return out


def expected(q, kind):
    if kind == "OrderBy":
        return set(build.orders(q.get("orderby")) or [])
    if kind == "Relationship":
        return set(build.match(q["match"]).relationships if q["match"][0] == "join" else [])
    return {build.expr(x) for x in outermost(q, TAG[kind])}


def check(spec):
    kind = spec["kind"]
    levs = levels(spec["q"])
    obj = build.query(spec["q"])
    for q in levs:
        want = expected(q, kind)
        searchers = [ExpressionSearcher(TYPES[kind])]
        if kind == "Column":
            searchers.append(SHARED)
        for se in searchers:
            got = se.visit(obj)
            if not isinstance(got, set) or got != want or any(not isinstance(x, TYPES[kind]) for x in got):
                raise Violation(
                    f"the search for {kind} is wrong"
                    f"\nmissing: {short(repr(set(want) - set(got)))}"
                    f"\nextra: {short(repr(set(got) - set(want)))}\n{short(repr(obj))}"
                )
        if q["match"][0] == "query":
            obj = obj.match


def nontrivial(spec):
    names, places = set(), set()

    def visit(x, place):
        if x[0] == "col":
            names.add(x[1])
            places.add(place)

    for q in levels(spec["q"]):
        walk_query(q, visit)
    if len(names) < 2 or len(places) < 2:
        return None
    return [f"place:{p}" for p in sorted(places)] + [f"kind:{spec['kind']}"]
