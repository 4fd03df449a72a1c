"""C11: the MQL text of a metrics query says exactly what the query says."""
from lib import mql
from lib.common import deep_eq, short
from lib.engine import Violation
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.metrics_query_visitors import InvalidMetricsQueryError
from snuba_sdk.mql.mql import parse_mql

ID = "C11"
SHARE = True
COUNT = {"quick": 30000, "thorough": 200000}
RULE = (
    "Timeseries and formula queries are generated (public names and MRIs, aggregate "
    "parameters, nested filters, groups, infix/prefix/negated formulas to depth 3) and "
    "serialized in a MetricsQuery; an independent MQL reader must read back exactly the "
    "generated query, and so must the SDK's own parser (equalities, up to the flattening "
    "of AND). Non-trivial: at least two of: formula operator, aggregate parameters, "
    "filters, nested filter, groups, MRI."
)
ASSUMPTIONS = [
    "the SDK's parser only undoes the escaping of double quotes, and reads an equality "
    "with a bare word followed by * as LIKE (known findings K1, K2); both the current and "
    "the corrected reading are accepted",
    "aggregate names start with a letter or underscore; tag values in a list are not empty lists",
]


NO_MQL = ["GT", "GTE", "LT", "LTE", "IS_NULL", "IS_NOT_NULL"]


def bad_filter(s, g):
    """A condition that MQL has no syntax for."""
    lhs = ["col", g.tagkey(), None]
    if s.bool():
        op = s.choice(NO_MQL)
        rhs = None if op.startswith("IS") else s.choice([["str", "a"], ["int", 1], ["float", "0.5"], ["col", "b", None], ["list", [["str", "a"]]]])
        return ["cond", lhs, op, rhs]
    f = ["fn", "toString", [["col", "b", None]], None, "list"]
    if s.bool(0.3):
        f = ["cfn", "quantile", [["float", "0.5"]], [["col", "b", None]], None, "list"]
    k = s.below(4)
    if k == 3:
        items = s.many(lambda: ["str", g.string()], s.size(0, 3))
        items.insert(s.below(len(items) + 1), f)
        return ["cond", lhs, s.choice(["IN", "NOT_IN"]), [s.choice(["list", "tuple"]), items]]
    if k == 2:
        arms = s.many(lambda: ["cond", lhs, "EQ", ["str", g.string()]], s.size(1, 3))
        arms.insert(s.below(len(arms) + 1), ["cond", lhs, "EQ", f])
        return ["bool", "OR", arms, s.choice(["sub", "base"])]
    return ["cond", lhs, s.choice(["EQ", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE"]), f]


def holders(x):
    if x[0] == "ts":
        return [x]
    if x[0] == "formula":
        return [x] + [h for p in x[2] for h in holders(p)]
    return []


def gen(s):
    g = mql.GQ(s)
    spec = {"q": g.mql_query(), "wrap": g.rollup()}
    if s.below(12) == 11:
        h = s.choice(holders(spec["q"]))
        bad = bad_filter(s, g)
        for _ in range(s.size(0, 3, 0.5)):
            arms = s.many(lambda: g.mcondition(1), s.size(1, 3))
            arms.insert(s.below(len(arms) + 1), bad)
            bad = ["bool", s.choice(["AND", "OR"]), arms, "sub"]
        h[4] = list(h[4] or [])
        h[4].insert(s.below(len(h[4]) + 1), bad)
        spec["bad"] = True
    return spec


CTX = {
    "start": ["dt", "2021-01-01T00:00:00", None, 0],
    "end": ["dt", "2021-01-02T00:00:00", None, 0],
    "scope": {"org_ids": [1], "project_ids": [2], "use_case_id": "custom"},
    "limit": None,
    "offset": None,
    "extrapolate": None,
    "mappings": {},
}


def check(spec):
    x = spec["q"]
    if spec.get("bad"):
        q = mql.b_mquery({**CTX, "query": x, "rollup": spec["wrap"]})
        for name in ("serialize", "print", "serialize"):
            try:
                out = getattr(q, name)()
            except (InvalidExpressionError, InvalidMetricsQueryError):
                continue
            except Exception as e:
                raise Violation(f"{name}() of a filter MQL does not have raised {type(e).__name__}: {e}\n{short(repr(q.query))}")
            raise Violation(f"{name}() sent a filter that MQL does not have\n{short(repr(q.query))}\nas: {short(out)}")
        return
    out = mql.b_mquery({**CTX, "query": x, "rollup": spec["wrap"]}).serialize()
    text = out["mql"]
    got = mql.read_mql(text)
    col = mql.collapsed_mql(x)
    wants = [mql.m_mql(col), mql.m_mql(x)]
    if not any(deep_eq(got, w) for w in wants):
        raise Violation(
            "the MQL text does not say what the query says"
            f"\ngot:  {short(got)}\nwant: {short(wants[0])}\ntext: {short(text)}"
        )
    if mql.has_alias(x):
        return  # MQL has no syntax the parser accepts for aliased groups
    try:
        back = mql.u_mql(parse_mql(text))
    except Exception as e:
        raise Violation(f"the SDK cannot parse its own MQL: {type(e).__name__} {e}\ntext: {short(text)}")
    for y in (col, x):
        if any(deep_eq(back, w) for w in mql.p_variants(y)):
            return
    raise Violation(
        "the SDK's parser does not read back the query from its own MQL"
        f"\ngot:  {short(back)}\nwant: {short(mql.p_mql(col))}\ntext: {short(text)}"
    )


def nontrivial(spec):
    if spec.get("bad"):
        return ["inexpressible"]
    labels = mql.mql_labels(spec["q"])
    return labels if len(set(labels)) >= 2 else None


def known_findings():
    out = []
    a = parse_mql('sum(foo){a:"x\\\\y"}')
    if a.filters[0].rhs != "x\\y":
        out.append("K1")
    from snuba_sdk import Op

    if parse_mql('sum(foo){a:"foo*"}').filters[0].op != Op.EQ:
        out.append("K2")
    return out
