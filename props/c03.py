"""C03: collapsing OR-ed equalities keeps the meaning of the filter."""
import itertools

from lib import build, mql, snql
from lib.common import compare_query, deep_eq, query_labels, read_snql, require, short
from lib.engine import Violation
from lib.gen import G
from props.c11 import CTX
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer

ID = "C03"
SHARE = True
COUNT = {"quick": 32000, "thorough": 200000}
RULE = (
    "Filters are generated that are, nearly are, or are not an OR of equalities on one "
    "expression, at the top level and nested, in SnQL WHERE/HAVING/subqueries and in MQL "
    "filters of timeseries and formulas. The serialized filter is read back by an "
    "independent reader, evaluated against the generated one on every row over a small "
    "domain, and compared with it exactly: a top level OR of equalities on one expression "
    "is one IN with the values in order, everything else is untouched. Non-trivial: the "
    "filter has at least one OR."
)
ASSUMPTIONS = [
    "row evaluation covers conditions on plain columns with integer values",
    "whether expressions the SDK calls equal but that print differently (aliases of "
    "functions, 1 and TRUE) collapse is not fixed",
]

COLS = ["a", "b", "c"]
DOMAIN = [0, 1, 2, 3]
ROWS = [dict(zip(COLS, r)) for r in itertools.product(DOMAIN, repeat=3)]


def small_cond(s, col=None, op=None):
    c = ["col", col or s.choice(COLS), None]
    op = op or s.choice(["EQ", "EQ", "EQ", "NEQ", "GT", "LTE", "IN", "NOT_IN"])
    if op in ("IN", "NOT_IN"):
        rhs = [s.choice(["list", "tuple"]), s.list(lambda: ["int", s.choice(DOMAIN)], 1, 4)]
    else:
        rhs = ["int", s.choice(DOMAIN)]
    return ["cond", c, op, rhs]


def small_group(s, depth):
    n = s.size(2, 7, 0.5)
    k = s.below(10)
    if k < 5:
        col = s.choice(COLS)
        arms = s.many(lambda: small_cond(s, col, "EQ"), n)
        n = len(arms)
        if s.below(2):
            at = s.below(n)
            j = s.below(4)
            if j == 0:
                arms[at] = small_cond(s, col)
            elif j == 1:
                arms[at] = small_cond(s, None, "EQ")
            elif j == 2 and depth > 0:
                arms[at] = small_group(s, depth - 1)
            else:
                arms[at] = arms[0]
        return ["bool", s.choice(["OR", "OR", "OR", "AND"]), arms, s.choice(["sub", "base"])]
    arms = [
        small_cond(s) if depth <= 0 or s.below(3) < 2 else small_group(s, depth - 1)
        for _ in range(n)
    ]
    return ["bool", s.choice(["OR", "AND"]), arms, s.choice(["sub", "base"])]


def small_filters(s):
    return s.list(lambda: small_group(s, 2) if s.below(4) else small_cond(s), 1, 5, 0.5)


def gen(s):
    k = s.below(10)
    if k < 4:
        spec = {"kind": "rows", "where": small_filters(s)}
        spec["inner"] = small_filters(s) if s.below(3) == 2 else None
        spec["having"] = small_filters(s) if s.below(3) == 2 else None
        return spec
    if k < 6:
        g = G(s)
        q = g.query(1)
        m = q["match"]
        if m[0] == "query":
            ctx = {"kind": "names", "names": __import__("lib.gen", fromlist=["x"]).inner_names(m[1])}
        elif m[0] == "join":
            ents = []
            for a, _, b in m[1]:
                ents += [a, b]
            ctx = {"kind": "join", "ents": ents}
        else:
            ctx = g.ctx_of(m[1]["model"])
        q["where"] = s.list(lambda: g.or_group(ctx) if s.below(4) else g.condition(ctx, 2), 1, 5, 0.5)
        return {"kind": "snql", "q": q}
    g = mql.GM(s)
    x = g.mql_query()
    x[4] = s.list(lambda: g.mcondition(2) if s.below(4) else g.mcond(), 1, 5, 0.5)
    if s.below(2):
        key = ["col", g.tagkey(), None]
        arms = s.many(lambda: g.mcond(key, "EQ"), s.int(2, 5))
        x[4].insert(s.below(len(x[4]) + 1), ["bool", "OR", arms, s.choice(["sub", "base"])])
    return {"kind": "mql", "q": x}


def num(v):
    return v[2] if v[0] == "lit" else [num(i) for i in v[2][0]]


def ev(c, row):
    """A condition in abstract form on a row."""
    if c[0] == "bool":
        f = all if c[1] == "AND" else any
        return f(ev(x, row) for x in c[2])
    lhs, op, rhs = row[c[1][1]], c[2], num(c[3])
    return {
        "=": lambda: lhs == rhs,
        "!=": lambda: lhs != rhs,
        ">": lambda: lhs > rhs,
        "<=": lambda: lhs <= rhs,
        "IN": lambda: lhs in rhs,
        "NOT IN": lambda: lhs not in rhs,
    }[op]()


def ev_spec(c, row):
    if c[0] == "bool":
        return (all if c[1] == "AND" else any)(ev_spec(x, row) for x in c[2])
    lhs = row[c[1][1]]
    r = c[3]
    v = r[1] if r[0] == "int" else [i[1] for i in r[1]]
    return {
        "EQ": lambda: lhs == v,
        "NEQ": lambda: lhs != v,
        "GT": lambda: lhs > v,
        "LTE": lambda: lhs <= v,
        "IN": lambda: lhs in v,
        "NOT_IN": lambda: lhs not in v,
    }[c[2]]()


ENT = ["entity", {"name": "events", "alias": None, "sample": None, "model": None}]
SEL = [["col", c, None] for c in COLS]


def same_rows(name, got, want, text):
    for row in ROWS:
        g = all(ev(c, row) for c in got)
        w = all(ev_spec(c, row) for c in want)
        if g != w:
            raise Violation(
                f"{name} accepts different rows: row {row} got {g}, want {w}"
                f"\nfilter: {short(want)}\ntext: {short(text)}"
            )


def check_optimizer(conds):
    group = build.conds(conds)
    before = repr(group)
    out = OrOptimizer().optimize(group)
    if repr(group) != before:
        raise Violation("OrOptimizer.optimize changed its argument")
    sts = [snql.collapse(c) for c in conds]
    if any(st == "may" for st, _ in sts):
        return
    if all(st == "no" for st, _ in sts):
        if out is not None:
            raise Violation(f"optimize() changed a filter with nothing to collapse: {short(repr(out))}")
        return
    want = build.conds([c for _, c in sts])
    if out is None or len(out) != len(want) or repr(list(out)) != repr(want):
        # And/Or built through the base class print differently: compare the text
        from snuba_sdk.visitors import Translation

        t = Translation()
        if out is None or [t.visit(c) for c in out] != [t.visit(c) for c in want]:
            raise Violation(f"optimize() returned {short(repr(out))}, want {short(repr(want))}")


def check(spec):
    if spec["kind"] == "rows":
        q = {"match": ENT, "select": SEL, "where": spec["where"], "having": spec["having"]}
        if spec["inner"] is not None:
            q["match"] = ["query", {"match": ENT, "select": SEL, "where": spec["inner"]}]
        text = build.query(q).serialize()
        got = read_snql(text)
        same_rows("WHERE", got["where"], spec["where"], text)
        if spec["having"]:
            same_rows("HAVING", got["having"], spec["having"], text)
        if spec["inner"]:
            same_rows("the subquery's WHERE", got["match"][1]["where"], spec["inner"], text)
        compare_query(q, got, text, strict=True)
        check_optimizer(spec["where"])
        return
    if spec["kind"] == "snql":
        text = build.query(spec["q"]).serialize()
        compare_query(spec["q"], read_snql(text), text, strict=True)
        check_optimizer(spec["q"]["where"])
        return
    x = spec["q"]
    roll = {"interval": 60, "totals": None, "orderby": None, "granularity": 60}
    text = mql.b_mquery({**CTX, "query": x, "rollup": roll}).serialize()["mql"]
    require(
        "the MQL filters do not mean what was written",
        mql.read_mql(text),
        mql.m_mql(mql.collapsed_mql(x)),
        text=text,
    )


def has_or(c):
    return c[0] == "bool" and (c[1] == "OR" or any(has_or(x) for x in c[2]))


def nontrivial(spec):
    conds = spec["where"] if spec["kind"] == "rows" else (
        spec["q"]["where"] if spec["kind"] == "snql" else spec["q"][4])
    if not any(has_or(c) for c in conds):
        return None
    out = [spec["kind"]]
    for c in conds:
        if has_or(c):
            out.append("collapses" if snql.collapse(c)[0] == "must" else "stays")
    return out
