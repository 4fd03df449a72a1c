"""C14: a metrics query is sent exactly when valid, with exactly its context."""
import json

from lib import mql, mqltext
from lib.common import deep_eq, require, short
from lib.engine import Violation
from lib.vals import GV, is_kind, val
from props.c20 import OPEN, gen_args, near, valid, valid_formula
from snuba_sdk import MetricsQuery
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.metrics_query_visitors import InvalidMetricsQueryError
from snuba_sdk.mql.mql import parse_mql
from snuba_sdk.timeseries import InvalidTimeseriesError

ID = "C14"
COUNT = {"quick": 40000, "thorough": 250000}
RULE = (
    "Metrics queries (timeseries, formula or MQL text; any times, rollups, scopes, limits, "
    "mappings) are generated and up to two fields replaced by None or by a value of another "
    "type, the formula by an inconsistent one, the text by a broken one; in a third of the "
    "cases a field of the query, its timeseries or its scope is then changed, to something valid "
    "or not, and all is judged again. An independent "
    "predicate decides; validate(), serialize() and print() must agree with it and fail only "
    "with SDK errors; the mql_context of a valid one must have exactly the generated start, "
    "end, rollup, scope, limit, offset, extrapolate and mappings. Non-trivial: a field was "
    "replaced, or at least three optional fields are set."
)
ASSUMPTIONS = [
    "indexer_mappings may be None until the query is sent",
    "the MQL text itself is judged by C11 and C12",
]
ERRORS = (InvalidMetricsQueryError, InvalidExpressionError, InvalidTimeseriesError)
FIELDS = mql.MQ_FIELDS


def to_vals(q):
    def o(k, v):
        return ["null"] if v is None else [k, v]

    return {
        "query": ["str", q["query"][1]] if q["query"][0] == "text" else q["query"],
        "start": q["start"],
        "end": q["end"],
        "rollup": ["rollup", q["rollup"]],
        "scope": ["scope", q["scope"]],
        "limit": o("limit", q["limit"]),
        "offset": o("offset", q["offset"]),
        "extrapolate": o("extrapolate", q["extrapolate"]),
        "indexer_mappings": ["dict", [[["str", k], ["int" if isinstance(v, int) else "str", v]]
                                      for k, v in q["mappings"].items()]],
    }  # fmt: skip


BAD_TEXT = ["", "sum(", "1", "sum(foo) by", "sum(foo){a}", '"x"', "sum(foo) + $v", "(1)", "sum(foo) sum(bar)",
            "sum(foo)) ", "{}", "sum()", "sum(foo){a:}", "1 + 2", "sum(foo) + \"x\"",
            "sum(foo) by a + sum(foo) by b"]  # fmt: skip


def gen(s):
    g = GV(s)
    query = None
    bad_text = False
    k = s.below(10)
    if k >= 8:
        query = ["text", mqltext.text(g_text(s))]
    elif k == 7:
        query = ["text", s.choice(BAD_TEXT)]
        bad_text = True
    q = g.mquery(query)
    if q["query"][0] == "formula" and s.below(5) == 4:
        f = q["query"]
        j = s.below(4)
        if j == 0:
            f[2] = [["int", 1], ["float", "2.5"]]
        elif j == 1:
            f[2] = list(f[2]) + [g.ts([["col", "g1", None]], aliased=False), g.ts([["col", "g2", None]])]
        elif j == 2:
            f[5] = [["col", "zz9", None]]
            f[2] = list(f[2]) + [g.ts([["col", "g1", None]])]
        else:
            f[2] = None
    v = to_vals(q)
    n = s.choice([0, 0, 1, 1, 2])
    changed = []
    for _ in range(n):
        f = s.choice(FIELDS)
        if f == "rollup" and s.bool(0.5):
            v[f] = ["rollup", {**q["rollup"], "granularity": None}]
        else:
            v[f] = ["null"] if s.bool(0.3) else g.junk()
        changed.append(f)
    spec = {"v": v, "changed": changed, "bad_text": bad_text and v["query"] == to_vals(q)["query"], "q": q}
    if s.below(3) == 2:
        spec["post"] = post(s, g, v)
    return spec


def post(s, g, v):
    """A change of the query, or of its mutable parts, once it was built and used."""
    where = s.choice(["field", "query", "query", "scope"])
    if where == "query" and v["query"][0] == "ts" or where == "scope" and v["scope"][0] == "scope":
        cls = "Timeseries" if where == "query" else "MetricsScope"
        old = parts(v[where])
        f = s.choice(sorted(old))
        k = s.below(3)
        new = gen_args(s, g, cls)[f] if k == 0 else near(s, g, cls, f, old) if k == 1 else g.junk()
        return [where, f, new, s.bool(0.3), k == 0]
    f = s.choice(FIELDS)
    k = s.below(3)
    new = to_vals(g.mquery())[f] if k == 0 else ["null"] if k == 1 else g.junk()
    return ["field", f, new, s.bool(0.3), k == 0]


def parts(x):
    """The arguments of a Timeseries or a MetricsScope."""

    def o(k, v):
        return ["null"] if v is None else [k, v]

    if x[0] == "ts":
        return {
            "metric": ["metric", x[1]], "aggregate": ["str", x[2]], "aggregate_params": o("list", x[3]),
            "filters": o("list", x[4]), "groupby": o("list", x[5]),
        }  # fmt: skip
    return {
        "org_ids": ["list", [["int", i] for i in x[1]["org_ids"]]],
        "project_ids": ["list", [["int", i] for i in x[1]["project_ids"]]],
        "use_case_id": o("str", x[1]["use_case_id"]),
    }


def after(spec):
    """The spec of the query after spec["post"]; parts that were changed are kept as arguments."""
    where, f, new, _, fresh = spec["post"]
    v = dict(spec["v"])
    bad = spec["bad_text"]
    if where == "field":
        v[f] = new
        bad = bad and f != "query"
    else:
        args = {**parts(v[where]), f: new}
        if where == "query":
            v[where] = ["tsargs", args]
            if valid("Timeseries", args) is True:
                v[where] = ["ts", args["metric"][1], args["aggregate"][1]] + [
                    None if args[k][0] == "null" else args[k][1] for k in ("aggregate_params", "filters", "groupby")
                ]
        else:
            v[where] = ["scopeargs", args]
            if valid("MetricsScope", args) is True:
                v[where] = ["scope", {
                    "org_ids": [i[1] for i in args["org_ids"][1]],
                    "project_ids": [i[1] for i in args["project_ids"][1]],
                    "use_case_id": None if args["use_case_id"][0] == "null" else args["use_case_id"][1],
                }]  # fmt: skip
    return {"v": v, "bad_text": bad, "changed": [f], "fresh": fresh}


def change(q, spec):
    where, f, new, inplace, _ = spec["post"]
    target = {"field": lambda: q, "query": lambda: q.query, "scope": lambda: q.scope}[where]()
    value = field_value(new)
    old = getattr(target, f)
    if inplace and type(old) is type(value) and isinstance(old, list):
        old[:] = value
    elif inplace and type(old) is type(value) and isinstance(old, dict):
        old.clear()
        old.update(value)
    else:
        setattr(target, f, value)


def g_text(s):
    g = mqltext.GT(s)
    t = g.t_agg()
    return t


def expected(spec):
    """(validate, serialize): True, False or OPEN."""
    v = spec["v"]
    x = v["query"]
    ok = True
    if x[0] == "str":
        text = x[1]
        if spec["bad_text"]:
            ok = False
        elif text in ("", "a", "60", "ASC", "sum(foo)"):  # junk strings
            ok = OPEN if text != "sum(foo)" and text != "" else text != ""
    elif x[0] == "formula":
        ok = valid_formula(x)
    elif x[0] == "tsargs":
        ok = valid("Timeseries", x[1])
    elif x[0] != "ts":
        ok = False
    parts = [ok]
    parts.append(is_kind(v["start"], "dt"))
    parts.append(is_kind(v["end"], "dt"))
    parts.append(is_kind(v["rollup"], "rollup") and v["rollup"][1]["granularity"] is not None)
    parts.append(valid("MetricsScope", v["scope"][1]) if v["scope"][0] == "scopeargs" else is_kind(v["scope"], "scope"))
    for f in ("limit", "offset", "extrapolate"):
        parts.append(is_kind(v[f], "null", f))
    m = v["indexer_mappings"]
    parts.append(is_kind(m, "null", "dict"))

    def both(ps):
        if any(p is False for p in ps):
            return False
        return OPEN if any(p is OPEN for p in ps) else True

    return both(parts), both(parts + [m[0] == "dict"])


def attempt(fn, what):
    try:
        return True, fn()
    except ERRORS as e:
        return False, e
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}")


def field_value(x):
    if x[0] == "formula" and x[2] is None:
        from props.c20 import build_formula

        return build_formula(x)
    return val(x)


def context_of(spec):
    v = spec["v"]

    def n(f):
        return None if v[f][0] == "null" else v[f][1]

    return mql.m_context(
        {
            "start": v["start"],
            "end": v["end"],
            "rollup": v["rollup"][1],
            "scope": v["scope"][1],
            "limit": n("limit"),
            "offset": n("offset"),
            "extrapolate": n("extrapolate"),
            "mappings": {k[1]: x[1] for k, x in v["indexer_mappings"][1]},
        }
    )


def check(spec):
    v = spec["v"]
    q = MetricsQuery(**{f: field_value(v[f]) for f in FIELDS})
    judge(q, spec)
    if spec.get("post"):
        change(q, spec)
        judge(q, after(spec))


def judge(q, spec):
    v = spec["v"]
    want_v, want_s = expected(spec)
    for name, want in (("validate", want_v), ("serialize", want_s), ("print", want_s)):
        ok, out = attempt(getattr(q, name), f"{name}()")
        if want is OPEN:
            continue
        if ok and not want:
            raise Violation(f"{name}() accepted an invalid metrics query\n{short(repr(q))}")
        if not ok and want:
            raise Violation(f"{name}() rejected a valid metrics query: {type(out).__name__}: {out}\n{short(repr(q))}")
        if ok and name != "validate":
            if name == "print":
                out = json.loads(out)
            elif json.loads(json.dumps(out)) != out:
                raise Violation(f"the serialized query is not plain JSON: {short(repr(out))}")
            require(f"{name}(): keys", sorted(out), ["mql", "mql_context"])
            require(f"{name}(): context", out["mql_context"], context_of(spec))
            if v["query"][0] == "str" and "\\n" not in json.dumps(v["query"][1]):
                a = mqltext.normal(mql.u_mql(parse_mql(v["query"][1])))
                b = mqltext.normal(mql.u_mql(parse_mql(out["mql"])))
                if not deep_eq(a, b):
                    raise Violation(f"the MQL sent is {short(out['mql'])}, the query {short(v['query'][1])}")
            elif v["query"][0] in ("ts", "formula") and spec.get("fresh"):
                got = mql.read_mql(out["mql"])
                if not any(deep_eq(got, mql.m_mql(w)) for w in (mql.collapsed_mql(v["query"]), v["query"])):
                    raise Violation(f"the MQL sent is not the query as it is now\ntext: {short(out['mql'])}")


def nontrivial(spec):
    want, _ = expected(spec)
    v = spec["v"]
    opts = sum(1 for f in ("limit", "offset", "extrapolate") if v[f][0] != "null") + bool(
        v["indexer_mappings"][0] == "dict" and v["indexer_mappings"][1]
    )
    if not spec["changed"] and opts < 3:
        return None
    if want is True:
        return ["valid"]
    return [f"changed: {f}" for f in spec["changed"]] or ["invalid query"]
