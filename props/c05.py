"""C05: queries built step by step equal queries built at once; setters never mutate."""
from dataclasses import fields

from lib import build, mql, mqltext
from lib.common import compare_query, read_snql, require, short
from lib.engine import Violation
from lib.gen import G
from snuba_sdk import Column, Condition, Entity, Metric, Op, Query
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.query_visitors import InvalidQueryError
from snuba_sdk.timeseries import InvalidTimeseriesError

ID = "C05"
COUNT = {"quick": 18000, "thorough": 120000}
RULE = (
    "A history of setter calls (in a random order, with values that are later overwritten, "
    "with rejected calls and calls on older objects in between) is run on Query, MetricsQuery, Timeseries, "
    "Formula, Metric and MetricsScope. "
    "The model is the map of last writes. The final object must equal, and serialize like, "
    "the object constructed at once; every object made on the way must stay as it was; a "
    "rejected call must raise an SDK error. Non-trivial: at least three accepted calls, or "
    "a rejected or overwritten one."
)
ASSUMPTIONS = ["set_aggregate without parameters clears the parameters (its default)"]

SDK_ERRORS = (InvalidQueryError, InvalidExpressionError, InvalidTimeseriesError)
RAW = {"limit": 1, "offset": 1, "granularity": 1, "totals": 1}

BAD_Q = {
    "select": ["empty", "str", "none", "ints", "tuple", "mixed", "single"],
    "groupby": ["str", "none", "ints", "tuple", "mixed", "single", "conds"],
    "array_join": ["empty", "none", "ints", "tuple", "mixed", "single", "fns"],
    "where": ["str", "none", "ints", "cols", "mixed", "single"],
    "having": ["str", "none", "ints", "cols", "mixed", "single"],
    "orderby": ["str", "none", "ints", "cols", "mixed", "single"],
    "limitby": ["str", "none", "ints", "cols", "single"],
    "limit": ["zero", "neg", "big", "str", "none", "float"],
    "offset": ["neg", "str", "none", "float"],
    "granularity": ["zero", "neg", "str", "none", "float"],
    "totals": ["zero", "one", "str", "none"],
    "match": ["str", "none", "single", "badquery", "ints"],
}


def bad_value(kind):
    c = Column("a")
    return {
        "empty": lambda: [],
        "str": lambda: "a",
        "none": lambda: None,
        "ints": lambda: [1, 2],
        "tuple": lambda: (c, c),
        "mixed": lambda: [c, "a"],
        "single": lambda: c,
        "cols": lambda: [c, c],
        "conds": lambda: [Condition(c, Op.EQ, 1)],
        "fns": lambda: [c, build.expr(["fn", "count", [], None, "list"])],
        "zero": lambda: 0,
        "one": lambda: 1,
        "neg": lambda: -1,
        "big": lambda: 10001,
        "float": lambda: 1.5,
        "badquery": lambda: Query(Entity("events")),
        "dict": lambda: {},
    }[kind]()


def with_bad(s, good, bads):
    """good: [[field, value]...] in order; returns ops with rejected calls mixed in."""
    ops = []
    for f, v in good:
        if s.below(6) == 5:
            bf = s.choice(sorted(bads))
            ops.append(["bad", bf, s.choice(bads[bf])])
        ops.append(["set", f, v])
        if s.below(6) == 5:
            ops.append(["fork", *s.choice(good)])
    return ops


def gen(s):
    k = s.below(20)
    if k < 9:
        return gen_query(s)
    if k < 13:
        return gen_mquery(s)
    if k < 16:
        return gen_ts(s)
    if k < 18:
        return gen_formula(s)
    return gen_small(s)


def related(s, v, other):
    """A value like v: part of it, more than it, or it in another order."""
    if not isinstance(v, list) or not v or s.bool(0.5):
        return other
    k = s.below(6)
    if k == 0:
        return v[::-1]
    if k == 1:
        return v + [s.choice(v)]
    if k == 2 and len(v) > 1:
        return v[1:]
    if k == 3 and len(v) > 1:
        return v[:-1]
    if isinstance(other, list):
        return v + other if k == 4 else other + v
    return v


def interleave(s, finals, distract):
    """Final writes in random order, each possibly preceded by overwritten ones."""
    out = []
    for f, v in s.shuffle(finals):
        out.append([f, v])
    for f, v in distract:
        at = max(i for i, (g, _) in enumerate(out) if g == f)
        out.insert(s.below(at + 1), [f, v])
    return out


def gen_query(s):
    g = G(s)
    q = g.query(1)
    fns = [x for x in q["select"] if x[0] in ("fn", "cfn")]
    if fns and s.bool(0.25):
        # grouped by what is selected, under the same or another alias
        x = list(s.choice(fns))
        if s.bool(0.7):
            x = ["cfn", x[1], None, *x[2:]] if x[0] == "fn" and s.bool() else x
            x[-2] = s.choice([None, "zz", "other"])
        q["groupby"] = s.shuffle([*(q.get("groupby") or []), x])
        if s.bool():
            y = list(x)
            y[-2] = s.choice([None, "zz", "other"])
            q["select"] = s.shuffle([*q["select"], y])
    fields = [f for f in build.FIELDS if q.get(f) is not None]
    finals = [[f, q[f]] for f in fields]
    start = q["match"]
    if s.bool(0.3):
        start = ["entity", {"name": "other", "alias": None, "sample": None, "model": None}]
        finals.append(["match", q["match"]])
    other = g.query(0)
    distract = [
        [f, related(s, q[f], other[f])]
        for f in fields
        if other.get(f) is not None and (f != "select" or other[f]) and s.bool(0.4)
    ]
    if any(f == "match" for f, _ in finals) and s.bool(0.3):
        distract.append(["match", other["match"]])
    return {
        "kind": "query",
        "q": q,
        "start": start,
        "ops": with_bad(s, interleave(s, finals, distract), BAD_Q),
    }


def q_value(f, v):
    if f == "match":
        return build.match(v)
    if f in RAW:
        return v
    return build.field({f: v}, f)


BAD_MQ = {
    "query": ["none", "ints", "single", "dict"],
    "start": ["none", "str", "one"],
    "end": ["none", "str", "one"],
    "rollup": ["none", "str", "one", "dict"],
    "scope": ["none", "str", "dict"],
    "limit": ["zero", "neg", "big", "str", "none", "float"],
    "offset": ["neg", "str", "none", "float"],
    "extrapolate": ["zero", "one", "str", "none"],
}


def some_text(s):
    return ["text", mqltext.text(mqltext.GT(s).t_agg())]


def gen_mquery(s):
    g = mql.GQ(s)
    q = g.mquery(some_text(s) if s.below(6) == 5 else None)
    other = g.mquery(some_text(s) if s.below(6) == 5 else None)
    fields = [f for f in mql.MQ_FIELDS if q["mappings" if f == "indexer_mappings" else f] is not None]
    finals = [[f, q["mappings" if f == "indexer_mappings" else f]] for f in fields]
    distract = []
    for f in fields:
        v = other["mappings" if f == "indexer_mappings" else f]
        if v is not None and s.bool(0.3):
            distract.append([f, v])
            if f == "query" and q["query"][0] in ("ts", "formula") and s.bool():
                near = list(q["query"])
                for i in (4, 5):
                    near[i] = related(s, near[i], None)
                distract[-1][1] = near
    return {"kind": "mquery", "q": q, "ops": with_bad(s, interleave(s, finals, distract), BAD_MQ)}


BAD_TS = {
    "metric": ["none", "str", "single"],
    "aggregate": ["none", "one", "ints"],
    "params": ["str", "one", "tuple"],
    "filters": ["str", "ints", "cols", "single", "mixed"],
    "groupby": ["str", "ints", "conds", "single", "mixed", "tuple"],
}
BAD_F = {
    "parameters": ["str", "cols", "single", "mixed", "tuple"],
    "filters": ["str", "ints", "cols", "single", "mixed"],
    "groupby": ["str", "ints", "conds", "single", "mixed", "tuple"],
}


def gen_ts(s):
    g = mql.GM(s)
    a, b = g.ts(), g.ts()
    finals = [["metric", a[1]], ["aggregate", [a[2], a[3]]], ["filters", a[4]], ["groupby", a[5]]]
    c = g.ts()
    distract = []
    for f, v in (("metric", c[1]), ("aggregate", [c[2], c[3]]), ("filters", c[4]), ("groupby", c[5])):
        if s.bool(0.4):
            if f in ("filters", "groupby"):
                v = related(s, dict(finals)[f], v)
            elif f == "aggregate" and s.bool(0.3):
                v = [a[2], related(s, a[3], c[3])]
            distract.append([f, v])
    if s.bool(0.3):
        b = [b[0], a[1], a[2], b[3], related(s, a[4], b[4]), related(s, a[5], b[5])]
    return {"kind": "ts", "q": a, "start": b,
            "ops": with_bad(s, interleave(s, finals, distract), BAD_TS)}  # fmt: skip


def gen_formula(s):
    g = mql.GM(s)
    a, b, c = g.formula(1), g.formula(1), g.formula(1)
    finals = [["parameters", a[2]], ["filters", a[4]], ["groupby", a[5]]]
    distract = []
    for f, v in (("parameters", c[2]), ("filters", c[4]), ("groupby", c[5])):
        if s.bool(0.4):
            distract.append([f, related(s, dict(finals)[f], v)])
    start = list(b)
    start[1], start[3] = a[1], a[3]
    return {"kind": "formula", "q": a, "start": start,
            "ops": with_bad(s, interleave(s, finals, distract), BAD_F)}  # fmt: skip


def gen_small(s):
    g = mql.GQ(s)
    if s.bool(0.5):
        ops = []
        for _ in range(s.size(1, 5)):
            f = s.choice(["mri", "public_name", "id"])
            if s.below(5) == 4:
                ops.append(["bad", f, "ints"])
            else:
                m = g.metric()
                v = s.below(1000) if f == "id" else (m["mri"] or m["public"])
                ops.append(["set", f, v])
        return {"kind": "metric", "start": g.metric(), "ops": ops}
    ops = []
    for _ in range(s.size(1, 4)):
        if s.below(4) == 3:
            ops.append(["bad", "use_case_id", s.choice(["one", "none", "ints"])])
        else:
            ops.append(["set", "use_case_id", s.choice(["a", "transactions", "", "custom"])])
    return {"kind": "scope", "start": g.scope(), "ops": ops}


ARGS = []


def given(v):
    """Notes an argument of a call, to see later that it is still the same."""
    ARGS.append((v, repr(v), [id(x) for x in v] if isinstance(v, list) else None))
    return v


def snap(o):
    return (repr(o), tuple(id(getattr(o, f.name)) for f in fields(o)))


def history(o, ops, setter):
    """Runs the calls; checks that no object ever changes."""
    made = [(o, snap(o))]
    for n, (how, f, v) in enumerate(ops):
        if how == "bad":
            arg = bad_value(v)
            try:
                setter(o, f, arg, True)
            except SDK_ERRORS:
                pass
            except Exception as e:
                raise Violation(f"{type(o).__name__}.set_{f}({arg!r}) raised {type(e).__name__}: {e}")
            else:
                raise Violation(f"{type(o).__name__}.set_{f} accepted {arg!r}")
        elif how == "fork":
            # a second branch from an older object must not reach this one
            old = made[n % len(made)][0]
            b = setter(old, f, v, False)
            made.append((b, snap(b)))
        else:
            new = setter(o, f, v, False)
            if new is o:
                raise Violation(f"set_{f} returned the same object")
            if type(new) is not type(o):
                raise Violation(f"set_{f} returned a {type(new).__name__}")
            o = new
            made.append((o, snap(o)))
        for p, before in made:
            if snap(p) != before:
                raise Violation(
                    f"call {n} (set_{f}) changed an existing object\nbefore: {short(before[0])}\nafter:  {short(repr(p))}"
                )
    return o, made


def check(spec):
    kind = spec["kind"]
    ops = spec["ops"]
    ARGS.clear()
    if kind == "query":

        def setter(o, f, v, raw):
            return getattr(o, f"set_{f}")(given(v if raw else q_value(f, v)))

        direct = build.query(spec["q"])
        last, made = history(Query(build.match(spec["start"])), ops, setter)
        text = last.serialize()
        require("built step by step, the query serializes differently", text, direct.serialize())
        compare_query(spec["q"], read_snql(text), text)
    elif kind == "mquery":
        from snuba_sdk import MetricsQuery

        def setter(o, f, v, raw):
            if not raw and f not in ("limit", "offset", "extrapolate"):
                v = mql.mq_field({f: v, "mappings": v}, f)
            return getattr(o, f"set_{f}")(given(v))

        direct = mql.b_mquery(spec["q"])
        last, made = history(MetricsQuery(), ops, setter)
        require("built step by step, the query serializes differently", last.serialize(), direct.serialize())
        require("context", last.serialize()["mql_context"], mql.m_context(spec["q"]))
    elif kind == "ts":

        def setter(o, f, v, raw):
            if raw:
                if f == "params":
                    return o.set_aggregate("sum", v)
                return getattr(o, f"set_{f}")(v)
            if f == "metric":
                return o.set_metric(mql.b_metric(v))
            if f == "aggregate":
                if v[1] is None:
                    return o.set_aggregate(v[0])
                return o.set_aggregate(v[0], given(mql.b_params(v[1])))
            return getattr(o, f"set_{f}")(given(build.conds(v) if f == "filters" else build.exprs(v)))

        direct = mql.b_mql(spec["q"])
        last, made = history(mql.b_mql(spec["start"]), ops, setter)
    elif kind == "formula":

        def setter(o, f, v, raw):
            if raw:
                return getattr(o, f"set_{f}")(v)
            if f == "parameters":
                return o.set_parameters(given([mql.b_mql(p) for p in v]))
            return getattr(o, f"set_{f}")(given(build.conds(v) if f == "filters" else build.exprs(v)))

        direct = mql.b_mql(spec["q"])
        last, made = history(mql.b_mql(spec["start"]), ops, setter)
    elif kind == "metric":

        def setter(o, f, v, raw):
            return getattr(o, f"set_{f}")(v)

        want = {"public_name": spec["start"]["public"], "mri": spec["start"]["mri"], "id": spec["start"]["id"]}
        for how, f, v in ops:
            if how == "set":
                want[f] = v
        direct = Metric(**want)
        last, made = history(mql.b_metric(spec["start"]), ops, setter)
        require("fields", {f: getattr(last, f) for f in want}, want)
    else:

        def setter(o, f, v, raw):
            return o.set_use_case_id(v)

        want = dict(spec["start"])
        for how, f, v in ops:
            if how == "set":
                want[f] = v
        direct = mql.b_scope(want)
        last, made = history(mql.b_scope(spec["start"]), ops, setter)
        require("fields", {f: getattr(last, f) for f in want}, want)
    if last != direct:
        raise Violation(f"built step by step: {short(repr(last))}\nbuilt at once: {short(repr(direct))}")
    if repr(last) != repr(direct):
        raise Violation(f"built step by step: {short(repr(last))}\nbuilt at once: {short(repr(direct))}")
    for v, text, ids in ARGS:
        if repr(v) != text or (ids is not None and [id(x) for x in v] != ids):
            raise Violation(f"an argument was changed\nbefore: {short(text)}\nafter:  {short(repr(v))}")
    for p, before in made:
        if snap(p) != before:
            raise Violation(f"serializing a later query changed an earlier one\nbefore: {short(before[0])}\nafter:  {short(repr(p))}")


def nontrivial(spec):
    sets = [f for how, f, _ in spec["ops"] if how == "set"]
    out = []
    if len(sets) >= 3:
        out.append(spec["kind"])
    if len(set(sets)) < len(sets):
        out.append("overwritten")
    if len(sets) < len(spec["ops"]):
        out.append("rejected call")
    return out or None
