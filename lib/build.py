"""Spec -> SDK objects, through the public API only."""
from __future__ import annotations

import json
from datetime import date, datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from snuba_sdk import (
    AliasedExpression,
    And,
    BooleanCondition,
    BooleanOp,
    Column,
    Condition,
    CurriedFunction,
    Direction,
    Entity,
    Function,
    Granularity,
    Identifier,
    Join,
    Lambda,
    Limit,
    LimitBy,
    Offset,
    Op,
    Or,
    OrderBy,
    Query,
    Relationship,
    Storage,
    Totals,
)
from snuba_sdk.schema import Column as ModelColumn
from snuba_sdk.schema import DataModel

# A caller may use one object in several places of a query. While SHARED is a dict, equal specs
# are built once and the one object is used wherever they occur.
SHARED = None


def shared(fn):
    kind = fn.__module__ + "." + fn.__name__

    def made(x):
        if SHARED is None or x is None:
            return fn(x)
        key = (kind, json.dumps(x, sort_keys=True))
        if key not in SHARED:
            SHARED[key] = fn(x)
        return SHARED[key]

    return made


SCALARS = {"null", "bool", "int", "float", "str", "bytes", "date", "dt", "list", "tuple"}


def dt_value(spec):
    v = datetime.fromisoformat(spec[1])
    off = spec[2]
    if off is None:
        return v
    if isinstance(off, str):
        return v.replace(tzinfo=ZoneInfo(off), fold=spec[3])
    return v.replace(tzinfo=timezone(timedelta(seconds=off)))


def scalar(x):
    k = x[0]
    if k == "null":
        return None
    if k in ("bool", "int", "str"):
        return x[1]
    if k == "float":
        return float(x[1])
    if k == "bytes":
        return bytes.fromhex(x[1])
    if k == "date":
        return date.fromisoformat(x[1])
    if k == "dt":
        return dt_value(x)
    if k == "list":
        return [any_(v) for v in x[1]]
    if k == "tuple":
        return tuple(any_(v) for v in x[1])
    raise KeyError(k)


def any_(x):
    return scalar(x) if x[0] in SCALARS else expr(x)


def model(m):
    if m is None:
        return None
    cols = [ModelColumn(n, required=r) for n, r in m["cols"]]
    return DataModel(cols, ModelColumn(m["time"], required=True))


def sample(v):
    return None if v is None else float(v)


@shared
def entity(e):
    return Entity(e["name"], e["alias"], sample(e["sample"]), model(e["model"]))


@shared
def storage(e):
    return Storage(e["name"], sample(e["sample"]), model(e["model"]))


def _seq(vals, kind):
    if vals is None:
        return None
    out = [any_(v) for v in vals]
    return tuple(out) if kind == "tuple" else out


@shared
def expr(x):
    k = x[0]
    if k == "col":
        if x[2] is None:
            return Column(x[1])
        return Column(x[1], entity(x[2]))
    if k == "fn":
        return Function(x[1], _seq(x[2], x[4]), x[3])
    if k == "cfn":
        return CurriedFunction(x[1], _seq(x[2], x[5]), _seq(x[3], x[5]), x[4])
    if k == "ident":
        return Identifier(x[1])
    if k == "lambda":
        ids = tuple(x[1]) if x[3:] == ["tuple"] else list(x[1])
        return Lambda(ids, expr(x[2]))
    if k == "aliased":
        return AliasedExpression(expr(x[1]), x[2])
    raise KeyError(k)


@shared
def cond(c):
    if c[0] == "cond":
        op = Op[c[2]]
        if c[3] is None:
            return Condition(expr(c[1]), op)
        return Condition(expr(c[1]), op, any_(c[3]))
    subs = [cond(x) for x in c[2]]
    if c[3] == "base":
        return BooleanCondition(BooleanOp[c[1]], subs)
    return (And if c[1] == "AND" else Or)(subs)


@shared
def conds(cs):
    return None if cs is None else [cond(c) for c in cs]


def match(m):
    k = m[0]
    if k == "entity":
        return entity(m[1])
    if k == "storage":
        return storage(m[1])
    if k == "join":
        return Join([Relationship(entity(a), n, entity(b)) for a, n, b in m[1]])
    if k == "query":
        return query(m[1])
    raise KeyError(k)


@shared
def exprs(xs):
    return None if xs is None else [expr(x) for x in xs]


def orders(xs):
    return None if xs is None else [OrderBy(expr(x[1]), Direction[x[2]]) for x in xs]


def limitby(x):
    return None if x is None else LimitBy([expr(c) for c in x["cols"]], x["count"])


def opt(cls, v):
    return None if v is None else cls(v)


FIELDS = [
    "select", "groupby", "array_join", "where", "having", "orderby", "limitby",
    "limit", "offset", "granularity", "totals",
]  # fmt: skip


def field(q, f):
    """The constructor argument for field f."""
    v = q.get(f)
    if f in ("select", "groupby", "array_join"):
        return exprs(v)
    if f in ("where", "having"):
        return conds(v)
    if f == "orderby":
        return orders(v)
    if f == "limitby":
        return limitby(v)
    return opt(
        {"limit": Limit, "offset": Offset, "granularity": Granularity, "totals": Totals}[f],
        v,
    )


def query(q):
    return Query(match(q["match"]), **{f: field(q, f) for f in FIELDS})
