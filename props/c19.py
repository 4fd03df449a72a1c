"""C19: equality and hashing of the values the SDK hands out; their immutability."""
import copy
import dataclasses

from lib import build, mql
from lib.common import short
from lib.engine import Source, Violation
from lib.gen import G
from snuba_sdk import (
    DeleteQuery, Flags, Granularity, Join, Limit, LimitBy, Offset, OrderBy, Relationship,
    Request, Totals,
)  # fmt: skip
from snuba_sdk.expressions import Extrapolate

ID = "C19"
COUNT = {"quick": 40000, "thorough": 250000}
RULE = (
    "Pairs of generated values (expressions, conditions, entities, joins, queries, metrics "
    "queries and their parts, requests): the second is the first again, the first with one "
    "or two of its generating choices changed, the first respelled (1 / 1.0 / TRUE, other "
    "alias, tuple for list), the first with parts in another order or repeated, or unrelated. An independent structural comparison decides "
    "whether they are equal; ==, != and the reflected forms must agree with it; hashable "
    "values that are equal must hash alike and find each other in sets and dicts; assigning "
    "to or deleting an attribute of an immutable value must fail and change nothing; copies "
    "are equal to the original. Non-trivial: the pair differs, but has the same kind."
)
ASSUMPTIONS = [
    "whether functions that differ in nothing but their alias are equal, and whether And([..]) "
    "equals BooleanCondition(AND, [..]), is left open",
    "values holding lists need not be hashable",
]
KINDS = ["expr", "expr", "expr", "cond", "cond", "entity", "storage", "relationship", "join",
         "orderby", "limitby", "number", "query", "metric", "ts", "formula", "rollup", "scope",
         "mquery", "delete", "flags", "request", "model"]  # fmt: skip


def gen_value(s, kind):
    g = mql.GQ(s)
    ctx = g.ctx_of(None)
    if kind == "expr":
        k = s.below(6)
        if k < 3:
            return g.fn(ctx, 2) if k < 2 else g.cfn(ctx, 2)
        if k == 3:
            return g.col(ctx)
        if k == 4:
            return g.selectable(ctx)
        return g.cfn(ctx, 2)
    if kind == "cond":
        return g.condition(ctx, 2)
    if kind == "entity":
        return g.entity(s.choice([None, "e", "t"]), 0.5)
    if kind == "storage":
        return g.storage()
    if kind == "relationship":
        return [g.entity("e", 0.2), s.choice(["has", "contains"]), g.entity("t", 0.2)]
    if kind == "join":
        return g.join()[0][1]
    if kind == "orderby":
        return [g.expr(ctx, 1), s.choice(["ASC", "DESC"])]
    if kind == "limitby":
        return [[g.col(ctx) for _ in range(s.size(1, 3))], s.int(1, 5)]
    if kind == "number":
        return [s.choice(["limit", "offset", "granularity", "totals", "extrapolate"]), s.int(1, 3)]
    if kind == "query":
        return g.query(1)
    if kind == "metric":
        return g.metric()
    if kind == "ts":
        return g.ts()
    if kind == "formula":
        return g.formula()
    if kind == "rollup":
        return g.rollup()
    if kind == "scope":
        return g.scope()
    if kind == "mquery":
        return g.mquery()
    if kind == "delete":
        return [s.choice(["events", "search_issues"]), {s.choice("abc"): s.list(lambda: s.int(0, 3), 1, 3) for _ in range(s.int(1, 2))}]
    if kind == "flags":
        return [s.choice([None, True, False]) for _ in range(6)]
    if kind == "request":
        return [s.choice(["events", "spans"]), s.choice(["app", "b"]), G(s).query(0), gen_value(s, "flags"), s.choice(["<unknown>", "api"]), {s.choice("ab"): s.int(1, 2)}]
    if kind == "model":
        return g.model(1.0)
    raise KeyError(kind)


def respell(s, x, seqs):
    """Other spellings: numbers, aliases, and tuples for lists."""
    if isinstance(x, dict):
        return {k: respell(s, v, seqs) for k, v in x.items()}
    if not isinstance(x, list):
        return x
    tag = x[0] if x and isinstance(x[0], str) else None
    if len(x) == 2 and tag == "int" and isinstance(x[1], int) and abs(x[1]) < 2**50:
        k = s.below(8)
        if k == 6:
            return ["float", repr(float(x[1]))]
        if k == 7 and x[1] in (0, 1):
            return ["bool", x[1] == 1]
        return x
    y = [respell(s, v, seqs) for v in x]
    if tag in ("fn", "cfn", "col", "str", "ident") and isinstance(x[1], str) and x[1] and s.below(12) == 11:
        n = x[1]  # a near-equal name
        y[1] = s.choice([n.swapcase(), n[:-1] + n[-1].swapcase(), n + "_", n[:-1], n + n[-1]])
    if tag == "fn" and len(x) == 5:
        if seqs:
            y[4] = "tuple"
        elif s.below(12) == 11:
            y[4] = s.choice(["list", "tuple"])
        if s.below(20) == 19:
            y[3] = s.choice([None, "zz"])
        if s.below(25) == 24 and y[2]:
            return ["cfn", y[1], None, y[2], y[3], y[4]]
    elif tag == "cfn" and len(x) == 6:
        if seqs:
            y[5] = "tuple"
        elif s.below(12) == 11:
            y[5] = s.choice(["list", "tuple"])
        if s.below(6) == 5:
            y[4] = s.choice([None, "zz", "zy"])
    elif tag == "list" and len(x) == 2 and isinstance(x[1], list) and seqs:
        y[0] = "tuple"
    elif tag == "lambda" and seqs:
        y = y[:3] + ["tuple"]
    return y


def lists(x, out):
    """The lists of parts in a spec (those that are no tagged value)."""
    if isinstance(x, dict):
        for v in x.values():
            lists(v, out)
    elif isinstance(x, list):
        if len(x) > 1 and len({type(v) for v in x}) == 1 and not isinstance(x[0], str):
            out.append(x)
        for v in x:
            lists(v, out)
    return out


def rearrange(s, kind, a):
    """The same with two parts of a list exchanged, or one of them repeated."""
    b = copy.deepcopy(a)
    ls = lists(b, [])
    if not ls:
        return a
    x = s.choice(ls)
    i, j = s.below(len(x)), s.below(len(x))
    if s.below(3):
        x[i], x[j] = x[j], x[i]
    else:
        x.insert(i, copy.deepcopy(x[j]))
    try:
        BUILD[kind](b)
    except Exception:
        return a
    return b


class Quiet:
    """No random spelling: only turns sequences into tuples."""

    def below(self, n):
        return 0


def gen(s):
    kind = s.choice(KINDS)
    start = len(s.out)
    a = gen_value(s, kind)
    choices = list(s.out[start:])
    seqs = s.bool(0.5)
    mode = s.below(10)
    if mode < 2:
        b = a
    elif mode < 3:
        b = respell(s, a, False)
        try:
            BUILD[kind](b)
        except Exception:
            b = a
    elif mode < 4:
        b = rearrange(s, kind, a)
    elif mode < 9:
        n = s.int(1, 2)
        for _ in range(n):
            i = s.below(max(1, len(choices)))
            d = s.choice([1, 2, 3, 500, 999])
            if i < len(choices):
                choices[i] = choices[i] + d if s.below(2) else max(0, choices[i] - d)
        b = gen_value(Source(None, choices, pad=True), kind)
    else:
        b = gen_value(s, kind)
    if seqs and kind in ("expr", "cond", "orderby"):
        a, b = respell(Quiet(), a, True), respell(Quiet(), b, True)
    return {"kind": kind, "a": a, "b": b}


# -- building ------------------------------------------------------------
def b_rel(r):
    return Relationship(build.entity(r[0]), r[1], build.entity(r[2]))


NUM = {"limit": Limit, "offset": Offset, "granularity": Granularity,
       "totals": lambda v: Totals(v > 1), "extrapolate": lambda v: Extrapolate(v > 1)}  # fmt: skip
BUILD = {
    "expr": build.expr,
    "cond": build.cond,
    "entity": build.entity,
    "storage": build.storage,
    "relationship": b_rel,
    "join": lambda v: Join([b_rel(r) for r in v]),
    "orderby": lambda v: OrderBy(build.expr(v[0]), build.Direction[v[1]]),
    "limitby": lambda v: LimitBy([build.expr(c) for c in v[0]], v[1]),
    "number": lambda v: NUM[v[0]](v[1]),
    "query": build.query,
    "metric": mql.b_metric,
    "ts": mql.b_mql,
    "formula": mql.b_mql,
    "rollup": mql.b_rollup,
    "scope": mql.b_scope,
    "mquery": mql.b_mquery,
    "delete": lambda v: DeleteQuery(v[0], {k: list(x) for k, x in v[1].items()}),
    "flags": lambda v: Flags(*v),
    "request": lambda v: Request(v[0], v[1], build.query(v[2]), Flags(*v[3]), v[4], dict(v[5])),
    "model": build.model,
}
MUTABLE = {"ts", "scope", "mquery", "flags", "request"}
UNHASHABLE = {"query", "formula", "delete", "join", "limitby", "model"} | MUTABLE


# -- the oracle --------------------------------------------------------------
def both(*rs):
    out = True
    for r in rs:
        if r is False:
            return False
        if r is None:
            out = None
    return out


def seq_eq(x, y):
    if x is None or y is None:
        return x is None and y is None
    if len(x) != len(y):
        return False
    return both(*[meq(p, q) for p, q in zip(x, y)])


def t4(x):
    return "bool4" if x[0] == "bool" and len(x) == 4 else x[0]


def meq(x, y):
    """True, False, or None where it is left open."""
    if isinstance(x, dict) and isinstance(y, dict):
        if x.keys() != y.keys():
            return False
        if "cols" in x and "time" in x:  # a data model: a set of columns
            return (
                {tuple(c) for c in x["cols"]} == {tuple(c) for c in y["cols"]}
                and x["time"] == y["time"]
            )
        if "cols" in x and "count" in x:
            return both(seq_eq(x["cols"], y["cols"]), x["count"] == y["count"])
        if "sample" in x and "model" in x:
            sx, sy = x["sample"], y["sample"]
            same = (sx is None) == (sy is None) and (sx is None or float(sx) == float(sy))
            rest = all(x[k] == y[k] for k in x if k not in ("sample", "model"))
            return both(same, rest, meq(x["model"], y["model"]))
        return both(*[meq(x[k], y[k]) for k in x])
    if not isinstance(x, list) or not isinstance(y, list):
        return x == y if type(x) is type(y) or None in (x, y) else x == y
    tx = x[0] if x and isinstance(x[0], str) else None
    ty = y[0] if y and isinstance(y[0], str) else None
    if tx in ("list", "tuple") and len(x) == 2 and isinstance(x[1], list):
        return tx == ty and seq_eq(x[1], y[1])
    if tx == ty == "bool" and len(x) == len(y) == 4:
        return both(x[1] == y[1], seq_eq(x[2], y[2]), True if x[3] == y[3] else None)
    if tx in build.SCALARS and ty in build.SCALARS and "bool4" not in (t4(x), t4(y)):
        return build.scalar(x) == build.scalar(y)
    if tx in ("fn", "cfn") and ty in ("fn", "cfn"):
        nx, ix, px, ax, kx = fn_parts(x)
        ny, iy, py, ay, ky = fn_parts(y)
        r = both(
            nx == ny,
            seq_eq(ix, iy), ix is None or kx == ky,
            seq_eq(px, py), px is None or kx == ky,
        )  # fmt: skip
        if r is True and tx == ty == "fn" and ax != ay:
            return None
        return r
    if tx != ty:
        return False
    if tx == "lambda":
        return both(x[1] == y[1], x[3:] == y[3:], meq(x[2], y[2]))
    if tx == "totals" or tx == "extrapolate":
        return (x[1] > 1) == (y[1] > 1)
    if tx in NUM and len(x) == 2:
        return x[1] == y[1]
    return seq_eq(x, y)


def fn_parts(x):
    if x[0] == "fn":
        return x[1], None, x[2], x[3], x[4]
    return x[1], x[2], x[3], x[4], x[5]


def hashable(x):
    """No list anywhere in the value."""
    if isinstance(x, dict):
        return all(hashable(v) for k, v in x.items() if k != "model")
    if not isinstance(x, list):
        return True
    tag = x[0] if x and isinstance(x[0], str) else None
    if tag == "list" and len(x) == 2:
        return False
    if tag == "fn" and len(x) == 5 and x[2] is not None and x[4] != "tuple":
        return False
    if tag == "cfn" and len(x) == 6 and not (x[2] is None and x[3] is None) and x[5] != "tuple":
        return False
    if tag == "bool" and len(x) == 4:
        return False
    if tag == "lambda" and x[3:] != ["tuple"]:
        return False
    return all(hashable(v) for v in x)


# -- the check -----------------------------------------------------------------
def check(spec):
    kind, sa, sb = spec["kind"], spec["a"], spec["b"]
    make = BUILD[kind]
    a, a2, b = make(sa), make(sa), make(sb)

    def bad(what):
        raise Violation(f"{what}\na: {short(repr(a))}\nb: {short(repr(b))}")

    if not (a == a2) or a != a2 or not (a == a):
        bad("a value is not equal to one built from the same arguments")
    want = meq(sa, sb)
    ab, ba, nab, nba = a == b, b == a, a != b, b != a
    if ab is not ba or nab is not nba or ab is nab or not isinstance(ab, bool):
        bad(f"== and != are not consistent: a==b {ab}, b==a {ba}, a!=b {nab}, b!=a {nba}")
    if want is not None and ab is not want:
        bad("equal, although they differ" if ab else "not equal, although they do not differ")
    if want is not None and ((a in [b]) is not want):
        bad("'in' does not agree with ==")
    for other in (None, 0, "", "a", (), object()):
        if a == other or not (a != other):
            bad(f"equal to {other!r}")
    can = kind not in UNHASHABLE and hashable(sa)
    if can:
        if hash(a) != hash(a2):
            bad("the hash is not a function of the value")
        if hashable(sb):
            if ab and hash(a) != hash(b):
                bad("equal values with different hashes")
            if (b in {a}) is not ab or (b in {a: 1}) is not ab:
                bad("a set or dict does not agree with ==")
            if len({a, a2, b}) != (1 if ab else 2):
                bad("a set of the two has the wrong size")
    for c in (copy.copy(a), copy.deepcopy(a)):
        if c != a or not (a == c):
            bad("a copy is not equal to the original")
        if can and hash(c) != hash(a):
            bad("a copy has another hash")
    if kind not in MUTABLE:
        before = repr(a)
        for f in dataclasses.fields(a):
            for v in (None, getattr(b, f.name, 1)):
                try:
                    setattr(a, f.name, v)
                except AttributeError:
                    continue
                bad(f"the attribute {f.name} of an immutable value could be assigned")
            try:
                delattr(a, f.name)
            except AttributeError:
                continue
            bad(f"the attribute {f.name} of an immutable value could be deleted")
        if a != a2 or repr(a) != before:
            bad("a failed assignment changed the value")


def nontrivial(spec):
    if spec["a"] == spec["b"]:
        return None
    want = meq(spec["a"], spec["b"])
    out = [f"kind:{spec['kind']}", "equal" if want else "open" if want is None else "different"]
    if spec["kind"] not in UNHASHABLE and hashable(spec["a"]):
        out.append("hashable")
    return out
