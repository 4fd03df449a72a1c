"""C06: serialization is a pure function of the query."""
import hashlib
import json
import os
import random
import subprocess
import sys

from lib import build, mql
from lib.common import compare_query, deep_eq, read_snql, require, short
from lib.engine import TIME_ZONES, HarnessError, Source, Violation
from lib.colwalk import columns
from lib.gen import G
from props import c08
from snuba_sdk import Column, DeleteQuery, Flags, Query, Request

ID = "C06"
COUNT = {"quick": 8000, "thorough": 60000}
RULE = (
    "Histories: two to four queries (SnQL, metrics, delete, wrapped in requests) and their "
    "twins - variants that Python or the SDK calls equal although they are written "
    "differently (1 / 1.0 / TRUE, other aliases, list for tuple, another data model) - are "
    "serialized, printed, validated and searched again and again in a random order, with "
    "failing serializations and similar queries, valid or not, in between. Every output must be the same as that object's "
    "first one, must be the one the generated query demands (checked by the independent "
    "readers), and no object or argument may change. A batch is also serialized in separate "
    "processes under different hash seeds and time zones. Non-trivial: some object is serialized twice "
    "with another operation in between, or a twin is present."
)
ASSUMPTIONS = ["as C01 and C11"]


# -- twins ---------------------------------------------------------------
def twin(s, x):
    """The same spec with some numbers, aliases and containers respelled."""
    if isinstance(x, dict):
        return {k: twin(s, v) for k, v in x.items()}
    if not isinstance(x, list):
        return x
    if len(x) == 2 and x[0] == "int" and isinstance(x[1], int) and abs(x[1]) < 2**53:
        k = s.below(6)
        if k == 3:
            return ["float", repr(float(x[1]))]
        if k >= 4 and x[1] in (0, 1):
            return ["bool", x[1] == 1]
        return x
    if len(x) == 2 and x[0] == "bool" and isinstance(x[1], bool):
        return ["int", int(x[1])] if s.below(2) else x
    if len(x) == 2 and x[0] == "float" and float(x[1]) in (0.0, 1.0, 2.0):
        return ["int", int(float(x[1]))] if s.below(2) else x
    if x and x[0] == "cfn" and len(x) == 6 and s.below(3) == 2:
        y = [twin(s, v) for v in x]
        y[4] = s.choice([None, "zz", "zy"])
        return y
    return [twin(s, v) for v in x]


def gen_one(s):
    k = s.below(10)
    if k < 5:
        return {"kind": "snql", "q": G(s).query(1)}
    if k < 9:
        return {"kind": "mql", "q": mql.GQ(s).mquery()}
    cols = {s.choice(["a", "b", "id"]): s.list(lambda: s.choice([1, 2, "x", True]), 1, 4) for _ in range(2)}
    return {"kind": "delete", "q": cols}


def gen(s):
    items = []
    for _ in range(s.size(1, 3, 0.5)):
        a = gen_one(s)
        items.append(a)
        if a["kind"] == "snql" and s.bool(0.7):
            q = dict(a["q"])
            # respell expressions only: the match decides which columns are valid
            for f in ("select", "groupby", "where", "having", "orderby"):
                if q.get(f):
                    if a["q"]["match"][0] == "query" and f == "select":
                        continue
                    q[f] = twin(s, q[f])
            items.append({"kind": "snql", "q": q, "twin": True})
        elif a["kind"] == "mql" and s.bool(0.5):
            q = dict(a["q"])
            q["query"] = q["query"][:4] + [twin(s, q["query"][4]), q["query"][5]]
            items.append({"kind": "mql", "q": q, "twin": True})
    n = len(items)
    ops = []
    for _ in range(s.int(n + 1, 3 * n + 3)):
        k = s.below(12)
        i = s.below(n)
        if k < 6:
            ops.append(["ser", i])
        elif k < 7:
            ops.append(["print", i])
        elif k < 8:
            ops.append(["request", i])
        elif k < 9:
            ops.append(["validate", i])
        elif k < 10:
            ops.append(["fail", s.choice(["column", "join", "mql", "bytes", "op", "text", "select"])])
        elif k < 11:
            j = s.below(6)
            if j >= 4:
                ops.append(["variant", [i, s.below(1 << 30)]])
            elif j == 0:
                ops.append(["rebuild", i])
            elif j == 1:
                ops.append(["parse", s.below(1 << 30)])
            else:
                ops.append(["derive", [i, s.choice(["limit", "offset", "both"]), s.choice([1, 3, 77, 10000])]])
        else:
            ops.append(["repr", i])
    for i in range(n):
        ops.append(["ser", i])
    return {"items": items, "ops": ops}


def make(it):
    if it["kind"] == "snql":
        return build.query(it["q"])
    if it["kind"] == "mql":
        return mql.b_mquery(it["q"])
    return DeleteQuery("events", {k: list(v) for k, v in it["q"].items()})


def failing(kind):
    """A query whose serialization fails half way through."""
    from snuba_sdk import Condition, Entity, Formula, Join, Metric, Op, Relationship, Rollup, Timeseries

    e, t = Entity("events", "e"), Entity("spans", "t")
    roll = {"interval": 60, "totals": None, "orderby": None, "granularity": 60}
    from props.c11 import CTX

    def ts(conds):
        mq = mql.b_mquery({**CTX, "rollup": roll, "query": ["ts", {"public": "foo", "mri": None, "id": None}, "sum", None, None, None]})
        return mq.set_query(Timeseries(Metric("foo"), "sum", None, conds))

    return {
        "column": lambda: Query(Join([Relationship(e, "has", t)])).set_select([Column("a")]),
        "join": lambda: Query(Join([Relationship(e, "has", t)])).set_select(
            [Column("a", e), build.expr(["fn", "concat", [["bytes", "ff"]], None, "list"])]
        ),
        "mql": lambda: ts([Condition(Column("a"), Op.GT, 1)]),
        "bytes": lambda: Query(Entity("events")).set_select(
            [Column("a"), build.expr(["fn", "concat", [["bytes", "ff"]], None, "list"])]
        ),
        "op": lambda: ts([Condition(Column("a"), Op.EQ, b"\xff")]),
        "text": lambda: ts(None).set_query("sum("),
        "formula": lambda: ts(None).set_query(Formula("plus", [1, 2])),
        "groups": lambda: ts(None).set_query("sum(foo) by a + sum(bar) by b"),
        "rollup": lambda: ts(None).set_rollup(Rollup(60)),
        "select": lambda: Query(Entity("events")),
    }[kind]()


def provoke(kind):
    try:
        failing(kind).serialize()
    except Exception:
        return
    # some of these may become valid one day; only the failure is not required


def provoke_parse(n):
    """Some parse between two serializations."""
    from lib import mqltext
    from snuba_sdk.mql.mql import parse_mql

    t = mqltext.text(mqltext.GT(Source(random.Random(n))).t_expr(1, True))
    try:
        parse_mql(t[: 3 + n % 40] if n % 3 == 0 else t)
    except Exception:
        return


def variant(q, n):
    """A similar query, which may be invalid, is judged and sent on its own merits."""
    s = Source(random.Random(n))
    v = json.loads(json.dumps(q))
    for _ in range(s.int(1, 2)):
        if v["match"][0] in ("entity", "storage") and s.bool(0.5):
            names = [c[1].split("[")[0] for c in columns(v)] + ["zzz"]
            cols = s.sample(sorted(set(names)), s.int(1, len(set(names))))
            v["match"][1]["model"] = {"cols": [[c, False] for c in cols], "time": "timestamp"} if s.bool(0.9) else None
        else:
            c08.mutate_once(s, G(s), v)
    c08.check({"q": v})


def expected(it, out):
    """Does this output say what the item says?"""
    if it["kind"] == "snql":
        compare_query(it["q"], read_snql(out), out)
    elif it["kind"] == "mql":
        x = it["q"]["query"]
        got = mql.read_mql(out["mql"])
        if not any(deep_eq(got, mql.m_mql(y)) for y in (mql.collapsed_mql(x), x)):
            raise Violation(
                "after this history the MQL text does not say what the query says"
                f"\ngot:  {short(got)}\nwant: {short(mql.m_mql(x))}\ntext: {short(out['mql'])}"
            )
        require("context", out["mql_context"], mql.m_context(it["q"]))
    else:
        require("delete body", out, {"columns": it["q"]})


def copy_of(v):
    return json.loads(json.dumps(v)) if not isinstance(v, str) else v


def check(spec):
    items = spec["items"]
    if spec.get("hash"):
        if hash_seeds(items) is not None:
            raise Violation("serialization depends on the hash seed of the process")
        return
    objs = [make(it) for it in items]
    before = [repr(o) for o in objs]
    first = {}

    def same(key, val, why):
        if key in first:
            if not deep_eq(first[key], val):
                raise Violation(
                    f"{why} of the same query differs\nfirst: {short(first[key])}\nnow:   {short(val)}"
                )
        else:
            first[key] = val

    for op, i in spec["ops"]:
        if op == "fail":
            provoke(i)
            continue
        if op == "parse":
            provoke_parse(i)
            continue
        if op == "variant":
            it = items[i[0]]
            if it["kind"] == "snql":
                variant(it["q"], i[1])
            continue
        if op == "derive":
            # another query made of the very same parts
            i, f, v = i
            it, o = items[i], objs[i]
            if it["kind"] != "delete":
                q = dict(it["q"])
                if f != "offset":
                    o, q["limit"] = o.set_limit(v), v
                if f != "limit":
                    o, q["offset"] = o.set_offset(v), v
                expected({**it, "q": q}, copy_of(o.serialize()))
            continue
        it, o = items[i], objs[i]
        if op == "ser":
            out = copy_of(o.serialize())
            if ("ser", i) not in first:
                expected(it, out)
            same(("ser", i), out, "serialize()")
        elif op == "rebuild":
            out = copy_of(make(it).serialize())
            if ("ser", i) not in first:
                expected(it, out)
            same(("ser", i), out, "serialize()")
        elif op == "print":
            same(("print", i), o.print(), "print()")
        elif op == "request":
            r = Request("events", "app", o, Flags(), "api", {"org": 1})
            same(("request", i), copy_of(r.to_dict()), "Request.to_dict()")
        elif op == "validate":
            o.validate()
        elif op == "repr":
            same(("repr", i), repr(o), "repr()")
        for j, p in enumerate(objs):
            if repr(p) != before[j]:
                raise Violation(
                    f"{op} changed a query\nbefore: {short(before[j])}\nafter:  {short(repr(p))}"
                )


def nontrivial(spec):
    out = []
    if any(it.get("twin") for it in spec["items"]):
        out.append("twin")
    last = {}
    for n, (op, i) in enumerate(spec["ops"]):
        if op in ("ser", "rebuild"):
            if i in last and n - last[i] > 1:
                out.append("repeated")
            last[i] = n
    if any(op == "derive" for op, _ in spec["ops"]):
        out.append("shared parts")
    if any(op == "variant" for op, _ in spec["ops"]):
        out.append("valid or invalid variant")
    if any(op == "fail" for op, _ in spec["ops"]):
        out.append("failure in between")
    return sorted(set(out)) or None


# -- hash seeds ------------------------------------------------------------
def digest():
    """One line per item read from stdin; run in a separate process."""
    for it in json.load(sys.stdin):
        try:
            o = make(it)
            out = [o.serialize(), o.print(), Request("events", "app", o, Flags(), "api", {}).to_dict()]
        except Exception as e:
            out = [type(e).__name__]
        print(hashlib.sha256(json.dumps(out).encode()).hexdigest())


def hash_seeds(items):
    """The index of an item whose output depends on the hash seed, or None."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = f"import sys; sys.path[:0]=[{here!r}, '/repo']; from props import c06; c06.digest()"
    data = json.dumps(items).encode()
    outs = []
    for n, h in enumerate(("0", "1", "12345", "999")):
        p = subprocess.run(
            [sys.executable, "-B", "-c", code],
            env=dict(os.environ, PYTHONHASHSEED=h, TZ=TIME_ZONES[n]), input=data, capture_output=True, timeout=500,
        )  # fmt: skip
        if p.returncode != 0:
            raise HarnessError(p.stderr.decode()[-2000:])
        outs.append(p.stdout.decode().split())
    for i in range(len(items)):
        if len({o[i] for o in outs}) > 1:
            return i
    return None


def extra(tier, seed):
    n = 300 if tier == "quick" else 5000
    items = [gen_one(Source(random.Random(f"hash/{seed}/{i}"))) for i in range(n)]
    bad = hash_seeds(items)
    viol = []
    if bad is not None:
        viol.append(
            {
                "spec": {"items": [items[bad]], "ops": [], "hash": True},
                "message": "serialization depends on the hash seed of the process: "
                + short(items[bad]),
            }
        )
    return {
        "notes": [f"{n} queries serialized in 4 processes with different hash seeds: "
                  f"{'equal' if not viol else 'DIFFERENT'} outputs"],  # fmt: skip
        "violations": viol,
        "counts": {"hash seed runs": 4 * n},
    }
