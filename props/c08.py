"""C08: a query is serialized exactly when it is valid for its match clause."""
import copy

from lib import build
from lib.colwalk import LITERALS, columns, levels, walk_query, why_invalid
from lib.common import compare_query, query_labels, read_snql, short
from lib.engine import Violation
from lib.gen import COLUMN_NAME, ENT_ALIASES, RESERVED, G, near_name
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.query_validation import InvalidMatchError
from snuba_sdk.query_visitors import InvalidQueryError

ID = "C08"
COUNT = {"quick": 32000, "thorough": 200000}
RULE = (
    "Valid queries (entity and storage with and without a data model, joins, subqueries to "
    "depth two) are generated and then changed in up to three places at any level: a column "
    "anywhere (select, groups, conditions, array items, initializers, parameters, lambdas, "
    "limit by, ...) renamed, requalified or put in place of a literal; select emptied; "
    "totals switched on; the subquery's select changed; a data model added. An independent "
    "validity predicate decides; validate(), serialize(), print() and construction must "
    "agree with it. Non-trivial: the query was changed, or its match is not a plain entity."
)
ASSUMPTIONS = ["columns are individually valid (C07)"]
ERRORS = (InvalidQueryError, InvalidMatchError, InvalidExpressionError)


def functions(q):
    """Names and aliases of the functions a query selects."""
    out = []
    for e in q["select"] or []:
        if e[0] in ("fn", "cfn"):
            out += [n for n in (e[1], e[-2]) if n and COLUMN_NAME.match(n) and n not in RESERVED]
        elif e[0] == "aliased" and e[2] and COLUMN_NAME.match(e[2]) and e[2] not in RESERVED:
            out.append(e[2])
    return out


def mutate_once(s, g, q):
    lv = levels(q)
    t = s.choice(lv)
    k = s.below(12)
    if k < 4:
        cols = columns(t)
        if not cols:
            return
        c = s.choice(cols)
        j = s.below(5)
        if t["match"][0] == "join":
            if j == 0:
                c[2] = None
            elif j == 1 and c[2]:
                alias = near_name(s, c[2]["alias"]) if s.below(3) == 2 else s.choice(ENT_ALIASES)
                c[2] = {**c[2], "alias": alias, "model": None}
            elif j == 2 and c[2]:
                name = near_name(s, c[2]["name"]) if s.bool() else g.entname()
                c[2] = {**c[2], "name": name, "model": None}
            elif j == 3:
                ents = [e for a, _, b in t["match"][1] for e in (a, b)]
                c[2] = {**s.choice(ents), "model": None}
            elif c[2]:
                c[2] = {**c[2], "sample": None, "model": None}
        elif t["match"][0] == "query" and j < 2:
            # something the subquery uses, but maybe does not select
            inner = [x[1] for x in columns(t["match"][1])] + functions(t["match"][1])
            c[1] = s.choice(inner or [c[1]])
        elif j == 2 and s.bool(0.4):
            e = {"name": g.entname(), "alias": s.choice(ENT_ALIASES), "sample": None, "model": None}
            c[1], c[2] = s.choice([c[1], "zzz", "title", "a"]), e
        elif j < 3:
            c[1] = s.choice(["zzz", "a", "title", "tags[zz]", "timestamp", "cnt", "a[b]"])
        elif j == 3:
            c[1] = c[1].split("[")[0] + s.choice(["", "_", "[q]"])
            if s.below(3) == 2:
                name = near_name(s, c[1].split("[")[0])
                c[1] = name if COLUMN_NAME.match(name) and name not in RESERVED else c[1]
        else:
            c[1] = s.choice(cols)[1]
            c[2] = None
    elif k < 8:
        spots = []

        def visit(x, place):
            if x[0] in LITERALS:
                spots.append(x)

        walk_query(t, visit)
        if not spots:
            return
        x = s.choice(spots)
        if s.bool(0.4) and columns(t):
            new = copy.deepcopy(s.choice(columns(t)))
        else:
            new = ["col", s.choice(["zzz", "a", "title", "b"]), None]
        x[:] = new
    elif k < 9:
        t["select"] = s.choice([[], None]) if s.bool(0.6) else (t["select"] or [])[:1]
    elif k < 10:
        t["totals"] = True
        if s.bool(0.5):
            t["groupby"] = s.choice([None, []])
    elif k < 11 and len(lv) > 1:
        inner = s.choice(lv[1:])
        if inner["select"]:
            i = s.below(len(inner["select"]))
            e = inner["select"][i]
            if e[0] in ("fn", "cfn") and s.bool(0.5):
                e[-2] = s.choice([None, "other"])
            elif e[0] == "col" and s.bool(0.5):
                inner["select"][i] = ["aliased", e, s.choice(["x", "a", None])]
            elif len(inner["select"]) > 1:
                inner["select"].pop(i)
    elif t["match"][0] in ("entity", "storage"):
        m = g.model(1.0)
        t["match"][1]["model"] = m


def gen(s):
    g = G(s)
    q = copy.deepcopy(g.query(s.choice([0, 1, 2])))
    n = 0
    if s.bool(0.75):
        n = s.size(1, 3, 0.3)
        for _ in range(n):
            mutate_once(s, g, q)
    spec = {"q": q, "changed": n}
    if s.below(4) == 3:
        spec["post"] = [q]
        for _ in range(s.size(1, 3, 0.4)):
            spec["post"].append(settle(s, g, spec["post"][-1]))
        spec["post"].pop(0)
    return spec


LISTS = ("select", "groupby", "array_join", "where", "having", "orderby")


def settle(s, g, q):
    """The query after a change that can be made to the lists it holds."""
    new = copy.deepcopy(q)
    mutate_once(s, g, new)
    if s.below(3) == 2:
        t = s.choice(levels(new))
        f = s.choice([f for f in LISTS if t.get(f)] or ["select"])
        if t.get(f):
            k = s.below(3)
            i = s.below(len(t[f]))
            t[f] = t[f][:i] + t[f][i + 1 :] if k == 0 else t[f] + [t[f][i]] if k == 1 else t[f][::-1]
    a, b = levels(q), levels(new)
    for x, y in zip(a, b):
        for f in x:
            if f == "match":
                if x["match"][0] != "query":
                    y["match"] = copy.deepcopy(x["match"])
            elif f not in LISTS or x[f] is None or y.get(f) is None:
                y[f] = copy.deepcopy(x[f])
    return new


def change(obj, q):
    """Give the lists that obj and its subqueries hold the contents that q says."""
    while True:
        for f in LISTS:
            have = getattr(obj, f)
            if have is not None and q.get(f) is not None:
                have[:] = build.field(q, f)
        if q["match"][0] != "query":
            return
        obj, q = obj.match, q["match"][1]


def attempt(fn, what):
    try:
        return True, fn()
    except ERRORS as e:
        return False, e
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}")


def check(spec):
    q = spec["q"]
    why = why_invalid(q)
    ok, obj = attempt(lambda: build.query(q), "Query()")
    if not ok:
        if why is None:
            raise Violation(f"a valid query could not be built: {type(obj).__name__}: {obj}")
        if q["match"][0] != "query" or why_invalid(q["match"][1]) is None:
            raise Violation(f"a query was rejected before it was complete: {obj}")
        return
    if q["match"][0] == "query" and why_invalid(q["match"][1]):
        raise Violation(f"Query() accepted an invalid inner query ({why})")
    judge(obj, q, why)
    for p in spec.get("post", []):
        change(obj, p)
        judge(obj, p, why_invalid(p), " after a change to its lists")


def judge(obj, q, why, when=""):
    for name in ("validate", "serialize", "print"):
        ok, out = attempt(getattr(obj, name), f"{name}()")
        if ok and why is not None:
            raise Violation(f"{name}() accepted an invalid query{when}: {why}\n{short(repr(obj))}")
        if not ok and why is None:
            raise Violation(f"{name}() rejected a valid query{when}: {type(out).__name__}: {out}\n{short(repr(obj))}")
        if ok and name == "serialize":
            compare_query(q, read_snql(out), out)


def nontrivial(spec):
    why = why_invalid(spec["q"])
    if why:
        for w in ("inner query", "data model", "qualified by", "not qualified", "subquery", "select", "totals"):
            if w in why:
                return [f"invalid: {w}"]
    out = []
    if spec["changed"]:
        out.append("valid after a change")
    if spec["q"]["match"][0] != "entity" or spec["q"]["match"][1]["model"]:
        out.append("valid: " + spec["q"]["match"][0])
    return out or None
