"""C20: the parts of a metrics query can be built exactly when they are valid."""
from lib import mql
from lib.common import short
from lib.engine import Violation
from lib.vals import GV, is_kind, val
from snuba_sdk import Formula, Metric, MetricsScope, Rollup, Timeseries
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.timeseries import InvalidTimeseriesError

ID = "C20"
SHARE = True
COUNT = {"quick": 200000, "thorough": 1200000}
RULE = (
    "Metric, Timeseries, Rollup, MetricsScope and Formula are built from generated arguments: "
    "valid ones with up to two replaced by values at the limits or of any other type, and "
    "formula trees to depth three with groups, operands and nesting changed. An independent "
    "predicate decides; construction and validate() must agree with it, keep every argument as "
    "given, and fail only with the SDK's errors. Non-trivial: an argument was replaced, or a "
    "formula is nested or grouped."
)
ASSUMPTIONS = [
    "bool where an int is expected is left open",
    "groupings are consistent when those that are given are the same list (no groups given is consistent with any)",
    "filters and groups given to Formula() directly have the right types",
]
ERRORS = (InvalidExpressionError, InvalidTimeseriesError)
LITERAL = ("null", "bool", "int", "float", "str", "bytes", "date", "dt")
OPEN = "open"


def gen_args(s, g, cls):
    if cls == "Metric":
        m = g.metric()
        return {
            "public_name": ["str", m["public"]] if m["public"] is not None else ["null"],
            "mri": ["str", m["mri"]] if m["mri"] is not None else ["null"],
            "id": ["int", m["id"]] if m["id"] is not None else ["null"],
        }
    if cls == "Timeseries":
        t = g.ts()

        def lst(x):
            return ["null"] if x is None else ["list", x]

        return {
            "metric": ["metric", t[1]], "aggregate": ["str", t[2]], "aggregate_params": lst(t[3]),
            "filters": lst(t[4]), "groupby": lst(t[5]),
        }  # fmt: skip
    if cls == "Rollup":
        r = g.rollup()
        if s.below(4) == 3:
            r["granularity"] = None
        return {
            "interval": ["int", r["interval"]] if r["interval"] is not None else ["null"],
            "totals": ["bool", r["totals"]] if r["totals"] is not None else ["null"],
            "orderby": ["dir", r["orderby"]] if r["orderby"] else ["null"],
            "granularity": ["int", r["granularity"]] if r["granularity"] else ["null"],
        }
    x = g.scope()
    return {
        "org_ids": ["list", [["int", i] for i in x["org_ids"]]],
        "project_ids": ["list", [["int", i] for i in x["project_ids"]]],
        "use_case_id": ["str", x["use_case_id"]] if x["use_case_id"] is not None else ["null"],
    }


def near(s, g, cls, f, args):
    """A value at the edge of what the argument allows."""
    if f in ("interval", "granularity"):
        return ["int", s.choice([10, 60, 3600, 86400, 9, 11, 59, 61, 3599, 0, -10, 7200, 600, 1, 100])]
    if f in ("totals",):
        return ["bool", s.bool()]
    if f == "orderby":
        return ["dir", s.choice(["ASC", "DESC"])]
    v = args[f]
    if v[0] == "list" and v[1] and s.bool(0.7):
        at = s.below(len(v[1]) + 1)
        return ["list", v[1][:at] + [g.junk()] + v[1][at:]]
    if v[0] == "list":
        ints = all(i[0] == "int" for i in v[1])
        return [s.choice(["tuple", "set"]) if ints else "tuple", v[1]]
    return ["null"]


def all_groups(x, out):
    if x[0] in ("ts", "formula"):
        out.append(x)
        if x[0] == "formula" and isinstance(x[2], list):
            for p in x[2]:
                all_groups(p, out)
    return out


def gen(s):
    g = GV(s)
    cls = s.choice(["Metric", "Timeseries", "Timeseries", "Rollup", "Rollup", "MetricsScope", "Formula",
                    "Formula"])  # fmt: skip
    if cls == "Formula":
        f = g.formula(s.choice([0, 1, 2, 3]))
        n = s.choice([0, 1, 1, 2])
        for _ in range(n):
            nodes = all_groups(f, [])
            t = s.choice(nodes)
            k = s.below(8)
            if k < 3:
                have = [x[5] for x in nodes if x[5]]
                if have and s.bool(0.6):
                    # nearly the groups of another part
                    new = list(s.choice(have))
                    j = s.below(6)
                    if j < 2:
                        new = new[::-1]
                    elif j < 3:
                        new = new + [s.choice(new)]
                    elif j < 4:
                        new = new[: s.below(len(new))]
                    elif j < 5:
                        new = new + [["col", s.choice(["a", "b", "tags[x]"]), None]]
                    else:
                        new = [["aliased", x, "z"] if x[0] == "col" else x[1] for x in new]
                else:
                    new = g.mgroupby(0.9, aliased=True)
                t[5] = new
            elif k < 4:
                t[5] = None if s.bool() else [["col", "a", None], ["col", "b", None]][: s.int(1, 2)]
            else:
                forms = [x for x in nodes if x[0] == "formula"]
                t = s.choice(forms)
                if k < 6 and isinstance(t[2], list) and t[2]:
                    t[2] = list(t[2])
                    t[2][s.below(len(t[2]))] = g.junk() if s.bool() else g.mnumber()
                elif k < 7:
                    t[2] = s.choice([None, [], [["int", 1]], [["int", 1], ["float", "2.0"]]])
                else:
                    t[1] = s.choice([None, 5, "plus", ["a"]])
        return {"cls": cls, "f": f, "n": n}
    args = gen_args(s, g, cls)
    n = s.choice([0, 1, 1, 1, 2])
    for _ in range(n):
        f = s.choice(sorted(args))
        args[f] = near(s, g, cls, f, args) if s.bool() else g.junk()
    return {"cls": cls, "args": args, "n": n}


# ---------------------------------------------------------------------------
def opt(x, *kinds):
    return x[0] == "null" or is_kind(x, *kinds)


def valid(cls, a):
    """True, False or OPEN."""
    if cls == "Metric":
        if not opt(a["public_name"], "str") or not opt(a["mri"], "str") or not opt(a["id"], "int", "bool"):
            return False
        if a["public_name"][0] == "null" and a["mri"][0] == "null":
            return False
        return OPEN if is_kind(a["id"], "bool") else True
    if cls == "Timeseries":
        if not is_kind(a["metric"], "metric") or not is_kind(a["aggregate"], "str"):
            return False
        for f, kinds in (
            ("aggregate_params", LITERAL),
            ("filters", ("cond", "boolcond")),
            ("groupby", ("col", "aliased")),
        ):
            v = a[f]
            if v[0] == "null":
                continue
            if v[0] != "list" or not all(is_kind(i, *kinds) for i in v[1]):
                return False
        return True
    if cls == "Rollup":
        i, t, o, g = a["interval"], a["totals"], a["orderby"], a["granularity"]
        if not opt(i, "int") or not opt(t, "bool") or not opt(o, "dir") or not opt(g, "int"):
            return False
        if g[0] == "int" and g[1] not in (10, 60, 3600, 86400):
            return False
        if i[0] == "int" and (i[1] < 10 or (g[0] == "int" and i[1] < g[1])):
            return False
        if i[0] == "null" and t[0] == "null":
            return False
        return not (i[0] == "int" and o[0] == "dir")
    open_ = False
    for f in ("org_ids", "project_ids"):
        v = a[f]
        if v[0] != "list":
            return False
        for i in v[1]:
            if is_kind(i, "bool"):
                open_ = True
            elif not is_kind(i, "int"):
                return False
    if not opt(a["use_case_id"], "str"):
        return False
    return OPEN if open_ else True


def build_formula(x):
    if x[0] != "formula":
        return val(x)
    from lib import build

    params = x[2] if x[2] is None else [build_formula(p) for p in x[2]]
    return Formula(x[1], params, mql.b_params(x[3]), build.conds(x[4]), build.exprs(x[5]))


def valid_formula(f):
    open_ = False
    for t in all_groups(f, []):
        if t[0] != "formula":
            continue
        if not isinstance(t[1], str) or t[2] is None:
            return False
        for p in t[2]:
            if is_kind(p, "bool"):
                open_ = True
            elif not is_kind(p, "ts", "formula", "int", "float"):
                return False
    nodes = all_groups(f, [])
    if not any(t[0] == "ts" for t in nodes):
        return False
    gs = [t[5] for t in nodes if t[5] is not None]
    if any(g != gs[0] for g in gs):
        return False
    return OPEN if open_ else True


def run(fn, what):
    try:
        return True, fn()
    except ERRORS as e:
        return False, e
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}")


CLASSES = {"Metric": Metric, "Timeseries": Timeseries, "Rollup": Rollup, "MetricsScope": MetricsScope}


def judge(ok, want, what, detail):
    if want is OPEN:
        return
    if ok and not want:
        raise Violation(f"{what} accepted an invalid value: {short(detail)}")
    if not ok and want:
        raise Violation(f"{what} rejected a valid value: {short(detail)}")


def check(spec):
    if spec["cls"] == "Formula":
        f = build_formula(spec["f"])
        ok, out = run(f.validate, "Formula.validate()")
        judge(ok, valid_formula(spec["f"]), "Formula.validate()", repr(f) + ("" if ok else f": {out}"))
        return
    cls = CLASSES[spec["cls"]]
    vals = {f: val(v) for f, v in spec["args"].items()}
    ok, out = run(lambda: cls(**vals), f"{spec['cls']}()")
    judge(ok, valid(spec["cls"], spec["args"]), f"{spec['cls']}()", f"{vals!r}" + ("" if ok else f": {out}"))
    if ok:
        for f, v in vals.items():
            if getattr(out, f) is not v and getattr(out, f) != v:
                raise Violation(f"{spec['cls']}.{f} is {getattr(out, f)!r}, given {v!r}")
        out.validate()


def nontrivial(spec):
    if spec["cls"] == "Formula":
        v = valid_formula(spec["f"])
        nodes = all_groups(spec["f"], [])
        if not spec["n"] and len(nodes) < 3 and not any(t[5] for t in nodes):
            return None
    else:
        v = valid(spec["cls"], spec["args"])
        if not spec["n"]:
            return None
    return [f"{spec['cls']}: " + {True: "valid", False: "invalid", OPEN: "open"}[v]]
