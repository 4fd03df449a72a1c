"""C15: a request is sent exactly when valid, and carries exactly what it was given."""
import json
import re

from lib import build, mql
from lib.colwalk import why_invalid
from lib.common import compare_query, deep_eq, read_snql, require, short
from lib.engine import Violation
from lib.gen import G, LATER
from lib.vals import GV, is_kind, val
from snuba_sdk import DeleteQuery, Flags, Request
from snuba_sdk.delete_query import InvalidDeleteQueryError
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.metrics_query_visitors import InvalidMetricsQueryError
from snuba_sdk.query_validation import InvalidMatchError
from snuba_sdk.query_visitors import InvalidQueryError
from snuba_sdk.request import InvalidFlagError, InvalidRequestError
from snuba_sdk.timeseries import InvalidTimeseriesError

ID = "C15"
COUNT = {"quick": 32000, "thorough": 200000}
RULE = (
    "Requests over generated SnQL, metrics and delete queries, with generated dataset, app id, "
    "parent api, tenant ids and flags, some of them invalid (empty, wrong type, forbidden "
    "characters at any position, an invalid query, a flag that is no boolean). An independent "
    "predicate decides; validate(), to_dict(), serialize(), print() and str() must agree with "
    "it; the body must have exactly the expected keys and values, the query must read back as "
    "the generated one. A quarter of the requests are then changed up to three times and judged "
    "after each change. Also Flags on its own. Non-trivial: something invalid, or at least two "
    "flags set."
)
ASSUMPTIONS = ["tenant ids are JSON values; flags may also be None as a whole"]
ERRORS = (
    InvalidRequestError, InvalidFlagError, InvalidQueryError, InvalidMatchError,
    InvalidExpressionError, InvalidMetricsQueryError, InvalidTimeseriesError,
    InvalidDeleteQueryError,
)  # fmt: skip
FLAGS = ["totals", "consistent", "turbo", "debug", "dry_run", "legacy"]
NAME = re.compile(r"[a-zA-Z0-9_.+*/:\-\[\]]+\Z", re.A)
TENANT_VALUES = [
    ["int", 1], ["str", "x"], ["int", 10**18], ["str", "it's"], ["null"], ["int", 0], ["str", ""],
    ["bool", False], ["bool", True], ["float", "0.0"], ["float", "1.5"], ["int", -1], ["str", "\u00e9\n"],
]  # fmt: skip
GOOD = ["events", "transactions", "generic_metrics", "a", "a.b", "x+y", "api.v1/foo:bar", "[x]", "a-b", "A*9", "0"]


def name(s, g):
    k = s.below(10)
    if k < 5:
        return ["str", s.choice(GOOD)]
    if k < 7:
        return ["str", "".join(s.list(lambda: s.choice(LATER + ".+*/:-[]"), 1, 8))]
    if k < 9:
        t = list(s.choice(GOOD))
        i = s.below(len(t) + 1)
        t.insert(i, s.choice([" ", "\n", "'", '"', "(", ")", "\u00e9", "{", "$", "\\", "", ",", "\x00", "=", "`", "^", "|", "\u0660"]))
        return ["str", "".join(t)]
    return g.junk()


def deletes(s, g):
    out = {}
    for _ in range(s.size(0 if s.below(6) == 5 else 1, 3)):
        k = s.choice(["id", "status", "project_id", "a b", ""])
        out[k] = s.list(lambda: s.choice([1, 2, "x", "it's", 0, 10**20]), 0 if s.below(8) == 7 else 1, 4)
    return {"kind": "delete", "storage": g.entname(), "cols": out}


def gen(s):
    g = GV(s)
    k = s.below(10)
    if k < 5:
        q = {"kind": "snql", "q": G(s).query(s.choice([0, 0, 1]))}
        if s.below(8) == 7:
            q["q"]["select"] = []
    elif k < 8:
        q = {"kind": "mql", "q": g.mquery()}
        if s.below(8) == 7:
            q["drop"] = s.choice(["query", "start", "end", "rollup", "scope"])
    else:
        q = deletes(s, g)
    flags = None
    if s.bool(0.85):
        flags = {}
        for f in FLAGS:
            if s.bool(0.35):
                flags[f] = ["bool", s.bool()] if s.below(12) < 11 else g.junk()
    tenants = ["dict", []]
    if s.bool(0.8):
        tenants = [
            "dict",
            [[["str", t], s.choice(TENANT_VALUES)]
             for t in s.sample(["organization_id", "referrer", "use_case_id", "a", ""], s.below(4))],
        ]  # fmt: skip
    if s.below(12) == 11:
        tenants = g.junk()
        if is_kind(tenants, "dict"):
            tenants = ["list", []]
    parent = ["str", s.choice(["<unknown>", "api.x", "it's", "\u00e9", " ", "/api/0/"])]
    if s.below(12) == 11:
        parent = s.choice([["str", ""], ["null"], ["int", 5], ["bytes", "61"], g.junk()])
    spec = {
        "dataset": name(s, g), "app_id": name(s, g), "q": q, "flags": flags,
        "parent_api": parent, "tenant_ids": tenants,
    }  # fmt: skip
    if s.below(4) == 3:
        spec["post"] = s.list(lambda: post(s, g), 1, 3)
    return spec


def post(s, g):
    """A change of the request once it was built and used."""
    k = s.below(6)
    if k < 2:
        return ["flag", s.choice(FLAGS), s.choice([["bool", True], ["bool", False], ["null"], ["int", 1], ["str", ""]])]
    if k == 2:
        return [s.choice(["dataset", "app_id"]), name(s, g)]
    if k == 3:
        return ["parent_api", ["str", s.choice(["api.y", "", "z"])]]
    if k == 4:
        return ["q", {"kind": "snql", "q": G(s).query(0)} if s.bool() else deletes(s, g)]
    return ["tenant_ids", ["dict", [[["str", s.choice("ab")], s.choice(TENANT_VALUES)]]], s.bool()]


def apply_post(r, flags, spec, p):
    """Change the request, and return the spec it has now."""
    spec = dict(spec)
    if p[0] == "flag":
        if flags is not None:
            setattr(flags, p[1], val(p[2]))
            spec["flags"] = {**spec["flags"], p[1]: p[2]}
        return spec
    spec[p[0]] = p[1]
    if p[0] == "q":
        r.query = b_query(p[1])
    elif p[0] == "tenant_ids" and p[2] and isinstance(r.tenant_ids, dict):
        r.tenant_ids.clear()
        r.tenant_ids.update(val(p[1]))
    else:
        setattr(r, p[0], val(p[1]))
    return spec


def b_query(q):
    if q["kind"] == "snql":
        return build.query(q["q"])
    if q["kind"] == "mql":
        o = mql.b_mquery(q["q"])
        if q.get("drop"):
            from dataclasses import replace

            o = replace(o, **{q["drop"]: None})
        return o
    return DeleteQuery(q["storage"], {k: list(v) for k, v in q["cols"].items()})


def valid(spec):
    for f in ("dataset", "app_id"):
        v = spec[f]
        if not is_kind(v, "str") or not NAME.match(v[1]):
            return False
    if not is_kind(spec["parent_api"], "str") or not spec["parent_api"][1]:
        return False
    if not is_kind(spec["tenant_ids"], "dict"):
        return False
    for v in (spec["flags"] or {}).values():
        if not is_kind(v, "null", "bool"):
            return False
    q = spec["q"]
    if q["kind"] == "snql":
        return why_invalid(q["q"]) is None
    if q["kind"] == "mql":
        return not q.get("drop")
    return bool(q["cols"]) and all(q["cols"].values())


def attempt(fn, what):
    try:
        return True, fn()
    except ERRORS as e:
        return False, e
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}")


def check_body(spec, body, what):
    q = spec["q"]
    flags = {f: v[1] for f, v in (spec["flags"] or {}).items() if v[0] != "null"}
    want = {
        **flags,
        "app_id": spec["app_id"][1],
        "tenant_ids": {k[1]: val(v) for k, v in spec["tenant_ids"][1]},
        "parent_api": spec["parent_api"][1],
    }
    if q["kind"] != "delete":
        want["dataset"] = spec["dataset"][1]
    if q["kind"] == "mql":
        want["mql_context"] = mql.m_context(q["q"])
    require(f"{what}: keys of the body", sorted(body), sorted([*want, "query"]))
    for k, v in want.items():
        require(f"{what}: {k}", body[k], v)
    if q["kind"] == "snql":
        compare_query(q["q"], read_snql(body["query"]), body["query"])
    elif q["kind"] == "mql":
        got = mql.read_mql(body["query"])
        if not any(deep_eq(got, w) for w in (mql.m_mql(mql.collapsed_mql(q["q"]["query"])), mql.m_mql(q["q"]["query"]))):
            raise Violation(f"{what}: the MQL sent is not the query\ntext: {short(body['query'])}")
    else:
        require(f"{what}: query", body["query"], {"columns": q["cols"]})


def check(spec):
    flags = None if spec["flags"] is None else Flags(**{f: val(v) for f, v in spec["flags"].items()})
    args = [val(spec["dataset"]), val(spec["app_id"]), b_query(spec["q"]), flags,
            val(spec["parent_api"]), val(spec["tenant_ids"])]  # fmt: skip
    r = Request(*args)
    judge(r, flags, spec)
    for p in spec.get("post") or []:
        spec = apply_post(r, flags, spec, p)
        judge(r, flags, spec)


def judge(r, flags, spec):
    if flags is not None:
        good = all(is_kind(v, "null", "bool") for v in spec["flags"].values())
        ok, out = attempt(flags.to_dict, "Flags.to_dict()")
        if ok is not good:
            raise Violation(f"Flags.to_dict() {'accepted' if ok else 'rejected'} {flags!r}")
        if ok:
            require("Flags.to_dict()", out, {f: v[1] for f, v in spec["flags"].items() if v[0] != "null"})
    good = valid(spec)
    for name in ("validate", "to_dict", "serialize", "print", "__str__"):
        ok, out = attempt(getattr(r, name), f"{name}()")
        if ok and not good:
            raise Violation(f"{name}() accepted an invalid request: {short(repr(r))}")
        if not ok and good:
            raise Violation(f"{name}() rejected a valid request: {type(out).__name__}: {out}\n{short(repr(r))}")
        if ok and name != "validate":
            body = out if name == "to_dict" else json.loads(out)
            check_body(spec, body, name)


def nontrivial(spec):
    if not valid(spec):
        return ["invalid"]
    if len(spec["flags"] or {}) >= 2:
        return ["valid: " + spec["q"]["kind"]]
    return None
