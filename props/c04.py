"""C04: print() shows the query that serialize() sends."""
import json

from lib import build, mql
from lib.common import compare_query, deep_eq, query_labels, read_snql, require, short
from lib.engine import Violation
from lib.gen import G
from snuba_sdk import Flags, Request

ID = "C04"
SHARE = True
COUNT = {"quick": 14000, "thorough": 100000}
RULE = (
    "Generated SnQL queries, metrics queries and requests are printed: the printed SnQL, "
    "read by the independent reader, must be the generated query (with its WHERE as "
    "written); the printed metrics query and request must be JSON of the same text and "
    "context; str() must equal the serialized form. Non-trivial: as C01, or a metrics query "
    "with filters, groups or a formula."
)
ASSUMPTIONS = ["print() shows filters before OR-ed equalities are collapsed (see C03)"]


def gen(s):
    k = s.below(10)
    if k < 5:
        spec = {"kind": "snql", "q": G(s).query(2)}
    else:
        spec = {"kind": "mql", "q": mql.GQ(s).mquery()}
    spec["flags"] = [s.choice([None, None, True, False]) for _ in range(6)]
    spec["parent"] = s.choice(["<unknown>", "api", "it's"])
    return spec


def js(text, what):
    try:
        return json.loads(text)
    except ValueError as e:
        raise Violation(f"{what} is not JSON: {e}\n{short(text)}")


def check(spec):
    if spec["kind"] == "snql":
        q = build.query(spec["q"])
        text = q.print()
        compare_query(spec["q"], read_snql(text), text, collapsed=False)
        require("str(query) is not the serialized query", str(q), q.serialize())
    else:
        q = mql.b_mquery(spec["q"])
        for name, text in (("print()", q.print()), ("str()", str(q))):
            out = js(text, name)
            require(f"{name}: keys", sorted(out), ["mql", "mql_context"])
            got = mql.read_mql(out["mql"])
            require(f"{name}: query", got, mql.m_mql(spec["q"]["query"]), text=out["mql"])
            want = json.loads(json.dumps(mql.m_context(spec["q"])))
            require(f"{name}: context", out["mql_context"], want)
    r = Request("events", "app", q, Flags(*spec["flags"]), spec["parent"], {"org": 1})
    sent = js(r.serialize(), "serialize()")
    require("Request.print() differs from what is sent", js(r.print(), "print()"), sent)
    require("str(request) differs from serialize()", str(r), r.serialize())
    require("serialize_mql() differs from serialize()", js(r.serialize_mql(), "serialize_mql()"), sent)


def nontrivial(spec):
    if spec["kind"] == "snql":
        labels = query_labels(spec["q"])
        return labels if len(labels) >= 2 else None
    return mql.mql_labels(spec["q"]["query"]) or None
