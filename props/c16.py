"""C16: a delete request deletes exactly what its conditions say, or is rejected."""
import json

from lib.common import require, short
from lib.engine import Violation
from lib.gen import G
from snuba_sdk import DeleteQuery, Request
from snuba_sdk.delete_query import InvalidDeleteQueryError

ID = "C16"
COUNT = {"quick": 50000, "thorough": 300000}
RULE = (
    "Delete queries over generated storages and conditions (any number of columns and values, "
    "strings with quotes, escapes, line breaks and any unicode, ints of any size, empty lists, "
    "no conditions) are sent, alone and one after another in one Request sequence. The body must "
    "contain exactly the given columns and values, in order and with their types, and nothing "
    "else; a query without conditions, or with a column without values, must always be "
    "rejected; the given conditions are never modified. Non-trivial: at least two columns, or "
    "an empty list somewhere."
)
ASSUMPTIONS = ["column_conditions is a dict of lists of str and int"]


def gen(s):
    g = G(s)

    def one():
        cols = []
        for _ in range(s.size(0 if s.below(6) == 5 else 1, 5)):
            k = g.colname() if s.below(4) < 3 else g.string()

            def v():
                return ["int", g.integer()] if s.bool() else ["str", g.string()]

            lo = 0 if s.below(6) == 5 else 1
            cols.append([k, s.list(v, lo, 6) if s.below(15) < 14 else s.many(v, s.int(10, 40))])
        return {"storage": g.entname(), "cols": cols}

    return {"qs": [one() for _ in range(s.size(1, 3, 0.3))], "tenants": s.below(3)}


def conditions(q):
    return {k: [x[1] for x in vs] for k, vs in q["cols"]}


def rejected(fn, what):
    try:
        out = fn()
    except InvalidDeleteQueryError:
        return
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}")
    raise Violation(f"{what} accepted a delete without conditions: {short(repr(out))}")


def check(spec):
    objs = []
    for q in spec["qs"]:
        given = conditions(q)
        objs.append((q, given, DeleteQuery(q["storage"], given)))
    for _ in range(2):
        for q, given, d in objs:
            want = conditions(q)
            r = Request("events", "app", d, tenant_ids={"org": spec["tenants"]})
            if not want or any(not v for v in want.values()):
                for what, fn in (
                    ("DeleteQuery.validate()", d.validate),
                    ("DeleteQuery.serialize()", d.serialize),
                    ("Request.validate()", r.validate),
                    ("Request.to_dict()", r.to_dict),
                    ("Request.serialize()", r.serialize),
                    ("Request.print()", r.print),
                    ("str(request)", r.__str__),
                ):
                    rejected(fn, what)
            else:
                d.validate()
                require("DeleteQuery.serialize()", d.serialize(), {"columns": want})
                for what, body in (
                    ("to_dict()", r.to_dict()),
                    ("serialize()", json.loads(r.serialize())),
                    ("print()", json.loads(r.print())),
                ):
                    require(
                        f"Request.{what}",
                        body,
                        {
                            "query": {"columns": want},
                            "app_id": "app",
                            "tenant_ids": {"org": spec["tenants"]},
                            "parent_api": "<unknown>",
                        },
                    )
                require("order of the columns", list(r.to_dict()["query"]["columns"]), list(want))
            require("the given conditions were modified", given, want)
            require("the query's conditions were modified", d.column_conditions, want)
            require("storage", d.storage_name, q["storage"])
            shown = d.print()
            if repr(q["storage"]) not in shown or repr(want) not in shown:
                raise Violation(f"print() does not show the storage and conditions: {short(shown)}")


def nontrivial(spec):
    out = []
    for q in spec["qs"]:
        c = conditions(q)
        if not c:
            out.append("no conditions")
        elif any(not v for v in c.values()):
            out.append("empty values")
        elif len(c) >= 2:
            out.append("several columns")
    return out or None
