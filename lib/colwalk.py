"""Walking query specs: which expressions stand where."""
from __future__ import annotations

EXPR_FIELDS = ("select", "groupby", "array_join")
LITERALS = {"null", "bool", "int", "float", "str", "bytes", "date", "dt"}


def walk_any(x, visit, place):
    """visit(node, place) for every expression and literal in x, outermost first."""
    visit(x, place)
    k = x[0]
    if k in ("list", "tuple"):
        for v in x[1]:
            walk_any(v, visit, "array")
    elif k == "fn":
        for v in x[2] or []:
            walk_any(v, visit, "param")
    elif k == "cfn":
        for v in x[2] or []:
            walk_any(v, visit, "init")
        for v in x[3] or []:
            walk_any(v, visit, "param")
    elif k == "lambda":
        walk_any(x[2], visit, "lambda")
    elif k == "aliased":
        walk_any(x[1], visit, "aliased")


def walk_cond(c, visit, place):
    if c[0] == "bool":
        for x in c[2]:
            walk_cond(x, visit, place)
        return
    walk_any(c[1], visit, place)
    if c[3] is not None:
        walk_any(c[3], visit, "rhs")


def walk_query(q, visit):
    """Every expression of this query itself (not of a subquery)."""
    for f in EXPR_FIELDS:
        for x in q.get(f) or []:
            walk_any(x, visit, f)
    for f in ("where", "having"):
        for c in q.get(f) or []:
            walk_cond(c, visit, f)
    for o in q.get("orderby") or []:
        walk_any(o[1], visit, "orderby")
    if q.get("limitby"):
        for x in q["limitby"]["cols"]:
            walk_any(x, visit, "limitby")


def columns(q):
    out = []

    def visit(x, place):
        if x[0] == "col":
            out.append(x)

    walk_query(q, visit)
    return out


def levels(q):
    """The query and its subqueries, outermost first."""
    out = [q]
    while out[-1]["match"][0] == "query":
        out.append(out[-1]["match"][1])
    return out


def base(name):
    return name.split("[")[0]


def why_invalid(q):
    """None if the query is valid, else the reason."""
    m = q["match"]
    if m[0] == "query":
        r = why_invalid(m[1])
        if r:
            return f"inner query: {r}"
    if not q.get("select"):
        return "no select"
    if q.get("totals") is True and not q.get("groupby"):
        return "totals without groupby"
    cols = columns(q)
    if m[0] in ("entity", "storage"):
        model = m[1]["model"]
        if model is not None:
            known = {c for c, _ in model["cols"]}
            for c in cols:
                if base(c[1]) not in known:
                    return f"column {c[1]} is not in the data model"
    elif m[0] == "join":
        names = {}
        for a, _, b in m[1]:
            names[a["alias"]] = a["name"]
            names[b["alias"]] = b["name"]
        for c in cols:
            if c[2] is None:
                return f"column {c[1]} is not qualified"
            if names.get(c[2]["alias"]) != c[2]["name"]:
                return f"column {c[1]} is qualified by an unknown entity"
    else:
        known = set()
        for e in m[1]["select"]:
            if e[0] == "col":
                known.add(e[1])
            elif e[0] == "fn":
                known.add(e[3])
            elif e[0] == "cfn":
                known.add(e[4])
        for c in cols:
            if c[1] not in known:
                return f"column {c[1]} is not selected by the subquery"
    return None
