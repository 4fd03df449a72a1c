"""C09: the required-column check passes exactly when the conditions are there."""
from lib import build
from lib.colwalk import why_invalid
from lib.common import short
from lib.engine import Violation
from lib.gen import G, MODEL_COLS
from snuba_sdk.query_validation import RequiredColumnError, validate_required_columns

ID = "C09"
SHARE = True
COUNT = {"quick": 100000, "thorough": 500000}
RULE = (
    "Entities with data models (any set of required columns, any time column), alone, in "
    "joins and under subqueries, get a WHERE that holds all the conditions the models "
    "require, nested in random ANDs and mixed with others; then conditions are dropped, "
    "given another operator, column, alias or side, wrapped in a function, or moved under "
    "an OR. validate_required_columns must raise exactly when an independent predicate "
    "finds a required condition missing. Non-trivial: some entity has a data model."
)
ASSUMPTIONS = ["the rules documented at validate_required_columns: top level ANDs only"]

ENTITY = "events"


class R(G):
    def wanted(self, e, qualify):
        """The conditions entity e requires."""
        s = self.s
        if e["model"] is None:
            return []
        # qualified only by the alias: the model is left out so that any name is allowed
        q = {**e, "model": None} if qualify and e["alias"] else None
        out = []
        for n, req in e["model"]["cols"]:
            if req:
                op = s.choice(["EQ", "IN"])
                rhs = ["int", 1] if op == "EQ" else ["list", [["int", 1], ["int", 2]]]
                if s.below(8) == 7:  # whatever the right side is, it is a condition on the column
                    rhs = s.choice([["fn", "f1", [["int", 1]], None, "list"], ["col", n, q], ["list", []],
                                    ["tuple", [["int", 1]]], ["null"], ["str", ""], ["bool", False]])  # fmt: skip
                    if op == "IN" and rhs[0] in ("null", "str", "bool"):
                        rhs = ["tuple", [rhs]]
                out.append(["cond", ["col", n, q], op, rhs])
        t = e["model"]["time"]
        out.append(["cond", ["col", t, q], "GTE", self.dt()])
        out.append(["cond", ["col", t, q], "LT", self.dt()])
        return out

    def damage(self, c, ents):
        s = self.s
        k = s.below(8)
        c = list(c)
        if k == 0:
            c[2] = s.choice(["NEQ", "GT", "LTE", "NOT_IN", "LIKE", "GTE", "LT", "EQ", "IN"])
            if c[2] in ("IN", "NOT_IN") and c[3][0] not in ("list", "tuple"):
                c[3] = ["list", [c[3]]]
        elif k == 1:
            base = c[1][1].split("[")[0]
            c[1] = ["col", s.choice(MODEL_COLS + ["zzz", base + "[x]", base.upper() + "_"]), c[1][2]]
        elif k == 2:
            e = s.choice(ents)
            c[1] = ["col", c[1][1], {**e, "model": None} if e["alias"] else None]
        elif k == 3:
            c[1] = ["fn", "toInt", [c[1]], None, "list"]
        elif k == 4 and c[3][0] not in ("list", "tuple"):
            c[1], c[3] = ["fn", "now", [], None, "list"], c[1]
        elif k == 5:
            other = ["cond", ["col", "zzz", c[1][2]], "EQ", ["int", 3]]
            return ["bool", "OR", s.choice([[c, c], [c, other], [other, c]]), s.choice(["sub", "base"])]
        elif k == 6:
            c[1] = ["col", c[1][1], None]
        else:
            return None
        return c

    def nest(self, conds):
        """Group some conditions under ANDs."""
        s = self.s
        conds = s.shuffle(conds)
        for _ in range(s.size(0, 3, 0.4)):
            if len(conds) < 2:
                break
            n = s.int(2, len(conds))
            grp = ["bool", "AND", conds[:n], s.choice(["sub", "base"])]
            conds = s.shuffle([grp] + conds[n:])
        return conds

    def where(self, ents, qualify):
        s = self.s
        conds = []
        for e in ents:
            conds += self.wanted(e, qualify)
        if s.bool(0.6) and conds:
            for _ in range(s.size(1, 3, 0.3)):
                i = s.below(len(conds))
                if conds[i] is None or conds[i][0] != "cond" or conds[i][1][0] != "col":
                    continue
                conds[i] = self.damage(conds[i], ents)
            conds = [c for c in conds if c is not None]
        for _ in range(s.below(3)):
            e = s.choice(ents)
            pool = [n for n, _ in e["model"]["cols"]] if e["model"] else MODEL_COLS
            c = ["col", s.choice(pool), {**e, "model": None} if qualify and e["alias"] else None]
            if s.below(3) == 2:
                conds.append(["bool", s.choice(["OR", "OR", "AND"]),
                              [self.cond(None, c, s.choice(["EQ", "GT"])), self.cond(None, c, "NEQ")], "sub"])  # fmt: skip
            else:
                conds.append(self.cond(None, c, s.choice(["GT", "NEQ", "IS_NULL", "LIKE"])))
        if s.below(12) == 11:
            return s.choice([None, []])
        return self.nest(conds)

    def expr(self, ctx, depth, col_p=5):
        return ["col", "zzz", None]

    def pick(self, e):
        return ["col", e["model"]["cols"][0][0] if e["model"] else "a", None]

    def model(self, p=0.3):
        m = super().model(p)
        if m and self.s.bool(0.75):
            m["time"] = self.s.choice(m["cols"])[0]
        return m

    def level(self, depth):
        s = self.s
        k = s.below(10)
        if depth > 0 and k < 3:
            inner = self.level(depth - 1)
            if why_invalid(inner):
                return inner  # an inner query has to be valid by itself (C08)
            name = inner["select"][0][1]
            e = {"name": "x", "alias": None, "sample": None, "model": self.model(0.5)}
            where = self.where([e], False)
            if s.bool(0.7):
                where = [["cond", ["col", name, None], s.choice(["EQ", "GTE"]), ["int", 1]]]
            return {"match": ["query", inner], "select": [["col", name, None]], "where": where}
        if k < 6:
            e = {"name": s.choice(["events", "spans"]), "alias": s.choice([None, "e"]),
                 "sample": None, "model": self.model(0.85)}  # fmt: skip
            return {"match": ["entity", e], "select": [self.pick(e)], "where": self.where([e], s.bool(0.5))}
        if k < 7:
            st = {"name": "st", "sample": None, "model": self.model(0.8)}
            return {"match": ["storage", st], "select": [self.pick(st)],
                    "where": self.where([{**st, "alias": None}], False)}  # fmt: skip
        n = s.int(2, 3)
        ents = [{"name": s.choice(["events", "spans", "tx"]), "alias": a, "sample": None,
                 "model": self.model(0.6)} for a in ["e", "t", "s"][:n]]  # fmt: skip
        rels = [[ents[i], "has", ents[i + 1]] for i in range(n - 1)]
        if s.bool(0.3):
            rels.append([ents[0], "owns", ents[-1]])
        q = {"match": ["join", rels], "where": self.where(ents, s.bool(0.85))}
        q["select"] = [["col", "a", {**ents[0], "model": None}]]
        return q


def gen(s):
    return R(s).level(2)


def flatten(cs):
    out = []
    for c in cs:
        if c[0] == "bool":
            if c[1] == "AND":
                out += flatten(c[2])
        else:
            out.append(c)
    return out


def missing(q):
    m = q["match"]
    if m[0] == "query":
        return missing(m[1])
    if m[0] == "storage":
        return []
    ents = [m[1]] if m[0] == "entity" else [e for a, _, b in m[1] for e in (a, b)]
    top = flatten(q.get("where") or [])
    out = []
    for e in ents:
        if e["model"] is None:
            continue

        def has(name, ops):
            for c in top:
                if c[1][0] == "col" and c[1][1] == name and c[2] in ops:
                    ent = c[1][2]
                    if ent is None or ent["alias"] == e["alias"]:
                        return True
            return False

        if not q.get("where"):
            out.append("where")
        for n, req in e["model"]["cols"]:
            if req and not has(n, ("EQ", "IN")):
                out.append(n)
        for op in ("GTE", "LT"):
            if not has(e["model"]["time"], (op,)):
                out.append(f"{e['model']['time']} {op}")
    return out


def check(q):
    want = missing(q)
    obj = build.query(q)
    before = repr(obj)
    try:
        validate_required_columns(obj)
    except RequiredColumnError as e:
        if not want:
            raise Violation(f"rejected although every required condition is there: {e}\n{short(q)}")
    else:
        if want:
            raise Violation(f"accepted although conditions are missing: {want}\n{short(q)}")
    if repr(obj) != before:
        raise Violation("the check changed the query")


def nontrivial(q):
    m = q["match"]
    depth = 0
    while m[0] == "query":
        m, depth = m[1]["match"], depth + 1
    if m[0] == "join":
        models = any(e["model"] for a, _, b in m[1] for e in (a, b))
    else:
        models = bool(m[1]["model"])
    if not models:
        return None
    return [m[0], "complete" if not missing(q) else "incomplete"] + (["nested"] if depth else [])
