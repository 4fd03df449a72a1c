"""C02: literal values survive serialization wherever they stand."""
from lib import build, mql, snql
from lib.common import compare_query, deep_eq, read_snql, short
from lib.engine import Violation
from lib.gen import G

ID = "C02"
SHARE = True
COUNT = {"quick": 60000, "thorough": 400000}
RULE = (
    "Adversarial literals (quotes, backslashes, newlines, control and non-ASCII characters, "
    "SnQL fragments, extreme numbers, aware and naive datetimes, dates, bytes, nested arrays "
    "and tuples) are put in one or more places of a query: condition values, IN lists, "
    "function parameters, curried initializers, HAVING, ORDER BY, GROUP BY, a lambda, a "
    "subquery, a join, or an MQL filter or aggregate parameter. The text is read back by an "
    "independent reader: the literal and everything around it must be unchanged. "
    "Non-trivial: some literal is a string or bytes with a character that needs care, a "
    "datetime with an offset, a non-integer number, or a nested array."
)
ASSUMPTIONS = ["floats are finite; bytes are UTF-8; strings have no lone surrogates"]

PLACES = ["where", "in", "param", "init", "having", "order", "group", "lambda", "nested", "or"]


class L(G):
    def __init__(self, s):
        super().__init__(s)
        self.rich_scalars = True

    def hard_string(self):
        s = self.s
        k = s.below(8)
        if k == 0:
            # escape soup: every order of the characters that need escaping
            return "".join(s.list(lambda: s.choice("\\'\n\"n`a "), 1, 9, 0.8))
        if k == 1:
            n = s.choice([1, 2, 3, 10, 11, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 1024])
            return s.choice(["a", "\\", "'", "\n", "ab'", "\\'"]) * n
        if k == 2:
            return chr(s.choice([0, 1, 8, 9, 10, 11, 12, 13, 27, 31, 39, 92, 96, 127, 133, 160,
                                 0x2028, 0x2029, 0xFEFF, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]))  # fmt: skip
        return self.string()

    def lit(self, depth=2):
        s = self.s
        k = s.below(16)
        if k < 8:
            v = self.hard_string()
            return ["str", v] if k < 6 else ["bytes", v.encode().hex()]
        if k < 13 or depth == 0:
            return self.literal()
        return [s.choice(["list", "tuple"]), s.list(lambda: self.lit(depth - 1), 0, 4)]


def gen(s):
    g = L(s)
    if s.below(6) == 5:
        return gen_mql(s)
    kind = s.choice(["entity", "entity", "join", "query", "storage"])
    q = {"match": None, "select": [], "where": [], "having": [], "groupby": [], "orderby": []}
    if kind == "join":
        a = {"name": "events", "alias": "e", "sample": None, "model": None}
        b = {"name": "spans", "alias": "s", "sample": None, "model": None}
        q["match"] = ["join", [[a, "has", b]]]
        col = lambda: ["col", s.choice(["a", "b", "tags[x]"]), s.choice([a, b])]  # noqa
    else:
        col = lambda: ["col", s.choice(["a", "b", "tags[x]"]), None]  # noqa
        if kind == "storage":
            q["match"] = ["storage", {"name": "ev", "sample": None, "model": None}]
        else:
            q["match"] = ["entity", {"name": "events", "alias": None, "sample": None, "model": None}]
    for _ in range(s.size(1, 4, 0.5)):
        p = s.choice(PLACES)
        c = col()
        if p == "where":
            q["where"].append(["cond", c, s.choice(["EQ", "NEQ", "GT", "LIKE", "NOT_LIKE", "LTE"]), g.lit()])
        elif p == "having":
            q["having"].append(["cond", c, s.choice(["EQ", "NEQ", "GTE", "LT"]), g.lit()])
        elif p == "in":
            arr = [s.choice(["list", "tuple"]), s.list(lambda: g.lit(1), 0, 6)]
            q["where"].append(["cond", c, s.choice(["IN", "NOT_IN"]), arr])
        elif p == "or":
            arms = s.many(lambda: ["cond", c, "EQ", g.lit(1)], s.int(2, 4))
            q["where"].append(["bool", "OR", arms, "sub"])
        else:
            ps = s.list(lambda: g.lit(1), 1, 4)
            if p == "init":
                inits = s.list(lambda: ["str", g.hard_string()] if s.below(2) else g.literal(), 1, 3)
                e = ["cfn", "topK", inits, [c], s.choice([None, "x"]), "list"]
            elif p == "lambda":
                e = ["fn", "arrayMap", [["lambda", ["x"], ["fn", "plus", ps, None, "tuple"]], c], None, "list"]
            elif p == "nested":
                e = ["fn", "if", [c, ["fn", "concat", ps, None, "list"]], "n", "list"]
            else:
                e = ["fn", "concat", [c, *ps], s.choice([None, "y"]), s.choice(["list", "tuple"])]
            if p == "group":
                q["groupby"].append(e)
            elif p == "order":
                q["orderby"].append(["order", e, "DESC"])
            elif s.below(3) == 2:
                q["where"].append(["cond", e, "EQ", g.lit(1)])
            else:
                q["select"].append(e)
    q["select"].append(["col", "a", q["match"][1][0][0]] if kind == "join" else ["col", "a", None])
    q["where"].append(["cond", q["select"][-1], "EQ", ["int", 7]])
    q["limit"] = 5
    if kind == "query":
        q = {"match": ["query", q], "select": [["col", "a", None]],
             "where": [["cond", ["col", "a", None], "EQ", g.lit()]], "limit": 3}  # fmt: skip
    return {"kind": "snql", "q": q}


def gen_mql(s):
    g = mql.GM(s)
    h = L(s)

    def v():
        k = s.below(4)
        if k < 3:
            return ["str", h.hard_string()]
        return g.tagvalue()

    conds = []
    for _ in range(s.size(1, 3, 0.5)):
        key = ["col", g.tagkey(), None]
        k = s.below(3)
        if k == 0:
            conds.append(["cond", key, s.choice(["EQ", "NEQ"]), v()])
        elif k == 1:
            conds.append(["cond", key, s.choice(["IN", "NOT_IN"]),
                          [s.choice(["list", "tuple"]), s.list(v, 1, 5)]])  # fmt: skip
        else:
            conds.append(["bool", "OR", [["cond", key, "NEQ", v()], ["cond", key, "EQ", v()]], "sub"])
    params = s.list(lambda: ["str", h.hard_string()] if s.below(2) else g.aggparam(), 0, 3)
    x = ["ts", {"public": "foo", "mri": None, "id": None}, "sum", params, conds, None]
    if s.below(3) == 2:
        x = ["formula", "topK", [["ts", x[1], "sum", None, conds, None]], params, conds[:1], None]
    return {"kind": "mql", "q": x}


def check(spec):
    if spec["kind"] == "snql":
        text = build.query(spec["q"]).serialize()
        compare_query(spec["q"], read_snql(text), text)
        return
    from props.c11 import CTX

    x = spec["q"]
    roll = {"interval": 60, "totals": None, "orderby": None, "granularity": 60}
    text = mql.b_mquery({**CTX, "query": x, "rollup": roll}).serialize()["mql"]
    got = mql.read_mql(text)
    if not any(deep_eq(got, mql.m_mql(y)) for y in (mql.collapsed_mql(x), x)):
        raise Violation(
            "a literal was not sent as written in the MQL text"
            f"\ngot:  {short(got)}\nwant: {short(mql.m_mql(x))}\ntext: {short(text)}"
        )


def labels_of(x, out):
    if isinstance(x, dict):
        for v in x.values():
            labels_of(v, out)
    elif isinstance(x, list):
        if x and x[0] in ("str", "bytes") and len(x) == 2 and isinstance(x[1], str):
            t = x[1] if x[0] == "str" else bytes.fromhex(x[1]).decode()
            if x[0] == "bytes":
                out.append("bytes")
            for ch, lab in (("'", "quote"), ("\\", "backslash"), ("\n", "newline"), ('"', "dquote")):
                if ch in t:
                    out.append(lab)
            if any(ord(c) > 126 or ord(c) < 32 for c in t):
                out.append("unusual character")
            if len(t) >= 64:
                out.append("long string")
        elif x and x[0] == "dt" and len(x) == 4:
            out.append("datetime" if x[2] is None else "aware datetime")
        elif x and x[0] == "float" and len(x) == 2:
            out.append("float")
        else:
            for v in x:
                labels_of(v, out)
    return out


def nontrivial(spec):
    return labels_of(spec["q"], []) or None
