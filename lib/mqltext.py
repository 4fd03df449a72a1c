"""MQL source text together with its meaning, from the documented syntax.

The generator writes a concrete syntax tree (JSON); text(tree) writes it out and
meaning(tree) says what it denotes, in the parsed form of lib.mql:
  ["ts", ["mri"|"public", name], aggregate, [param..], [cond..], [group..]]
  ["f", name, [param..], [operand..], [cond..], [group..]] / float
Tree nodes:
  ["sum", item, [[ws, "+"|"-", ws, item]..]]   ["prod", item, [[ws, "*"|"/", ws, item]..]]
  ["neg", item]   ["num", text]
  ["paren", ws, item, ws, suffix]
  ["agg", name, params|None, ws, metric, inner suffix, ws, groups|None, suffix]
  ["fn", name, params|None, ws, [item, [ws, ws, item]..], groups|None, suffix]
  metric: ["public"|"qpublic"|"mri"|"qmri", name];  suffix: {"f": filter|None|"{}", "g": groups|None}
  params: [[ws, param, ws]..], param: ["num", t] ["q", t] ["b", t]
  groups: [ws, ws, [name..], "bare"|"tuple", ws]
  filter: [ws, or, ws]; or: [and, [[ws, "or"|"OR", ws, and]..]];
  and: [factor, [[ws, ","|"and"|"AND"|"", ws, factor]..]]
  factor: ["c", "!"|"", key, ws, ws, value] / ["p", ws, or, ws]
  value: ["q", t] ["b", t] ["w", t] (t*) ["l", [[ws, item, ws]..]]
"""
from __future__ import annotations

import re

from lib import dictionary as D
from lib.gen import LATER
from lib.mql import AGGS, FNAMES, GM, INFIX, KEYS, MRIS, PUBLIC

BARE = re.compile(r'[^,\[\]"}{()\s*]+\Z')
NAMES = {v: k for k, v in INFIX.items()}
NO_AND = {"and", "AND"}


class GT(GM):
    def ws(self, at_least=0):
        s = self.s
        if at_least:
            return s.choice([" ", " ", "  ", "\n", "\t "])
        return s.choice(["", "", "", " ", "  ", "\n"])

    def opws(self):
        return self.s.choice([" ", " ", "", "  ", "\n"])

    def number(self):
        """Digits, with or without decimals."""
        s = self.s
        k = s.below(10)
        if k < 4:
            return s.choice(["1", "0.5", "0", "100", "2", "1000", "0.95", "10.50", "007", "100.25"])
        if k < 5 and D.NEAR_INTS:
            return str(abs(s.choice(D.NEAR_INTS)))
        digits = lambda hi, p: "".join(s.choice("0123456789") for _ in range(s.size(1, hi, p)))  # noqa: E731
        if k < 6:
            return digits(25, 0.85)
        if k < 7:
            return "0." + "0" * s.below(14) + digits(6, 0.6)
        return digits(8, 0.6) + "." + digits(18, 0.75)

    def bare(self):
        s = self.s
        if D.STRINGS and s.below(12) == 11:
            t = s.choice(D.STRINGS)
            if BARE.match(t) and "\\" not in t and t[0] != "$":
                return t
        if s.bool(0.6):
            return s.choice(["baz", "prod", "1.2.3", "a-b", "x:y", "\u00e9", "it's", "a/b", "$v", "!x",
                             "2023-01-03T10:00:00", "by", "and", "or", "NULL", "=", "123"])  # fmt: skip
        return "".join(s.list(lambda: s.choice(LATER + ".:/-'$!@=+?%&;#~^|<>\u65e5"), 1, 6))

    def quoted(self):
        """The body of a quoted string; the only escape is \\\"."""
        s = self.s
        n = s.huge_size()
        if n:
            return s.choice(["a", "a b", "x, ", "\u00e9"]) * (n // 2) + s.choice(["", "z", "*"])
        k = s.below(12)
        if k == 11 and D.STRINGS:
            t = s.choice(D.STRINGS)
            if "\\" not in t and '"' not in t:
                return t
        if k < 4:
            return s.choice(["baz", "a b", "", "x*", "*x", "a*b", "a, b", "{}", "(x)", "[y]", "a:b", "`q`"])
        return "".join(
            s.list(lambda: s.choice(["a", "b", " ", '\\"', "*", ",", "{", "}", "(", ")", ":", "'", "\u00e9",
                                     "[", "]", " and ", " or ", "!", "$", "`", "\n", "1",
                                     "\t", "  ", "%", "/", "@", "\u65e5", "\x00", ";", "--", "\u2028", "A",
                                     "\u00a0", "\ufeff", "\r", "\x0b", "\u3000", "e\u0301", "\U0001f600", "\u200b", "#", "\x7f"]), 0, 8, 0.65)  # fmt: skip
        )

    def value(self):
        s = self.s
        k = s.below(10)
        if k < 3:
            return ["q", self.quoted()]
        if k < 6:
            return ["b", self.bare()]
        if k < 7:
            return ["w", self.bare()]
        if k < 8:
            return ["q", self.bare() + "*"]
        n = s.size(1, 4)
        return ["l", s.many(lambda: [self.ws(), ["q", self.quoted()] if s.bool() else ["b", self.bare()], self.ws()], n)]

    def factor(self, depth):
        s = self.s
        if depth > 0 and s.below(5) == 4:
            return ["p", self.ws(), self.f_or(depth - 1), self.ws()]
        key = s.choice(KEYS) if s.bool(0.7) else self.tagkey()
        return ["c", s.choice(["", "", "!"]), key, self.ws(), self.ws(), self.value()]

    def f_and(self, depth):
        s = self.s
        first = self.factor(depth)

        def one():
            j = s.choice([",", "and", "AND", ""])
            f = self.factor(depth)
            if j == "" and f[0] == "c" and f[1] == "" and f[2] in NO_AND:
                j = ","  # "a:b and:c" would read as the word and
            if j == ",":
                return [self.ws(), j, self.ws(), f]
            if j == "":
                return [self.ws(1), j, "", f]
            return [self.ws(1), j, self.ws(1), f]

        return [first, s.list(one, 0, 4, 0.4)]

    def f_or(self, depth):
        s = self.s
        return [
            self.f_and(depth),
            s.list(lambda: [self.ws(1), s.choice(["or", "OR"]), self.ws(1), self.f_and(depth)], 0, 3, 0.35),
        ]

    def filter(self, p=0.4):
        s = self.s
        if not s.bool(p):
            return None
        if s.below(12) == 11:
            return "{}"
        return [self.ws(), self.f_or(2), self.ws()]

    def groups(self, p=0.3):
        s = self.s
        if not s.bool(p):
            return None
        if s.bool():
            return [self.ws(1), self.ws(1), [self.tagkey()], "bare", ""]
        return [self.ws(), self.ws(), s.list(self.tagkey, 1, 3), "tuple", self.ws()]

    def suffix(self, p=0.35):
        return {"f": self.filter(p), "g": self.groups(p * 0.7)}

    def params(self):
        s = self.s
        out = []
        for _ in range(s.size(0, 3)):
            k = s.below(5)
            if k < 3:
                p = ["num", self.number()]
            elif k < 4:
                p = ["q", self.quoted()]
            else:
                b = self.bare().replace("`", "'")  # a backtick opens a metric
                p = ["b", b if not b[0].isdigit() else "x" + b]
            out.append([self.ws(), p, self.ws()])
        return out

    def tmetric(self):
        s = self.s
        k = s.below(4)
        if k == 0:
            return ["public", s.choice(PUBLIC)]
        if k == 1:
            return ["qpublic", s.choice(PUBLIC)]
        m = s.choice(MRIS)
        if k == 2 and not set(m) & set('(){}[]"`,'):
            return ["mri", m]
        if "," in m.split("@")[0] or "`" in m:
            m = MRIS[0]
        return ["qmri", m]

    def t_agg(self):
        s = self.s
        m = self.tmetric()
        inner = self.suffix(0.3)
        if m[0] == "mri" and inner["f"] is None:
            inner["g"] = None  # an unquoted MRI runs up to the brace or parenthesis
        pre, post = self.ws(), self.ws()
        if m[0] == "mri" and inner["f"] is None:
            post = ""
        if inner["f"] is None and inner["g"] and not inner["g"][0]:
            inner["g"][0] = " "
        return [
            "agg", s.choice(AGGS) if s.bool(0.8) else self.aggname(),
            self.params() if s.bool(0.3) else None,
            pre, m, inner, post, self.groups(0.25), self.suffix(),
        ]  # fmt: skip

    def t_fn(self, depth):
        s = self.s
        items = [self.t_expr(depth - 1, must=True)]
        n = s.size(0, 3, 0.5)
        for _ in range(n):
            items.append([self.ws(), self.ws(), self.t_expr(depth - 1)])
        return [
            "fn", s.choice(FNAMES) if s.bool(0.8) else self.aggname(),
            self.params() if s.bool(0.3) else None,
            self.ws(), items, self.groups(0.25), self.suffix(),
        ]  # fmt: skip

    def t_unary(self, depth, must):
        s = self.s
        k = s.below(12)
        neg = s.below(8) == 7
        if k < 6 or (depth <= 0 and must):
            t = self.t_agg()
        elif k < 8 and not must:
            t = ["num", self.number()]
        elif k < 10 and depth > 0:
            t = ["paren", self.ws(), self.t_expr(depth - 1, must=True), self.ws(), self.suffix()]
        elif depth > 0:
            t = self.t_fn(depth)
        else:
            t = self.t_agg()
        return ["neg", t] if neg else t

    def t_chain(self, kind, ops, item):
        s = self.s
        rest = [
            [self.opws(), s.choice(ops), self.opws(), item(False)]
            for _ in range(s.size(0, 3, 0.3))
        ]
        return [kind, item(True), rest] if rest else item(True)

    def t_expr(self, depth, must=False):
        def term(m):
            return self.t_chain("prod", ["*", "/"], lambda n: self.t_unary(depth, n and (m or must)))

        return self.t_chain("sum", ["+", "-"], term)


# ---------------------------------------------------------------------------
def t_value(v):
    k, x = v
    if k == "raw":  # broken text (C21)
        return x
    if k == "q":
        return f'"{x}"'
    if k == "b":
        return x
    if k == "w":
        return x + "*"
    return "[" + ",".join(a + t_value(i) + b for a, i, b in x) + "]"


def t_factor(f):
    if f[0] == "raw":
        return f[1]
    if f[0] == "p":
        return f"({f[1]}{t_or(f[2])}{f[3]})"
    return f"{f[1]}{f[2]}{f[3]}:{f[4]}{t_value(f[5])}"


def t_and(x):
    return t_factor(x[0]) + "".join(a + j + b + t_factor(f) for a, j, b, f in x[1])


def t_or(x):
    return t_and(x[0]) + "".join(a + j + b + t_and(f) for a, j, b, f in x[1])


def t_groups(g, sep=False):
    if g is None:
        return ""
    a, b, names, kind, c = g
    if sep and not a:
        a = " "  # a name stands before it
    if kind == "bare":
        return f"{a}by{b}{names[0]}"
    return f"{a}by{b}({c}" + f"{c},{c}".join(names) + f"{c})"


def t_suffix(x, sep=False):
    out = ""
    if x["f"] == "{}":
        out = "{}"
    elif x["f"]:
        out = "{" + x["f"][0] + t_or(x["f"][1]) + x["f"][2] + "}"
    return out + t_groups(x["g"], sep and not out)


def t_params(ps):
    if ps is None:
        return ""

    def one(p):
        return f'"{p[1]}"' if p[0] == "q" else p[1]

    return "(" + ",".join(a + one(p) + b for a, p, b in ps) + ")"


def text(t):
    k = t[0]
    if k in ("sum", "prod"):
        return text(t[1]) + "".join(a + op + b + text(i) for a, op, b, i in t[2])
    if k == "neg":
        return "-" + text(t[1])
    if k == "num":
        return t[1]
    if k == "paren":
        return f"({t[1]}{text(t[2])}{t[3]})" + t_suffix(t[4])
    if k == "agg":
        _, name, ps, a, m, inner, b, g, suf = t
        mt = f"`{m[1]}`" if m[0][0] == "q" else m[1]
        return f"{name}{t_params(ps)}({a}{mt}{t_suffix(inner)}{b})" + t_groups(g) + t_suffix(suf, g is not None and g[3] == "bare")
    _, name, ps, a, items, g, suf = t
    body = a + text(items[0])
    for x, y, i in items[1:]:
        body += f"{x},{y}{text(i)}"
    return f"{name}{t_params(ps)}({body})" + t_groups(g) + t_suffix(suf, g is not None and g[3] == "bare")


# ---------------------------------------------------------------------------
def unq(t):
    return t.replace('\\"', '"')


def n_factor(f):
    if f[0] == "p":
        return n_or(f[2])
    neg = f[1] == "!"
    k, x = f[5]
    if k == "l":
        return ["c", "NOT_IN" if neg else "IN", f[2], [unq(i[1]) if i[0] == "q" else i[1] for _, i, _ in x]]
    if k == "w":
        return ["c", "NOT_LIKE" if neg else "LIKE", f[2], x + "*"]
    if k == "q" and x.endswith("*") and BARE.match(x[:-1]):
        return ["c", "NOT_LIKE" if neg else "LIKE", f[2], x]
    return ["c", "NEQ" if neg else "EQ", f[2], unq(x) if k == "q" else x]


def join(op, items):
    """A conjunction or disjunction, nested ones of the same kind merged."""
    if len(items) == 1:
        return items[0]
    out = []
    for i in items:
        out.extend(i[1] if i[0] == op else [i])
    return [op, out]


def n_and(x):
    return join("AND", [n_factor(x[0])] + [n_factor(f) for *_, f in x[1]])


def n_or(x):
    return join("OR", [n_and(x[0])] + [n_and(f) for *_, f in x[1]])


def conj(c):
    return c[1] if c[0] == "AND" else [c]


def norm(c):
    """Merge nested conjunctions and disjunctions."""
    if c[0] in ("AND", "OR"):
        return join(c[0], [norm(x) for x in c[1]])
    return c


def norm_conds(cs):
    out = []
    for c in cs:
        out.extend(conj(norm(c)))
    return out


def normal(x):
    """The parsed form with all its filters merged."""
    if isinstance(x, list) and x and x[0] == "ts":
        return [*x[:4], norm_conds(x[4]), x[5]]
    if isinstance(x, list) and x and x[0] == "f":
        return [*x[:3], [normal(p) for p in x[3]], norm_conds(x[4]), x[5]]
    return x


def add(node, suf):
    """A suffix: its filters and groups come before those already there."""
    if suf["f"] and suf["f"] != "{}":
        node[4] = conj(n_or(suf["f"][1])) + node[4]
    if suf["g"]:
        node[5] = suf["g"][2] + node[5]
    return node


def n_params(ps):
    out = []
    for _, p, _ in ps or []:
        out.append(float(p[1]) if p[0] == "num" else unq(p[1]) if p[0] == "q" else p[1])
    return out


def meaning(t):
    k = t[0]
    if k in ("sum", "prod"):
        left = meaning(t[1])
        for _, op, _, i in t[2]:
            left = ["f", NAMES[op], [], [left, meaning(i)], [], []]
        return left
    if k == "neg":
        x = meaning(t[1])
        return -x if isinstance(x, float) else ["f", "negate", [], [x], [], []]
    if k == "num":
        return float(t[1])
    if k == "paren":
        return add(meaning(t[2]), t[4])
    if k == "agg":
        _, name, ps, a, m, inner, b, g, suf = t
        kind = "mri" if m[0].endswith("mri") else "public"
        node = add(["ts", [kind, m[1]], name, n_params(ps), [], []], inner)
    else:
        _, name, ps, a, items, g, suf = t
        node = ["f", name, n_params(ps), [meaning(items[0])] + [meaning(i[2]) for i in items[1:]], [], []]
    if g:
        node[5] = g[2] + node[5]
    return add(node, suf)


def kinds(t, out):
    if isinstance(t, list):
        if t and isinstance(t[0], str):
            if t[0] in ("sum", "prod", "neg", "paren", "fn", "agg"):
                out.add(t[0])
            if t[0] in ("p", "l", "w") and len(t) > 1 and not isinstance(t[1], dict):
                out.add({"p": "nested filter", "l": "list", "w": "wildcard"}[t[0]])
        for x in t:
            kinds(x, out)
    elif isinstance(t, dict):
        if t.get("f"):
            out.add("filter")
        if t.get("g"):
            out.add("groups")
        for v in t.values():
            kinds(v, out)
    return out
