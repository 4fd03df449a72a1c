"""MQL: specs, generators, what a spec must print as, and an independent reader.

Metric      {"public":str|None,"mri":str|None,"id":int|None}
Timeseries  ["ts", metric, aggregate, params|None, filters|None, groupby|None]
Formula     ["formula", name, params, agg_params|None, filters|None, groupby|None]
            params: ts, formula, ["int",n], ["float",repr]
filters are condition specs (lib.gen); groupby: ["col",..] or ["aliased",..].

Abstract form (reader and model):
  ["ts", metric text, aggregate, [param..], [cond..], [group..]]
  ["f", name, [aggregate param..], [operand..], [cond..], [group..]]
  ["num", float]
  cond: ["c", negated, key, value] / ["AND"|"OR", [cond..]]
  value: ["s", string] (quoted) / ["t", token] (bare) / ["l", [value..]]
  group: [name, alias|None]
"""
from __future__ import annotations

import re
from decimal import Decimal

from lib import build, snql
from lib import dictionary as D
from lib.engine import Violation
from lib.gen import FIRST, G, LATER, LOWER

from snuba_sdk import (  # noqa: E402
    AliasedExpression,
    BooleanCondition,
    BooleanOp,
    Column,
    Condition,
    Direction,
    Extrapolate,
    Formula,
    Limit,
    Metric,
    MetricsQuery,
    MetricsScope,
    Offset,
    Op,
    Rollup,
    Timeseries,
)

PUBLIC = ["foo", "bar", "transaction.duration", "a.b_c", "x", "sessions", "by", "or_", "and"]
MRIS = [
    "d:transactions/duration@millisecond",
    "c:custom/foo@none",
    "s:sessions/user@none",
    "d:spans/exclusive_time@ms",
    "g:custom/a b@x",
    "d:custom/{weird}@none",
    "d:custom/avg(x)@ms",
    "c:t/a[0]@n",
    'c:t/q"q@n',
    "c:t/a@b,c",
    "d:transactions/measurements.lcp@millisecond",
]
AGGS = ["sum", "avg", "count", "quantiles", "quantile", "max", "p95", "count_unique", "uniq"]
FNAMES = ["apdex", "failure_rate", "topK", "f", "rate", "histogram", "timeshift", "g2"]
INFIX = {"plus": "+", "minus": "-", "multiply": "*", "divide": "/"}
KEYS = ["a", "b", "environment", "release", "transaction.name", "a.b", "and", "or", "android",
        "order", "_k", "tag1", "OR", "AND1", "status_code", "by", "ANDROID", "k9"]  # fmt: skip
PREFIXES = ["foo", "a", "b-c", "1.2.3", "x:y", "\u00e9", "prod", "$v", "a/b", "it's", "\\w"]
# the parser's internal stand-in for "no aggregate yet" is not a usable name
AGG_WORDS = [w for w in D.IDENT_WORDS if "PLACEHOLDER" not in w]
RESERVED_MRI = set('(){}[]",')


class GM(G):
    # ---- MQL specs -----------------------------------------------------
    def tagkey(self):
        s = self.s
        k = s.below(10)
        if k < 6:
            return s.choice(KEYS[:6])
        if k < 8:
            return s.choice(KEYS)
        if k < 9 and D.TAG_WORDS:
            return s.choice(D.TAG_WORDS)
        return s.choice(FIRST + "_") + "".join(s.list(lambda: s.choice(LATER + "."), 0, 6))

    def metric(self):
        s = self.s
        k = s.below(10)
        pub = mri = None
        if k < 4:
            pub = s.choice(PUBLIC)
        elif k < 5:
            pub = ".".join(s.list(lambda: "".join(s.list(lambda: s.choice(LOWER + "_"), 1, 4)), 1, 3))
        else:
            mri = s.choice(MRIS)
            if s.below(4) == 3:
                mri = (
                    s.choice("dcsg")
                    + ":"
                    + "".join(s.list(lambda: s.choice(LATER + "-. "), 1, 5)).strip().ljust(1, "n")
                    + "/"
                    + "".join(s.list(lambda: s.choice(LATER + "-.:'*+(){}[]\""), 1, 6))
                    + "@"
                    + s.choice(["none", "ms", "{x}", "a,b", "byte"])
                )
                if s.below(8) == 7:
                    mri = s.choice([mri + " ", " " + mri, mri + "\t", f" {mri} "])
            if s.below(6) == 5:
                pub = s.choice(PUBLIC)
        return {"public": pub, "mri": mri, "id": s.below(100) if s.below(8) == 7 else None}

    def tagvalue(self, like=False):
        s = self.s
        if like:
            text = s.choice(PREFIXES) + "*"
            return ["bytes", text.encode("utf-8").hex()] if s.below(10) == 9 else ["str", text]
        k = s.below(20)
        if k < 15:
            return ["str", self.string()]
        if k < 16:
            return ["int", self.integer()]
        if k < 17:
            return ["float", repr(self.flt())]
        if k < 18:
            return ["bool", s.below(2) == 1]
        if k < 19:
            return ["null"]
        return ["bytes", self.string().encode("utf-8").hex()]

    def mcond(self, key=None, op=None):
        s = self.s
        key = key or ["col", self.tagkey(), None]
        op = op or s.choice(["EQ", "EQ", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE"])
        if op in ("IN", "NOT_IN"):
            n = s.size(1, 5)
            if self.long and s.below(3) == 2:
                n = s.choice(D.SMALL_SIZES) if D.SMALL_SIZES and s.below(2) else s.int(5, 20)
            rhs = [s.choice(["list", "tuple"]), s.many(self.tagvalue, n)]
        else:
            rhs = self.tagvalue(op in ("LIKE", "NOT_LIKE"))
        return ["cond", key, op, rhs]

    def mcondition(self, depth=2):
        s = self.s
        k = s.below(20)
        if k < 12 or depth <= 0:
            return self.mcond()
        n = s.size(2, 6, 0.45)
        if k < 16:
            key = ["col", self.tagkey(), None]
            arms = s.many(lambda: self.mcond(key, "EQ"), n)
            n = len(arms)
            j = s.below(8)
            if j == 4:
                arms[s.below(n)] = self.mcond(None, "EQ")
            elif j == 5:
                arms[s.below(n)] = self.mcond(key)
            elif j == 6:
                arms[s.below(n)] = self.mcondition(depth - 1)
            elif j == 7:
                arms[0] = arms[-1]
            return ["bool", s.choice(["OR", "OR", "OR", "AND"]), arms, s.choice(["sub", "base"])]
        return [
            "bool",
            s.choice(["AND", "OR"]),
            s.many(lambda: self.mcondition(depth - 1), n),
            s.choice(["sub", "base"]),
        ]

    def mfilters(self, p=0.5):
        s = self.s
        if not s.bool(p):
            return None
        if self.long and s.below(3) == 2:
            return [self.mcondition(1) for _ in range(s.int(5, 14))]
        return s.list(lambda: self.mcondition(2), 0, 4)

    def mgroupby(self, p=0.35, aliased=True):
        s = self.s
        if not s.bool(p):
            return None

        def one():
            c = ["col", self.tagkey(), None]
            if aliased and s.below(12) == 11:
                return ["aliased", c, self.opt_alias(0.8)]
            return c

        return s.list(one, 0 if s.below(6) == 5 else 1, 4)

    def aggparam(self):
        s = self.s
        k = s.below(10)
        if k < 4:
            return ["float", repr(abs(self.flt()))]
        if k < 7:
            return ["int", s.choice([1, 0, 5, 50, 100, 95, 1000, 10**16])]
        if k < 9:
            return ["str", self.string()]
        return s.choice([["int", -1], ["float", "-0.5"], ["bool", True], ["null"]])

    def aggparams(self, p=0.3):
        s = self.s
        return s.list(self.aggparam, 0, 3) if s.bool(p) else None

    def aggname(self):
        s = self.s
        k = s.below(10)
        if k < 7:
            return s.choice(AGGS)
        if k < 9 and AGG_WORDS:
            return s.choice(AGG_WORDS)
        return s.choice(FIRST + "_") + "".join(s.list(lambda: s.choice(LATER), 0, 5))

    def ts(self, groupby=None, aliased=True):
        return [
            "ts",
            self.metric(),
            self.aggname(),
            self.aggparams(),
            self.mfilters(),
            groupby if groupby is not None else self.mgroupby(aliased=aliased),
        ]

    def mnumber(self):
        s = self.s
        if s.bool(0.5):
            return ["int", s.choice([1, 2, 100, 1000, 0, -1, 3600, 10**15, 2**60])]
        return ["float", repr(self.flt())]

    def formula(self, depth=2, group=None):
        """A valid formula: at least one timeseries; consistent groups."""
        s = self.s
        if group is None:
            group = [self.mgroupby(0.5, aliased=False)]
        g = group[0]

        def gb():
            return g if g is not None and s.bool(0.7) else None

        def operand(must_series=False):
            k = s.below(10)
            if k < 5 or (must_series and depth <= 0):
                t = self.ts([])
                t[5] = gb()
                return t
            if k < 8 and depth > 0:
                return self.formula(depth - 1, group)
            if must_series:
                t = self.ts([])
                t[5] = gb()
                return t
            return self.mnumber()

        k = s.below(20)
        agg = None
        if k < 13:
            name = s.choice(list(INFIX))
            n = s.size(2, 4, 0.25)
            params = [operand() for _ in range(n)]
            if not any(p[0] in ("ts", "formula") for p in params):
                params[s.below(n)] = operand(True)
        elif k < 15:
            name = "negate"
            params = [operand(True)]
        else:
            name = s.choice(FNAMES) if s.below(6) < 5 else s.choice([*INFIX, "negate"])
            agg = self.aggparams(0.4)
            params = [operand(True)] + s.list(operand, 0, 3, 0.4)
            if s.below(5) == 4 and not agg:
                params.append(params.pop(0))
        return ["formula", name, params, agg, self.mfilters(0.3), gb()]

    def mql_query(self):
        if self.s.below(2):
            return self.formula()
        return self.ts()


# ---------------------------------------------------------------------------
# spec -> SDK
@build.shared
def b_metric(m):
    return Metric(public_name=m["public"], mri=m["mri"], id=m["id"])


def b_params(ps):
    return None if ps is None else [build.scalar(p) for p in ps]


@build.shared
def b_mql(x):
    k = x[0]
    if k == "ts":
        return Timeseries(
            metric=b_metric(x[1]),
            aggregate=x[2],
            aggregate_params=b_params(x[3]),
            filters=build.conds(x[4]),
            groupby=build.exprs(x[5]),
        )
    if k == "formula":
        return Formula(
            x[1],
            [b_mql(p) for p in x[2]],
            b_params(x[3]),
            build.conds(x[4]),
            build.exprs(x[5]),
        )
    return build.scalar(x)


# ---------------------------------------------------------------------------
# spec -> abstract form of the printed text
def num_text(x):
    if x[0] == "int":
        return str(x[1])
    return f"{Decimal(repr(float(x[1]))):f}"


def m_value(x):
    k = x[0]
    if k == "str":
        return ["s", x[1]]
    if k == "bytes":
        return ["s", bytes.fromhex(x[1]).decode()]
    if k == "null":
        return ["t", "NULL"]
    if k == "bool":
        return ["t", "TRUE" if x[1] else "FALSE"]
    if k in ("int", "float"):
        return ["t", num_text(x)]
    if k in ("list", "tuple"):
        return ["l", [m_value(v) for v in x[1]]]
    raise KeyError(k)


NEG = {"NEQ", "NOT_IN", "NOT_LIKE"}


def m_cond(c):
    if c[0] == "cond":
        return ["c", c[2] in NEG, c[1][1], m_value(c[3])]
    return [c[1], [m_cond(x) for x in c[2]]]


def m_metric(m):
    return m["mri"] if m["mri"] is not None else m["public"]


def m_groups(g):
    return [[x[1], None] if x[0] == "col" else [x[1][1], x[2]] for x in g or []]


def m_mql(x):
    k = x[0]
    if k == "ts":
        return [
            "ts",
            m_metric(x[1]),
            x[2],
            [m_value(p) for p in x[3] or []],
            [m_cond(c) for c in x[4] or []],
            m_groups(x[5]),
        ]
    if k == "formula":
        return [
            "f",
            x[1],
            [m_value(p) for p in x[3] or []],
            [m_mql(p) for p in x[2]],
            [m_cond(c) for c in x[4] or []],
            m_groups(x[5]),
        ]
    return ["num", float(x[1])]


# ---------------------------------------------------------------------------
# An independent reader of printed MQL
class Unreadable(Exception):
    pass


PUB_RE = re.compile(r"[a-z_]+(?:\.[a-z_]+)*\Z")
MRI_RE = re.compile(r'[^:(){}\[\]"`,]+:[^/(){}\[\]"`,]+/[^@(){}\[\]"`,]+@[^(){}\[\]"`,]+\Z')
QMRI_RE = re.compile(r"`[^:`]+:[^/`]+/[^@,`]+@[^`]+`\Z")
NUM_RE = re.compile(r"-?[0-9]+(\.[0-9]+)?")
NAME_RE = re.compile(r"[a-zA-Z0-9_]+")
KEY_RE = re.compile(r"[a-zA-Z0-9_.]+")
BARE_RE = re.compile(r'[^,\[\]"}{()\s*]+')
STR_RE = re.compile(r'"((?:[^"\\\n]|\\.)*)"', re.S)
ESC = {"\\": "\\", '"': '"', "n": "\n"}


def unescape(body):
    out = []
    i = 0
    while i < len(body):
        if body[i] == "\\":
            i += 1
            if i >= len(body) or body[i] not in ESC:
                raise Unreadable(f"unknown escape in {body!r}")
            out.append(ESC[body[i]])
        else:
            out.append(body[i])
        i += 1
    return "".join(out)


class Reader:
    def __init__(self, t):
        self.t = t
        self.i = 0

    def fail(self, what):
        raise Unreadable(
            f"expected {what} at {self.i}: ...{self.t[max(0, self.i - 20):self.i + 40]!r}"
        )

    def rx(self, r, what):
        m = r.match(self.t, self.i)
        if not m:
            self.fail(what)
        self.i = m.end()
        return m

    def at(self, lit):
        return self.t.startswith(lit, self.i)

    def take(self, lit):
        if not self.at(lit):
            self.fail(repr(lit))
        self.i += len(lit)

    def opt(self, lit):
        if self.at(lit):
            self.i += len(lit)
            return True
        return False

    def ws(self):
        while self.i < len(self.t) and self.t[self.i].isspace():
            self.i += 1

    def read(self):
        e = self.operand()
        if self.i != len(self.t):
            self.fail("the end")
        return e

    def close_of(self, start):
        """Index of the parenthesis that closes the one at start."""
        i, depth, t = start, 0, self.t
        while i < len(t):
            c = t[i]
            if c == '"':
                m = STR_RE.match(t, i)
                if not m:
                    raise Unreadable(f"unterminated string at {i}")
                i = m.end()
                continue
            if c == "`":
                j = t.find("`", i + 1)
                if j < 0:
                    raise Unreadable(f"unterminated backtick at {i}")
                i = j + 1
                continue
            if c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
                if depth == 0:
                    return i
            i += 1
        raise Unreadable("unbalanced parentheses")

    def operand(self):
        m = NUM_RE.match(self.t, self.i)
        if m and not re.match(r"[\w(]", self.t[m.end() : m.end() + 1]):
            self.i = m.end()
            return ["num", float(m.group(0))]
        if self.opt("-("):
            self.ws()
            e = self.operand()
            self.ws()
            self.take(")")
            return self.suffix(["f", "negate", [], [e]])
        if self.opt("("):
            self.ws()
            items = [self.operand()]
            op = None
            while True:
                self.ws()
                if self.at(")"):
                    break
                c = self.t[self.i : self.i + 1]
                if c not in "+-*/" or (op is not None and op != c):
                    self.fail("one kind of operator inside parentheses")
                op = c
                self.i += 1
                self.ws()
                items.append(self.operand())
            self.take(")")
            if op is None:
                raise Unreadable("parentheses around a single operand")
            name = {v: k for k, v in INFIX.items()}[op]
            return self.suffix(["f", name, [], items])
        name = self.rx(NAME_RE, "a name").group(0)
        if not self.at("("):
            self.fail("(")
        end = self.close_of(self.i)
        params = []
        if self.t.startswith("(", end + 1):
            self.take("(")
            if not self.at(")"):
                params.append(self.value())
                while self.opt(","):
                    self.ws()
                    params.append(self.value())
            self.take(")")
            end = self.close_of(self.i)
        inner = self.t[self.i + 1 : end]
        if PUB_RE.match(inner) or MRI_RE.match(inner):
            self.i = end + 1
            return self.suffix(["ts", inner, name, params])
        if QMRI_RE.match(inner):
            self.i = end + 1
            return self.suffix(["ts", inner[1:-1], name, params])
        self.take("(")
        items = [self.operand()]
        while self.opt(","):
            self.ws()
            items.append(self.operand())
        self.take(")")
        return self.suffix(["f", name, params, items])

    def suffix(self, node):
        conds = []
        if self.opt("{"):
            self.ws()
            if not self.at("}"):
                conds.append(self.cond())
                self.ws()
                while self.opt("AND "):
                    self.ws()
                    conds.append(self.cond())
                    self.ws()
            self.take("}")
        groups = []
        if self.opt(" by ("):
            groups.append(self.group())
            while self.opt(","):
                self.ws()
                groups.append(self.group())
            self.take(")")
        return [*node, conds, groups]

    def group(self):
        n = self.rx(KEY_RE, "a tag").group(0)
        if self.opt(" AS `"):
            j = self.t.find("`", self.i)
            if j < 0:
                self.fail("`")
            a = self.t[self.i : j]
            self.i = j + 1
            return [n, a]
        return [n, None]

    def cond(self):
        if self.opt("("):
            self.ws()
            items = [self.cond()]
            op = None
            while True:
                self.ws()
                if self.at(")"):
                    break
                w = "AND" if self.at("AND ") else "OR" if self.at("OR ") else None
                if w is None or (op is not None and op != w):
                    self.fail("one kind of AND/OR inside parentheses")
                op = w
                self.i += len(w)
                self.ws()
                items.append(self.cond())
            self.take(")")
            if op is None:
                raise Unreadable("parentheses around a single condition")
            return [op, items]
        neg = self.opt("!")
        key = self.rx(KEY_RE, "a tag key").group(0)
        self.take(":")
        return ["c", neg, key, self.value()]

    def value(self):
        if self.at('"'):
            return ["s", unescape(self.rx(STR_RE, "a string").group(1))]
        if self.opt("["):
            vals = []
            self.ws()
            if not self.at("]"):
                vals.append(self.value())
                self.ws()
                while self.opt(","):
                    self.ws()
                    vals.append(self.value())
                    self.ws()
            self.take("]")
            return ["l", vals]
        return ["t", self.rx(BARE_RE, "a value").group(0)]


def read(text):
    if not isinstance(text, str):
        raise Unreadable(f"not a string: {type(text)}")
    try:
        return Reader(text).read()
    except RecursionError:
        raise Unreadable("nested too deeply")


# ---------------------------------------------------------------------------
# What the SDK's own parser must make of the printed text ("parsed form"):
#   ["ts", ["mri"|"public", text], aggregate, [param..], [cond..], [group..]]
#   ["f", name, [param..], [operand..], [cond..], [group..]] / float
#   cond: ["c", OPNAME, key, str | [str..]] / ["AND"|"OR", [cond..]]
# The conditions are a flattened conjunction.
def sdk_string(v):
    """A quoted string as the SDK's parser hands it back.

    The parser only undoes the escaping of double quotes (known finding K1)."""
    t = v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
    return t.replace('\\"', '"')


WILD = re.compile(r'[^,\[\]"}{()\s*]+\*\Z')


def reads_as_wildcard(v):
    """EQ on this string reads back as LIKE (known finding K2)."""
    t = v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
    return bool(WILD.match(t))


def p_scalar(x):
    v = m_value(x)
    return sdk_string(v[1]) if v[0] == "s" else v[1]


def p_param(x):
    v = m_value(x)
    if v[0] == "s":
        return sdk_string(v[1])
    return float(v[1]) if re.fullmatch(r"[0-9]+(\.[0-9]+)?", v[1]) else v[1]


def p_cond(c):
    if c[0] == "bool":
        return [c[1], [p_cond(x) for x in c[2]]]
    op, rhs = c[2], c[3]
    if rhs[0] in ("list", "tuple"):
        return ["c", "NOT_IN" if op in NEG else "IN", c[1][1], [p_scalar(v) for v in rhs[1]]]
    v = p_scalar(rhs)
    wild = rhs[0] in ("str", "bytes") and reads_as_wildcard(m_value(rhs)[1])
    if wild:
        return ["c", "NOT_LIKE" if op in NEG else "LIKE", c[1][1], v]
    return ["c", "NEQ" if op in NEG else "EQ", c[1][1], v]


def flat(conds):
    out = []
    for c in conds:
        if c[0] == "AND":
            out.extend(flat(c[1]))
        else:
            out.append(c)
    return out


def p_conds(cs):
    return flat([p_cond(c) for c in cs or []])


def p_metric(m):
    return ["mri", m["mri"]] if m["mri"] is not None else ["public", m["public"]]


def p_groups(g):
    return [x[1] for x in g or []]


def p_mql(x):
    k = x[0]
    if k == "ts":
        return [
            "ts", p_metric(x[1]), x[2], [p_param(p) for p in x[3] or []],
            p_conds(x[4]), p_groups(x[5]),
        ]  # fmt: skip
    if k == "formula":
        conds, groups = p_conds(x[4]), p_groups(x[5])
        ops = [p_mql(p) for p in x[2]]
        if x[1] in INFIX and len(ops) > 1 and not x[3]:
            left = ops[0]
            for r in ops[1:]:
                left = ["f", x[1], [], [left, r], [], []]
            left[4], left[5] = conds, groups
            return left
        if x[1] == "negate" and len(ops) == 1 and not x[3]:
            # the suffix of -(x){..} belongs to the parenthesized operand
            inner = ops[0]
            inner[4] = conds + inner[4]
            inner[5] = groups + inner[5]
            return ["f", "negate", [], [inner], [], []]
        return ["f", x[1], [p_param(p) for p in x[3] or []], ops, conds, groups]
    return float(num_text(x))


# SDK object -> parsed form
def u_cond(c):
    if isinstance(c, BooleanCondition):
        return [
            "AND" if c.op == BooleanOp.AND else "OR" if c.op == BooleanOp.OR else repr(c.op),
            [u_cond(x) for x in c.conditions],
        ]
    if not isinstance(c, Condition):
        return ["?", repr(c)]
    rhs = list(c.rhs) if isinstance(c.rhs, (list, tuple)) else c.rhs
    name = c.lhs.name if isinstance(c.lhs, Column) else repr(c.lhs)
    return ["c", c.op.name if isinstance(c.op, Op) else repr(c.op), name, rhs]


def u_group(g):
    if isinstance(g, AliasedExpression):
        return [g.exp.name, g.alias]
    return g.name if isinstance(g, Column) else repr(g)


def u_mql(x):
    if isinstance(x, Timeseries):
        m = x.metric
        return [
            "ts",
            ["mri", m.mri] if m.mri is not None else ["public", m.public_name],
            x.aggregate,
            list(x.aggregate_params or []),
            flat([u_cond(c) for c in x.filters or []]),
            [u_group(g) for g in x.groupby or []],
        ]
    if isinstance(x, Formula):
        return [
            "f",
            x.function_name,
            list(x.aggregate_params or []),
            [u_mql(p) for p in x.parameters or []],
            flat([u_cond(c) for c in x.filters or []]),
            [u_group(g) for g in x.groupby or []],
        ]
    return x


# ---------------------------------------------------------------------------
# Known findings: the parser's reading may be either the current or the right one.
def p_variants(x):
    """The readings of the printed text that are accepted from the SDK's parser."""
    global sdk_string, reads_as_wildcard
    saved = sdk_string, reads_as_wildcard
    out = []
    try:
        for s in (saved[0], lambda v: v):
            for w in (saved[1], lambda v: False):
                sdk_string, reads_as_wildcard = s, w
                out.append(p_mql(x))
    finally:
        sdk_string, reads_as_wildcard = saved
    return out


def has_alias(x):
    if isinstance(x, list):
        return bool(x and x[0] == "aliased") or any(has_alias(v) for v in x)
    return False


# ---------------------------------------------------------------------------
# MetricsQuery: {"query": ts|formula|["text", s], "start","end": dt,
#   "rollup": {"interval","totals","orderby","granularity"},
#   "scope": {"org_ids","project_ids","use_case_id"},
#   "limit","offset","extrapolate","mappings"}
GRANS = [10, 60, 3600, 86400]


class GQ(GM):
    def rollup(self):
        s = self.s
        g = s.choice(GRANS)
        interval = totals = order = None
        if s.bool(0.6):
            interval = g * s.choice([1, 1, 2, 6, 24]) + (s.below(50) if s.below(4) == 3 else 0)
            if s.bool(0.3):
                totals = s.bool(0.5)
        else:
            totals = s.bool(0.7)
            if s.bool(0.5):
                order = s.choice(["ASC", "DESC"])
        return {"interval": interval, "totals": totals, "orderby": order, "granularity": g}

    def ids(self, hi=4):
        return self.s.list(lambda: abs(self.integer()), 0 if self.s.below(8) == 7 else 1, hi)

    def scope(self):
        s = self.s
        uc = None
        if s.bool(0.7):
            uc = s.choice(["transactions", "custom", "sessions", "spans", "it's", "", "\u00e9"])
        orgs = self.ids()
        projects = list(orgs) if s.below(8) == 7 else self.ids()
        return {"org_ids": orgs, "project_ids": projects, "use_case_id": uc}

    def mappings(self):
        s = self.s
        out = {}
        for _ in range(s.size(0, 4)):
            k = s.choice(MRIS + KEYS) if s.below(4) < 3 else self.string()
            out[k] = abs(self.integer()) if s.below(4) < 3 else self.string()
        return out

    def mquery(self, query=None):
        s = self.s
        return {
            "query": query if query is not None else self.mql_query(),
            "start": self.dt(),
            "end": self.dt(),
            "rollup": self.rollup(),
            "scope": self.scope(),
            "limit": self.bounded(1, 10000) if s.bool(0.5) else None,
            "offset": self.bounded(0, None) if s.bool(0.4) else None,
            "extrapolate": s.bool(0.5) if s.bool(0.3) else None,
            "mappings": self.mappings(),
        }


def b_rollup(r):
    o = r["orderby"]
    return Rollup(r["interval"], r["totals"], Direction[o] if o else None, r["granularity"])


def b_scope(x):
    return MetricsScope(list(x["org_ids"]), list(x["project_ids"]), x["use_case_id"])


MQ_FIELDS = ["query", "start", "end", "rollup", "scope", "limit", "offset", "extrapolate",
             "indexer_mappings"]  # fmt: skip


def mq_field(q, f):
    if f == "query":
        x = q["query"]
        return x[1] if x[0] == "text" else b_mql(x)
    if f in ("start", "end"):
        return build.dt_value(q[f])
    if f == "rollup":
        return b_rollup(q["rollup"])
    if f == "scope":
        return b_scope(q["scope"])
    if f == "indexer_mappings":
        return dict(q["mappings"])
    return build.opt({"limit": Limit, "offset": Offset, "extrapolate": Extrapolate}[f], q[f])


def b_mquery(q):
    return MetricsQuery(**{f: mq_field(q, f) for f in MQ_FIELDS})


def iso_of(x):
    """The ISO text of a generated datetime, written out independently."""
    base = x[1]
    off = x[2]
    if off is None:
        return base
    if isinstance(off, str):
        return build.dt_value(x).isoformat()
    sign = "-" if off < 0 else "+"
    off = abs(off)
    t = f"{sign}{off // 3600:02d}:{off % 3600 // 60:02d}"
    return base + t + (f":{off % 60:02d}" if off % 60 else "")


def m_context(q):
    r = q["rollup"]
    return {
        "start": iso_of(q["start"]),
        "end": iso_of(q["end"]),
        "rollup": {
            "orderby": r["orderby"],
            "granularity": r["granularity"],
            "interval": r["interval"],
            "with_totals": None if r["totals"] is None else ("True" if r["totals"] else "False"),
        },
        "scope": dict(q["scope"]),
        "limit": q["limit"],
        "offset": q["offset"],
        "extrapolate": q["extrapolate"],
        "indexer_mappings": dict(q["mappings"]),
    }


def collapsed_mql(x):
    """The query with the documented OR collapse of its own top level filters."""
    if x[0] not in ("ts", "formula") or not x[4]:
        return x
    out = list(x)
    out[4] = [snql.collapse(c)[1] for c in x[4]]
    return out


def read_mql(text):
    try:
        return read(text)
    except Unreadable as e:
        raise Violation(f"the MQL text cannot be read back: {e}\ntext: {text[:1500]}")


def mql_labels(x, out=None):
    out = [] if out is None else out
    if x[0] == "formula":
        out.append("formula:" + ("infix" if x[1] in INFIX else "negate" if x[1] == "negate" else "fn"))
        for p in x[2]:
            mql_labels(p, out)
    if x[0] in ("ts", "formula"):
        for n, lab in ((3, "params"), (4, "filters"), (5, "groupby")):
            if x[n]:
                out.append(lab)
        if x[4] and any(c[0] == "bool" for c in x[4]):
            out.append("nested filter")
        if x[0] == "ts" and x[1]["mri"]:
            out.append("mri")
    return out
