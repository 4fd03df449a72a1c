"""Generators of specs (plain JSON values).  Nothing here calls the SDK.

Scalars      ["null"] ["bool",b] ["int",n] ["float",repr] ["str",s] ["bytes",hex]
             ["date",iso] ["dt",iso,offset_seconds|None|zone name,fold]
             ["list",[..]] ["tuple",[..]]      (items: scalars or expressions)
Expressions  ["col",name,entity|None] ["fn",name,params|None,alias|None,"list"|"tuple"]
             ["cfn",name,inits|None,params|None,alias|None,"list"|"tuple"]
             ["ident",name] ["lambda",[names],fn] ["aliased",col,alias|None]
Conditions   ["cond",lhs,OPNAME,rhs|None]  ["bool","AND"|"OR",[..],"sub"|"base"]
Query        {"match":..,"select":..,...}; match: ["entity",E] ["storage",S]
             ["join",[[E,name,E],..]] ["query",Q]
Entity       {"name","alias","sample","model"}; model: {"cols":[[n,req]..],"time":n}
"""
from __future__ import annotations

import copy
import re

from lib import dictionary as D

RESERVED = {
    "NULL", "TRUE", "FALSE", "AND", "OR", "AS", "BY", "IN", "LIKE", "NOT", "IS",
    "MATCH", "SELECT", "WHERE", "HAVING", "ORDER", "LIMIT", "OFFSET", "GRANULARITY",
    "TOTALS", "ARRAY", "JOIN", "STORAGE", "SAMPLE", "ASC", "DESC", "True", "False",
}  # fmt: skip

COLS = [
    "a", "b", "c", "title", "event_id", "project_id", "timestamp", "tags[a]", "tags[b]",
    "tags[a.b]", "release", "duration", "user.id", "measurements[lcp]", "org_id", "_x",
    "contexts[x y]", "a:b", "d/e@f", "tags[it's]", "tags[]", "finish_ts", "caf\u00e9",
    "tags[\u65e5]", "started", "tags", "e.a", "time", "tags[a\nb]", "tags[`q`]", "A1",
    "tags[transaction]", "tags[environment]", "count", "transaction_name",
]  # fmt: skip
FUNCS = [
    "count", "uniq", "quantile", "toHour", "ifNull", "plus", "equals", "tuple", "array",
    "f1", "topK", "multiIf", "arrayMap", "and", "or", "toDateTime", "in", "notIn",
    "countIf", "avg", "sum", "if", "like", "isNull", "identity", "negate", "minus",
]  # fmt: skip
ENTITIES = [
    "events", "transactions", "sessions", "spans", "outcomes", "replays", "discover",
    "group_attributes", "metrics_sets", "search_issues", "E", "errors", "profiles",
]  # fmt: skip
ALIASES = [
    "x", "y", "cnt", "p50", "uniq_events", "a", "title", "a.b", "count()", "tags[a]",
    "f(x)", "a+b", "0x", "a-b", "u@v", "a:b", "x*y", "d/e", "value", "bucket",
]  # fmt: skip
LOWER = "abcdefghijklmnopqrstuvwxyz"
FIRST = LOWER + LOWER.upper()
LATER = FIRST + "0123456789_"
REL_NAMES = ["has", "contains", "hasnt", "grouped", "owns", "assigned_to", "attributes"]
ENT_ALIASES = ["e", "t", "s", "ev", "tr", "ga", "a1", "x_y", "sp"]
MODEL_COLS = ["a", "b", "title", "tags", "timestamp", "project_id", "org_id", "event_id"]

FRAGS = [
    "a", "b", " ", "'", "\\", '"', "\n", ",", "(", ")", "[", "]", "{", "}", "`", "*", ":",
    "n", "%", "_", "$", "\t", "\r", "\u00e9", "\u65e5", "\u2028", "0", "-", "AND", " OR ",
    "null", "toDateTime('x')", "--", ";", "\x00", "=", "\\n", "\\'", "''", "\U0001f600",
]  # fmt: skip
STRINGS = [
    "", "a", "b", "abc", "'", "\\", "\\'", "it's", "\n", "\\n", "a\\", "' OR 1=1 --",
    '"', "2021-01-01T00:00:00", "1", "NULL", "TRUE", "\\\\", "a\nb\nc", "it's 'q'",
    "x') OR (1=1", "caf\u00e9", "%a%", "production", "a*", "\r\n", "\u65e5\u672c",
]  # fmt: skip
ZONES = ["America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe"]
FOLDS = [
    ("America/New_York", "2021-11-07", 1), ("Europe/London", "2021-10-31", 1),
    ("Australia/Lord_Howe", "2021-04-04", 1), ("America/New_York", "2021-03-14", 2),
    ("Europe/London", "2021-03-28", 1), ("Australia/Lord_Howe", "2021-10-03", 2),
]  # fmt: skip


def near_name(s, n):
    """A name that is nearly n."""
    return s.choice([n[:-1] or "q", n + "s", n + "_", "x" + n, n.swapcase(), n[:1] + n, n[::-1] + "q", n + n])


class G:
    def __init__(self, s):
        self.s = s
        # swarm: which optional features this case may use at all
        self.rich_scalars = s.bool(0.6)
        self.rich_names = s.bool(0.4)
        self.nested = s.bool(0.7)
        self.long = s.bool(0.06)

    # ---- scalars -------------------------------------------------------
    def string(self):
        s = self.s
        k = s.below(20)
        if k < 5:
            return s.choice(STRINGS[:4])
        if k < 9:
            return s.choice(STRINGS)
        if k < 11 and D.STRINGS:
            return s.choice(D.STRINGS)
        n = s.size(1, 40 if self.long else 8, 0.9 if self.long else 0.7)
        out = []
        big = s.huge_size()
        if big:
            out.append(s.choice(["a", "ab ", "\u00e9", "it's ", "\n", "\\", "x" * 63 + "'"]) * big)
            out = [out[0][:big]]
        for _ in range(n):
            if D.STRINGS and s.below(20) == 19:
                out.append(s.choice(D.STRINGS))
            else:
                out.append(s.choice(FRAGS))
        return "".join(out)

    def integer(self):
        s = self.s
        k = s.below(10)
        if k < 5:
            return s.below(12)
        if k < 7 and D.NEAR_INTS:
            return s.choice(D.NEAR_INTS) * (-1 if s.below(4) == 3 else 1)
        if k < 8:
            return -s.below(1000)
        return s.choice(
            [10**3, 2**31, 2**31 - 1, 2**32, 2**53 + 1, 2**63, 2**64, -(2**63), 10**20]
        )

    def flt(self):
        s = self.s
        k = s.below(10)
        if k < 4:
            v = s.choice([0.5, 1.0, 0.1, 2.5, 0.0, 0.99, 100.0])
        elif k < 6:
            v = s.choice(
                [1e-7, 1e16, 1e22, 1 / 3, 0.30000000000000004, 1e300, 5e-324, 123456.789]
            )
        elif k < 7 and D.FLOATS:
            v = s.choice(D.FLOATS)
        else:
            v = s.below(100000) / s.choice([1.0, 3.0, 7.0, 10.0, 1000.0, 1e9, 1e12])
        if s.below(4) == 3:
            v = -v
        return v

    def dt(self):
        s = self.s
        y = s.choice([2021, 2020, 1970, 2023, 2099, 1999, 1000, 9998, 2])
        mo, d = self.month_day(y)
        h, mi, se = s.below(24), s.below(60), s.below(60)
        if s.below(4) == 3:
            h, mi, se = s.choice([(0, 0, 0), (23, 59, 59), (0, 0, 1), (12, 0, 0)])
        k = s.below(6)
        if k < 4:
            us = s.choice([0, 0, 1, 500000, 123456, 999999, 1000, 10])
        elif k < 5:
            us = s.below(10 ** s.int(1, 6))
        else:
            us = s.below(1000) * 1000
        iso = f"{y:04d}-{mo:02d}-{d:02d}T{h:02d}:{mi:02d}:{se:02d}"
        if us:
            iso += f".{us:06d}"
        k = s.below(10)
        off = None
        if k == 8:
            # the hour a zone repeats or skips
            zone, day, hour = s.choice(FOLDS)
            iso = f"{day}T{hour:02d}:{mi:02d}:{se:02d}" + (f".{us:06d}" if us else "")
            return ["dt", iso, zone, s.below(2)]
        if k >= 4:
            off = s.choice(
                [0, 3600, -3600, 19800, -12600, 50400, -43200, 3601, -1, 45, 20700]
            )
        if k == 9:
            off = s.choice(ZONES)
        return ["dt", iso, off, s.below(2) if isinstance(off, str) else 0]

    def month_day(self, y):
        s = self.s
        if s.below(4) < 3:
            return s.int(1, 12), s.int(1, 28)
        mo = s.choice([1, 12, 2, 6])
        last = 31 if mo in (1, 12) else 30 if mo == 6 else 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28
        return mo, s.choice([1, last])

    def date(self):
        y = self.s.choice([2021, 1970, 2024, 999, 1, 9999])
        mo, d = self.month_day(y)
        return ["date", f"{y:04d}-{mo:02d}-{d:02d}"]

    def literal(self):
        s = self.s
        k = s.below(20)
        if k < 5:
            return ["int", self.integer()]
        if k < 10 or not self.rich_scalars:
            return ["str", self.string()]
        if k < 12:
            return ["float", repr(self.flt())]
        if k < 14:
            return ["bool", s.below(2) == 1]
        if k < 15:
            return ["null"]
        if k < 17:
            return ["bytes", self.string().encode("utf-8", "surrogatepass").hex()]
        if k < 19:
            return self.dt()
        return self.date()

    def seq(self, item, hi=5):
        s = self.s
        if self.long and s.bool(0.4):
            if D.SMALL_SIZES and s.bool(0.5):
                n = s.choice(D.SMALL_SIZES)
            else:
                n = s.int(0, 30)
            return s.many(item, n)
        return s.list(item, 0, hi)

    def array(self, ctx, depth):
        s = self.s
        kind = s.choice(["list", "tuple"])

        def item():
            k = s.below(20)
            if k < 16 or depth <= 0:
                return self.literal()
            if k < 18 and self.nested:
                return self.array(ctx, depth - 1)
            if ctx is None:
                return self.literal()
            return self.expr(ctx, depth - 1)

        return [kind, self.seq(item)]

    def scalar(self, ctx=None, depth=1):
        if self.s.below(10) < 7:
            return self.literal()
        return self.array(ctx, depth)

    # ---- names ---------------------------------------------------------
    def colname(self):
        s = self.s
        k = s.below(20)
        if k < 12 or not self.rich_names:
            n = s.choice(COLS[:13])
        elif k < 16:
            n = s.choice(COLS)
        elif k < 18 and D.COLUMN_WORDS:
            n = s.choice(D.COLUMN_WORDS)
        else:
            n = s.choice(FIRST + "_") + "".join(
                s.list(lambda: s.choice(LATER + ".:/@\u00e9"), 0, 6)
            )
            if s.below(3) == 2:
                key = "".join(
                    s.list(
                        lambda: s.choice(LATER + ".: '\"`\\,()*{}\n-=\u00e9"), 0, 6
                    )
                )
                n += f"[{key}]"
        return n + "_" if n in RESERVED else n

    def funcname(self):
        s = self.s
        k = s.below(10)
        if k < 6 or not self.rich_names:
            return s.choice(FUNCS)
        if k < 8 and D.FUNC_WORDS:
            n = s.choice(D.FUNC_WORDS)
        else:
            n = s.choice(FIRST) + "".join(s.list(lambda: s.choice(LATER), 1, 6))
        return n + "_" if n in RESERVED else n

    def alias(self):
        s = self.s
        k = s.below(10)
        if k < 6 or not self.rich_names:
            return s.choice(ALIASES[:6])
        if k < 8:
            return s.choice(ALIASES)
        if k < 9 and D.ALIAS_WORDS:
            return s.choice(D.ALIAS_WORDS)
        return "".join(s.list(lambda: s.choice(LATER + ".+*/:-[]()@"), 1, 6))

    def opt_alias(self, p=0.4):
        return self.alias() if self.s.bool(p) else None

    def entname(self):
        s = self.s
        if s.below(10) < 8:
            return s.choice(ENTITIES)
        if D.ENTITY_WORDS and s.below(2):
            return s.choice(D.ENTITY_WORDS)
        return "".join(s.list(lambda: s.choice(FIRST + "_"), 1, 6))

    def sample(self):
        s = self.s
        if not s.bool(0.3):
            return None
        k = s.below(6)
        if k < 2:
            return repr(s.choice([0.1, 0.2, 1.0, 10.0, 1000.0, 0.5]))
        if k < 4:
            return repr(s.int(1, 10**6) / s.choice([10**6, 10**5, 10**3, 7, 3]))
        return repr(s.choice([1e-7, 0.123456789, 1 / 3, 1e16, 1e22, 123456.7891234, 0.0000005]))

    def model(self, p=0.3):
        s = self.s
        if not s.bool(p):
            return None
        pool = s.sample(MODEL_COLS, s.int(1, len(MODEL_COLS)))
        cols = [[c, s.bool(0.3)] for c in pool]
        return {"cols": cols, "time": s.choice(MODEL_COLS)}

    def entity(self, alias=None, model_p=0.3):
        a = alias
        if alias is None and self.s.bool(0.15):
            a = self.s.choice(ENT_ALIASES)
        return {
            "name": self.entname(),
            "alias": a,
            "sample": self.sample(),
            "model": self.model(model_p),
        }

    def storage(self):
        return {"name": self.entname(), "sample": self.sample(), "model": self.model()}

    # ---- expressions ---------------------------------------------------
    def model_col(self, model):
        s = self.s
        n = s.choice([c for c, _ in model["cols"]])
        if s.below(5) == 4:
            n += "[" + s.choice(["a", "b", "x.y", "", "it's"]) + "]"
        return n

    def col(self, ctx):
        s = self.s
        k = ctx["kind"]
        if k == "join":
            e = s.choice(ctx["ents"])
            n = self.model_col(e["model"]) if e["model"] else self.colname()
            return ["col", n, e]
        if k == "names":
            return ["col", s.choice(ctx["names"]), None]
        if k == "model":
            return ["col", self.model_col(ctx["model"]), None]
        ent = None
        if s.below(25) == 24:
            ent = self.entity(alias=s.choice(ENT_ALIASES), model_p=0.0)
        return ["col", self.colname(), ent]

    def param(self, ctx, depth, idents=()):
        s = self.s
        k = s.below(20)
        if k < 8:
            return self.col(ctx)
        if k < 13 or depth <= 0:
            return self.literal()
        if k < 16:
            return self.fn(ctx, depth - 1, idents)
        if k < 17:
            return self.array(ctx, depth - 1)
        if k < 18:
            return ["ident", s.choice(list(idents) or ["x", "y", "z1"])]
        if k < 19:
            ids = s.list(self.identname, 0 if s.below(8) == 7 else 1, 3)
            return ["lambda", ids, self.fn(ctx, depth - 1, tuple(ids))]
        return self.cfn(ctx, depth - 1, idents)

    def identname(self):
        s = self.s
        if not self.rich_names or s.below(6) < 5:
            return s.choice(["x", "y", "z1", "_k"])
        n = s.choice(FIRST + "_") + "".join(s.list(lambda: s.choice(LATER), 0, 4))
        return n + "_" if n in RESERVED else n

    def params(self, ctx, depth, idents=()):
        if self.s.below(20) == 19:
            return None
        return self.seq(lambda: self.param(ctx, depth, idents), 4)

    def fn(self, ctx, depth, idents=(), alias_p=0.3):
        return [
            "fn",
            self.funcname(),
            self.params(ctx, depth, idents),
            self.opt_alias(alias_p),
            self.s.choice(["list", "tuple"]),
        ]

    def cfn(self, ctx, depth, idents=(), alias_p=0.3):
        s = self.s
        inits = None
        if s.below(10) < 9:
            inits = s.list(
                lambda: self.literal() if s.below(5) < 4 else self.col(ctx), 0, 3
            )
        return [
            "cfn",
            self.funcname(),
            inits,
            self.params(ctx, depth, idents),
            self.opt_alias(alias_p),
            s.choice(["list", "tuple"]),
        ]

    def expr(self, ctx, depth, col_p=5):
        s = self.s
        k = s.below(10)
        if k < col_p or depth <= 0:
            return self.col(ctx)
        if k < 8:
            return self.fn(ctx, depth - 1)
        return self.cfn(ctx, depth - 1)

    def selectable(self, ctx):
        s = self.s
        if s.below(8) == 7:
            return ["aliased", self.col(ctx), self.opt_alias(0.8)]
        return self.expr(ctx, 2)

    # ---- conditions ----------------------------------------------------
    OPS = ["EQ", "EQ", "NEQ", "GT", "LT", "GTE", "LTE", "IN", "NOT_IN", "LIKE",
           "NOT_LIKE", "IS_NULL", "IS_NOT_NULL"]  # fmt: skip

    def cond(self, ctx, lhs=None, op=None):
        s = self.s
        lhs = lhs if lhs is not None else self.expr(ctx, 2, col_p=7)
        op = op or s.choice(self.OPS)
        if op in ("IS_NULL", "IS_NOT_NULL"):
            return ["cond", lhs, op, None]
        if op in ("IN", "NOT_IN") and s.below(4) < 3:
            rhs = self.array(ctx, 1)
        elif s.below(8) == 7:
            rhs = self.expr(ctx, 2)
        else:
            rhs = self.scalar(ctx)
        return ["cond", lhs, op, rhs]

    def vary(self, ctx, x):
        """x with one of its leaves changed."""
        s = self.s
        x = copy.deepcopy(x)
        leaves = []

        def walk(y):
            if isinstance(y, list) and y and isinstance(y[0], str):
                if y[0] in ("col", "int", "float", "str"):
                    leaves.append(y)
                elif y[0] == "fn":
                    leaves.append(y)
                    for z in y[2] or []:
                        walk(z)
                elif y[0] == "cfn":
                    leaves.append(y)
                    for z in (y[2] or []) + (y[3] or []):
                        walk(z)
                elif y[0] in ("list", "tuple"):
                    for z in y[1]:
                        walk(z)

        walk(x)
        y = s.choice(leaves[-3:] if s.bool() else leaves)
        if y[0] == "col":
            y[:] = self.col(ctx)
        elif y[0] == "int":
            y[1] += 1
        elif y[0] == "float":
            y[1] = repr(float(y[1]) + 0.5)
        elif y[0] == "str":
            y[1] += s.choice(["a", " ", "'"])
        else:
            y[1] = y[1] + s.choice(["If", "_", "s"])
        return x

    def or_group(self, ctx):
        """An OR that is, or is nearly, a set of equalities on one expression."""
        s = self.s
        n = s.size(2, 8, 0.6)
        lhs = self.expr(ctx, 2, col_p=6)
        if s.below(12) == 11:
            lhs = ["fn", s.choice(FUNCS), [["str", "z" * s.choice([20, 60, 130, 300])], lhs], None, "list"]
        arms = s.many(lambda: self.cond(ctx, lhs, "EQ"), n)
        n = len(arms)
        k = s.below(10)
        at = s.below(n)
        if k == 4:
            arms[at] = self.cond(ctx, self.vary(ctx, lhs), "EQ")
        elif k == 5:
            arms[at] = self.cond(ctx, lhs)
        elif k == 6:
            arms[at] = self.cond(ctx, None, "EQ")
        elif k == 7:
            arms[at] = ["bool", s.choice(["AND", "OR"]),
                        [self.cond(ctx, lhs, "EQ"), self.cond(ctx, lhs, "EQ")],
                        s.choice(["sub", "base"])]  # fmt: skip
        elif k == 8:
            arms = [self.cond(ctx, lhs, s.choice(["NEQ", "IN", "LIKE", "GT"])) for _ in range(n)]
        elif k == 9 and n > 1:
            arms[at] = arms[at - 1]
        return ["bool", s.choice(["OR", "OR", "OR", "OR", "AND"]), arms, s.choice(["sub", "base"])]

    def condition(self, ctx, depth):
        s = self.s
        k = s.below(20)
        if k < 12 or depth <= 0:
            return self.cond(ctx)
        if k < 15:
            return self.or_group(ctx)
        n = s.size(2, 5, 0.4)
        return [
            "bool",
            s.choice(["AND", "OR"]),
            s.many(lambda: self.condition(ctx, depth - 1), n),
            s.choice(["sub", "base"]),
        ]

    def conditions(self, ctx, hi=4):
        if self.long and self.s.below(4) == 3:
            return [self.condition(ctx, 1) for _ in range(self.s.int(5, 14))]
        return self.s.list(lambda: self.condition(ctx, 2), 0, hi)

    # ---- queries -------------------------------------------------------
    def join(self):
        s = self.s
        n = s.size(2, 5, 0.4)
        aliases = s.sample(ENT_ALIASES, n)
        model_p = 0.25 if s.below(3) == 2 else 0.0
        ents = [self.entity(alias=a, model_p=model_p) for a in aliases]
        rels = []
        for i in range(1, n):
            rels.append([ents[s.below(i)], s.choice(REL_NAMES), ents[i]])
        if s.below(4) == 3:
            rels.append([ents[s.below(n)], s.choice(REL_NAMES), ents[s.below(n)]])
        return ["join", rels], ents

    def match(self, depth):
        """(match spec, column context)"""
        s = self.s
        k = s.below(20)
        if k < 9:
            e = self.entity()
            return ["entity", e], self.ctx_of(e["model"])
        if k < 11:
            st = self.storage()
            return ["storage", st], self.ctx_of(st["model"])
        if k < 15 or depth <= 0:
            m, ents = self.join()
            return m, {"kind": "join", "ents": ents}
        q = self.query(depth - 1, inner=True)
        return ["query", q], {"kind": "names", "names": inner_names(q)}

    def ctx_of(self, model):
        return {"kind": "model", "model": model} if model else {"kind": "free"}

    def query(self, depth=2, inner=False):
        s = self.s
        m, ctx = self.match(depth)
        select = s.list(lambda: self.selectable(ctx), 1, 4)
        q = {"match": m, "select": select}
        if inner and not inner_names(q):
            select.append(self.col(ctx))
        if inner and not inner_names(q):
            select.append(["fn", "count", [], "cnt", "list"])
        q["groupby"] = s.list(lambda: self.selectable(ctx), 0, 3) if s.bool(0.4) else None
        q["array_join"] = s.list(lambda: self.col(ctx), 1, 3, 0.3) if s.bool(0.15) else None
        q["where"] = self.conditions(ctx) if s.bool(0.6) else None
        q["having"] = self.conditions(ctx, 3) if s.bool(0.25) else None
        q["orderby"] = (
            s.list(
                lambda: ["order", self.expr(ctx, 2), s.choice(["ASC", "DESC"])], 0, 3
            )
            if s.bool(0.3)
            else None
        )
        q["limitby"] = (
            {"cols": s.list(lambda: self.col(ctx), 1, 3, 0.4), "count": self.bounded(1, 10000)}
            if s.bool(0.2)
            else None
        )
        q["limit"] = self.bounded(1, 10000) if s.bool(0.35) else None
        q["offset"] = self.bounded(0, None) if s.bool(0.3) else None
        q["granularity"] = self.bounded(1, None) if s.bool(0.3) else None
        q["totals"] = None
        if s.bool(0.25):
            q["totals"] = s.bool(0.7) if q["groupby"] else False
        return q

    def bounded(self, lo, hi):
        s = self.s
        k = s.below(6)
        if k < 3:
            v = s.choice([1, 10, 100, 2, 5, 1000, 3600, 60])
        elif k < 4:
            v = lo if s.below(2) else (hi if hi is not None else 10**9)
        elif k < 5 and D.NEAR_INTS:
            v = abs(s.choice(D.NEAR_INTS))
        else:
            v = s.below(12000)
        v = max(lo, v)
        return min(hi, v) if hi is not None else v


COLUMN_NAME = re.compile(r"[a-zA-Z_](\w|\.|:|/|@)*(\[[^\[\]]*\])?\Z")


def inner_names(q):
    """Names an outer query may use: selected columns, and function aliases."""
    out = []
    for e in q["select"] or []:
        if e[0] == "col":
            n = e[1]
        elif e[0] == "fn":
            n = e[3]
        elif e[0] == "cfn":
            n = e[4]
        else:
            n = None
        if n is not None and COLUMN_NAME.match(n) and n not in RESERVED and n not in out:
            out.append(n)
    return out
