"""SnQL: what a query spec must say, and an independent reader of SnQL text.

Both produce the same abstract form:

  name     ["name", text]             column, or a function without parameters
  literal  ["lit", "null"] / ["lit","bool",b] / ["lit","int",n] /
           ["lit","float",repr] / ["lit","str",s]
  call     ["call", name, [group, ...]]      groups: initializers, parameters
  ident    ["ident", n]   lambda  ["lambda", ids, e]
  alias    ["as", e, alias]
  cond     ["cond", lhs, op text, rhs|None]   bool ["bool", "AND"|"OR", [...]]
"""
from __future__ import annotations

import re
from datetime import date, datetime, timedelta, timezone
from zoneinfo import ZoneInfo

OPTEXT = {
    "GT": ">", "LT": "<", "GTE": ">=", "LTE": "<=", "EQ": "=", "NEQ": "!=", "IN": "IN",
    "NOT_IN": "NOT IN", "LIKE": "LIKE", "NOT_LIKE": "NOT LIKE", "IS_NULL": "IS NULL",
    "IS_NOT_NULL": "IS NOT NULL",
}  # fmt: skip


# ---------------------------------------------------------------------------
# spec -> abstract form
def utc_naive_iso(x):
    v = datetime.fromisoformat(x[1])
    off = x[2]
    if off is not None:
        tz = ZoneInfo(off) if isinstance(off, str) else timezone(timedelta(seconds=off))
        v = v.replace(tzinfo=tz, fold=x[3] if isinstance(off, str) else 0)
        v = v.astimezone(timezone.utc).replace(tzinfo=None, fold=0)
    base = f"{v.year:04d}-{v.month:02d}-{v.day:02d}T{v.hour:02d}:{v.minute:02d}:{v.second:02d}"
    return base + (f".{v.microsecond:06d}" if v.microsecond else "")


def m_any(x, quals):
    k = x[0]
    if k == "null":
        return ["lit", "null"]
    if k == "bool":
        return ["lit", "bool", x[1]]
    if k == "int":
        return ["lit", "int", x[1]]
    if k == "float":
        return ["lit", "float", repr(float(x[1]))]
    if k == "str":
        return ["lit", "str", x[1]]
    if k == "bytes":
        return ["lit", "str", bytes.fromhex(x[1]).decode("utf-8")]
    if k == "date":
        return ["call", "toDateTime", [[["lit", "str", x[1]]]]]
    if k == "dt":
        return ["call", "toDateTime", [[["lit", "str", utc_naive_iso(x)]]]]
    if k == "list":
        return ["call", "array", [[m_any(v, quals) for v in x[1]]]]
    if k == "tuple":
        return ["call", "tuple", [[m_any(v, quals) for v in x[1]]]]
    if k == "col":
        if quals and x[2] is not None:
            return ["name", f"{x[2]['alias']}.{x[1]}"]
        return ["name", x[1]]
    if k in ("fn", "cfn"):
        if k == "fn":
            _, name, params, alias, _ = x
            inits = None
        else:
            _, name, inits, params, alias, _ = x
        groups = [
            [m_any(v, quals) for v in g] for g in (inits, params) if g is not None
        ]
        e = ["call", name, groups] if groups else ["name", name]
        return ["as", e, alias] if alias is not None else e
    if k == "ident":
        return ["ident", x[1]]
    if k == "lambda":
        return ["lambda", list(x[1]), m_any(x[2], quals)]
    if k == "aliased":
        e = m_any(x[1], quals)
        return ["as", e, x[2]] if x[2] is not None else e
    raise KeyError(k)


def m_cond(c, quals):
    if c[0] == "cond":
        rhs = None if c[3] is None else m_any(c[3], quals)
        return ["cond", m_any(c[1], quals), OPTEXT[c[2]], rhs]
    return ["bool", c[1], [m_cond(x, quals) for x in c[2]]]


def m_match(m, read=False):
    k = m[0]
    if k == "entity":
        return ["entity", None, m[1]["name"], m_sample(m[1]["sample"])]
    if k == "storage":
        return ["storage", m[1]["name"], m_sample(m[1]["sample"])]
    if k == "join":
        return [
            "join",
            [
                [
                    [a["alias"], a["name"], m_sample(a["sample"])],
                    n,
                    [b["alias"], b["name"], m_sample(b["sample"])],
                ]
                for a, n, b in m[1]
            ],
        ]
    return ["query", m_query(m[1])]


def m_sample(v):
    return None if v is None else repr(float(v))


def m_query(q):
    """The abstract form of a query, with its where clause as written."""
    quals = q["match"][0] == "join"
    out = {"match": m_match(q["match"])}
    out["select"] = [m_any(x, quals) for x in q["select"]]
    out["groupby"] = [m_any(x, quals) for x in q.get("groupby") or []]
    out["array_join"] = [m_any(x, quals) for x in q.get("array_join") or []]
    out["where"] = [m_cond(c, quals) for c in q.get("where") or []]
    out["having"] = [m_cond(c, quals) for c in q.get("having") or []]
    out["orderby"] = [[m_any(o[1], quals), o[2]] for o in q.get("orderby") or []]
    lb = q.get("limitby")
    out["limitby"] = lb and [[m_any(c, quals) for c in lb["cols"]], lb["count"]]
    for f in ("limit", "offset", "granularity", "totals"):
        out[f] = q.get(f)
    return out


# ---------------------------------------------------------------------------
# The documented collapse of OR-ed equalities (top level of the outer WHERE).
def py_key(x):
    """Specs with equal keys build expressions the SDK regards as equal."""
    if isinstance(x, list):
        if x and x[0] in ("bool", "int") and len(x) == 2 and not isinstance(x[1], list):
            return ("num", float(x[1]) if abs(x[1]) < 2**53 else x[1])
        if x and x[0] == "float":
            return ("num", float(x[1]))
        if x and x[0] == "cfn":
            return ("cfn", x[1], py_key(x[2]), py_key(x[3]), x[5])
        if x and x[0] == "fn":
            # a Function equals a CurriedFunction without initializers, whatever the aliases
            return ("cfn", x[1], None, py_key(x[2]), x[4])
        return tuple(py_key(v) for v in x)
    if isinstance(x, dict):
        d = dict(x)
        d.pop("model", None)
        return tuple(sorted((k, py_key(v)) for k, v in d.items()))
    return x


def collapse(c):
    """(status, condition): status 'must', 'may' or 'no' collapse to an IN."""
    if c[0] != "bool" or c[1] != "OR":
        return "no", c
    arms = c[2]
    if any(a[0] != "cond" or a[2] != "EQ" for a in arms):
        return "no", c
    lhs = arms[0][1]
    new = ["cond", lhs, "IN", ["list", [a[3] for a in arms]]]
    if all(a[1] == lhs for a in arms):
        return "must", new
    # e.g. CurriedFunctions that differ in their alias only, or f(1) and f(TRUE)
    if len({py_key(a[1]) for a in arms}) == 1:
        return "may", new
    return "no", c


# ---------------------------------------------------------------------------
class Unreadable(Exception):
    pass


WS = re.compile(r"\s*")
NAME = re.compile(r"[a-zA-Z_](?:\w|[.:/@])*(?:\[[^\[\]]*\])?")
WORD = re.compile(r"[A-Za-z_]+")
NUM = re.compile(r"-?\d+(\.\d+)?(e[+-]?\d+)?(?![\w.])")
STR = re.compile(r"'((?:[^'\\\n]|\\.)*)'", re.S)
BACKTICK = re.compile(r"`([^`]*)`")
ENT = re.compile(
    r"\(\s*(?:([A-Za-z0-9_]+):\s+)?([a-zA-Z_]+)(?:\s+SAMPLE\s+([0-9.]+))?\s*\)"
)
STORAGE = re.compile(r"STORAGE\(\s*([a-zA-Z_]+)(?:\s+SAMPLE\s+([0-9.]+))?\s*\)")
REL = re.compile(r"\s*-\[(\w+)\]->\s*")
OPS = re.compile(
    r"(>=|<=|!=|=|>|<|NOT\s+IN\b|IN\b|NOT\s+LIKE\b|LIKE\b|IS\s+NOT\s+NULL\b|IS\s+NULL\b)"
)
ESC = {"\\": "\\", "'": "'", "n": "\n"}


def unescape(body):
    out = []
    i = 0
    while i < len(body):
        ch = body[i]
        if ch == "\\":
            i += 1
            if i >= len(body) or body[i] not in ESC:
                raise Unreadable(f"unknown escape in {body!r}")
            out.append(ESC[body[i]])
        else:
            out.append(ch)
        i += 1
    return "".join(out)


class Reader:
    def __init__(self, text):
        self.t = text
        self.i = 0
        self.depth = 0

    def fail(self, what):
        raise Unreadable(
            f"expected {what} at {self.i}: ...{self.t[max(0, self.i - 20):self.i + 40]!r}"
        )

    def ws(self):
        self.i = WS.match(self.t, self.i).end()

    def peek(self, lit):
        self.ws()
        return self.t.startswith(lit, self.i)

    def take(self, lit):
        if not self.peek(lit):
            self.fail(lit)
        self.i += len(lit)

    def opt(self, lit):
        if self.peek(lit):
            self.i += len(lit)
            return True
        return False

    def word(self, w):
        """An upper case keyword (one or two words), delimited by white space."""
        self.ws()
        m = re.compile(r"\s+".join(w.split()) + r"(?![\w.:/@\[])").match(self.t, self.i)
        if m and (self.i == 0 or self.t[self.i - 1].isspace()):
            self.i = m.end()
            return True
        return False

    def rx(self, r, what):
        self.ws()
        m = r.match(self.t, self.i)
        if not m:
            self.fail(what)
        self.i = m.end()
        return m

    # -- clauses ---------------------------------------------------------
    def read(self):
        q = self.query()
        self.ws()
        if self.i != len(self.t):
            self.fail("the end of the query")
        return q

    def query(self):
        if not self.word("MATCH"):
            self.fail("MATCH")
        q = {"match": self.match()}
        if not self.word("SELECT"):
            self.fail("SELECT")
        q["select"] = self.exprs()
        q["groupby"] = self.exprs() if self.word("BY") else []
        q["array_join"] = self.exprs() if self.word("ARRAY JOIN") else []
        q["where"] = self.conditions() if self.word("WHERE") else []
        q["having"] = self.conditions() if self.word("HAVING") else []
        q["orderby"] = []
        if self.word("ORDER BY"):
            while True:
                e = self.expr()
                if self.word("ASC"):
                    d = "ASC"
                elif self.word("DESC"):
                    d = "DESC"
                else:
                    self.fail("ASC or DESC")
                q["orderby"].append([e, d])
                if not self.opt(","):
                    break
        q["limitby"] = None
        q["limit"] = None
        if self.word("LIMIT"):
            n = self.integer()
            if self.word("BY"):
                q["limitby"] = [self.exprs(), n]
                if self.word("LIMIT"):
                    q["limit"] = self.integer()
            else:
                q["limit"] = n
        q["offset"] = self.integer() if self.word("OFFSET") else None
        q["granularity"] = self.integer() if self.word("GRANULARITY") else None
        q["totals"] = None
        if self.word("TOTALS"):
            if self.word("True"):
                q["totals"] = True
            elif self.word("False"):
                q["totals"] = False
            else:
                self.fail("True or False")
        return q

    def integer(self):
        m = self.rx(NUM, "an integer")
        if m.group(1) or m.group(2):
            self.fail("an integer")
        return int(m.group(0))

    def match(self):
        self.ws()
        if self.opt("{"):
            q = self.query()
            self.take("}")
            return ["query", q]
        m = STORAGE.match(self.t, self.i)
        if m:
            self.i = m.end()
            return ["storage", m.group(1), self.samp(m.group(2))]
        m = self.rx(ENT, "an entity")
        left = [m.group(1), m.group(2), self.samp(m.group(3))]
        r = REL.match(self.t, self.i)
        if not r:
            return ["entity", *left]
        rels = []
        while True:
            self.i = r.end()
            m = self.rx(ENT, "an entity")
            rels.append(
                [left, r.group(1), [m.group(1), m.group(2), self.samp(m.group(3))]]
            )
            if not self.opt(","):
                break
            m = self.rx(ENT, "an entity")
            left = [m.group(1), m.group(2), self.samp(m.group(3))]
            r = REL.match(self.t, self.i)
            if not r:
                self.fail("a relationship")
        return ["join", rels]

    @staticmethod
    def samp(t):
        if t is None:
            return None
        if not re.fullmatch(r"\d+\.\d+", t):
            raise Unreadable(f"sample {t!r}")
        return repr(float(t))

    # -- conditions ------------------------------------------------------
    def conditions(self):
        """The top level of WHERE/HAVING: a list of AND-ed terms."""
        terms = [self.term()]
        ors = False
        while True:
            if self.word("AND"):
                terms.append(self.term())
            elif self.word("OR"):
                ors = True
                terms.append(self.term())
            else:
                break
        if ors:
            raise Unreadable("OR without parentheses at the top level")
        return terms

    def term(self):
        self.ws()
        if self.peek("("):
            self.i += 1
            first = self.term()
            op = None
            items = [first]
            while True:
                if self.word("AND"):
                    new = "AND"
                elif self.word("OR"):
                    new = "OR"
                else:
                    break
                if op is not None and op != new:
                    raise Unreadable("AND and OR mixed without parentheses")
                op = new
                items.append(self.term())
            self.take(")")
            if op is None:
                raise Unreadable("parentheses around a single condition")
            return ["bool", op, items]
        lhs = self.expr()
        m = self.rx(OPS, "an operator")
        op = " ".join(m.group(1).split())
        if op.startswith("IS"):
            return ["cond", lhs, op, None]
        return ["cond", lhs, op, self.expr()]

    # -- expressions -----------------------------------------------------
    def exprs(self):
        out = [self.expr()]
        while self.opt(","):
            out.append(self.expr())
        return out

    def expr(self):
        e = self.bare()
        if self.word("AS"):
            e = ["as", e, self.rx(BACKTICK, "an alias").group(1)]
        return e

    def bare(self):
        self.ws()
        c = self.t[self.i : self.i + 1]
        if c == "'":
            return ["lit", "str", unescape(self.rx(STR, "a string").group(1))]
        if c == "`":
            return ["ident", self.rx(BACKTICK, "an identifier").group(1)]
        if c == "(":
            self.i += 1
            ids = []
            if not self.peek(")"):
                ids.append(self.rx(BACKTICK, "an identifier").group(1))
                while self.opt(","):
                    ids.append(self.rx(BACKTICK, "an identifier").group(1))
            self.take(")")
            self.take("->")
            return ["lambda", ids, self.expr()]
        if c.isdigit() or c == "-":
            m = self.rx(NUM, "a number")
            if m.group(1) or m.group(2):
                return ["lit", "float", repr(float(m.group(0)))]
            return ["lit", "int", int(m.group(0))]
        m = self.rx(NAME, "an expression")
        n = m.group(0)
        if n == "NULL":
            return ["lit", "null"]
        if n in ("TRUE", "FALSE"):
            return ["lit", "bool", n == "TRUE"]
        groups = []
        while self.t.startswith("(", self.i) and len(groups) < 2:
            self.i += 1
            args = []
            if not self.peek(")"):
                args = self.exprs()
            self.take(")")
            groups.append(args)
        if groups:
            return ["call", n, groups]
        return ["name", n]


def read(text):
    if not isinstance(text, str):
        raise Unreadable(f"not a string: {type(text)}")
    try:
        return Reader(text).read()
    except RecursionError:
        raise Unreadable("nested too deeply")
