"""C17: a legacy body is converted to the same query and request, and left alone."""
import copy
import re

from lib.common import compare_query, deep_eq, query_labels, read_snql, require, short
from lib.engine import Violation
from lib.gen import G
from snuba_sdk.legacy import json_to_snql

ID = "C17"
COUNT = {"quick": 20000, "thorough": 150000}
RULE = (
    "Legacy bodies are generated together with the query they denote: aggregations, selected "
    "columns, groups (single, list, tuple), nested function expressions with quoted literals and "
    "conditions inside, condition lists with OR lists, dates with and without zone or fraction, "
    "tag and release comparisons with date-like strings, orderings with -, limit by, "
    "organization/project/from_date/to_date extensions, sample, flags, dataset, tenants. The "
    "converted request must serialize to exactly that query and envelope, twice, and the body "
    "must be unchanged. Non-trivial: at least two clauses beyond select."
)
ASSUMPTIONS = [
    "bodies of the documented legacy form; strings that only nearly look like dates are not generated",
    "the required time column of an entity is the published one",
]
TIME = {
    "discover": "timestamp", "discover_events": "timestamp", "discover_transactions": "finish_ts",
    "errors": "timestamp", "events": "timestamp", "outcomes": "timestamp",
    "outcomes_raw": "timestamp", "replays": "timestamp", "search_issues": "timestamp",
    "sessions": "started", "spans": "finish_ts", "transactions": "finish_ts",
}  # fmt: skip
OPS = {
    "EQ": "=", "NEQ": "!=", "GT": ">", "LT": "<", "GTE": ">=", "LTE": "<=", "IN": "IN",
    "NOT_IN": "NOT IN", "LIKE": "LIKE", "NOT_LIKE": "NOT LIKE", "IS_NULL": "IS NULL",
    "IS_NOT_NULL": "IS NOT NULL",
}  # fmt: skip
OPFN = {
    "EQ": "equals", "NEQ": "notEquals", "GT": "greater", "LT": "less", "GTE": "greaterOrEquals",
    "LTE": "lessOrEquals", "IN": "in", "NOT_IN": "notIn", "LIKE": "like", "NOT_LIKE": "notLike",
    "IS_NULL": "isNull", "IS_NOT_NULL": "isNotNull",
}  # fmt: skip
DATE = re.compile(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(?:\.(\d{1,6})|([+-])(\d\d):?(\d\d)|(Z))?\Z", re.A)
DATEISH = re.compile(r"\d{1,4}-\d{1,2}-\d{1,2}T")
COLS = ["a", "b", "title", "release", "tags[a]", "tags[b.c]", "project_id", "event_id", "timestamp",
        "environment", "user.id", "measurements[lcp]", "tags", "release2", "duration"]  # fmt: skip


def T(items):
    return {"tuple": items}


def dec(x):
    if isinstance(x, dict) and set(x) == {"tuple"}:
        return tuple(dec(v) for v in x["tuple"])
    if isinstance(x, dict) and set(x) == {"set"}:
        return {dec(v) for v in x["set"]}
    if isinstance(x, dict):
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def as_date(t):
    m = DATE.match(t)
    if not m:
        return None
    base, frac, sign, hh, mm, z = m.groups()
    off = None
    if frac:
        base += "." + frac.ljust(6, "0") if frac.strip("0") else ""
    if sign:
        off = (int(hh) * 3600 + int(mm) * 60) * (-1 if sign == "-" else 1)
    if z:
        off = 0
    return ["dt", base, off, 0]


class L(G):
    def date_text(self):
        s = self.s
        t = (
            f"{s.choice([2020, 2021, 1999]):04d}-{s.int(1, 12):02d}-{s.int(1, 28):02d}"
            f"T{s.below(24):02d}:{s.below(60):02d}:{s.below(60):02d}"
        )
        k = s.below(6)
        if k < 2:
            return t
        if k < 4:
            return t + "." + s.choice(["110774", "000001", "5", "123", "000", "999999"])
        return t + s.choice(["+00:00", "+0000", "+05:30", "-05:00", "-0330", "Z"])

    def text(self):
        s = self.s
        k = s.below(10)
        if k < 2:
            return self.date_text()
        if k < 3:
            return s.choice(["2021-01-01", "a+b:c", "+00:00", "x+1:2", "12:30", "null", "'quoted'", "'", "a:b+c:d",
                             "2021-01", "10:00:00+00:00"])  # fmt: skip
        t = self.string()
        if DATEISH.search(t) and not DATE.match(t):
            t = "plain"
        return t

    def sc(self, strings):
        """(legacy, spec) of a right hand side scalar."""
        s = self.s
        k = s.below(10)
        if k < 6:
            t = self.text()
            d = None if strings else as_date(t)
            return t, d or ["str", t]
        if k < 8:
            n = self.integer()
            return n, ["int", n]
        if k < 9:
            f = self.flt()
            return f, ["float", repr(f)]
        b = s.bool()
        return b, ["bool", b]

    def rhs(self, op, strings):
        s = self.s
        if op in ("IN", "NOT_IN"):
            if s.below(8) == 7:
                inner = s.list(lambda: self.sc(strings), 1, 3)
                wrap = s.choice([list, T])
                return [wrap([i for i, _ in inner])], ["tuple", [["tuple", [j for _, j in inner]]]]
            items = s.list(lambda: self.sc(strings), 1, 4)
            leg = [i for i, _ in items]
            if len(items) == 1 and s.below(4) == 3:
                return {"set": leg}, ["tuple", [j for _, j in items]]
            return leg if s.bool() else T(leg), ["tuple", [j for _, j in items]]
        return self.sc(strings)

    def lcol(self):
        s = self.s
        n = s.choice(COLS) if s.bool(0.8) else self.colname()
        if n.startswith("'") or not n:
            n = "a"
        return n, ["col", n, None]

    def lalias(self, p=0.4):
        """(suffix of the legacy list, alias)"""
        s = self.s
        if not s.bool(p):
            return [], None
        a = self.alias()
        return [f"`{a}`" if s.below(4) == 3 else a], a

    def arg(self, depth):
        s = self.s
        k = s.below(12)
        if k < 4:
            return self.lcol()
        if k < 6:
            t = self.text()
            if s.below(10) == 9:
                return "", ["str", ""]
            return f"'{t}'", ["str", t]
        if k < 7:
            n = self.integer()
            return n, ["int", n]
        if k < 8:
            f = self.flt()
            return f, ["float", repr(f)]
        if k < 9:
            items = s.list(lambda: self.sc(False), 1, 3)
            return T([i for i, _ in items]), ["tuple", [j for _, j in items]]
        if k < 11 and depth > 0:
            return self.lfn(depth - 1)
        if depth > 0:
            return self.cond_fn(depth - 1)
        return self.lcol()

    def lfn(self, depth, alias_p=0.3):
        s = self.s
        suf, a = self.lalias(alias_p)
        name = s.choice(["count", "uniq", "ifNull", "toHour", "plus", "f1", "or", "substringUTF8", "avg", "equals"]) if s.bool(0.8) else self.funcname()
        k = s.below(10)
        if k < 1:
            return [name + "()", s.choice(["", None, []]), *suf], ["fn", name, [], a, "list"]
        if k < 2:
            return [name, s.choice(["", None, []]), *suf], ["fn", name, [], a, "list"]
        if k < 3:
            leg, sp = self.lcol()
            if leg.upper() not in OPS.values():
                return [name, leg, *suf], ["fn", name, [sp], a, "list"]
        if name == "ifNull" and s.bool(0.7):
            c = self.lcol()
            if s.bool():
                c = s.choice(["release", "tags[a]", "tags[release]", "release2", "tags"])
                c = c, ["col", c, None]
            args = [c, ("''", ["str", ""])][: 1 if s.below(4) == 3 else 2]
        else:
            args = [self.arg(depth) for _ in range(s.size(1, 3))]
        if s.below(20) == 19:
            return [name + "()", [i for i, _ in args], *suf], ["cfn", name, [], [j for _, j in args], a, "list"]
        if s.below(12) == 11:
            n = s.below(100)
            return (
                [f"topK({n})", [i for i, _ in args], *suf],
                ["cfn", "topK", [["int", n]], [j for _, j in args], a, "list"],
            )
        return [name, [i for i, _ in args], *suf], ["fn", name, [j for _, j in args], a, "list"]

    def lhs(self, depth):
        s = self.s
        if s.below(10) < 6:
            return self.lcol()
        if s.below(5) == 4:
            c = s.choice(["release", "tags[a]", "tags[release]", "release2", "tags"])
            name = s.choice(["ifNull", "ifNull", "ifNull", "coalesce"])
            args = [(c, ["col", c, None]), ("''", ["str", ""])][: 1 if s.below(3) == 2 else 2]
            return [name, [i for i, _ in args]], ["fn", name, [j for _, j in args], None, "list"]
        return self.lfn(depth, 0.1)

    def strings_only(self, lhs):
        def stringy(c):
            return c[0] == "col" and (c[1] == "release" or re.match(r"tags\[.*\]\Z", c[1], re.S) is not None)

        if stringy(lhs):
            return True
        return lhs[0] == "fn" and lhs[1] == "ifNull" and len(lhs[2]) > 1 and stringy(lhs[2][0])

    def cond_parts(self, depth):
        s = self.s
        l, lsp = self.lhs(depth)
        op = s.choice(list(OPS))
        text = OPS[op]
        if s.below(6) == 5:
            text = text.lower()
        if op in ("IS_NULL", "IS_NOT_NULL"):
            return [l, text, s.choice([None, "", 0, "x"])], lsp, op, None
        r, rsp = self.rhs(op, self.strings_only(lsp))
        return [l, text, r], lsp, op, rsp

    def cond_fn(self, depth):
        leg, lsp, op, rsp = self.cond_parts(depth)
        params = [lsp] if rsp is None else [lsp, rsp]
        return leg, ["fn", OPFN[op], params, None, "tuple"]

    def lcond(self):
        s = self.s
        leg, lsp, op, rsp = self.cond_parts(1)
        if s.below(8) == 7:
            leg = T(leg)
        return leg, ["cond", lsp, op, rsp]

    def lconds(self):
        """(legacy list, [condition specs])"""
        s = self.s
        leg, sp = [], []
        for _ in range(s.size(0, 4)):
            if s.below(4) < 3:
                a, b = self.lcond()
                leg.append(a)
                sp.append(b)
            else:
                arms = s.list(self.lcond, 1, 4)
                wrap = s.choice([list, list, T])
                leg.append(wrap([a for a, _ in arms]))
                sp.append(["bool", "OR", [b for _, b in arms], "sub"] if len(arms) > 1 else arms[0][1])
        return leg, sp

    def selectable(self, depth=2):  # type: ignore[override]
        s = self.s
        if s.below(10) < 6:
            return self.lcol()
        leg, sp = self.lfn(depth)
        return (T(leg) if s.below(4) == 3 else leg), sp


def gen(s):
    g = L(s)
    body, q = {}, {}
    ent = s.choice(list(TIME) + ["metrics", "generic_metrics", "group_attributes"])
    sample = None
    if s.bool(0.2):
        sample = s.choice([0.1, 1000, 1, 0.25, "0.5", 10.0])
        body["sample"] = sample
    q["match"] = ["entity", {"name": ent, "alias": None, "sample": None if sample is None else repr(float(sample)),
                             "model": None}]  # fmt: skip
    select = []
    if s.bool(0.6):
        aggs = []
        for _ in range(s.size(0, 3)):
            if s.below(12) == 11:
                suf, a = g.lalias()
                aggs.append(["divide(count(), 60)", None, *suf])
                select.append(["fn", "divide", [["fn", "count", [], None, "list"], ["int", 60]], a, "list"])
                continue
            leg, sp = g.lfn(1, 0.8)
            aggs.append(T(leg) if s.below(3) == 2 else leg)
            select.append(sp)
        body["aggregations"] = aggs
    if not select or s.bool(0.6):
        items = s.list(g.selectable, 0 if select else 1, 3)
        body["selected_columns"] = [a for a, _ in items]
        select.extend(b for _, b in items)
    q["select"] = select
    q["array_join"] = None
    if s.bool(0.15):
        leg, sp = g.lcol()
        body["arrayjoin"] = leg
        q["array_join"] = [sp]
    elif s.below(10) == 9:
        body["arrayjoin"] = s.choice([None, ""])
    q["groupby"] = []
    if s.bool(0.5):
        if s.below(3) == 2:
            leg, sp = g.lcol()
            body["groupby"] = leg
            q["groupby"] = [sp]
        else:
            items = s.list(g.selectable, 0, 3)
            body["groupby"] = [a for a, _ in items]
            q["groupby"] = [b for _, b in items]
    where = []
    if s.bool(0.4):
        if s.bool():
            n = s.int(1, 99)
            body["organization"] = n
            where.append(["cond", ["col", "org_id", None], "EQ", ["int", n]])
        else:
            ns = s.list(lambda: s.int(1, 99), 1, 3)
            body["organization"] = ns if s.bool() else T(ns)
            where.append(["cond", ["col", "org_id", None], "IN", ["tuple", [["int", n] for n in ns]]])
    elif s.below(6) == 5:
        body["organization"] = s.choice([None, 0, [], T([])])
    for f, op in (("from_date", "GTE"), ("to_date", "LT")):
        if s.bool(0.5):
            t = g.date_text()
            body[f] = t
            if ent in TIME:
                where.append(["cond", ["col", TIME[ent], None], op, as_date(t)])
        elif s.below(8) == 7:
            body[f] = s.choice([None, ""])
    if s.bool(0.5):
        if s.bool():
            n = s.int(1, 99)
            body["project"] = n
            ns = [n]
        else:
            ns = s.list(lambda: s.int(1, 99), 1, 3)
            body["project"] = ns if s.bool() else T(ns)
        where.append(["cond", ["col", "project_id", None], "IN", ["tuple", [["int", n] for n in ns]]])
    elif s.below(6) == 5:
        body["project"] = s.choice([None, [], T([])])
    if s.bool(0.6):
        body["conditions"], more = g.lconds()
        where.extend(more)
    q["where"] = where
    q["having"] = []
    if s.bool(0.3):
        body["having"], q["having"] = g.lconds()
    q["orderby"] = None
    if s.bool(0.4):

        def one():
            desc = s.bool()
            if s.below(3) < 2:
                leg, sp = g.lcol()
                leg = "-" + leg if desc else leg
            else:
                leg, sp = g.lfn(1, 0.1)
                leg = [("-" if desc else "") + leg[0], *leg[1:]]
                if s.below(4) == 3:
                    leg = T(leg)
            return leg, ["order", sp, "DESC" if desc else "ASC"]

        items = s.list(one, 1, 3, 0.5)
        if len(items) == 1 and isinstance(items[0][0], str) and s.bool():
            body["orderby"] = items[0][0]
        else:
            body["orderby"] = [a for a, _ in items]
        q["orderby"] = [b for _, b in items]
    q["limitby"] = None
    if s.bool(0.2):
        n = s.int(1, 1000)
        leg, sp = g.lcol()
        pair = [s.choice([n, str(n)]), leg]
        body["limitby"] = pair if s.bool() else T(pair)
        q["limitby"] = {"cols": [sp], "count": n}
    for f, lo, hi in (("limit", 1, 10000), ("offset", 0, None), ("granularity", 1, None)):
        q[f] = None
        if s.bool(0.35):
            q[f] = g.bounded(lo, hi)
            body[f] = q[f]
        elif s.below(10) == 9:
            body[f] = None
    q["totals"] = None
    if s.bool(0.3):
        q["totals"] = s.bool() if q["groupby"] else False
        body["totals"] = q["totals"]
    flags = {"legacy": True}
    for f in ("consistent", "turbo", "debug", "dry_run"):
        if s.bool(0.3):
            body[f] = s.choice([True, False, None])
            if body[f]:
                flags[f] = True
    env = {"dataset": ent, "app_id": "legacy", "tenant_ids": {"legacy": "legacy"}}
    for f, v in (("dataset", "discover"), ("app_id", "app"), ("tenant_ids", {"organization_id": 1, "referrer": "r"})):
        if s.bool(0.4):
            body[f] = v
            env[f] = v
        elif s.below(8) == 7:
            body[f] = s.choice([{} if f == "tenant_ids" else "", None])
    keys = list(body)
    if s.below(2):
        keys = s.shuffle(keys)
    return {"body": {k: body[k] for k in keys}, "q": q, "entity": ent, "flags": flags, "env": env}


def check(spec):
    body = dec(spec["body"])
    before = copy.deepcopy(body)
    texts = []
    for _ in range(2):
        r = json_to_snql(body, spec["entity"])
        if not deep_eq(body, before) or list(body) != list(before):
            raise Violation(f"json_to_snql changed the body\nbefore: {short(repr(before))}\nafter: {short(repr(body))}")
        d = r.to_dict()
        texts.append(d["query"])
        compare_query(spec["q"], read_snql(d["query"]), d["query"])
        want = {**spec["flags"], **spec["env"], "parent_api": "<unknown>"}
        d = {k: v for k, v in d.items() if k != "query"}
        require("the request of the converted body", d, want)
    if texts[0] != texts[1]:
        raise Violation(f"two conversions differ\n{short(texts[0])}\n{short(texts[1])}")


def nontrivial(spec):
    labels = [x for x in query_labels(spec["q"])]
    for f in ("organization", "project", "from_date", "to_date", "limitby", "sample", "arrayjoin", "aggregations"):
        if f in spec["body"]:
            labels.append(f"body:{f}")
    return labels if len(labels) >= 2 else None
