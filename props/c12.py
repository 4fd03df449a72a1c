"""C12: parsing MQL text yields exactly what the text denotes."""
import json

from lib import mql, mqltext
from lib.common import deep_eq, short
from lib.engine import Violation
from lib.mqltext import normal
from props.c11 import CTX
from snuba_sdk import MetricsQuery
from snuba_sdk.mql.mql import parse_mql

ID = "C12"
SHARE = True
COUNT = {"quick": 10000, "thorough": 70000}
RULE = (
    "MQL text is generated from its syntax together with its meaning: precedence and left "
    "association of + - * /, unary minus, parentheses, aggregates and functions with and "
    "without parameters, metric forms, filters (comma, and, space, or, !, lists, wildcards, "
    "parentheses, quoted and bare values), groups inside, between and outside, and free "
    "whitespace. parse_mql must return that meaning, and the text a MetricsQuery sends for it "
    "must parse to the same. Non-trivial: at least three different constructs."
)
ASSUMPTIONS = [
    "quoted strings contain no escape other than \\\" (known finding K1)",
    "whitespace only where the grammar takes it: none before { and none between the last of "
    "several arguments and the closing parenthesis",
    "nested conjunctions (disjunctions) mean the same as one flat conjunction (disjunction)",
]


def gen(s):
    g = mqltext.GT(s)
    t = g.t_expr(s.choice([0, 1, 2, 2]), must=True)
    if t[0] == "num" or (t[0] == "neg" and t[1][0] == "num"):
        t = g.t_agg()
    return {"t": t, "pad": [g.ws(), g.ws()]}


def parse(text):
    try:
        return normal(mql.u_mql(parse_mql(text)))
    except Exception as e:
        raise Violation(f"valid MQL was rejected: {type(e).__name__}: {e}\ntext: {short(text)}")


def groups_of(x, out):
    if isinstance(x, list) and x and x[0] in ("ts", "f"):
        if x[5]:
            out.append(x[5])
        if x[0] == "f":
            for p in x[3]:
                groups_of(p, out)
    return out


def pushed(x):
    """Filters and groups on a negation say the same on what it negates, and
    an arithmetic function of several operands is a chain of operators."""
    if isinstance(x, list) and x and x[0] == "f":
        ops = [pushed(p) for p in x[3]]
        if x[1] == "negate" and len(ops) == 1 and isinstance(ops[0], list) and (x[4] or x[5]):
            i = list(ops[0])
            i[4], i[5] = x[4] + i[4], x[5] + i[5]
            return ["f", "negate", x[2], [pushed(i)], [], []]
        if x[1] in mql.INFIX and not x[2]:
            while len(ops) > 2:  # plus(a, b, c) is a + b + c
                ops[:2] = [["f", x[1], [], ops[:2], [], []]]
        return [*x[:3], ops, *x[4:]]
    return x


def check(spec):
    text = spec["pad"][0] + mqltext.text(spec["t"]) + spec["pad"][1]
    want = normal(mqltext.meaning(spec["t"]))
    got = parse(text)
    if not deep_eq(got, want):
        raise Violation(
            "the MQL text was not parsed to what it says"
            f"\ngot:  {short(got)}\nwant: {short(want)}\ntext: {short(text)}"
        )
    gs = groups_of(want, [])
    if any(g != gs[0] for g in gs):
        return  # operands grouped differently: parsed, but not a valid query
    q = {**CTX, "query": ["text", text], "rollup": ROLLUP}
    out = mql.b_mquery(q).serialize()
    if "\\n" in json.dumps(want):
        return  # known finding K1: an escaped line break is not undone by the parser
    again = parse(out["mql"])
    if not deep_eq(pushed(again), pushed(want)):
        raise Violation(
            "the MQL that a MetricsQuery sends for a text means something else"
            f"\nsent: {short(out['mql'])}\ntext: {short(text)}"
        )
    # the parsed query, sent as an object
    obj = MetricsQuery(
        **{f: (parse_mql(text) if f == "query" else mql.mq_field(q, f)) for f in mql.MQ_FIELDS}
    )
    obj.validate()


ROLLUP = {"interval": 60, "totals": None, "orderby": None, "granularity": 60}


def nontrivial(spec):
    k = mqltext.kinds(spec["t"], set())
    return sorted(k) if len(k) >= 3 else None
