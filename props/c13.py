"""C13: every MQL string is either parsed into a well formed query or rejected cleanly."""
import re

from lib import mql, mqltext
from lib import dictionary as D
from lib.common import deep_eq, short
from lib.engine import Violation, forget_reprs
from props import c12
from props.c11 import CTX
from snuba_sdk import Column, Formula, Metric, Timeseries
from snuba_sdk.conditions import BooleanCondition, Condition
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.metrics_query_visitors import InvalidMetricsQueryError
from snuba_sdk.mql.mql import InvalidMQLQueryError, parse_mql

ID = "C13"
COUNT = {"quick": 18000, "thorough": 120000}
RULE = (
    "Strings are generated as mutations of valid MQL (characters and tokens deleted, inserted, "
    "duplicated, swapped, spliced from another query), as sequences of MQL tokens, and as "
    "arbitrary text. parse_mql must either return a well formed Timeseries/Formula, the same "
    "on every call, or raise InvalidMQLQueryError; a MetricsQuery over the string must either "
    "validate, and then send MQL with the same meaning, or raise an SDK error. Non-trivial: the "
    "string is at least 8 characters of at least 4 kinds and is not itself one of the valid texts."
)
ASSUMPTIONS = [
    "nesting stays far below the interpreter's recursion limit and numbers are finite",
    "the re-sent meaning is compared for texts without backslashes and line breaks (known finding K1)",
]
TOKENS = [
    "sum(foo)", "sum", "avg", "foo", "quantiles(0.5)", "(", ")", "{", "}", "[", "]", ",", ":", "!",
    " ", "  ", "\n", "by", " by ", "and", " and ", " AND ", "or", " or ", " OR ", "+", "-", "*", "/",
    "1", "0.5", "10", ".", "a", "b", "a:b", 'a:"b"', '"x"', '"', "`", "$", "$v", "a:[b, c]", "!a:b",
    "`d:x/y@z`", "d:x/y@z", "d:x/y@z ", "@", "f(", "f(1)(", "*", "a:b*", 'a:"b*"', "\\", '\\"', "{}", "()",
    "by (a, b)", "by a", "'", "\u00e9", "\x00", "\u2003", "_", "9", "topK(10)(sum(foo), 2)", "-sum(foo)",
    '"a\\"b"', '"\\u12"', '"\\x"', '"\\n"', '"%s"', '"{0}"', '"$1"', '["\\N{x}", "\\U1"]', '("\\uZ")', '"\\ud800"',
    "\\u", "\\x", "%", "&", ";", "#", "\\N", "0x10", "1_000", "\u0661", "\ud83d",
    "\u00b2", "\u2460", "\u2167", "\u00bd", "\uff11", "(1, \u00b2)", "f(1, a)(", "[1, a]", "\u00df", "\u0130", "\u01c5", "\u2028", "\x1c", "\x85",
    "NULL", "inf", "nan", "1e5", "{a:b}", "(a:b or c:d)", "AGGREGATE_PLACEHOLDER", "=",
]  # fmt: skip


RUNS = ["a", "1", "_", ".", " ", "ab", "a ", '\\"', "\\\\", "a.", "-", "a:b ", "*", "!", "1.", "\u00e9", "a,", "/", "\\a", "@"]
ODD = ["\\u", "\\x", "\\n", "\\", "%s", "{", "}", "'", "$", "\u2028", "\x00", "*", "\\0", "\\N{x}", "\r", "@", "&#", "a"]


def mutate(s, t):
    quotes = [i for i, c in enumerate(t) if c == '"']
    if quotes and s.below(4) == 3:
        # something unusual inside or next to a quoted string
        i = s.choice(quotes) + s.below(3)
        return t[:i] + "".join(s.list(lambda: s.choice(ODD), 1, 3)) + t[i:]
    if s.below(8) == 7:
        # a long run inside, before or instead of the end of a token
        i = s.below(len(t) + 1)
        run = "".join(s.list(lambda: s.choice(RUNS), 1, 2)) * s.choice([8, 20, 32, 64, 200] + [5000] * (s.below(8) == 7))
        j = i + s.choice([0, 0, 1, 2, 1000])
        return t[:i] + run + t[j:]
    numbers = [m.span() for m in re.finditer(r"[0-9]+(\.[0-9]+)?", t)]
    if numbers and s.below(12) == 11:
        # another number: long, or written in an unusual way
        i, j = s.choice(numbers)
        run = s.choice("0123456789") * s.choice([1, 17, 100, 308, 309, 400, 4299, 4300, 4301, 5000])
        n = s.choice(["", "", "-", "+", "0", "0."]) + run + s.choice(["", "", ".5", ".", "e5", "_0", "L", ".0" * 2])
        return t[:i] + n + t[j:]
    t = list(t)
    for _ in range(s.size(1, 5, 0.5)):
        k = s.below(8)
        i = s.below(len(t) + 1)
        if k < 2 and t:
            i = min(i, len(t) - 1)
            del t[i : i + s.choice([1, 1, 2, 4])]
        elif k < 4:
            t[i:i] = list(s.choice(TOKENS))
        elif k < 5 and t:
            j = s.below(len(t) + 1)
            t[i:i] = t[min(i, j) : max(i, j)][:20]
        elif k < 6 and len(t) > 1:
            j = s.below(len(t))
            i = min(i, len(t) - 1)
            t[i], t[j] = t[j], t[i]
        elif k < 7 and t:
            t[min(i, len(t) - 1)] = s.choice(list("(){}[],:!`\"*+-/ ab1._$\\\u00e9\u00b2\u0661"))
        elif D.STRINGS:
            t[i:i] = list(s.choice(D.STRINGS))
    return "".join(t)


def gen(s):
    g = mqltext.GT(s)
    k = s.below(10)
    if k < 5:
        t = mutate(s, mqltext.text(g.t_expr(s.choice([0, 0, 1]), must=True)))
    elif k < 6:
        a = mqltext.text(g.t_expr(0, must=True))
        b = mqltext.text(g.t_expr(1, must=True))
        t = a[: s.below(len(a) + 1)] + b[s.below(len(b) + 1) :]
    elif k < 9:
        t = "".join(s.list(lambda: s.choice(TOKENS), 0, 14, 0.85))
    else:
        t = "".join(s.list(lambda: chr(s.choice([s.below(128), s.below(128), s.below(0x3000)])), 0, 20, 0.85))
    return {"text": t}


def attempt(text):
    try:
        return parse_mql(text)
    except InvalidMQLQueryError:
        return None
    except RecursionError:
        raise
    except Exception as e:
        raise Violation(f"parse_mql raised {type(e).__name__}: {e}\ntext: {short(text)!r}")


def well_formed(x, top=True):
    if isinstance(x, Timeseries):
        m = x.metric
        ok = isinstance(m, Metric) and (isinstance(m.mri, str) or isinstance(m.public_name, str))
        ok = ok and isinstance(x.aggregate, str) and x.aggregate != ""
        ok = ok and all(isinstance(p, (str, float, int)) for p in x.aggregate_params or [])
    elif isinstance(x, Formula):
        ok = isinstance(x.function_name, str) and x.function_name != "" and bool(x.parameters)
        ok = ok and all(well_formed(p, False) for p in x.parameters)
        ok = ok and all(isinstance(p, (str, float, int)) for p in x.aggregate_params or [])
    else:
        return not top and isinstance(x, (float, int, str))

    def cond(c):
        if isinstance(c, BooleanCondition):
            return len(c.conditions) >= 2 and all(cond(y) for y in c.conditions)
        return isinstance(c, Condition) and isinstance(c.lhs, Column)

    return ok and all(cond(c) for c in x.filters or []) and all(isinstance(c, Column) for c in x.groupby or [])


def nesting(t):
    depth = most = 0
    for c in t:
        depth += (c == "(") - (c == ")")
        most = max(most, depth)
    return most


def deep(t):
    """May nest so deeply that the interpreter's stack is the limit."""
    return t.count("(") > 20 or sum(t.count(c) for c in "+-*/") > 100


def check(spec):
    try:
        check_text(spec["text"])
    except RecursionError as e:
        forget_reprs()
        if not deep(spec["text"]):
            raise Violation(f"{type(e).__name__}: {e}\ntext: {short(spec['text'])!r}")


def check_text(text):
    x = attempt(text)
    y = attempt(text)
    if repr(x) != repr(y):
        a, b = repr(x), repr(y)
        i = next((i for i, (c, d) in enumerate(zip(a, b)) if c != d), 0)
        raise Violation(f"two parses differ\ntext: {short(text)!r}\nat {i}: {a[max(0, i - 80) : i + 80]}\nand: {b[max(0, i - 80) : i + 80]}")
    if x is not None and not well_formed(x):
        raise Violation(f"the parsed query is malformed: {short(repr(x))}\ntext: {short(text)!r}")
    q = mql.b_mquery({**CTX, "query": ["text", text], "rollup": c12.ROLLUP})
    try:
        out = q.serialize()
    except (InvalidMetricsQueryError, InvalidExpressionError):
        return
    except RecursionError:
        raise
    except Exception as e:
        raise Violation(f"serialize() raised {type(e).__name__}: {e}\ntext: {short(text)!r}")
    if x is None:
        raise Violation(f"a MetricsQuery over invalid MQL was serialized\ntext: {short(text)!r}")
    if "\\" in text or "\n" in text or re.search("[0-9]{300}", text):
        return
    if nesting(out["mql"]) > 40:
        return  # inconclusive: the readers may run out of stack
    want = c12.pushed(mqltext.normal(mql.u_mql(x)))
    sent = attempt(out["mql"])
    if sent is None:
        raise Violation(f"the SDK sends MQL that it rejects itself\nsent: {short(out['mql'])!r}\ntext: {short(text)!r}")
    got = c12.pushed(mqltext.normal(mql.u_mql(sent)))
    if not deep_eq(got, want):
        raise Violation(
            f"the MQL sent for a text means something else\nsent: {short(out['mql'])!r}\ntext: {short(text)!r}"
            f"\ngot:  {short(got)}\nwant: {short(want)}"
        )


def nontrivial(spec):
    t = spec["text"]
    kinds = {("d" if c.isdigit() else "l" if c.isalpha() else "s" if c.isspace() else c) for c in t}
    if len(t) < 8 or len(kinds) < 4:
        return None
    try:
        return ["accepted" if attempt(t) is not None else "rejected"]
    except RecursionError:
        forget_reprs()
        return ["deep"]
