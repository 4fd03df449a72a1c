"""C21: malformed MQL is rejected, never guessed at."""
import copy

from lib import mql, mqltext
from lib.common import short
from lib.engine import Violation
from props import c12
from props.c11 import CTX
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.formula import InvalidFormulaError
from snuba_sdk.metrics_query_visitors import InvalidMetricsQueryError
from snuba_sdk.mql.mql import InvalidMQLQueryError, parse_mql

ID = "C21"
COUNT = {"quick": 10000, "thorough": 110000}
RULE = (
    "Valid MQL text is generated as a tree, and one thing is broken in it: a bracket is left out "
    "or added, a quote or backtick left open, an operator doubled, dangling or left out, an "
    "argument, value, key, colon, list element, group or metric left out, a joining word or comma "
    "left over or doubled, a number written as MQL has none, a second filter, a function over "
    "a metric without an aggregate, a variable, a text without any metric (which may parse, but is not valid), or text left over at an end. "
    "parse_mql must raise InvalidMQLQueryError, and validate() and serialize() of a MetricsQuery "
    "over the text InvalidMetricsQueryError. The unbroken text must parse. Non-trivial: the text "
    "has at least two kinds of constructs."
)
ASSUMPTIONS = ["the empty filter {} is valid; + has no unary form; lists and groups have at least one element"]
OPEN, CLOSE = "([{", ")]}"


def places(t):
    """Positions outside of quoted strings and backticks."""
    out, quote, i = [], None, 0
    while i < len(t):
        c = t[i]
        if quote is None:
            out.append(i)
            if c in '"`':
                quote = c
        elif quote == '"' and c == "\\":
            i += 1
        elif c == quote:
            quote = None
        i += 1
    if quote is None:
        out.append(len(t))
    return out


def nodes(x, out):
    """Every list of the tree that text() writes as a node, with its kind."""
    k = x[0]
    out.append((k, x))
    if k in ("sum", "prod"):
        nodes(x[1], out)
        for r in x[2]:
            nodes(r[3], out)
    elif k == "neg":
        nodes(x[1], out)
    elif k == "paren":
        nodes(x[2], out)
        suffix(x[4], out)
    elif k == "agg":
        suffix(x[5], out)
        groups(x[7], out)
        suffix(x[8], out)
    elif k == "fn":
        nodes(x[4][0], out)
        for i in x[4][1:]:
            nodes(i[2], out)
        groups(x[5], out)
        suffix(x[6], out)
    return out


def groups(g, out):
    if g:
        out.append(("by", g))


def suffix(x, out):
    if isinstance(x["f"], list):
        f_or(x["f"][1], out)
    groups(x["g"], out)


def f_or(x, out):
    out.append(("or", x))
    for a in [x[0]] + [r[3] for r in x[1]]:
        out.append(("and", a))
        for f in [a[0]] + [r[3] for r in a[1]]:
            if f[0] == "p":
                f_or(f[2], out)
            else:
                out.append(("cond", f))


BAD_NUM = ["1.", ".5", "1..2", "1.2.3", "1e5", "0x10", "1_000", "--1", "+1", "1.5.", "- -1", "1 2", "1'000", "1f"]
BAD_METRIC = ["foo bar", "FOO bar", "'foo'", "foo bar.baz", "foo..bar", "foo.", "=foo", ".foo", "foo.bar.",
              "Foo", "$foo", "fo\u00f6", "`foo`bar", "``", "`foo bar`", "`Foo`", "`foo.`", "`.foo`", "`foo`.bar",
              "d:x/y", "d:x@y", "d:x", ":x/y@z", "d:/y@z", "d:x/@z", "d:x/y@", "d/x:y@z", "x/y@z", "d:x,y/z@w", "d:x/y@z]", "[d:x/y@z]",
              "`d:x/y`", "`d:x@y`", "`:x/y@z`", "`d:/y@z`", "`d:x/@z`", "`d:x/y@`", "`d:x/y@z", "d:x/y@z`", "`d:x/y@z`w", "`d:x/y@z``d:x/y@z`", "`d:x/y`@z"]  # fmt: skip
JUNK = [";", "\\", "'x'", "#c", "@", "&", "%", "=", "^", "|", "~", "<", "$", "`", '"', ":", ",", "]", ")", "}",
        "+", "*", "/", "-", "by", "by ()", "foo(", "{a:b}}", "sum(foo)", "1", "and", "or", "()"]  # fmt: skip


def break_tree(s, t):
    """Break the tree t in place; False if there was nothing to break that way."""
    ns = nodes(t, [])
    kind = s.choice(sorted({k for k, _ in ns} - {"neg", "paren"}))
    x = s.choice([n for k, n in ns if k == kind])
    if kind in ("sum", "prod"):
        r = s.choice(x[2])
        k = s.below(3)
        if k == 0:
            r[1] = r[1] + s.choice(["", " "]) + s.choice("+*/")
        elif k == 1 and not mqltext.text(r[3]).startswith(("(", "-")):
            r[0], r[1], r[2] = " ", "", " "
        else:
            r[0] = r[2] = " "
            r[1] = s.choice(["%", "^", "**", "//", "<", "=", "&", "|", ",,", "\\", "and", "or", "\u2212", "\u00d7"])
        return True
    if kind == "num":
        x[1] = s.choice(BAD_NUM) if s.bool(0.8) else x[1] + s.choice(["{a:b}", " by a", "()", "e5", ".", "{}"])
        return True
    if kind == "agg":
        k = s.below(6)
        if k == 0:
            x[4] = ["public", ""]
            x[3] = x[6] = ""
            x[5]["g"] = None  # "by(a)" would be a call
            return True
        if k == 1:
            x[1] = s.choice(["", "a b", "a.b", "`a`", '"a"', "\u00e9", "a$"])
            return bool(x[1]) or x[2] is not None
        if k == 2:
            x[5]["f"], x[5]["g"] = "{}", None
            x[4] = ["public", x[4][1] + "{a:b}"] if x[4][0] == "public" else ["public", "foo{a:b}"]
            return True
        if k == 3:
            x[8] = {"f": "{}", "g": None}
            x[7] = None
            x[6] += "){a:b}"  # the closing parenthesis follows: too many brackets
            return True
        if k == 4:
            name = s.choice(BAD_METRIC)
            x[4] = ["public", name]
            x[3] = x[6] = ""  # white space may be part of an MRI
            return x[5]["f"] is None and x[5]["g"] is None
        ps = x[2]
        if not ps:
            return False
        if len(ps) > 1 and s.bool(0.4):
            ps[:] = [["", ["raw", " ".join(mqltext.t_params([p])[1:-1].strip() for p in ps)], ""]]
            return True
        if s.bool():
            ps[s.below(len(ps))][1] = ["b", ""]
            return len(ps) > 1
        ps.insert(s.below(len(ps) + 1), ["", ["b", ""], ""])
        return True
    if kind == "fn":
        k = s.below(6)
        items = x[4]
        if k == 5:
            x[1] = s.choice(["", "", "a b", "a.b", "`a`", '"a"', "\u00e9", "a$"])
            return x[1] != "" or len(items) > 1
        if k > 2:
            # a function of a metric that is not aggregated, or of a negated string
            if k == 3 and len(items) == 1:
                items.append(["", "", ["num", "1"]])
            bare = s.choice(["foo", "foo.bar", "`d:x/y@z`", "foo{a:b}", "foo by a", "(foo)", "$v"])
            items[0] = ["num", bare if k == 3 else s.choice(['-"a"', "$v", "-$v", '"a" + "b'])]
            return True
        if k == 0:
            items.append(["", "", ["num", ""]])
        elif k == 1:
            items.insert(1, ["", "", ["num", ""]])
        elif len(items) > 1:
            items[0] = ["num", ""]
        else:
            return False
        return True
    if kind == "by":
        k = s.below(7)
        if k == 6:
            # a target has at most two group clauses in a row, and no filter after the second
            tail = s.choice([" by a by b", " by (a) by (b, c)", " by b {c:d}", " by(b) by c"])
            x[:] = [" ", " ", [s.choice([x[2][0], f"({x[2][0]})"]) + tail], "bare", ""]
        elif k == 0:
            x[2], x[3] = [""], "tuple"
        elif k == 1:
            x[2], x[3] = x[2] + [""], "tuple"
        elif k == 2:
            x[2], x[3] = ["", *x[2]], "tuple"
        elif k == 3:
            x[2], x[3] = [f'"{x[2][0]}"', *x[2][1:]], "tuple"
        elif k == 4:
            x[2], x[3] = [x[2][0] + " " + x[2][0], *x[2][1:]], "tuple"
        else:
            x[2], x[3] = [s.choice(["-a", "'a'", "a-b", "{a}", "[a]", "((a))", "!a", "a:b", "*"])], "tuple"
        return True
    if kind == "or":
        k = s.below(2)
        w = s.choice(["or", "OR", "or or", "OR and", "or ,"])
        if k == 0:
            x[1].append([" ", w, " ", [["c", "", "", "", "", ["b", ""]], []]])
            x[1][-1][3][0] = RAW_EMPTY
        else:
            x[0] = [["raw", w + " "], [[" ", "", " ", x[0][0]], *x[0][1]]]
        return True
    if kind == "and":
        k = s.below(3)
        w = s.choice([",", "and", "AND", ", ,", "and,", ", and", "and and", "or and", "&", "&&", "|", ";", "AND OR"])
        if k == 0:
            x[1].append([" ", w, " ", RAW_EMPTY])
        elif k == 1:
            x[1][:0] = [[" ", "", " ", x[0]]]
            x[0] = ["raw", w + " "]
        else:
            x[1].insert(s.below(len(x[1]) + 1), [" ", s.choice([", ,", "and and", ",,", "and ,", "&", ";"]), " ", RAW_EMPTY])
        return True
    # a condition
    k = s.below(8)
    if k == 0:
        x[2] = s.choice(["%", "''", '""', "*", "@"])
        x[1] = ""
    elif k == 1:
        x[5] = ["raw", ""]
        if x[1] == "" and x[2] == "":
            return False
        x[4] = ""
        return END  # only when nothing that could be the value follows
    elif k == 2:
        x[1] = s.choice(["!!", "! !", "-", "+", "not ", "~"])
    elif k == 3:
        x[2] = s.choice(["a b", "a-b", '"a"', "\u00e9", "a/b", "'a'", "a!", "[a]", "(a)", "{a}", "a,b", "a*", "$a", "$a.b"])
    elif k == 4:
        x[5] = ["raw", s.choice(["[]", "[,]", "[a,]", "[,a]", '["a" "b"]', "[a b]", "[[a]]", "[a,,b]", "(a)", "{a}", '"a""b"', "**", "*", "a**", '"a"*', "*a", "[a*]", '["a"', "a]", "[a:[b]]"])]
    elif k == 5:
        x[3], x[4] = "", s.choice([":", ": :"])
        return x[5][0] in ("l", "q")
    else:
        # no colon
        x[2] = x[2] + s.choice(["=", "==", " ", " = ", "!=", ">", "~"]) + mqltext.t_value(x[5])
        return END_NOCOLON(x)
    return True


END = "end"
RAW_EMPTY = ["raw", ""]


def END_NOCOLON(x):
    t = x[2]
    x[:] = ["raw", x[1] + t]
    return ":" not in t


def gen(s):
    g = mqltext.GT(s)
    t = g.t_expr(s.choice([0, 0, 1, 1, 2]), must=True)
    no_backtick(t)
    good = mqltext.text(t)
    mode = s.below(10)
    if mode < 6:
        b = copy.deepcopy(t)
        ok = break_tree(s, b)
        if ok == END:
            bad = write(b)
            ok = False
            # an empty value: what follows must not be able to take its place
            mark = copy.deepcopy(b)
            replace_raw(mark, "\x01")
            m = write(mark)
            i = m.index("\x01")
            ok = m[i + 1 :].lstrip()[:1] in ("}", ")", ",")
        if ok:
            return {"bad": write(b), "good": good, "how": "tree"}
    if mode == 9 and s.below(8) == 7:
        n = "".join(s.list(lambda: s.choice("0123456789"), 1, 4))
        return {"bad": s.choice([n, f'"{n}"', f"-{n}", f"{n} + {n}", f"{n}.{n} * 2", f"-{n} / 2 - {n}", f'-"{n}"', f"${n}", f"f({n})", ""]), "good": good, "how": "no metric"}
    at = places(good)
    if mode in (9, 5) and s.bool():
        spots = [i for i in at if i < len(good) and good[i] in OPEN + CLOSE + ","]
        if spots:
            i = s.choice(spots)
            j = i + (good[i] not in CLOSE)
            w = s.choice(["", " "])
            return {"bad": good[:j] + w + "," + w + good[j:], "good": good, "how": "comma added"}
    if mode in (6, 7, 0, 1):
        spots = [i for i in at if i < len(good) and good[i] in OPEN + CLOSE]
        if spots and mode != 7:
            i = s.choice(spots)
            return {"bad": good[:i] + good[i + 1 :], "good": good, "how": "bracket dropped"}
        i = s.choice(at)
        return {"bad": good[:i] + s.choice(OPEN + CLOSE) + good[i:], "good": good, "how": "bracket added"}
    if mode in (8, 2, 3):
        qs = [i for i, c in enumerate(good) if c in '"`']
        if qs and "\\" not in good and quotes_plain(good):
            i = s.choice(qs)
            return {"bad": good[:i] + good[i + 1 :], "good": good, "how": "quote dropped"}
    j = s.choice(JUNK)
    if s.bool() or good[0] in "-(":
        return {"bad": good + " " + j, "good": good, "how": "left over"}
    if j in ("-", "foo(", "$"):
        j = "+"
    return {"bad": j + " " + good, "good": good, "how": "left over"}


def no_backtick(x):
    """Backticks in bare strings would look like quotes to places()."""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("b", "w") and isinstance(x[1], str):
            x[1] = x[1].replace("`", "'")
        for v in x:
            no_backtick(v)
    elif isinstance(x, dict):
        for v in x.values():
            no_backtick(v)


def replace_raw(x, mark):
    if isinstance(x, list):
        if x == RAW_EMPTY:
            x[1] = mark
        for v in x:
            replace_raw(v, mark)
    elif isinstance(x, dict):
        for v in x.values():
            replace_raw(v, mark)


def quotes_plain(t):
    """Neither kind of quote inside the other."""
    quote = None
    for c in t:
        if c in '"`':
            if quote is None:
                quote = c
            elif quote == c:
                quote = None
            else:
                return False
    return quote is None


def write(t):
    return mqltext.text(t)


def check(spec):
    bad, good = spec["bad"], spec["good"]
    try:
        parse_mql(good)
    except Exception as e:
        raise Violation(f"valid MQL was rejected: {type(e).__name__}: {e}\ntext: {short(good)}")
    try:
        got = parse_mql(bad)
    except InvalidMQLQueryError:
        pass
    except Exception as e:
        raise Violation(f"malformed MQL raised {type(e).__name__}: {e}\ntext: {short(bad)}")
    else:
        if spec["how"] != "no metric":
            raise Violation(f"malformed MQL was parsed ({spec['how']})\ntext: {short(bad)}\nas: {short(repr(got))}")
    q = mql.b_mquery({**CTX, "query": ["text", bad], "rollup": c12.ROLLUP})
    for name in ("validate", "serialize"):
        try:
            getattr(q, name)()
        except (InvalidMetricsQueryError, InvalidExpressionError, InvalidFormulaError):
            continue
        except Exception as e:
            raise Violation(f"{name}() of malformed MQL raised {type(e).__name__}: {e}\ntext: {short(bad)}")
        raise Violation(f"{name}() accepted malformed MQL\ntext: {short(bad)}")


def nontrivial(spec):
    t = spec["good"]
    kinds = {k for k, m in (("filter", "{"), ("by", " by"), ("list", "["), ("string", '"'), ("op", " + "), ("nested", "(("), ("mri", "@")) if m in t}
    if len(kinds) < 2:
        return None
    return [spec["how"]]
