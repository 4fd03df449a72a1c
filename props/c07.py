"""C07: expressions accept exactly the valid arguments, and keep them."""
from lib import build
from lib.common import short
from lib.engine import Violation
from lib.gen import ALIASES, COLS, ENTITIES, FIRST, FUNCS, G, LATER
from snuba_sdk import (
    AliasedExpression,
    And,
    BooleanCondition,
    BooleanOp,
    Column,
    Condition,
    CurriedFunction,
    Direction,
    Entity,
    Extrapolate,
    Function,
    Granularity,
    Identifier,
    Join,
    Lambda,
    Limit,
    LimitBy,
    Offset,
    Op,
    Or,
    OrderBy,
    Relationship,
    Storage,
    Totals,
)
from snuba_sdk.entity import InvalidEntityError
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.storage import InvalidStorageError

ID = "C07"
COUNT = {"quick": 400000, "thorough": 2000000}
RULE = (
    "One constructor call per case - every expression class - with arguments that are "
    "valid, nearly valid (one character, type or bound off, also deep inside nested "
    "parameters), or junk. An independent predicate written from the documentation decides "
    "whether the call is valid: the SDK must accept exactly those, reject the others with "
    "its own errors, and hold the given arguments unchanged. Non-trivial: the call has a "
    "mutated argument, or is a valid one with at least one optional argument."
)
ASSUMPTIONS = [
    "booleans as integers, strings as sequences, NaN and infinite sample rates, and "
    "conditions inside arrays are left open",
]
ERRORS = (InvalidExpressionError, InvalidEntityError, InvalidStorageError)
CLASSES = {
    "Column": Column, "Function": Function, "CurriedFunction": CurriedFunction,
    "Identifier": Identifier, "Lambda": Lambda, "AliasedExpression": AliasedExpression,
    "Condition": Condition, "BooleanCondition": BooleanCondition, "And": And, "Or": Or,
    "Entity": Entity, "Storage": Storage, "Relationship": Relationship, "Join": Join,
    "OrderBy": OrderBy, "LimitBy": LimitBy, "Limit": Limit, "Offset": Offset,
    "Granularity": Granularity, "Totals": Totals, "Extrapolate": Extrapolate,
}  # fmt: skip
FREE = {"kind": "free"}
ODD = "\n\t \\'\"`()[]{}<>,;!?#$%&*+-=|~^./:@_0aZ\u00e9\u00df\u0661\u65e5\x00\u200b\u2028"
JUNK = ["object", "dict", "set", "int", "float", "bytes", "class", "func", "date", "list", "op"]


# -- generation --------------------------------------------------------------
class V(G):
    def word(self, base):
        """A name, possibly with one odd character put in, or emptied."""
        s = self.s
        w = s.choice(base)
        k = s.below(10)
        if k < 3:
            return ["v", "str", w]
        if k < 4:
            return ["v", "str", s.choice(FIRST + "_") + "".join(s.list(lambda: s.choice(LATER), 0, 6))]
        if k < 5:
            return ["v", "str", s.choice(["", w[:1], w[:2], " ", "\n", w + "\n", "\n" + w, w + " "])]
        if k < 6:
            return ["v", "str", "".join(s.list(lambda: s.choice(ODD), 1, 5))]
        i = s.below(len(w) + 1)
        c = s.choice(ODD + LATER)
        if k < 8:
            return ["v", "str", w[:i] + c + w[i:]]
        return ["v", "str", w[:i] + c + w[i + 1 :]]

    def junk(self):
        return ["junk", self.s.choice(JUNK)]

    def maybe(self, value, p=0.12):
        return self.junk() if self.s.bool(p) else value()

    def optional(self, value, p=0.5):
        return value() if self.s.bool(p) else ["v", "null", None]

    def e(self, kinds=("col", "fn", "cfn")):
        """A valid expression of one of these kinds."""
        k = self.s.choice(kinds)
        if k == "col":
            return ["e", self.col(FREE)]
        if k == "fn":
            return ["e", self.fn(FREE, 1)]
        if k == "cfn":
            return ["e", self.cfn(FREE, 1)]
        if k == "aliased":
            return ["e", ["aliased", self.col(FREE), self.opt_alias()]]
        if k == "ident":
            return ["e", ["ident", "x"]]
        if k == "lambda":
            return ["e", ["lambda", ["x"], self.fn(FREE, 0)]]
        if k == "cond":
            return ["c", self.cond(FREE)]
        if k == "bool":
            return ["c", ["bool", "AND", [self.cond(FREE), self.cond(FREE)], "sub"]]
        if k == "entity":
            return ["ent", self.entity(alias=self.s.choice([None, "e", "t"]), model_p=0.2)]
        if k == "storage":
            return ["sto", self.storage()]
        raise KeyError(k)

    def odd_expr(self):
        return self.e(("aliased", "ident", "lambda", "cond", "bool", "entity", "storage"))

    def expr_arg(self):
        k = self.s.below(10)
        if k < 7:
            return self.e()
        if k < 9:
            return self.odd_expr()
        return self.junk()

    def lit_arg(self):
        return ["s", self.literal()]

    def param_arg(self, depth=2):
        s = self.s
        k = s.below(20)
        if k < 7:
            return self.e()
        if k < 9:
            return self.e(("ident", "lambda"))
        if k < 13:
            return self.lit_arg()
        if k < 16 and depth > 0:
            return self.seq_of(lambda: self.inner_arg(depth - 1))
        if k < 17:
            return self.e(("aliased", "cond", "bool", "entity", "storage"))
        if k < 18:
            return self.junk()
        return self.lit_arg()

    def inner_arg(self, depth):
        """An element of an array parameter."""
        s = self.s
        k = s.below(20)
        if k < 10:
            return self.lit_arg()
        if k < 14:
            return self.e()
        if k < 17 and depth > 0:
            return self.seq_of(lambda: self.inner_arg(depth - 1), 0, 3)
        if k < 18:
            return self.junk()
        return self.lit_arg()

    def seq_of(self, item, lo=0, hi=4):
        s = self.s
        out = s.list(item, lo, hi)
        if len(out) > 6 and s.bool():
            # one late element that is something else
            out[-1 - s.below(3)] = self.junk()
        return ["seq", s.choice(["list", "tuple"]), out]

    def number(self, bounds):
        s = self.s
        k = s.below(8)
        if k < 5:
            return ["v", "int", s.choice(bounds) + s.choice([-1, 0, 1])]
        if k < 6:
            return ["v", "int", self.integer()]
        if k < 7:
            return s.choice([["v", "str", "1"], ["v", "float", 1.0], ["v", "float", 10.5], ["v", "null", None]])
        return self.junk()

    def alias_arg(self):
        return self.optional(lambda: self.maybe(lambda: self.word(ALIASES), 0.08))

    def call(self):
        s = self.s
        name = s.choice(sorted(CLASSES))
        if name == "Column":
            ent = self.optional(lambda: s.choice([lambda: self.e(("entity",)), lambda: self.e(("storage", "col")), self.junk])(), 0.35)
            return [name, [self.maybe(lambda: self.word(COLS), 0.06), ent]]
        if name in ("Function", "CurriedFunction"):
            fname = self.maybe(lambda: self.word(FUNCS), 0.05)
            params = self.optional(lambda: self.maybe(lambda: self.seq_of(self.param_arg), 0.05), 0.9)
            if name == "Function":
                return [name, [fname, params, self.alias_arg()]]

            def init():
                k = s.below(12)
                if k < 7:
                    return self.lit_arg()
                if k < 9:
                    return self.e(("col",))
                if k < 10:
                    return self.seq_of(self.lit_arg)
                if k < 11:
                    return self.e(("fn", "ident", "aliased"))
                return self.lit_arg()

            inits = self.optional(lambda: self.maybe(lambda: self.seq_of(init, 0, 3), 0.05), 0.85)
            return [name, [fname, inits, params, self.alias_arg()]]
        if name == "Identifier":
            return [name, [self.maybe(lambda: self.word(["x", "y1", "_z", "Abc"]), 0.1)]]
        if name == "Lambda":
            ids = self.maybe(lambda: self.seq_of(lambda: self.maybe(lambda: self.word(["x", "y1", "_z"]), 0.05), 0, 3), 0.06)
            return [name, [ids, s.choice([lambda: self.e(("fn", "cfn")), lambda: self.e(("fn", "cfn")), self.expr_arg])()]]
        if name == "AliasedExpression":
            return [name, [s.choice([lambda: self.e(("col",)), lambda: self.e(("col",)), self.expr_arg])(), self.alias_arg()]]
        if name == "Condition":
            op = self.maybe(lambda: ["op", s.choice([o for o in sorted(Op.__members__) if o != "NOT"])], 0.06)
            k = s.below(10)
            if k < 4:
                rhs = self.lit_arg()
            elif k < 6:
                rhs = ["v", "null", None]
            elif k < 7:
                rhs = self.seq_of(lambda: self.inner_arg(1))
            else:
                rhs = self.expr_arg()
            return [name, [self.expr_arg(), op, rhs]]
        if name in ("BooleanCondition", "And", "Or"):

            def arm():
                k = s.below(14)
                if k < 10:
                    return self.e(("cond",))
                if k < 12:
                    return self.e(("bool",))
                return s.choice([lambda: self.e(), self.junk])()

            conds = self.maybe(lambda: self.seq_of(arm, 0, 4), 0.06)
            if name == "BooleanCondition":
                return [name, [self.maybe(lambda: ["bop", s.choice(["AND", "OR"])], 0.1), conds]]
            return [name, [conds]]
        if name in ("Entity", "Storage"):
            def sample():
                return s.choice([["v", "float", 0.1], ["v", "float", 1.0], ["v", "float", 0.0],
                                 ["v", "float", -0.5], ["v", "float", 1e-300], ["v", "float", -1e-300],
                                 ["v", "int", 1], ["v", "int", 0], ["v", "str", "0.1"]])  # fmt: skip
            model = self.optional(lambda: s.choice([["model"], ["model"], self.junk()]), 0.3)
            args = [self.maybe(lambda: self.word(ENTITIES), 0.06)]
            if name == "Entity":
                args.append(self.optional(lambda: self.maybe(lambda: self.word(["e", "t", "ev"]), 0.2), 0.5))
            return [name, args + [self.optional(sample, 0.5), model]]
        if name == "Relationship":
            def ent():
                return s.choice([lambda: self.e(("entity",)), lambda: self.e(("entity",)), self.expr_arg])()
            return [name, [ent(), self.maybe(lambda: self.word(["has", "owns"]), 0.15), ent()]]
        if name == "Join":
            pool = [self.entity(alias=a, model_p=0.0) for a in ("e", "t", "s")]
            if s.bool(0.4):
                pool.append(self.entity(alias=s.choice(["e", "t", "s"]), model_p=0.0))

            def rel():
                if s.below(12) == 11:
                    return s.choice([lambda: self.e(("entity",)), self.junk])()
                return ["rel", s.choice(pool), "has", s.choice(pool)]

            return [name, [self.maybe(lambda: self.seq_of(rel, 0, 4), 0.06)]]
        if name == "OrderBy":
            return [name, [self.expr_arg(), self.maybe(lambda: ["dir", s.choice(["ASC", "DESC"])], 0.15)]]
        if name == "LimitBy":
            def c():
                return self.e(("col",)) if s.below(12) < 11 else s.choice([lambda: self.e(("fn", "aliased")), self.junk])()
            return [name, [self.maybe(lambda: self.seq_of(c, 0, 3), 0.06), self.number([1, 10000])]]
        if name == "Limit":
            return [name, [self.number([1, 10000])]]
        if name == "Offset":
            return [name, [self.number([0, 10000])]]
        if name == "Granularity":
            return [name, [self.number([1, 10000])]]
        return [name, [s.choice([["v", "bool", True], ["v", "bool", False], ["v", "int", 1], ["v", "int", 0],
                                 ["v", "str", "True"], ["v", "null", None], self.junk()])]]  # fmt: skip


def gen(s):
    s.huge = s.below(16) == 15
    spec = V(s).call()
    k = s.below(8)
    if k == 6:
        spec.append("names")
    elif k == 7 and (spec[0] in OPTIONAL or spec[0] in ("And", "Or")):
        if spec[0] in ("And", "Or"):
            spec[1] = [["seq", "list", []]]
        else:
            null = ["v", "null", None]
            n = s.int(1, OPTIONAL[spec[0]])
            spec[1] = spec[1][: len(spec[1]) - n] + [null] * n
        spec.append("defaults")
    return spec


# how many trailing arguments may be left out, which means None
OPTIONAL = {"Column": 1, "Function": 2, "CurriedFunction": 3, "AliasedExpression": 1, "Condition": 1, "Entity": 3, "Storage": 2}


# -- values --------------------------------------------------------------------
def value(a):
    k = a[0]
    if k == "v":
        return a[2]
    if k == "s":
        return build.scalar(a[1])
    if k == "e":
        return build.expr(a[1])
    if k == "c":
        return build.cond(a[1])
    if k == "ent":
        return build.entity(a[1])
    if k == "sto":
        return build.storage(a[1])
    if k == "seq":
        out = [value(x) for x in a[2]]
        return tuple(out) if a[1] == "tuple" else out
    if k == "op":
        return Op[a[1]]
    if k == "bop":
        return BooleanOp[a[1]]
    if k == "dir":
        return Direction[a[1]]
    if k == "model":
        return build.model({"cols": [["a", True]], "time": "ts"})
    if k == "rel":
        return Relationship(build.entity(a[1]), a[2], build.entity(a[3]))
    import datetime

    return {
        "object": object(), "dict": {"a": 1}, "set": {1, 2}, "int": 7, "float": 2.5,
        "bytes": b"a", "class": Column, "func": len, "date": datetime.date(2021, 1, 1),
        "list": [], "op": Op.EQ,
    }[a[1]]  # fmt: skip


# -- the oracle ------------------------------------------------------------------
LETTERS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGITS = set("0123456789")


def wordlike(c):
    return c == "_" or c.isalnum()


def column_name(n):
    if not n or (n[0] not in LETTERS and n[0] != "_"):
        return False
    base, br, rest = n.partition("[")
    if not all(wordlike(c) or c in ".:/@" for c in base):
        return False
    return not br or (rest.endswith("]") and "[" not in rest[:-1] and "]" not in rest[:-1])


def function_name(n):
    return (
        len(n) >= 2
        and n[0] in LETTERS
        and all(wordlike(c) or c in "().,+'\": []-" for c in n[1:])
    )


def alias_name(n):
    return n != "" and all(c in LETTERS or c in DIGITS or c in "_.+*/:-[]()@" for c in n)


def ident_name(n):
    return n != "" and n[0] in LETTERS | {"_"} and all(c in LETTERS or c in DIGITS or c == "_" for c in n)


def entity_name(n):
    return n != "" and all(c in LETTERS or c == "_" for c in n)


def text(a):
    """The string value of an argument, or None."""
    if a[0] == "v" and a[1] == "str":
        return a[2]
    if a[0] == "s" and a[1][0] == "str":
        return a[1][1]
    return None


def is_null(a):
    return (a[0] == "v" and a[1] == "null") or (a[0] == "s" and a[1][0] == "null")


def ok_alias(a):
    return is_null(a) or (text(a) is not None and alias_name(text(a)))


def is_expr(a, *kinds):
    return a[0] == "e" and a[1][0] in kinds


def is_lit(a):
    return a[0] in ("v", "s") or (a[0] == "junk" and a[1] in ("int", "float", "bytes", "date"))


def ok_element(a):
    if a[0] == "seq":
        return all(ok_element(x) for x in a[2])
    return is_lit(a) or a[0] == "e" or a == ["junk", "list"]


def ok_param(a):
    if a[0] == "seq":
        return all(ok_element(x) for x in a[2])
    return is_lit(a) or is_expr(a, "col", "fn", "cfn", "ident", "lambda") or a == ["junk", "list"]


def as_seq(a):
    """The elements of a list or tuple argument, or None."""
    if a[0] == "seq":
        return a[2]
    return [] if a == ["junk", "list"] else None


def bounded(a, lo, hi):
    if a == ["junk", "int"]:
        n = 7
    elif a[0] == "v" and a[1] == "int":
        n = a[2]
    else:
        return False
    return n >= lo and (hi is None or n <= hi)


def valid(spec):
    """True, False, or None when the case is left open."""
    name, a = spec[:2]
    if name == "Column":
        n = text(a[0])
        if n is None or not column_name(n):
            return False
        if is_null(a[1]):
            return True
        if a[1][0] != "ent" or not a[1][1]["alias"]:
            return False
        m = a[1][1]["model"]
        base = n.split("[")[0]
        return m is None or base in [c for c, _ in m["cols"]]
    if name in ("Function", "CurriedFunction"):
        n = text(a[0])
        if n is None or not function_name(n):
            return False
        if name == "CurriedFunction" and not is_null(a[1]):
            if a[1] == ["junk", "bytes"]:
                return None
            seq = as_seq(a[1])
            if seq is None or not all(is_lit(x) or is_expr(x, "col") for x in seq):
                return False
        params, alias = a[-2], a[-1]
        if not ok_alias(alias):
            return False
        if not is_null(params):
            if params == ["junk", "bytes"]:
                return None
            seq = as_seq(params)
            if seq is None or not all(ok_param(x) for x in seq):
                return False
        return True
    if name == "Identifier":
        return text(a[0]) is not None and ident_name(text(a[0]))
    if name == "Lambda":
        seq = as_seq(a[0])
        if seq is None or not all(text(x) is not None and ident_name(text(x)) for x in seq):
            return False
        return is_expr(a[1], "fn", "cfn")
    if name == "AliasedExpression":
        return is_expr(a[0], "col") and ok_alias(a[1])
    if name == "Condition":
        if not is_expr(a[0], "col", "fn", "cfn"):
            return False
        if a[1] == ["junk", "op"]:
            op = "EQ"
        elif a[1][0] != "op":
            return False
        else:
            op = a[1][1]
        if op in ("IS_NULL", "IS_NOT_NULL"):
            return is_null(a[2])
        if a[2][0] == "seq":
            return all(ok_element(x) for x in a[2][2])
        return is_lit(a[2]) or is_expr(a[2], "col", "fn", "cfn") or a[2] == ["junk", "list"]
    if name in ("BooleanCondition", "And", "Or"):
        if name == "BooleanCondition" and a[0][0] != "bop":
            return False
        seq = as_seq(a[-1])
        return seq is not None and len(seq) >= 2 and all(x[0] == "c" for x in seq)
    if name in ("Entity", "Storage"):
        n = text(a[0])
        if n is None or not entity_name(n):
            return False
        if name == "Entity" and not is_null(a[1]) and not text(a[1]):
            return False
        sample, model = a[-2], a[-1]
        if not is_null(sample) and not (sample[1] == "float" and sample[2] > 0):
            return False
        return is_null(model) or model == ["model"]
    if name == "Relationship":
        for x in (a[0], a[2]):
            if x[0] != "ent" or x[1]["alias"] is None:
                return False
        return bool(text(a[1]))
    if name == "Join":
        seq = as_seq(a[0])
        if not seq or not all(x[0] == "rel" for x in seq):
            return False
        names = {}
        for x in seq:
            for e in (x[1], x[3]):
                if names.setdefault(e["alias"], e["name"]) != e["name"]:
                    return False
        return True
    if name == "OrderBy":
        return is_expr(a[0], "col", "fn", "cfn") and a[1][0] == "dir"
    if name == "LimitBy":
        if a[0] == ["junk", "bytes"]:
            return False
        seq = as_seq(a[0])
        return bool(seq) and all(is_expr(x, "col") for x in seq) and bounded(a[1], 1, 10000)
    if name == "Limit":
        return bounded(a[0], 1, 10000)
    if name == "Offset":
        return bounded(a[0], 0, None)
    if name == "Granularity":
        return bounded(a[0], 1, None)
    return a[0][0] == "v" and a[0][1] == "bool"


ATTRS = {
    "Column": ["name", "entity"], "Function": ["function", "parameters", "alias"],
    "CurriedFunction": ["function", "initializers", "parameters", "alias"],
    "Identifier": ["name"], "Lambda": ["identifiers", "transformation"],
    "AliasedExpression": ["exp", "alias"], "Condition": ["lhs", "op", "rhs"],
    "BooleanCondition": ["op", "conditions"], "And": ["conditions"], "Or": ["conditions"],
    "Entity": ["name", "alias", "sample", "data_model"], "Storage": ["name", "sample", "data_model"],
    "Relationship": ["lhs", "name", "rhs"], "Join": ["relationships"],
    "OrderBy": ["exp", "direction"], "LimitBy": ["columns", "count"], "Limit": ["limit"],
    "Offset": ["offset"], "Granularity": ["granularity"], "Totals": ["totals"],
    "Extrapolate": ["extrapolate"],
}  # fmt: skip


def check(spec):
    name, a = spec[:2]
    how = spec[2] if len(spec) > 2 else "in order"
    args = [value(x) for x in a]
    want = valid(spec)
    if want is None:
        return
    shown = f"{how}: {name}({', '.join(short(repr(x), 200) for x in args)})"
    try:
        if how == "names":
            o = CLASSES[name](**dict(zip(ATTRS[name], args)))
        elif how == "defaults":
            n = len(args)
            while n and (args[n - 1] is None or name in ("And", "Or")):
                n -= 1
            o = CLASSES[name](*args[:n])
        else:
            o = CLASSES[name](*args)
    except ERRORS as e:
        if want:
            raise Violation(f"rejected a valid expression: {shown}\n{type(e).__name__}: {e}")
        return
    except Exception as e:
        raise Violation(f"{shown} raised {type(e).__name__}: {e}")
    if not want:
        raise Violation(f"accepted an invalid expression: {shown}")
    for attr, v in zip(ATTRS[name], args):
        got = getattr(o, attr)
        if type(got) is not type(v) or (got is not v and repr(got) != repr(v)):
            raise Violation(f"{shown}.{attr} is {short(repr(got))}")
    if name == "Column":
        base, br, rest = a[0][2].partition("[")
        want2 = (base, rest[:-1]) if br else (None, None)
        if (o.subscriptable, o.key) != want2:
            raise Violation(f"{shown}: subscriptable and key are {o.subscriptable!r}, {o.key!r}")
    if name == "And" and o.op is not BooleanOp.AND or name == "Or" and o.op is not BooleanOp.OR:
        raise Violation(f"{shown}.op is {o.op}")
    o.validate()


def nontrivial(spec):
    v = valid(spec)
    if v is None:
        return None
    given = [x for x in spec[1] if not is_null(x)]
    return [f"{spec[0]}:{'valid' if v else 'invalid'}"] if not v or len(given) > 1 else None
