"""C18: threads that use the SDK at the same time do not disturb one another."""
import random

from lib import mqltext, sched
from lib.common import deep_eq, short
from lib.engine import Source, Violation, fork_run
from props import c06, c17
from snuba_sdk import Flags, Request
from snuba_sdk.legacy import json_to_snql
from snuba_sdk.mql.mql import parse_mql

ID = "C18"
COVERAGE = False  # the scheduler owns the tracing
COUNT = {"quick": 1000, "thorough": 12000}
RULE = (
    "Two to four threads each run a generated list of operations (build, serialize, print, "
    "validate, wrap in a request, search, parse MQL, convert legacy JSON, provoke a "
    "failure) on shared and private objects under a generated schedule: the SDK is traced "
    "and a thread may be preempted before any line, or any bytecode instruction, of the "
    "SDK. Every outcome must be the one the same operation has when run alone, and every "
    "shared object must be unchanged; serialized output is also read by the independent "
    "readers. Non-trivial: the schedule moved between threads at least twice inside SDK code."
)
ASSUMPTIONS = [
    "operations on one object are only required not to disturb each other; the objects are "
    "immutable, or not modified by the threads",
    "preemption is at lines or instructions of SDK code, not inside the standard library "
    "or parsimonious",
]


def gen_item(s):
    k = s.below(12)
    if k < 8:
        return c06.gen_one(s)
    if k < 10:
        return {"kind": "text", "t": mqltext.GT(s).t_expr(2, True)}
    if k < 11:
        return {"kind": "legacy", "l": c17.gen(s)}
    return {"kind": "bad", "what": s.choice(FAILING)}


FAILING = ["column", "join", "mql", "bytes", "op", "text", "select", "formula", "groups", "rollup"]
# what fails on the way that a query of the kind takes
LIKE = {"snql": ["column", "join", "bytes", "select"], "mql": ["mql", "op", "text", "formula", "groups", "rollup"]}


OPS = {
    "snql": ["ser", "ser", "print", "validate", "fresh", "request", "str"],
    "mql": ["ser", "ser", "print", "validate", "fresh", "request", "str"],
    "delete": ["ser", "print", "validate", "fresh", "str"],
    "text": ["parse"],
    "legacy": ["convert"],
    "bad": ["fail"],
}


def gen_schedule(s, n):
    k = s.below(4)
    if k == 0:  # few preemptions, far apart
        return [[s.int(1, 4000), s.below(n)] for _ in range(s.int(1, 4))]
    if k == 1:  # fine grained
        return [[s.int(1, 12), s.below(n)] for _ in range(s.int(20, 120))]
    if k == 2:  # a burst of small steps after a long one
        return [[s.int(1, 2000), s.below(n)]] + [[s.int(1, 30), s.below(n)] for _ in range(s.int(5, 60))]
    return [[s.int(1, 300), s.below(n)] for _ in range(s.int(5, 60))]


def gen(s):
    items = [gen_item(s) for _ in range(s.size(1, 4, 0.6))]
    if s.bool(0.3) and items[0]["kind"] == "snql":
        q = dict(items[0]["q"])
        for f in ("where", "having", "orderby", "groupby"):
            if q.get(f):
                q[f] = c06.twin(s, q[f])
        items.append({"kind": "snql", "q": q})
    if items[0]["kind"] in LIKE and s.bool(0.3):
        items.append({"kind": "bad", "what": s.choice(LIKE[items[0]["kind"]])})
    for it in items:
        if it["kind"] == "snql" and s.bool(0.5):
            # give the optimizer and the printer work that takes several steps
            arms = [["cond", ["col", "project_id", None], "EQ", ["int", v]] for v in s.list(lambda: s.below(50), 2, 5)]
            if it["q"]["match"][0] == "entity" and it["q"]["match"][1]["model"] is None:
                it["q"] = {**it["q"], "where": [*(it["q"].get("where") or []), ["bool", "OR", arms, "sub"]]}
    n = 2 + s.size(0, 2, 0.3)
    threads = []
    for _ in range(n):
        ops = []
        for _ in range(s.size(1, 4, 0.5)):
            i = s.below(len(items))
            ops.append([s.choice(OPS[items[i]["kind"]]), i])
        threads.append(ops)
    spec = {
        "items": items,
        "threads": threads,
        "schedule": gen_schedule(s, n),
        "opcodes": s.bool(0.15),
    }
    if s.below(2):
        m = s.choice([4, 10, 10, 25])
        spec["focus"] = [m, s.below(m)]
        spec["schedule"] = [[s.choice([1, 1, 1, 2, 3, 5, 8]), s.below(n)] for _ in range(s.int(1, 30))]
    return spec


def make(it):
    return c06.make(it) if it["kind"] in ("snql", "mql", "delete") else None


def outcome(fn):
    try:
        return ["ok", fn()]
    except Exception as e:
        return ["error", type(e).__name__, str(e)]


def failing(what):
    return outcome(lambda: c06.failing(what).serialize())


def do(op, it, obj):
    if op == "ser":
        return outcome(lambda: c06.copy_of(obj.serialize()))
    if op == "fresh":
        return outcome(lambda: c06.copy_of(make(it).serialize()))
    if op == "print":
        return outcome(obj.print)
    if op == "str":
        return outcome(lambda: str(obj))
    if op == "validate":
        return outcome(obj.validate)
    if op == "request":
        return outcome(
            lambda: c06.copy_of(Request("events", "app", obj, Flags(), "api", {"org": 1}).to_dict())
        )
    if op == "parse":
        return outcome(lambda: repr(parse_mql(mqltext.text(it["t"]))))
    if op == "convert":
        l = it["l"]
        return outcome(lambda: json_to_snql(c17.dec(l["body"]), l["entity"]).serialize())
    if op == "fail":
        return failing(it["what"])
    raise KeyError(op)


def check(spec):
    items = spec["items"]
    objs = [make(it) for it in items]
    before = [repr(o) for o in objs]
    results = [[None] * len(t) for t in spec["threads"]]

    def body(t):
        def run():
            for n, (op, i) in enumerate(spec["threads"][t]):
                results[t][n] = do(op, items[i], objs[i])

        return run

    sc = sched.Scheduler(len(spec["threads"]), spec["schedule"], spec["opcodes"], spec.get("focus"))
    finished = sc.run([body(t) for t in range(len(spec["threads"]))])
    if not finished:
        raise Violation("the threads never finish: they wait for one another")
    check.switches = sc.switches
    for i, o in enumerate(objs):
        if repr(o) != before[i]:
            raise Violation(f"a shared object changed\nbefore: {short(before[i])}\nafter:  {short(repr(o))}")
    alone = {}
    for t, ops in enumerate(spec["threads"]):
        for n, (op, i) in enumerate(ops):
            key = (op, i)
            if key not in alone:
                alone[key] = do(op, items[i], make(items[i]))
            if not deep_eq(results[t][n], alone[key]):
                raise Violation(
                    f"thread {t}, operation {n} ({op}): another outcome than alone"
                    f"\nconcurrent: {short(results[t][n])}\nalone:      {short(alone[key])}"
                )
            if op in ("ser", "fresh") and n == 0:
                if results[t][n][0] != "ok":
                    raise Violation(f"{op} failed: {short(results[t][n])}")
                c06.expected(items[i], results[t][n][1])


def nontrivial(spec):
    sw = check.switches
    if sw < 2:
        return None
    out = [f"{len(spec['threads'])} threads"]
    out.append("2-5 switches" if sw < 6 else "6-20 switches" if sw <= 20 else "more than 20 switches")
    if spec["opcodes"]:
        out.append("instruction level")
    if spec.get("focus"):
        out.append("interleaved from end to end in some functions")
    used = [{i for _, i in t} for t in spec["threads"]]
    if set.intersection(*used):
        out.append("shared object")
    return out


def extra(tier, seed):
    """The same, each case in a process in which the SDK has not run yet."""
    n = 160 if tier == "quick" else 4000
    viol = []
    for k in range(n):
        spec = gen(Source(random.Random(f"cold/{seed}/{k}")))

        def one(spec=spec):
            from lib.engine import run_case
            import sys

            return run_case(sys.modules[__name__], spec)

        r = fork_run(one, 200.0)
        if r is not None and r[0] == "violation":
            viol.append({"spec": spec, "message": "in a fresh process: " + r[1]})
            break
    return {
        "notes": [f"{n} schedules each run in a freshly forked process (cold start)"],
        "violations": viol,
        "counts": {"cold start schedules": n},
    }
