"""Arbitrary argument values, right and wrong, as JSON.

Scalars and expressions as in lib.gen / lib.mql, plus
["dict",[[k,v]..]] ["set",[..]] ["cond",..] ["metric",m] ["dir",name] ["op",name]
["limit",n] ["offset",n] ["extrapolate",b] ["rollup",r] ["scope",s] ["object"]
["model"] ["snql"] ["entity"]
"""
from __future__ import annotations

from lib import build, mql
from snuba_sdk import Direction, Entity, Extrapolate, Limit, Offset, Op, Query


class Thing:
    """Some object of no particular type."""

    def __repr__(self):
        return "<thing>"


def val(x):
    k = x[0]
    if k == "dict":
        return {val(a): val(b) for a, b in x[1]}
    if k == "set":
        return {val(a) for a in x[1]}
    if k == "list":
        return [val(v) for v in x[1]]
    if k == "tuple":
        return tuple(val(v) for v in x[1])
    if k in ("cond", "bool") and len(x) > 2:
        return build.cond(x)
    if k == "metric":
        return mql.b_metric(x[1])
    if k in ("ts", "formula"):
        return mql.b_mql(x)
    if k == "dir":
        return Direction[x[1]]
    if k == "op":
        return Op[x[1]]
    if k == "limit":
        return Limit(x[1])
    if k == "offset":
        return Offset(x[1])
    if k == "extrapolate":
        return Extrapolate(x[1])
    if k == "rollup":
        return mql.b_rollup(x[1])
    if k == "scope":
        return mql.b_scope(x[1])
    if k == "object":
        return Thing()
    if k == "entity":
        return Entity("events")
    if k == "snql":
        return Query(Entity("events")).set_select([build.expr(["col", "a", None])])
    return build.any_(x)


def is_kind(x, *kinds):
    """Whether x is the spec of a value of one of these kinds ("bool": the scalar)."""
    k = x[0]
    if k == "bool":
        k = "boolcond" if len(x) > 2 else "bool"
    return k in kinds


class GV(mql.GQ):
    def junk(self):
        """A value of a random type."""
        s = self.s
        return s.choice(
            [
                ["null"], ["int", 1], ["int", 0], ["int", -1], ["float", "1.5"], ["float", "60.0"],
                ["str", ""], ["str", "a"], ["str", "sum(foo)"], ["bool", True], ["bool", False],
                ["bytes", "61"], ["list", []], ["list", [["int", 1]]], ["list", [["str", "a"]]],
                ["tuple", []], ["tuple", [["int", 1]]], ["dict", []], ["dict", [[["str", "a"], ["int", 1]]]],
                ["col", "a", None], ["dir", "ASC"], ["op", "EQ"], ["limit", 5], ["offset", 5],
                ["extrapolate", True], ["object"], ["dt", "2021-01-01T00:00:00", None, 0],
                ["date", "2021-01-01"], ["cond", ["col", "a", None], "EQ", ["int", 1]],
                ["metric", {"public": "foo", "mri": None, "id": None}],
                ["ts", {"public": "foo", "mri": None, "id": None}, "sum", None, None, None],
                ["formula", "plus", [["ts", {"public": "foo", "mri": None, "id": None}, "sum", None, None, None],
                                     ["int", 1]], None, None, None],
                ["rollup", {"interval": 60, "totals": None, "orderby": None, "granularity": 60}],
                ["scope", {"org_ids": [1], "project_ids": [2], "use_case_id": None}],
                ["snql"], ["entity"], ["list", [["null"]]], ["list", [["float", "1.0"]]],
                ["list", [["col", "a", None], ["str", "b"]]], ["list", [["list", []]]],
                ["fn", "count", [], "c", "list"], ["list", [["fn", "count", [], "c", "list"]]],
                ["list", [["cond", ["col", "a", None], "EQ", ["int", 1]], ["int", 1]]],
                ["list", [["object"]]], ["list", [["bool", True]]], ["str", "60"], ["str", "ASC"],
            ]
        )  # fmt: skip
