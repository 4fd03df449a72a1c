"""Helpers shared by the property modules."""
from __future__ import annotations

import json

from lib import snql
from lib.engine import Violation


def short(x, n=1500):
    t = x if isinstance(x, str) else json.dumps(x, ensure_ascii=True, default=repr)
    return t if len(t) <= n else t[:n] + "..."


def read_snql(text):
    try:
        return snql.read(text)
    except snql.Unreadable as e:
        raise Violation(f"the SnQL text cannot be read back: {e}\ntext: {short(text)}")


def same(kind, got, want, **info):
    if got != want or type(got) is not type(want):
        extra = "".join(f"\n{k}: {short(v)}" for k, v in info.items())
        raise Violation(f"{kind}\ngot:  {short(got)}\nwant: {short(want)}{extra}")


def deep_eq(a, b):
    """Equality that tells True, 1 and 1.0 apart."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(deep_eq(a[k], b[k]) for k in a)
    return a == b


def require(kind, got, want, **info):
    if not deep_eq(got, want):
        extra = "".join(f"\n{k}: {short(v)}" for k, v in info.items())
        raise Violation(f"{kind}\ngot:  {short(got)}\nwant: {short(want)}{extra}")


def where_alternatives(q, strict=False):
    """For each top level condition of the outer query, the allowed readings."""
    quals = q["match"][0] == "join"
    out = []
    for c in q.get("where") or []:
        st, new = snql.collapse(c)
        plain = snql.m_cond(c, quals)
        if st == "no":
            out.append([plain])
        elif st == "must" and strict:
            out.append([snql.m_cond(new, quals)])
        else:
            out.append([snql.m_cond(new, quals), plain])
    return out


def compare_query(q, got, text, strict=False, collapsed=True):
    want = snql.m_query(q)
    for f in want:
        if f == "where" and collapsed:
            continue
        require(f"the {f} clause was not sent as written", got[f], want[f], text=text)
    if collapsed:
        alts = where_alternatives(q, strict)
        if len(alts) != len(got["where"]):
            raise Violation(
                f"WHERE has {len(got['where'])} conditions, expected {len(alts)}\ntext: {short(text)}"
            )
        for g, a in zip(got["where"], alts):
            if not any(deep_eq(g, x) for x in a):
                raise Violation(
                    "a WHERE condition was not sent as written"
                    f"\ngot:  {short(g)}\nwant: {short(a[0])}\ntext: {short(text)}"
                )


def query_labels(q):
    out = []
    m = q["match"][0]
    if m != "entity":
        out.append(f"match:{m}")
    for f in ("groupby", "array_join", "where", "having", "orderby", "limitby", "totals"):
        if q.get(f):
            out.append(f)
    txt = json.dumps(q)
    for tag in ("lambda", "cfn", "bool", "aliased", "dt", "bytes", "tuple"):
        if f'["{tag}"' in txt:
            out.append(f"has:{tag}")
    return out
