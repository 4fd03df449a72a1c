"""C01: the SnQL text says exactly what the query says."""
from lib import build
from lib.common import compare_query, query_labels, read_snql
from lib.gen import G

ID = "C01"
SHARE = True
COUNT = {"quick": 36000, "thorough": 240000}
RULE = (
    "Queries are generated from a grammar over all clauses and all match kinds "
    "(entity, storage, join, up to two nested subqueries), serialized by the SDK and "
    "read back by an independent SnQL reader; the reading must equal the generated "
    "query. Non-trivial: the query has at least two of: a non-entity match, a group, "
    "array join, where, having, order, limit by, totals, lambda, curried function, "
    "boolean condition, aliased column, datetime, bytes, tuple."
)
ASSUMPTIONS = [
    "Column and function names are not SnQL keywords; function names are word-like",
    "floats are finite, bytes are UTF-8, entity aliases and relationship names are word-like",
]


def gen(s):
    return G(s).query(2)


def check(q):
    text = build.query(q).serialize()
    compare_query(q, read_snql(text), text)


def nontrivial(q):
    labels = query_labels(q)
    return labels if len(labels) >= 2 else None
