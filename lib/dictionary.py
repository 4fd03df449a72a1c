"""Literals that occur in the current source of the code under test.

They only steer generation (a fuzzing dictionary); no verdict depends on them.
"""
from __future__ import annotations

import ast
import os
import re

ROOT = "/repo/snuba_sdk"


def harvest(root=ROOT):
    strings, ints, floats = set(), set(), set()
    for dp, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            if not f.endswith(".py"):
                continue
            try:
                with open(os.path.join(dp, f), encoding="utf-8") as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, OSError, UnicodeDecodeError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, str):
                        if 0 < len(v) <= 40 and v.count(" ") < 3:
                            strings.add(v)
                    elif isinstance(v, bool) or v is None:
                        pass
                    elif isinstance(v, int):
                        if abs(v) < 10**15:
                            ints.add(v)
                    elif isinstance(v, float):
                        floats.add(v)
    return sorted(strings), sorted(ints), sorted(floats)


STRINGS, INTS, FLOATS = harvest()
NEAR_INTS = sorted({n + d for n in INTS for d in (-1, 0, 1)})
SMALL_SIZES = sorted({n for n in NEAR_INTS if 3 <= n <= 40})
NAME = re.compile(r"[a-zA-Z_](\w|\.|:|/|@)*(\[[^\[\]]*\])?\Z")
IDENT = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*\Z")
COLUMN_WORDS = [s for s in STRINGS if NAME.match(s)]
IDENT_WORDS = [s for s in STRINGS if IDENT.match(s)]
FUNC_WORDS = [s for s in STRINGS if re.match(r"[a-zA-Z]\w+\Z", s)]
ENTITY_WORDS = [s for s in STRINGS if re.match(r"[a-zA-Z_]+\Z", s)]
ALIAS_WORDS = [s for s in STRINGS if re.match(r"[a-zA-Z0-9_.+*/:\-\[\]()@]+\Z", s)]
TAG_WORDS = [s for s in STRINGS if re.match(r"[a-zA-Z_][a-zA-Z0-9_.]*\Z", s)]
