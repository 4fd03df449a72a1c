"""Property-based testing engine.

Every check draws all of its random choices from a Source, which records them
as a sequence of bounded integers.  A case is therefore a pure function of that
sequence, which gives seeding, mutation and shrinking for every generator:

* fresh cases draw from a PRNG keyed by (VERIF_SEED, property, shard, index);
* some cases mutate the choice sequence of an earlier case of the same shard
  that reached a branch of the code under test nothing had reached before;
* a failing sequence is shrunk by deleting, zeroing and lowering choices, each
  candidate being run in a forked copy of a pristine process.

Generators build plain JSON values ("specs") and never call the code under
test, so a spec is a complete, engine-independent replay.
"""

from __future__ import annotations

import copy
import hashlib
import json
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import zlib
from array import array
from collections import Counter, deque

from lib import dictionary

REPO = "/repo"
SDK_DIR = os.path.join(REPO, "snuba_sdk") + os.sep


class Violation(Exception):
    """The property does not hold for this spec."""


class HarnessError(Exception):
    pass


class StopCase(Exception):
    """The choice sequence grew too long; the case is dropped."""


MAX_CHOICES = 6000
# Sizes that size-dependent code might treat in a special way, and those in the source.
SIZES = sorted({9, 16, 17, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257, 500, 1000, 1001}
               | {n for n in dictionary.NEAR_INTS if 8 <= n <= 1100})  # fmt: skip
LONG = sorted({2048, 4095, 4096, 4097, 8192, 10001, 65535, 65536, 65537}
              | {n for n in dictionary.NEAR_INTS if 1100 < n <= 70000})  # fmt: skip


class Source:
    """Draws bounded integers; 0 is always the simplest choice."""

    __slots__ = ("rng", "prefix", "out", "pos", "pad", "huge")

    def __init__(self, rng=None, prefix=(), pad=False):
        self.rng = rng
        self.prefix = prefix
        self.pos = 0
        self.out = array("Q")
        self.pad = pad  # after the prefix: draw zeros rather than random values
        self.huge = False  # may one list (or string) of this case be huge?

    def below(self, n: int) -> int:
        if n <= 1:
            return 0
        i = self.pos
        self.pos = i + 1
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = v % n if self.rng is not None else n - 1
        elif self.pad:
            v = 0
        else:
            v = int(self.rng.random() * n)
            if v >= n:
                v = n - 1
        if i >= MAX_CHOICES:
            raise StopCase()
        self.out.append(v)
        return v

    # -- helpers ---------------------------------------------------------
    def bool(self, p: float = 0.5) -> bool:
        return self.below(1000) >= 1000 - int(1000 * p)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def int(self, lo: int, hi: int) -> int:
        return lo + self.below(hi - lo + 1)

    def weighted(self, pairs):
        total = 0
        for w, _ in pairs:
            total += w
        v = self.below(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def size(self, lo: int, hi: int, p: float = 0.55) -> int:
        """A geometric size in [lo, hi]."""
        n = lo
        while n < hi and self.bool(p):
            n += 1
        return n

    def list(self, fn, lo: int, hi: int, p: float = 0.55):
        return self.many(fn, self.size(lo, hi, p))

    def many(self, fn, n: int):
        """n items; in a few cases one list has far more."""
        if self.huge and self.below(3) == 2:
            self.huge = False
            base = [fn() for _ in range(self.int(1, 6))]
            n = self.choice(SIZES)
            k = self.below(3)
            if k == 0:
                out = [self.choice(base) for _ in range(n)]
            else:
                out = [base[0]] * n
                out[-1] = base[-1]
                if k == 2:
                    for x in base[1:]:
                        out[self.below(n)] = x
            return [copy.deepcopy(x) for x in out]
        out = [fn() for _ in range(n)]
        if n > 1 and isinstance(out[0], (list, tuple)) and self.below(16) == 15:
            out[self.below(n)] = copy.deepcopy(self.choice(out))
        return out

    def huge_size(self):
        """0, or the size of the one huge thing of this case."""
        if self.huge and self.below(6) == 5:
            self.huge = False
            return self.choice(SIZES + LONG)
        return 0

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.below(len(seq))))
        return out

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


# ---------------------------------------------------------------------------
# Branch coverage of the code under test (guides which cases are kept).
class Coverage:
    TOOL = 3

    def __init__(self):
        self.new = False
        self.seen = set()
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, "verif")
        except ValueError:
            return
        dis = mon.DISABLE
        prefix = SDK_DIR
        seen = self.seen
        first = {}

        def branch(code, off, dst):
            if not code.co_filename.startswith(prefix):
                return dis
            key = (id(code), off, dst)
            if key not in seen:
                seen.add(key)
                self.new = True
                k2 = (id(code), off)
                if k2 in first:
                    return dis
                first[k2] = dst
            return None

        def line(code, ln):
            if code.co_filename.startswith(prefix):
                key = (id(code), ln)
                if key not in seen:
                    seen.add(key)
                    self.new = True
            return dis

        ev = mon.events
        mon.register_callback(self.TOOL, ev.BRANCH, branch)
        mon.register_callback(self.TOOL, ev.LINE, line)
        mon.set_events(self.TOOL, ev.BRANCH | ev.LINE)
        self.on = True

    def take(self):
        n, self.new = self.new, False
        return n


# ---------------------------------------------------------------------------
def classify_exception(e: BaseException):
    """(kind, message): a Violation, an escape from the SDK, or a harness error."""
    if isinstance(e, Violation):
        return "violation", str(e)
    tb = e.__traceback__
    in_sdk = False
    seen = set()
    exc = e
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr, _ in traceback.walk_tb(exc.__traceback__):
            if fr.f_code.co_filename.startswith(SDK_DIR):
                in_sdk = True
        exc = exc.__cause__ or exc.__context__
    del tb
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    if in_sdk and isinstance(e, Exception) and not isinstance(e, HarnessError):
        return (
            "violation",
            f"the SDK raised {type(e).__name__}: {e} on an input for which it must not\n{text}",
        )
    if isinstance(e, (TypeError, ValueError, AttributeError, LookupError, AssertionError)):
        # On the unchanged tree no case gets here: what the SDK handed back (None for text, an
        # unhashable object, ..) is not of the form that any right answer has.
        return (
            "violation",
            f"judging what the SDK gave back raised {type(e).__name__}: {e}\n{text}",
        )
    return "harness", text


CASE_CPU_S = 60.0
BIG_SPEC = 2500


def out_of_stack(e):
    seen = set()
    while e is not None and id(e) not in seen:
        if isinstance(e, RecursionError):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def forget_reprs():
    """After the stack ran out inside a dataclass's __repr__, its guard against recursion can keep
    the ids of objects that are gone; later objects at the same address would print as "...".
    """
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] != "snuba_sdk":
            continue
        for cls in list(vars(mod).values()):
            if isinstance(cls, type):
                for cell in getattr(cls.__repr__, "__closure__", None) or ():
                    if isinstance(cell.cell_contents, set):
                        cell.cell_contents.clear()


class Hang(BaseException):
    """One case used far more CPU time than any case does."""


def _alarm(signum, frame):
    raise Hang()


def run_case(prop, spec):
    """None, or (kind, message)."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        if getattr(prop, "SHARE", False):
            from lib import build  # imports the SDK

            odd = zlib.crc32(json.dumps(spec, sort_keys=True).encode()) & 1
            build.SHARED = {} if odd else None
        prop.check(spec)
        return None
    except Hang:
        return "violation", f"no answer after {CASE_CPU_S:.0f} s of CPU time"
    except BaseException as e:  # noqa
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if out_of_stack(e):
            forget_reprs()
        if out_of_stack(e) and len(json.dumps(spec)) > BIG_SPEC:
            return None  # inconclusive: the interpreter's stack is the limit, not the SDK
        return classify_exception(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def spec_key(spec) -> bytes:
    return hashlib.blake2b(
        json.dumps(spec, sort_keys=True, ensure_ascii=True).encode(), digest_size=10
    ).digest()


def generate(prop, source):
    try:
        source.huge = source.below(64) == 63
        return prop.gen(source)
    except StopCase:
        return None


def mutate(rng, seq):
    seq = list(seq)
    for _ in range(rng.choice((1, 1, 1, 2, 3, 6))):
        if not seq:
            break
        k = rng.random()
        i = rng.randrange(len(seq))
        if k < 0.35:
            seq[i] = rng.randrange(0, 1000)
        elif k < 0.5:
            seq[i] = rng.choice((0, 1, 2, 999, seq[i] + 1, max(0, seq[i] - 1)))
        elif k < 0.65:
            j = min(len(seq), i + rng.choice((1, 2, 4, 8, 16)))
            del seq[i:j]
        elif k < 0.8:
            j = min(len(seq), i + rng.choice((1, 2, 4, 8, 16, 32)))
            at = rng.randrange(len(seq))
            seq[at:at] = seq[i:j]
        elif k < 0.9:
            seq = seq[:i]
        else:
            j = rng.randrange(len(seq))
            seq[i], seq[j] = seq[j], seq[i]
    return seq[:MAX_CHOICES]


# Shards run under different local time zones: nothing may depend on them.
TIME_ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0/2"]


def set_time_zone(shard):
    os.environ["TZ"] = TIME_ZONES[shard % len(TIME_ZONES)]
    time.tzset()


def shard_main(prop, seed, shard, count, deadline, out_path):
    """Runs one shard; writes a JSON result."""
    set_time_zone(shard)
    res = {
        "evaluations": 0,
        "dropped": 0,
        "nontrivial": 0,
        "mutated": 0,
        "labels": {},
        "samples": [],
        "fail": None,
        "branches": 0,
        "inconclusive": False,
    }
    keys = set()
    labels = Counter()
    history = deque(maxlen=1500)
    cov = Coverage()
    if getattr(prop, "COVERAGE", True):
        cov.start()
    corpus = []
    n_before = 0
    for i in range(count):
        if time.time() > deadline:
            res["inconclusive"] = True
            break
        rng = random.Random(f"{seed}/{prop.ID}/{shard}/{i}")
        if corpus and rng.random() < 0.3:
            res["mutated"] += 1
            # prefer recent discoveries
            k = int(len(corpus) * (1 - rng.random() ** 2))
            src = Source(rng, mutate(rng, corpus[min(k, len(corpus) - 1)]))
        else:
            src = Source(rng)
        spec = generate(prop, src)
        if spec is None:
            res["dropped"] += 1
            continue
        res["evaluations"] += 1
        failure = run_case(prop, spec)
        if failure is not None:
            res["fail"] = {
                "kind": failure[0],
                "message": failure[1],
                "choices": list(src.out),
                "shard": shard,
                "index": i,
                "history": [list(h) for h in history],
            }
            break
        history.append(src.out)
        if cov.on and cov.take():
            corpus.append(src.out)
            n_before = i
        nt = prop.nontrivial(spec)
        for lab in nt or ():
            labels[lab] += 1
        if nt:
            k = spec_key(spec)
            if k not in keys:
                keys.add(k)
                if len(res["samples"]) < 3 and i >= 5:
                    text = json.dumps(spec, ensure_ascii=True)
                    if len(text) < 1500:
                        res["samples"].append(spec)
    res["labels"] = dict(labels)
    res["branches"] = len(cov.seen)
    res["last_new_branch_at"] = n_before
    res["keys"] = [k.hex() for k in keys]
    with open(out_path, "w") as f:
        json.dump(res, f)


def fork_run(fn, timeout=120.0):
    """Run fn() in a forked child; returns its JSON result, or None on a crash."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            out = json.dumps(fn()).encode()
            while out:
                n = os.write(w, out)
                out = out[n:]
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    import select

    data = b""
    end = time.time() + timeout
    ok = True
    while True:
        left = end - time.time()
        if left <= 0:
            ok = False
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            ok = False
            break
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    if not ok:
        try:
            os.kill(pid, 9)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if not ok or status != 0:
        return None
    return json.loads(data)


class Shrinker:
    """Shortlex shrinking of a choice sequence; trial(choices) -> spec or None."""

    def __init__(self, trial, start, budget_s=60.0, max_trials=3000):
        self.trial = trial
        self.best = list(start)
        self.end = time.time() + budget_s
        self.left = max_trials
        self.seen = set()

    def ok(self):
        return time.time() < self.end and self.left > 0

    def consider(self, cand):
        if not self.ok():
            return False
        if (len(cand), cand) >= (len(self.best), self.best):
            return False
        key = tuple(cand)
        if key in self.seen:
            return False
        self.seen.add(key)
        self.left -= 1
        used = self.trial(cand)
        if used is not None:
            used = list(used)
            self.best = (
                used if (len(used), used) <= (len(cand), cand) else list(cand)
            )
            return True
        return False

    def run(self):
        improved = True
        while improved and self.ok():
            improved = False
            size = 64
            while size >= 1 and self.ok():
                i = len(self.best) - size
                while i >= 0 and self.ok():
                    cand = self.best[:i] + self.best[i + size :]
                    if self.consider(cand):
                        improved = True
                    elif (
                        i > 0
                        and self.best[i - 1 : i] != [0]
                        and self.best[i - 1] > 0
                    ):
                        cand2 = list(cand)
                        cand2[i - 1] -= 1
                        if self.consider(cand2):
                            improved = True
                    i -= size
                    i = min(i, len(self.best) - size)
                size //= 2
            size = 16
            while size >= 1 and self.ok():
                i = 0
                while i < len(self.best) and self.ok():
                    seg = self.best[i : i + size]
                    if any(seg):
                        cand = self.best[:i] + [0] * len(seg) + self.best[i + size :]
                        if self.consider(cand):
                            improved = True
                    i += size
                size //= 2
            i = len(self.best) - 1
            while i >= 0 and self.ok():
                if i < len(self.best) and self.best[i] > 0:
                    lo, hi = 0, self.best[i]
                    while lo < hi and self.ok():
                        mid = (lo + hi) // 2
                        cand = list(self.best)
                        if i >= len(cand):
                            break
                        cand[i] = mid
                        if self.consider(cand):
                            improved = True
                            if i >= len(self.best):
                                break
                            hi = self.best[i]
                        else:
                            lo = mid + 1
                i -= 1
        return self.best


def regenerate(prop, choices):
    src = Source(None, choices, pad=True)
    spec = generate(prop, src)
    return spec, list(src.out)


def run_sequence(prop, specs):
    """Check specs in order in this process; the first failure, if any."""
    for n, s in enumerate(specs):
        f = run_case(prop, s)
        if f is not None:
            return {"at": n, "kind": f[0], "message": f[1]}
    return None


def minimise(prop, fail, seed):
    """Turn a raw failure into a minimal replay dict."""
    choices = fail["choices"]
    set_time_zone(fail["shard"])
    spec, used = regenerate(prop, choices)

    def fails(specs):
        return fork_run(lambda: run_sequence(prop, specs))

    first = fails([spec]) if spec is not None else None
    if first is not None and first["kind"] == "violation":

        cache = {}

        def trial(c):
            sp, us = regenerate(prop, c)
            if sp is None:
                return None
            k = spec_key(sp)
            if k not in cache:
                r = fails([sp])
                cache[k] = r is not None and r["kind"] == "violation"
            return us if cache[k] else None

        best = Shrinker(trial, used).run()
        sp, _ = regenerate(prop, best)
        last = fails([sp])
        if last is None:
            sp, last = spec, first
        return {
            "mode": "spec",
            "specs": [sp],
            "message": last["message"],
            "shrunk_from_choices": len(choices),
            "choices": len(best),
        }

    # Only fails after other cases ran in the same process: a history.
    hist = []
    for h in fail["history"]:
        sp, _ = regenerate(prop, h)
        if sp is not None:
            hist.append(sp)
    k = 1
    found = None
    while hist:
        part = hist[-k:] + [spec]
        r = fails(part)
        if r is not None and r["kind"] == "violation":
            found = part[: r["at"] + 1]
            break
        if k >= len(hist):
            break
        k *= 4
    if found is None:
        return {
            "mode": "run",
            "seed": seed,
            "shard": fail["shard"],
            "index": fail["index"],
            "message": fail["message"],
        }
    end = time.time() + 60
    size = max(1, len(found) // 2)
    while size >= 1 and time.time() < end:
        i = 0
        while i + size < len(found) and time.time() < end:
            cand = found[:i] + found[i + size :]
            r = fails(cand)
            if r is not None and r["kind"] == "violation" and r["at"] == len(cand) - 1:
                found = cand
            else:
                i += size
        size //= 2
    r = fails(found)
    return {
        "mode": "history",
        "specs": found,
        "message": (r or {"message": fail["message"]})["message"],
    }


def run_property(prop, tier, seed, count, shards, wall_cap):
    t0 = time.time()
    deadline = t0 + wall_cap
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop.ID}-")
    pids = {}
    try:
        for sh in range(shards):
            path = os.path.join(tmp, f"{sh}.json")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 4
                try:
                    shard_main(prop, seed, sh, count, deadline, path)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids[pid] = sh
        bad = []
        while pids:
            pid, status = os.wait()
            if pid in pids:
                sh = pids.pop(pid)
                if status != 0:
                    bad.append((sh, status))
        results = []
        for sh in range(shards):
            path = os.path.join(tmp, f"{sh}.json")
            if os.path.exists(path):
                with open(path) as f:
                    results.append(json.load(f))
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    if bad:
        raise HarnessError(f"shards ended abnormally: {bad}")
    return results, time.time() - t0
