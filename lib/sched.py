"""Runs thread bodies under a generated schedule.

Only one thread runs at a time: the one holding the baton.  Every line (or every
bytecode instruction) of the SDK that the holder is about to execute is a possible
switch point; the schedule says after how many of them the baton moves, and to
whom.  The run is a pure function of the bodies and the schedule unless a thread
blocks on something the scheduler does not know (a lock in the SDK): then the
schedule is abandoned and the threads run freely, which can only lose precision.
"""
from __future__ import annotations

import sys
import threading
import zlib
from functools import lru_cache

from lib.engine import SDK_DIR

STUCK_S = 2.0
JOIN_S = 120.0


@lru_cache(None)
def in_focus(name, m, r):
    return zlib.crc32(name.encode()) % m == r


class Scheduler:
    def __init__(self, n, quanta, opcodes=False, focus=None):
        self.n = n
        self.quanta = list(quanta)  # [steps, who]: after steps switch points run who
        # focus [m, r]: only some functions of the SDK (one m-th of them, by name) have switch
        # points, and the schedule repeats, so that those functions interleave from end to end
        self.focus = focus
        self.at = 0
        self.opcodes = opcodes
        self.cv = threading.Condition()
        self.current = 0
        self.alive = set(range(n))
        self.left = 0
        self.next = 0
        self.steps = 0
        self.switches = 0
        self.free = False
        self._load()

    def _load(self):
        if self.focus and self.quanta:
            self.at %= len(self.quanta)
        if self.at < len(self.quanta):
            self.left, self.next = self.quanta[self.at]
            self.at += 1
        else:
            self.left, self.next = 1 << 60, 0

    # -- called by the threads --------------------------------------------
    def wait_turn(self, me):
        with self.cv:
            while not self.free and self.current != me:
                before = self.steps
                if not self.cv.wait(STUCK_S) and self.steps == before:
                    # the holder has not moved at all: it waits for one of us
                    self.free = True
                    self.cv.notify_all()

    def point(self, me):
        if self.free:
            return
        self.steps += 1
        self.left -= 1
        if self.left > 0:
            return
        with self.cv:
            others = sorted(self.alive - {me})
            who = others[self.next % len(others)] if others else me
            self._load()
            if who == me:
                return
            self.switches += 1
            self.current = who
            self.cv.notify_all()
        self.wait_turn(me)

    def done(self, me):
        with self.cv:
            self.alive.discard(me)
            if self.current == me and self.alive:
                left = sorted(self.alive)
                self.current = left[self.next % len(left)]
            self.cv.notify_all()

    # -- the run ------------------------------------------------------------
    def run(self, bodies):
        def tracer_of(me):
            wanted = "opcode" if self.opcodes else "line"

            def local(frame, event, arg):
                if event == wanted:
                    self.point(me)
                return local

            def glob(frame, event, arg):
                if not frame.f_code.co_filename.startswith(SDK_DIR):
                    return None
                if self.focus and not in_focus(frame.f_code.co_qualname, *self.focus):
                    return None
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local

            return glob

        def main(me, body):
            self.wait_turn(me)
            sys.settrace(tracer_of(me))
            try:
                body()
            finally:
                sys.settrace(None)
                self.done(me)

        ts = [
            threading.Thread(target=main, args=(i, b), daemon=True)
            for i, b in enumerate(bodies)
        ]
        for t in ts:
            t.start()
        for t in ts:
            t.join(JOIN_S)
            if t.is_alive():
                return False
        return True
