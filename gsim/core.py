"""Seeds, run context, violations."""
from __future__ import annotations

import collections
import hashlib
import json
import random
import os
import traceback

_PFX = os.environ.get("GSIM_REPO", "/repo").rstrip("/") + "/"


class Violation(Exception):
    """The property is broken. `kind` is the class the minimiser preserves."""

    def __init__(self, kind: str, msg: str):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself went wrong: never reported as a violation."""


class Skip(Exception):
    """The generated case turned out to be outside the property's domain."""


def derive(*parts) -> int:
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


class Rng(random.Random):
    """The only source of choices when plans are generated."""

    def __init__(self, *parts):
        super().__init__(derive(*parts))

    def chance(self, p: float) -> bool:
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def wpick(self, pairs):
        """pairs: list of (item, weight)."""
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for it, w in pairs:
            x -= w
            if x < 0:
                return it
        return pairs[-1][0]

    def seed63(self) -> int:
        return self.getrandbits(48)


def plan_hash(plan) -> str:
    return hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:16]


class Ctx:
    """What one simulated run records. Nothing here draws randomness or reads a clock."""

    MAXLOG = 4000

    def __init__(self, keep_log: bool = False):
        self.h = hashlib.sha256()
        self.nev = 0
        self.log: list[str] = []
        self.keep_log = keep_log
        self.faults = collections.Counter()    # fault kinds that actually fired
        self.ops = collections.Counter()       # operations performed
        self.probes = collections.Counter()    # rare conditions reached
        self.states: set[str] = set()          # distinct states / interleavings
        self.simtime = 0.0                     # seconds of virtual time
        self.steps = 0                         # scheduler/tensor-op steps
        self.nontrivial = False
        self.sched_traces = []                 # explicit schedules of the run, for replay
        self.metrics = {}

    def ev(self, *items):
        s = " ".join(str(i) for i in items)
        self.nev += 1
        self.h.update(s.encode())
        self.h.update(b"\n")
        if self.keep_log or len(self.log) < 60:
            if len(self.log) < self.MAXLOG:
                self.log.append(s)

    def state(self, s):
        if len(self.states) < 5000:
            self.states.add(hashlib.sha256(str(s).encode()).hexdigest()[:12])

    def digest(self) -> str:
        return self.h.hexdigest()[:24]


def from_repo(exc: BaseException) -> bool:
    """Whether the exception was raised under a frame of /repo's code."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(_PFX):
            return True
        tb = tb.tb_next
    return False


def brief(exc: BaseException) -> str:
    tb = traceback.extract_tb(exc.__traceback__)
    loc = ""
    for fr in reversed(tb):
        if fr.filename.startswith(_PFX):
            loc = f" at {fr.filename}:{fr.lineno}"
            break
    return f"{type(exc).__name__}: {str(exc)[:300]}{loc}"
