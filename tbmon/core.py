"""Verdicts, counters and the context a workload runs in."""

import fnmatch
import hashlib
import os
import random
import re
import zlib

# The database the monitored trees live in: the routed one when there are two.
HOME = "other" if os.environ.get("TBMON_OTHER") else "default"


class Violation(Exception):
    """The oracle refuted the property. `mechanism` is a stable name for what failed, never a random value."""

    def __init__(self, aspect, message, mechanism=None):
        super().__init__(message)
        self.aspect = aspect
        self.message = message
        self.mechanism = mechanism or aspect


class HarnessError(Exception):
    """The harness or its environment failed: the run is inconclusive."""


class Abandoned(Exception):
    """The run left the states this property speaks about for a reason that another property decides."""


class Runaway(BaseException):
    """A treebeard call issued an absurd number of queries."""


class Ctx:
    def __init__(self, prop, backend, tier, seed, workload, index, aspects=("*",), findings=()):
        self.prop, self.backend, self.tier, self.seed = prop, backend, tier, seed
        self.workload, self.index = workload, index
        self.case_seed = f"{seed}:{prop}:{workload}:{backend}:{index}"
        self.rng = random.Random(int.from_bytes(hashlib.sha256(self.case_seed.encode()).digest()[:8], "big"))
        self.aspects = aspects
        self.findings = set(findings)
        self.counters = {}
        self.distinct = set()
        self.known = {}
        self.samples = []
        self.trace = []
        self.own_managers = False
        self.odd_models = False
        self.odd_handles = False
        self.quick = tier == "quick"

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def saw(self, *what):
        """Record a distinct non-trivial case (hashed)."""
        self.distinct.add(zlib.crc32(repr(what).encode()))

    def note(self, msg):
        if len(self.trace) < 4000:
            self.trace.append(msg)

    def sample(self, what):
        if len(self.samples) < 2:
            self.samples.append(what)

    def relevant(self, aspect):
        return any(fnmatch.fnmatch(aspect, a) for a in self.aspects)

    def fail(self, aspect, message, mechanism=None):
        """The monitor saw something wrong: a violation of this property, a listed finding, or someone else's."""
        mechanism = mechanism or aspect
        if mechanism in self.findings:
            self.known.setdefault(mechanism, message)
            self.count("known_finding_hits")
            raise Abandoned(mechanism)
        if self.relevant(aspect):
            raise Violation(aspect, message, mechanism)
        self.count("abandoned:" + re.sub(r"[^a-z_:-]", "", aspect))
        raise Abandoned(aspect)

    def check(self, cond, aspect, message, mechanism=None):
        self.count("oracle_evaluations")
        if not cond:
            self.fail(aspect, message() if callable(message) else message, mechanism)


class Workload:
    def __init__(self, name, fn, quick, thorough=None, backends=("sqlite", "psql"), aspects=("*",), setup=None):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.backends = backends
        self.aspects = aspects
        self.setup = setup

    def quota(self, tier):
        return self.quick if tier == "quick" else self.thorough
