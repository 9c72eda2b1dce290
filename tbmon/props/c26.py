"""The other properties' workloads on models that a router keeps in another database, with a decoy in the default one."""

import random
import re

from django.db import connections

from ..core import Abandoned, Violation, Workload
from ..engine import cfgs, random_forest, raw_build
from . import c02, c06, c09, c10, c11, c12, c13, c14, c15, c18, c19, c20, c24
from .common import ASSUME, everything, family

RULE = (
    "A case is a case of another property's workload (histories of operations, reading, dumps and loads, faults in statements "
    "and signal handlers, signals, find_problems and fix_tree, forms and admin requests), run with the tree models routed to a "
    "second database while the default one holds decoy trees in tables of the same names: the oracles of those properties read "
    "the routed database; every statement that reaches the default one is watched, and its rows are compared. Distinct: "
    "(workload, case)."
)
ASSUMPTIONS = [
    *ASSUME,
    "The router sends reads and writes of the tree models to the same database; users and sessions stay in the default one.",
]
REQUIRED = {"routed_cases": 300, "routed_statements": 20000, "default_compared": 30, "faults": 200, "signals_applied": 100}
MULTI_DB = True
SQLITE_FILES = True

_STATE = {}
OTHERS = re.compile(r"\bvapp_")


class Watch:
    def __init__(self):
        self.n = 0
        self.seen = []

    def __call__(self, execute, sql, params, many, context):
        self.n += 1
        if OTHERS.search(sql):
            self.seen.append(sql[:150])
        return execute(sql, params, many, context)


class Count:
    def __init__(self):
        self.n = 0

    def __call__(self, execute, sql, params, many, context):
        self.n += 1
        return execute(sql, params, many, context)


def decoys(backend):
    """A tree in every table of the default database."""
    rng = random.Random(7)
    tables = {}
    for cfg in cfgs(backend).values():
        if cfg.base._meta.label in tables:
            continue
        raw_build(cfg, random_forest(cfg, rng, 9), rng, "default")
        tables[cfg.base._meta.label] = cfg
    return list(tables.values())


def start(ctx):
    if not _STATE:
        cs = decoys(ctx.backend)
        _STATE["cfgs"] = cs
        _STATE["rows"] = {c.name: everything(c, "default") for c in cs}
        _STATE["n"] = 0
        assert all(any(t.values()) for t in _STATE["rows"].values())
    return _STATE


def routed(fn):
    def run(ctx):
        st = start(ctx)
        ctx.count("routed_cases")
        ctx.saw(fn.__module__, fn.__name__, ctx.index)
        watch, home = Watch(), Count()
        stopped = None
        with connections["default"].execute_wrapper(watch), connections["other"].execute_wrapper(home):
            try:
                fn(ctx)
            except (Violation, Abandoned) as exc:
                stopped = exc
        ctx.count("routed_statements", home.n)
        ctx.count("default_statements", watch.n)
        ctx.count("oracle_evaluations")
        if watch.seen:
            ctx.fail("routing", f"{fn.__module__}: statements about the routed models reached the default database: {watch.seen[:3]}")
        st["n"] += 1
        if st["n"] % 10 == 0 or stopped:
            for c in st["cfgs"]:
                ctx.count("default_compared")
                ctx.check(
                    everything(c, "default") == st["rows"][c.name], "routing",
                    lambda: f"{fn.__module__}: rows of {[m.__name__ for m in family(c)]} changed in the default database",
                )
        if stopped:
            raise stopped

    run.__name__ = fn.__name__
    return run


PARTS = [
    # module, workload, quick cases of each backend
    (c02, None, 50), (c06, "after_history", 20), (c09, "statements", 40), (c09, "handlers", 40), (c10, None, 30),
    (c11, None, 15), (c12, None, 15), (c13, None, 20), (c14, None, 15), (c15, None, 20), (c18, "requests", 20),
    (c19, None, 15), (c20, None, 40), (c24, None, 8),
]
WORKLOADS = []
for _m, _only, _n in PARTS:
    for _w in _m.WORKLOADS:
        if _only in (None, _w.name):
            WORKLOADS.append(
                Workload(
                    f"{_m.__name__[-3:]}.{_w.name}", routed(_w.fn), _n, _n * 15, backends=_w.backends,
                    aspects=("routing", "exception", *_w.aspects),
                )
            )
