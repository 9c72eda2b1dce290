"""The other properties' workloads on models and nodes that are odd but legal."""

from .. import engine
from ..core import Workload
from . import c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c17, c18, c19, c20, c21, c23, c24, c28
from .common import ASSUME

RULE = (
    "A case is a case of another property's workload (histories of all operations, reading, dumps and loads, faults, signals, "
    "find_problems and fix_tree, concurrent inserts, forms, admin pages and their script), with three oddities, each in about "
    "half of the cases: every node is false in a boolean context (its class defines __bool__); a node of the trees that are "
    "written straight into the table has the primary key 0; and the models have a primary key of another name, an `id` field "
    "that isn't it, an ordering of their own, quoted table and column names (reserved words, blanks, capitals) and no reverse "
    "accessor. The oracles are those of the other properties. Distinct: (workload, case)."
)
ASSUMPTIONS = [*ASSUME]
REQUIRED = {
    "odd_cases": 700, "false_nodes": 250, "zero_keys": 250, "op:move": 400, "op:delete": 100, "dumps": 20, "faults": 100,
    "model:AL_Q": 20, "model:MP_Q": 20, "model:NS_Q": 20, "model:LT_Q": 5,
}
SQLITE_FILES = True


def odd(fn):
    def run(ctx):
        from ..vapp.models import Payload

        ctx.odd_models = True
        Payload.truth = ctx.rng.random() < 0.5
        engine.ZERO_KEYS = ctx.rng.random() < 0.5
        ctx.count("odd_cases")
        ctx.count("false_nodes", not Payload.truth)
        ctx.count("zero_keys", engine.ZERO_KEYS)
        ctx.saw(fn.__module__, fn.__name__, ctx.index)
        ctx.note(f"nodes are {Payload.truth}; " + ("a key of 0" if engine.ZERO_KEYS else "no key of 0"))
        fn(ctx)

    run.__name__ = fn.__name__
    return run


PARTS = [
    # module, workload, quick cases of each backend
    (c01, None, 60), (c02, None, 60), (c03, "deletes", 40), (c03, "refined", 40), (c04, None, 30), (c05, None, 15),
    (c06, "after_history", 25), (c07, "after_history", 25), (c08, None, 40), (c09, "statements", 25), (c09, "handlers", 25),
    (c10, None, 40), (c11, "roundtrip", 50), (c11, "damaged", 15), (c12, None, 30), (c13, None, 20), (c14, None, 20),
    (c15, None, 40), (c17, "same_parent", 30), (c18, "requests", 20), (c19, None, 20), (c20, None, 40), (c21, None, 15),
    (c23, None, 15), (c24, None, 10), (c28, None, 15),
]
WORKLOADS = []
for _m, _only, _n in PARTS:
    for _w in _m.WORKLOADS:
        if _only in (None, _w.name):
            WORKLOADS.append(
                Workload(
                    f"{_m.__name__[-3:]}.{_w.name}", odd(_w.fn), _n * 3 // 2, _n * 20, backends=_w.backends,
                    aspects=("exception", *_w.aspects),
                )
            )
