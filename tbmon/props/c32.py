"""The other properties' workloads with node objects that were obtained in unusual ways."""

from ..core import Workload
from . import c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c16, c17, c20, c21, c23
from .common import ASSUME

RULE = (
    "A case is a case of another property's workload (histories of all operations, reading, dumps and loads, faults, signals, "
    "find_problems, concurrent inserts, forms). Each node object that it passes to treebeard is obtained in a way picked at "
    "random: get, only or defer with the key, one or all fields left out, raw SQL (whole rows or keys), in_bulk, iterator, a "
    "pickled object, deferred object or queryset, copy and deepcopy, annotate, union, the base manager, refresh_from_db, a "
    "foreign key. The oracles are those of the other properties. Distinct: (workload, case)."
)
ASSUMPTIONS = [*ASSUME]
REQUIRED = {
    "odd_handle_cases": 500, "op:move": 400, "op:delete": 100, "dumps": 20, "faults": 100, "obtained:only key": 100,
    "obtained:pickled": 100, "obtained:raw": 100, "obtained:deepcopy": 100, "obtained:raw key": 100, "obtained:defer one": 100,
}
SQLITE_FILES = True


def odd(fn):
    def run(ctx):
        ctx.odd_handles = True
        ctx.count("odd_handle_cases")
        ctx.saw(fn.__module__, fn.__name__, ctx.index)
        fn(ctx)

    run.__name__ = fn.__name__
    return run


PARTS = [
    # module, workload, quick cases of each backend
    (c01, None, 60), (c02, None, 80), (c03, "deletes", 40), (c04, None, 30), (c05, None, 15), (c06, None, 25),
    (c07, None, 25), (c08, None, 60), (c09, "statements", 25), (c09, "handlers", 25), (c10, None, 60), (c11, "roundtrip", 40),
    (c12, None, 30), (c13, None, 20), (c14, None, 20), (c16, None, 15), (c17, "same_parent", 30), (c20, None, 30),
    (c21, None, 20), (c23, None, 15),
]
WORKLOADS = []
for _m, _only, _n in PARTS:
    for _w in _m.WORKLOADS:
        if _only in (None, _w.name):
            WORKLOADS.append(
                Workload(
                    f"{_m.__name__[-3:]}.{_w.name}", odd(_w.fn), _n, _n * 20, backends=_w.backends,
                    aspects=("exception", *_w.aspects),
                )
            )
