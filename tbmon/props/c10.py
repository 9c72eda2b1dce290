from ..core import Workload
from .common import ASSUME, history

RULE = (
    "A case is a seeded history of add/move operations; after each one the returned object, the target object and the "
    "moved object in memory are compared column by column with the database row. Distinct: as for C01/C02."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"op:move": 200, "memory_checks": 1000}
ASPECTS = ("*:memory",)


def memory(ctx):
    history(ctx, weights={"delete": 0.5}, handles=0.8)


WORKLOADS = [Workload("memory", memory, 1500, 20000, aspects=ASPECTS)]
