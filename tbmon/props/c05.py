from ..core import Workload
from .common import ASSUME, history

RULE = (
    "A case is a seeded history of all operations on one model configuration; after every operation the raw rows are "
    "decoded and every storage invariant of the encoding is evaluated on every row."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"op:move": 200, "states_checked": 500}
ASPECTS = ("*:encoding",)


def encoding(ctx):
    history(ctx, n=ctx.rng.choice((12, 25, 60)))


WORKLOADS = [Workload("encoding", encoding, 1000, 14000, aspects=ASPECTS)]
