from ..core import Workload
from .common import ASSUME, history

RULE = (
    "A case is a seeded history dominated by move() on one model configuration; after every operation the whole table is "
    "decoded from raw rows and compared with the reference forest, so the moved subtree, the place it left and the place "
    "it went to are all checked. Distinct: (configuration, position, shape before, place of node and target)."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"op:move": 300, "states_checked": 500}
ASPECTS = ("move:position", "move:payload", "move:exception", "move:return", "move:encoding")


def moves(ctx):
    history(ctx, weights={"move": 3, "delete": 0.6})


WORKLOADS = [Workload("moves", moves, 1500, 20000, aspects=ASPECTS)]
