from ..core import Workload
from .common import ASSUME, history

RULE = (
    "A case is a seeded history of public operations on one model configuration (implementation x sorting x key type x "
    "inheritance x steplen/alphabet), compared with the reference forest after every operation. Distinct cases are "
    "counted as (configuration, operation, position, shape of the forest before, place of the new node)."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"op:add_root": 20, "op:add_child": 100, "op:add_sibling": 100, "states_checked": 500}


def inserts(ctx):
    history(ctx, weights={"move": 0.25, "delete": 0.7})


ASPECTS = ("add_*:position", "add_*:payload", "add_*:return", "add_*:exception", "add_*:encoding")
WORKLOADS = [Workload("inserts", inserts, 1500, 20000, aspects=ASPECTS)]
