from ..core import Workload
from .common import ASSUME, by_kind, distinct_data, history, pick_cfg, raw_tree

RULE = (
    "A case is a random forest, written straight into the table or produced by a seeded history; get_depth, is_root, "
    "is_leaf and the counts of every node, and is_child_of, is_sibling_of and is_descendant_of of every ordered pair (at "
    "most 150 pairs per forest) are compared with the reference forest. Distinct: (configuration, shape, pair)."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"pairs_compared": 20000, "counts_compared": 5000}
ASPECTS = ("pred",)


def compare(d):
    ctx, cfg, rng = d.ctx, d.cfg, d.rng
    shape = d.ref.shape()

    def judge(what, got, want):
        ctx.count("oracle_evaluations")
        if got != want or type(got) is not type(want):
            ctx.fail("pred", f"{cfg.name} {shape[:200]}: {what} answered {got!r}, expected {want!r}")

    nodes = d.ref.all()
    handles = {n.pk: d.handle(n) for n in nodes}
    try:
        for n in nodes[:40]:
            h = handles[n.pk]
            mgr = rng.choice(d.classes_for(n)).objects
            w = d.where(n)
            judge(f"get_depth({w})", h.get_depth(), n.depth)
            judge(f"is_root({w})", h.is_root(), n.depth == 1)
            judge(f"is_leaf({w})", h.is_leaf(), not n.children)
            judge(f"get_children_count({w})", mgr.get_children_count(h), len(n.children))
            judge(f"get_descendant_count({w})", mgr.get_descendant_count(h), len(n.descendants()))
            md = rng.choice((0, 1, 2, 3, 8))
            want = sum(1 for x in n.descendants() if x.depth - n.depth <= md)
            judge(f"get_descendant_count({w}, max_depth={md})", mgr.get_descendant_count(h, max_depth=md), want)
            ctx.count("counts_compared", 3)
        pairs = [(a, b) for a in nodes for b in nodes]
        if len(pairs) > 150:
            pairs = rng.sample(pairs, 100) + [(n, n.parent) for n in nodes if n.parent.pk is not None][:25]
            pairs += [(a, b) for n in nodes for a, b in zip(n.children, n.children[1:])][:25]
        for a, b in pairs:
            ha, hb = handles[a.pk], handles[b.pk]
            w = f"({d.where(a)} {type(ha).__name__}, {d.where(b)} {type(hb).__name__})"
            judge(f"is_child_of{w}", ha.is_child_of(hb), a.parent is b)
            judge(f"is_sibling_of{w}", ha.is_sibling_of(hb), a.parent is b.parent)
            judge(f"is_descendant_of{w}", ha.is_descendant_of(hb), a.is_under(b))
            ctx.count("pairs_compared")
            ctx.saw(cfg.name, shape, d.where(a), d.where(b))
    except Exception as exc:
        if type(exc).__module__.startswith("tbmon"):
            raise
        ctx.fail("pred", f"{cfg.name} {shape[:200]}: a predicate raised {exc!r}")


def static(ctx):
    cfg = pick_cfg(ctx)
    compare(raw_tree(ctx, cfg, data=distinct_data(cfg, ctx.rng)))


def after_history(ctx):
    cfg = pick_cfg(ctx, exclude=by_kind(ctx, "AL", sorted=True))
    d = history(ctx, cfg, n=ctx.rng.choice((3, 6, 12)), regime=ctx.rng.choice(("small", "churn")), handles=0.8)
    compare(d)


WORKLOADS = [
    Workload("static", static, 350, 6000, aspects=ASPECTS),
    Workload("after_history", after_history, 350, 6000, aspects=ASPECTS),
]
