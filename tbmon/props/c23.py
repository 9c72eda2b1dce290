"""Annotated lists, and groups of siblings with their descendant counts."""

from ..core import Workload
from .common import ASSUME, by_kind, distinct_data, history, pick_cfg, raw_tree

RULE = (
    "A case is a random forest, written straight into the table or produced by a seeded history; the annotated list of the "
    "whole tree, of branches, of depth-limited and of queryset branches is rendered as the documentation's template does and "
    "the nested lists that come out are compared with the reference forest, as are the levels; the descendant counts of "
    "sibling groups are compared too. Distinct: (configuration, shape, query, place)."
)
ASSUMPTIONS = [*ASSUME, "Siblings of a sorted adjacency list do not tie."]
REQUIRED = {"lists_rendered": 3000, "groups_compared": 1500, "items_compared": 20000}
ASPECTS = ("annotated:*", "exception")


def render(items):
    """The nesting that the template of the documentation produces: [(pk, [...]), ...], or None if it is not well formed."""
    top = []
    stack = []  # alternating: list (an open <ul>), item (an open <li>)
    for pk, info in items:
        if info["open"]:
            lst = top if not stack else stack[-1][1]
            if not stack and top:
                return None  # a second outermost list
            stack.append(lst)
        else:
            if not stack or isinstance(stack[-1], list):
                return None
            stack.pop()
        item = (pk, [])
        stack[-1].append(item)
        stack.append(item)
        for _ in info["close"]:
            if len(stack) < 2:
                return None
            stack.pop()
            stack.pop()
    return top if not stack else None


def nest(nodes, limit):
    return [(n.pk, nest(n.children, limit)) for n in nodes if limit is None or n.depth <= limit]


def flat(nodes, limit):
    out = []
    for n in nodes:
        out += [x for x in n.walk() if limit is None or x.depth <= limit]
    return out


def compare(ctx, d):
    cfg, rng = d.cfg, d.rng
    nodes = d.ref.all()
    deepest = max([n.depth for n in nodes], default=0)

    def judge(where, got, top, limit):
        got = list(got)
        want = flat(top, limit)
        label = f"{cfg.name} {d.ref.shape()[:200]}: {where}"
        ctx.count("lists_rendered")
        ctx.count("items_compared", len(got))
        pks = [o.pk for o, _ in got]
        ctx.check(pks == [n.pk for n in want], "annotated:items", lambda: f"{label}: {pks}, expected {[n.pk for n in want]}")
        base = want[0].depth if want else 0
        levels = [i["level"] for _, i in got]
        ctx.check(
            levels == [n.depth - base for n in want], "annotated:levels",
            lambda: f"{label}: levels {levels}, expected {[n.depth - base for n in want]}",
        )
        ctx.check(
            all(list(i["close"]) == list(range(len(i["close"]))) for _, i in got), "annotated:nesting",
            lambda: f"{label}: close lists {[i['close'] for _, i in got]}",
        )
        tree = render([(o.pk, i) for o, i in got])
        ctx.check(
            tree == nest([t for t in top if limit is None or t.depth <= limit], limit), "annotated:nesting",
            lambda: f"{label}: rendered as {tree}, infos {[i for _, i in got]}",
        )
        ctx.saw(cfg.name, d.ref.shape(), where)

    M = rng.choice(d.classes_for(d.ref.top)).objects
    judge("get_annotated_list()", M.get_annotated_list(), d.ref.roots(), None)
    lim = rng.randrange(1, deepest + 2)
    judge(f"get_annotated_list(max_depth={lim})", M.get_annotated_list(max_depth=lim), d.ref.roots(), lim)
    for n in rng.sample(nodes, min(4, len(nodes))):
        h = d.handle(n)
        w = d.where(n)
        judge(f"get_annotated_list({w})", M.get_annotated_list(h), [n], None)
        lim = rng.randrange(n.depth, deepest + 2)
        judge(f"get_annotated_list({w}, max_depth={lim})", M.get_annotated_list(h, lim), [n], lim)
        judge(f"get_annotated_list_qs(get_tree({w}))", M.get_annotated_list_qs(M.get_tree(h)), [n], None)
        judge(f"get_annotated_list_qs(get_descendants({w}))", M.get_annotated_list_qs(M.get_descendants(h)), n.children, None)
        judge(f"get_annotated_list_qs(get_children({w}))", M.get_annotated_list_qs(M.get_children(h)), n.children, n.depth + 1)
        md = rng.randrange(0, 4)
        judge(
            f"get_annotated_list_qs(get_descendants({w}, include_self=True, max_depth={md}))",
            M.get_annotated_list_qs(M.get_descendants(h, include_self=True, max_depth=md)), [n], n.depth + md,
        )
    for n in [None, *rng.sample(nodes, min(3, len(nodes)))]:
        group = (n or d.ref.top).children
        got = [(o.pk, o.descendants_count) for o in M.get_descendants_group_count(*([d.handle(n)] if n else []))]
        want = [(c.pk, len(c.descendants())) for c in group]
        ctx.count("groups_compared")
        ctx.check(
            got == want, "annotated:counts",
            lambda: f"{cfg.name} {d.ref.shape()[:200]}: get_descendants_group_count({d.where(n) if n else ''}) {got}, expected {want}",
        )


def static(ctx):
    cfg = pick_cfg(ctx)
    compare(ctx, raw_tree(ctx, cfg, ctx.rng.randrange(0, 25), data=distinct_data(cfg, ctx.rng)))


def after_history(ctx):
    cfg = pick_cfg(ctx, exclude=by_kind(ctx, "AL", sorted=True))
    compare(ctx, history(ctx, cfg, n=ctx.rng.choice((6, 12)), regime=ctx.rng.choice(("small", "churn", "medium"))))


WORKLOADS = [
    Workload("static", static, 400, 6000, aspects=ASPECTS),
    Workload("after_history", after_history, 200, 3500, aspects=ASPECTS),
]
