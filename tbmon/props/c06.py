from ..core import Workload
from .common import ASSUME, by_kind, distinct_data, history, pick_cfg, raw_tree

RULE = (
    "A case is a random forest, written straight into the table (with the holes that deletions leave) or produced by a "
    "seeded history; every navigation and traversal query of the manager is asked for every node (through base, child "
    "and proxy classes, all max_depth values, include_self both ways) and its exact answer, in order, is compared with "
    "the reference forest. Distinct: (configuration, shape, query, place, arguments)."
)
ASSUMPTIONS = [*ASSUME, "Siblings of a sorted adjacency list do not tie (their order would be the database's choice)."]
REQUIRED = {"queries_compared": 20000, "raw_built_trees": 50}
ASPECTS = ("nav",)


def pks(x):
    return None if x is None else [o.pk for o in x]


def one(x):
    return None if x is None else x.pk


def rpk(n):
    return None if n is None or n.pk is None else n.pk


def limited(node, depth, self_too):
    """Depth-first keys below `node` down to `depth` levels (None: all)."""
    out, stack = [], [(node, 0)]
    while stack:
        n, level = stack.pop()
        if level or self_too:
            out.append(n.pk)
        if depth is None or level < depth:
            stack.extend((c, level + 1) for c in reversed(n.children))
    return out


def ask(d, h, n, mgr, rng):
    """Pairs (query, answer, expected) about node `n` through handle `h`."""
    ref = d.ref
    sib = n.parent.children
    i = n.index()
    anc = n.ancestors()
    md = rng.choice((None, 0, 1, 2, 3, 9))
    al = d.cfg.kind == "AL"
    yield "get_children", pks(mgr.get_children(h)), pks(n.children)
    yield "get_first_child", one(mgr.get_first_child(h)), rpk(n.children[0] if n.children else None)
    yield "get_last_child", one(mgr.get_last_child(h)), rpk(n.children[-1] if n.children else None)
    yield "get_siblings", pks(mgr.get_siblings(h)), pks(sib)
    yield "get_first_sibling", one(mgr.get_first_sibling(h)), sib[0].pk
    yield "get_last_sibling", one(mgr.get_last_sibling(h)), sib[-1].pk
    yield "get_prev_sibling", one(mgr.get_prev_sibling(h)), rpk(sib[i - 1] if i else None)
    yield "get_next_sibling", one(mgr.get_next_sibling(h)), rpk(sib[i + 1] if i + 1 < len(sib) else None)
    if any(x is h and moves == d.moves for x, moves, _ in d.pool.get(n.pk, ())):
        # otherwise the object may hold the parent it had before some other object moved it: the documented cache
        yield "get_parent", one(mgr.get_parent(h)), n.parent.pk
    yield "get_parent(update=True)", one(mgr.get_parent(h, True)), n.parent.pk
    yield "get_parent, cached", one(mgr.get_parent(h)), n.parent.pk
    yield "get_root", one(mgr.get_root(h)), (anc[0].pk if anc else n.pk)
    yield "get_ancestors", pks(mgr.get_ancestors(h)), pks(anc)
    yield "get_descendants()", pks(mgr.get_descendants(h)), pks(n.descendants())
    yield "get_descendants(include_self=True)", pks(mgr.get_descendants(h, include_self=True)), pks(n.walk())
    s = rng.random() < 0.5
    yield (
        f"get_descendants(include_self={s}, max_depth={md})",
        pks(mgr.get_descendants(h, include_self=s, max_depth=md)),
        limited(n, md, s),
    )
    yield f"get_tree(node, max_depth={md})", pks(mgr.get_tree(h, max_depth=md)), limited(n, md, True)
    yield "get_tree(node)", pks(mgr.get_tree(h)), pks(n.walk())
    if not al:
        sub = set(rng.sample([x.pk for x in ref.all()], (len(ref) + 1) // 2))
        want = [x.pk for x in n.descendants() if x.pk in sub]
        qs = mgr.get_descendants(h).filter(pk__in=sub)
        yield "get_descendants().filter()", pks(qs), want
        yield "get_descendants().filter().reverse()", pks(qs.reverse()), want[::-1]
        yield "get_descendants().count()", mgr.get_descendants(h).count(), len(n.descendants())
        yield "get_ancestors().filter()", pks(mgr.get_ancestors(h).filter(pk__in=sub)), [a.pk for a in anc if a.pk in sub]
        yield "get_tree(node).last()", one(mgr.get_tree(h).last()), n.walk()[-1].pk
    sub = set(rng.sample([x.pk for x in ref.all()], (len(ref) + 1) // 2))
    yield "get_children().filter()", pks(mgr.get_children(h).filter(pk__in=sub)), [c.pk for c in n.children if c.pk in sub]
    yield "get_siblings().exclude()", pks(mgr.get_siblings(h).exclude(pk=n.pk)), [c.pk for c in sib if c is not n]


def compare(d, per_node=None, nodes=None):
    ctx, cfg, rng = d.ctx, d.cfg, d.rng
    shape = d.ref.shape()

    def judge(where, name, got, want):
        ctx.count("queries_compared")
        if got != want:
            ctx.fail("nav", f"{cfg.name} {shape[:200]}: {name} of {where} answered {got}, expected {want}")

    classes = d.classes_for(d.ref.top)
    cls = rng.choice(classes)
    mgr = cls.objects
    roots = [r.pk for r in d.ref.roots()]
    md = rng.choice((0, 1, 2, 3, 9))
    try:
        judge("/", "get_root_nodes", pks(mgr.get_root_nodes()), roots)
        judge("/", "get_first_root_node", one(mgr.get_first_root_node()), roots[0] if roots else None)
        judge("/", "get_last_root_node", one(mgr.get_last_root_node()), roots[-1] if roots else None)
        judge("/", "get_tree()", pks(mgr.get_tree()), [n.pk for n in d.ref.all()])
        judge("/", f"get_tree(max_depth={md})", pks(mgr.get_tree(max_depth=md)), [n.pk for n in d.ref.all() if n.depth <= md])
        if cfg.kind != "AL":
            judge("/", "objects.all()", pks(mgr.all()), [n.pk for n in d.ref.all()])
        nodes = nodes or d.ref.all()
        if per_node and len(nodes) > per_node:
            nodes = rng.sample(nodes, per_node)
        for n in nodes:
            h = d.handle(n)
            cls = rng.choice(d.classes_for(n))
            for name, got, want in ask(d, h, n, cls.objects, rng):
                judge(f"{d.where(n)} ({type(h).__name__} via {cls.__name__})", name, got, want)
            ctx.saw(cfg.name, shape, d.where(n))
    except Exception as exc:
        if type(exc).__module__.startswith("tbmon"):
            raise
        ctx.fail("nav", f"{cfg.name} {shape[:200]}: a navigation query raised {exc!r}")


def static(ctx):
    cfg = pick_cfg(ctx)
    compare(raw_tree(ctx, cfg, data=distinct_data(cfg, ctx.rng)), 12)


def after_history(ctx):
    cfg = pick_cfg(ctx, exclude=by_kind(ctx, "AL", sorted=True))
    d = history(ctx, cfg, n=ctx.rng.choice((4, 10)), regime=ctx.rng.choice(("small", "churn", "medium")))
    compare(d, 8)
    # the handles used for reading are still good for writing
    d.run(2)
    compare(d, 3)


WORKLOADS = [
    Workload("static", static, 450, 7000, aspects=ASPECTS),
    Workload("after_history", after_history, 300, 4500, aspects=ASPECTS),
]
