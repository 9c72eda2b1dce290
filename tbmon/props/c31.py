"""Wide, deep and large trees."""

import uuid

from django.contrib import admin
from django.db import transaction

from .. import decode as dec
from .. import web
from ..core import HOME, Workload
from ..engine import Driver, Guard, clear, new_data, raw_build
from ..model import Forest
from .c06 import compare
from .c20 import check_choices, form_class
from .common import ASSUME, pick_cfg

RULE = (
    "A case is a large forest, written straight into the table: 1050 to 2500 branches side by side (as roots or below one "
    "node), a chain 1050 to 1400 levels deep (as deep as the column allows in a materialized path, 300 levels of ltree "
    "labels), or 800 to 2000 nodes in random places. On it: deletions of more than a thousand branches at once, of every "
    "other branch, of the deepest and the widest; insertions and moves at both ends, in the middle and at the deepest node; "
    "navigation from the top, the deepest and the widest node; dumps, and loads of structures as large; find_problems and "
    "fix_tree; the form's choices and the admin's lists. Oracles: those of C01 to C03, C06, C11, C12, C14, C15, C19, C20. "
    "Distinct: (model, shape, operation, place)."
)
ASSUMPTIONS = [
    *ASSUME,
    "Branches of an adjacency list that are deleted are at most 150 levels deep (Django's own collector recurses along foreign "
    "keys), a path of labels fits into a page of PostgreSQL's index (2700 bytes).",
]
REQUIRED = {
    "large_trees": 40, "deep_trees": 10, "states_checked": 60, "thousand_branch_deletions": 8, "queries_compared": 400,
    "dumped_nodes": 5000, "loaded_nodes": 5000,
}
ASPECTS = ("*",)
NAMES = [f"{k}_{s}" for k in ("AL", "MP", "NS", "LT") for s in ("N", "U", "S", "R")]


class Builder:
    def __init__(self, cfg, rng):
        self.cfg, self.rng, self.f, self.n = cfg, rng, Forest(), 0

    def add(self, parent):
        """A last child: the names ascend, so that a sorted tree is sorted."""
        self.n += 1
        pk = uuid.UUID(int=self.rng.getrandbits(128), version=4) if self.cfg.pk_uuid else self.n
        data = new_data(self.cfg, self.rng)
        data["name"] = f"{self.n:06d}"
        if "val1" in data:
            data["val1"] = data["val2"] = 1
        return self.f.insert(pk, parent, 10**9, data, self.cfg.base)


def branches(cfg, rng, size):
    b = Builder(cfg, rng)
    top = b.add(None) if rng.random() < (0.2 if cfg.kind == "NS" else 0.5) else None
    for _ in range(size):
        n = b.add(top)
        for _ in range(rng.choice((1, 1, 1, 2))):
            b.add(n)
    if rng.random() < 0.5:
        b.add(None)
    return b.f


def chain(cfg, rng, size):
    b = Builder(cfg, rng)
    n = b.add(None)
    for _ in range(size - 1):
        if rng.random() < 0.02:
            b.add(n)
        n = b.add(n)
    b.add(None)
    return b.f


def bushy(cfg, rng, size):
    b = Builder(cfg, rng)
    nodes = []
    for _ in range(size):
        parent = rng.choice(nodes) if nodes and rng.random() < 0.97 else None
        if parent is not None and parent.depth >= cfg.max_depth:
            parent = None
        nodes.append(b.add(parent))
    return b.f


def deepest(cfg, rng):
    return {"MP": cfg.max_depth, "LT": rng.randrange(200, 300), "AL": rng.randrange(1050, 1150), "NS": rng.randrange(1050, 1400)}[
        cfg.kind
    ]


def forest(ctx, cfg, shape=None, most=2500):
    rng = ctx.rng
    shape = shape or rng.choice(("branches", "branches", "chain", "bushy"))
    if shape == "branches":
        return branches(cfg, rng, rng.randrange(1050, min(most, cfg.max_step - 20)))
    if shape == "chain":
        ctx.count("deep_trees")
        return chain(cfg, rng, deepest(cfg, rng))
    return bushy(cfg, rng, rng.randrange(800, most - 300))


def tree(ctx, shape=None):
    cfg = pick_cfg(ctx, NAMES)
    clear(cfg.base)
    d = Driver(ctx, cfg, regime="medium")
    f = forest(ctx, cfg, shape)
    d.ref = raw_build(cfg, f, ctx.rng)
    d.snapshot()
    ctx.count("model:" + cfg.name)
    ctx.count("large_trees")
    ctx.note(f"model={cfg.name}: {len(d.ref)} nodes, {max(n.depth for n in tops(d))} levels, {len(d.ref.roots())} roots")
    return d


def tops(d):
    """The node at the deepest level, the one with most children, and the first and last root."""
    alln = d.ref.all()
    depth = {None: 0}
    for n in alln:
        depth[n.pk] = depth[n.parent.pk] + 1
    return [max(alln, key=lambda n: depth[n.pk]), max(alln, key=lambda n: len(n.children)), d.ref.roots()[0], d.ref.roots()[-1]]


def selections(d):
    rng = d.rng
    big = max([d.ref.top, *d.ref.all()], key=lambda n: len(n.children))
    kids = list(big.children)
    out = [kids, kids[:: rng.choice((2, 3))], kids[:-1] + [d.ref.roots()[-1]], rng.sample(d.ref.all(), len(d.ref) // 2), d.ref.all()]
    if d.cfg.kind == "AL":
        out = [s for s in out if max((n.height() for n in s), default=0) <= 150]
    if d.cfg.kind == "NS":  # closes each gap with an update of the rest of the tree
        size = {r: len(r.walk()) for r in d.ref.roots()}
        cost = lambda s: sum(size[(n.ancestors() or [n])[0]] for n in s)
        out = [s for s in out if len(s) == len(d.ref) or cost(s) < 400_000]
    return out


def delete(ctx, d):
    sels = [s for s in selections(d) if s]
    if not sels:
        return
    sel = ctx.rng.choice(sels)
    cls = d.cfg.base
    if len(sel) == len(d.ref):
        qs, desc = cls.objects.all(), f"{cls.__name__}.objects.all().delete()"
    else:
        pks = {n.pk for n in sel}
        top = sel[0].parent
        if all(n.parent is top for n in sel) and len(sel) == len(top.children) and top.pk is not None and ctx.rng.random() < 0.5:
            qs, desc = cls.objects.get_children(d.fetch(top)), f"get_children({d.where(top)}).delete()"
        else:
            qs, desc = cls.objects.filter(pk__in=pks), f"{cls.__name__}.filter(pk in {len(pks)} keys).delete()"
    branched = sum(1 for n in sel if n.children)
    desc += f", {branched} of the {len(sel)} nodes with children"
    ctx.count("thousand_branch_deletions", branched > 1000)
    out, _ = d.call("delete", desc, qs.delete)
    gone = d.ref.remove(sel)
    d.after("delete", desc)
    labels = {c._meta.label for c in d.cfg.creators}
    ctx.check(sum(v for k, v in out[1].items() if k in labels) == len(gone), "delete:return",
              lambda: f"{desc} returned {out!r}, but {len(gone)} tree rows were deleted")


def fits(d, n, t):
    return d.cfg.kind not in ("MP", "LT") or t.depth + n.height() < (d.cfg.max_depth if d.cfg.kind == "MP" else 400)


def operations(ctx):
    d = tree(ctx)
    rng = ctx.rng
    deleted = False
    for _ in range(rng.choice((2, 3, 4))):
        if not len(d.ref):
            return
        d.opno += 1
        spots = tops(d)
        spots.append(rng.choice(d.ref.all()))
        op = rng.choice(("delete", "move", "move", "add_child", "add_sibling"))
        ctx.saw(d.cfg.name, d.ref.shape(), op)
        if op == "delete":
            if not deleted:
                delete(ctx, d)
            deleted = True
            continue
        t = rng.choice(spots)
        if op == "add_child":
            if d.cfg.kind != "MP" or t.depth < d.cfg.max_depth:
                d.op_add_child(t)
        elif op == "add_sibling":
            d.op_add_sibling(t)
        else:
            n = rng.choice(spots)
            if t.is_under(n) or t is n or not fits(d, n, t):
                n, t = t, n
            if t.is_under(n) or t is n or not fits(d, n, t):
                continue
            d.op_move(n, t)


def deletions(ctx):
    d = tree(ctx, "branches" if ctx.rng.random() < 0.8 else None)
    delete(ctx, d)


def reading(ctx):
    d = tree(ctx)
    compare(d, nodes=ctx.rng.sample(tops(d), 2))


def flat(items, key):
    """[(level, key, data)] depth first."""
    out, stack = [], [(0, i) for i in reversed(items)]
    while stack:
        level, i = stack.pop()
        out.append((level, str(i[key]) if key else None, {k: v for k, v in i["data"].items() if k not in ("tag", "tags")}))
        stack.extend((level + 1, c) for c in reversed(i.get("children", [])))
    return out


def flat_ref(nodes, keep, fields):
    out, stack = [], [(0, n) for n in reversed(nodes)]
    while stack:
        level, n = stack.pop()
        out.append((level, str(n.pk) if keep else None, {k: n.data[k] for k in fields}))
        stack.extend((level + 1, c) for c in reversed(n.children))
    return out


def dumping(ctx):
    d = tree(ctx)
    rng, cfg = ctx.rng, d.cfg
    cls = cfg.base
    key = cls._meta.pk.attname
    branch = rng.choice([None, None, *tops(d)])
    keep = rng.random() < 0.5
    desc = f"dump_bulk({branch and d.where(branch)[:60]}, keep_ids={keep})"
    h = d.fetch(branch) if branch else None
    got, _ = d.call("dump", desc, lambda: cls.objects.dump_bulk(h, keep))
    ctx.count("dumped_nodes", len(d.ref))
    have = flat(got, key if keep else None)
    want = flat_ref([branch] if branch else d.ref.roots(), keep, cfg.fields)
    ctx.check(have == want, "dump:content", lambda: f"{desc} differs: {first_difference(have, want)}")


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"item {i} is {x}, expected {y}"
    return f"{len(a)} items, expected {len(b)}"


def bulk_of(nodes):
    out, stack = [], []
    stack = [(n, out) for n in reversed(nodes)]
    while stack:
        n, dest = stack.pop()
        item = {"data": dict(n.data)}
        dest.append(item)
        if n.children:
            item["children"] = []
            stack.extend((c, item["children"]) for c in reversed(n.children))
    return out


def loading(ctx):
    rng = ctx.rng
    cfg = pick_cfg(ctx, NAMES)
    clear(cfg.base)
    ctx.count("model:" + cfg.name)
    ctx.count("large_trees")
    d = Driver(ctx, cfg, regime="medium")
    if rng.random() < 0.5:
        b = Builder(cfg, rng)
        first = b.add(None)
        b.add(first)
        d.ref = raw_build(cfg, b.f, rng)
    d.snapshot()
    if cfg.kind == "NS":  # every insertion updates the rest of the tree
        n = rng.randrange(300, 500) if ctx.backend == "sqlite" else rng.randrange(120, 220)  # in one transaction
        f = chain(cfg, rng, n) if rng.random() < 0.5 else bushy(cfg, rng, n)
    else:
        f = forest(ctx, cfg, most=1300)
    target = None
    if len(d.ref) and rng.random() < 0.5 and fits(d, f.roots()[0], d.ref.roots()[0]):
        target = d.ref.roots()[0]
        ht = d.fetch(target)
    for n in f.all():  # other names than what is there, and after it
        n.data["name"] = "1" + n.data["name"]
    bulk = bulk_of(f.roots())
    desc = f"load_bulk of {len(f)} nodes, {len(f.roots())} of them at the top, below {target and d.where(target)}"
    got, _ = d.call("load", desc, lambda: cfg.base.objects.load_bulk(bulk, ht if target else None), 10**6)
    ctx.count("loaded_nodes", len(f))
    ctx.check(len(got) == len(f), "load:return", lambda: f"{desc} returned {len(got)} keys")
    by_name = {r["name"]: pk for pk, r in d.snapshot().items()}
    for n in f.all():
        pk = by_name.get(n.data["name"])
        ctx.check(pk is not None, "load:content", lambda: f"{desc}: {n.data['name']} is missing")
        parent = d.ref[by_name[n.parent.data["name"]]] if n.parent.pk is not None else target
        d.ref.insert(pk, parent, 10**9, n.data, cfg.base)
    d.after("load", desc)
    ctx.check(set(got) == {by_name[n.data["name"]] for n in f.all()}, "load:return", f"{desc} returned other keys")


def repair(ctx):
    d = tree(ctx)
    rng, cfg = ctx.rng, d.cfg
    mgr = cfg.base.objects
    if hasattr(mgr, "find_problems"):
        got, _ = d.call("problems", "find_problems()", mgr.find_problems)
        ctx.check(not any(got), "problems", lambda: f"find_problems() of a sound tree of {len(d.ref)} nodes is {str(got)[:300]}")
    if hasattr(mgr, "fix_tree"):
        args = {"fix_paths": True} if cfg.kind == "MP" and rng.random() < 0.5 else {}
        d.call("fix", f"fix_tree({args})", lambda: mgr.fix_tree(**args))
        d.after("fix", "fix_tree()")
    compare_lists(ctx, d)


def compare_lists(ctx, d):
    got, _ = d.call("annotated", "get_annotated_list()", d.cfg.base.objects.get_annotated_list)
    opened = 0
    for (node, info), n in zip(got, d.ref.all()):
        opened += bool(info["open"]) - len(info["close"])
        ctx.check(node.pk == n.pk, "annotated", lambda: f"get_annotated_list() has {node.pk}, expected {n.pk}")
    ctx.check(len(got) == len(d.ref) and opened == 0, "annotated", lambda: f"{len(got)} items, {opened} groups left open")


def pages(ctx):
    d = tree(ctx, ctx.rng.choice(("branches", "bushy")))
    rng, cfg = ctx.rng, d.cfg
    node = rng.choice([None, *tops(d)])
    inst = cfg.base.objects.get(pk=node.pk) if node else None
    with Guard(HOME):
        form = form_class(cfg.base)(instance=inst)
        choices = [c for c in form.fields["treebeard_ref_node"].choices if c[0] != ""]
    check_choices(ctx, d, choices, node, f"{cfg.name} with {len(d.ref)} nodes")
    client = web.client("super", cfg.base)
    with Guard(HOME):
        r = client.get(web.url(cfg.base))
    rows = web.Page(r.content.decode()).row_pks()
    want = [str(n.pk) for n in d.ref.roots()][: admin.site._registry[cfg.base].list_per_page]
    ctx.check(rows == want, "adminlist", lambda: f"{len(rows)} rows, expected {len(want)}: {first_difference(rows, want)}")


WORKLOADS = [
    Workload("operations", operations, 20, 500, aspects=ASPECTS),
    Workload("deletions", deletions, 12, 240, aspects=ASPECTS),
    Workload("reading", reading, 10, 240, aspects=ASPECTS),
    Workload("dumping", dumping, 8, 240, aspects=ASPECTS),
    Workload("loading", loading, 6, 240, aspects=ASPECTS),
    Workload("repair", repair, 6, 160, aspects=ASPECTS),
    Workload("pages", pages, 6, 120, aspects=ASPECTS),
]
