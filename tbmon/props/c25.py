"""Statements counted at the connection, for the same call on small and on several times larger trees."""

import uuid

from django.db import transaction

from treebeard.forms import movenodeform_factory

from .. import decode as dec
from .. import web
from ..core import HOME, Workload
from ..engine import Guard, clear, raw_build
from ..model import Forest
from .common import ASSUME, by_kind, new_data, pick_cfg

RULE = (
    "A case is a model class and a regular forest, in which the nodes of a level have equally many children, with a larger "
    "one that has 4 to 6 times as many roots, children on the second or on the third level, or further levels below. Every "
    "listed call is made on corresponding nodes of both, with its statements counted at the connection. Distinct: "
    "(class, shapes, call, place)."
)
ASSUMPTIONS = [
    *ASSUME,
    "A few statements more or less are not growth: a call may take three more on the larger tree.",
    "Excluded, because they take a statement for each sibling, branch or node by design: making room in a materialized path, "
    "MP find_problems, deleting several branches and dump_bulk on nested sets, reading whole branches of an adjacency list, "
    "serializing many-to-many relations. These are only held to a bound linear in the number of nodes.",
]
REQUIRED = {"counts_compared": 4000, "linear_bounds": 400, "pages_counted": 100, "statements_counted": 20000}
ASPECTS = ("queries:*",)
SLACK = 3


def regular(cfg, rng, widths):
    """A forest in which every node at level i has widths[i] children; names ascend, so that sorting keeps the order."""
    f = Forest()
    n = [0]

    def grow(parent, level):
        if level == len(widths):
            return
        for _ in range(widths[level]):
            n[0] += 1
            pk = uuid.UUID(int=rng.getrandbits(128), version=4) if cfg.pk_uuid else n[0]
            data = new_data(cfg, rng)
            data["name"] = f"{n[0]:05d}"
            if "val1" in data:
                data["val1"], data["val2"] = 1, 1
            grow(f.insert(pk, parent, 10**9, data, cfg.base), level + 1)

    grow(None, 0)
    clear(cfg.base)
    return raw_build(cfg, f, rng, gaps=False)


def extend(cfg, cls, ref):
    """Give every node its rows of the inherited models on the way to `cls`."""
    chain = [c for c in reversed(cls.__mro__) if c in dec.subclasses(cfg.base) and not c._meta.proxy and not c._meta.abstract]
    for sub in chain:
        if sub is cfg.base:
            continue
        attrs = {p.attname for p in sub._meta.parents.values() if p is not None}
        for n in ref.all():
            obj = sub(**{a: n.pk for a in attrs})
            obj.pk = n.pk
            obj.save_base(raw=True, using=HOME)


def places(ref, levels):
    """Comparable nodes of any regular forest."""
    r = ref.roots()
    n = r[len(r) // 2]
    out = {"first root": r[0], "middle root": n, "last root": r[-1]}
    for level in range(2, levels + 1):
        kids = n.children
        n = kids[len(kids) // 2]
        out.update({f"first at level {level}": kids[0], f"middle at level {level}": n, f"last at level {level}": kids[-1]})
    return out


def calls(cfg, cls, n, other):
    """name -> (call, whether its statements may grow with the tree)"""
    M = cls.objects
    al, mp, ns = cfg.kind == "AL", cfg.kind == "MP", cfg.kind == "NS"
    m2m = bool(cfg.base._meta.local_many_to_many)
    get = lambda x: M.get(pk=x.pk)  # noqa: E731
    L = list
    S = cfg.sorted
    mti = cls._meta.concrete_model is not cfg.base  # Django's collector reads the rows of the parent models one by one
    data = dict(other.data, name="zzzz")

    def depths(qs):
        return [(o.get_depth(), o.is_root()) for o in qs]

    # A queryset restricted to a child class has the fields of the base through one join, so nothing is deferred.
    out = {
        "get_root_nodes": (lambda: L(M.get_root_nodes()), False),
        "root depths": (lambda: depths(M.get_root_nodes()), False),
        "get_first_root_node": (lambda: M.get_first_root_node(), False),
        "get_last_root_node": (lambda: M.get_last_root_node(), False),
        "get_children": (lambda: L(M.get_children(get(n))), False),
        "get_children_count": (lambda: M.get_children_count(get(n)), False),
        "get_first_child": (lambda: M.get_first_child(get(n)), False),
        "get_last_child": (lambda: M.get_last_child(get(n)), False),
        "get_siblings": (lambda: L(M.get_siblings(get(n))), False),
        "get_first_sibling": (lambda: M.get_first_sibling(get(n)), False),
        "get_last_sibling": (lambda: M.get_last_sibling(get(n)), False),
        "get_prev_sibling": (lambda: M.get_prev_sibling(get(n)), False),
        "get_next_sibling": (lambda: M.get_next_sibling(get(n)), False),
        "get_parent": (lambda: M.get_parent(get(n)), False),
        "get_root": (lambda: M.get_root(get(n)), False),
        "get_ancestors": (lambda: L(M.get_ancestors(get(n))), False),
        "get_depth": (lambda: get(n).get_depth(), False),
        "is_root": (lambda: get(n).is_root(), False),
        "is_leaf": (lambda: get(n).is_leaf(), False),
        "is_child_of": (lambda: get(n).is_child_of(get(other)), False),
        "is_sibling_of": (lambda: get(n).is_sibling_of(get(other)), False),
        "is_descendant_of": (lambda: get(n).is_descendant_of(get(other)), al),
        "child depths": (lambda: depths(M.get_children(get(n))), al),
        "get_tree()": (lambda: depths(M.get_tree()), al),
        "get_tree(node)": (lambda: depths(M.get_tree(get(n))), al),
        "get_tree(max_depth)": (lambda: depths(M.get_tree(max_depth=2)), al),
        "get_descendants": (lambda: depths(M.get_descendants(get(n))), al),
        "get_descendant_count": (lambda: M.get_descendant_count(get(n)), al),
        "get_annotated_list()": (lambda: M.get_annotated_list(), al),
        "get_annotated_list(node)": (lambda: M.get_annotated_list(get(n)), al),
        "get_descendants_group_count()": (lambda: L(M.get_descendants_group_count()), al or ns),
        "get_descendants_group_count(node)": (lambda: L(M.get_descendants_group_count(get(n))), al or ns),
        "dump_bulk()": (lambda: M.dump_bulk(), al or ns or m2m),
        "dump_bulk(node)": (lambda: M.dump_bulk(get(n)), al or ns or m2m),
        "find_problems": (lambda: M.find_problems(), al or mp),
        "move form": (lambda: movenodeform_factory(cls)(instance=get(n)).as_p(), al),
        "add form": (lambda: movenodeform_factory(cls)().as_p(), al),
        "add_root": (lambda: M.add_root(dict(data)), False),
        "add_child": (lambda: M.add_child(get(n), dict(data)), False),
        "add_sibling at the end": (
            lambda: M.add_sibling(get(n), "sorted-sibling" if S else "last-sibling", dict(data)), False
        ),
        "delete": (lambda: get(n).delete(), mti),
        "delete children": (lambda: M.get_children(get(n)).delete(), ns or mti),
        "move to the end": (lambda: M.move(get(n), get(other), "sorted-sibling" if S else "last-sibling"), al or S and mp),
        "move below": (lambda: M.move(get(n), get(other), "sorted-child" if S else "last-child"), al or S and mp),
    }
    if not S:
        out["add_sibling left"] = (lambda: M.add_sibling(get(n), "left", dict(data)), mp)
        out["move first"] = (lambda: M.move(get(n), get(other), "first-sibling"), al or mp)
    if cfg.kind in ("AL", "LT"):
        out.pop("find_problems")
    if mp and not m2m and not mti:
        bulk = [{"data": {"name": f"b{i}", "note": ""}, "children": []} for i in range(3)]
        out["load_bulk(bulk_create)"] = (lambda: M.load_bulk(bulk, get(n), bulk_create=True), S)
    return out


def count(fn, cap=20000):
    with transaction.atomic(HOME):
        try:
            with Guard(HOME, cap=cap) as g:
                fn()
        finally:
            transaction.set_rollback(True, HOME)
    return g.n


def pages(cfg, cls, ref):
    """The statements of the admin's pages for this tree."""
    out = {}
    for role in ("super", "staff_change"):
        c = web.client(role, cls)

        def get(path, want=200):
            r = c.get(path)
            assert r.status_code == want, ("harness: page", path, r.status_code)

        mid = ref.roots()[len(ref.roots()) // 2]
        out[f"list of roots as {role}"] = count(lambda: get(web.url(cls)))
        out[f"children as {role}"] = count(lambda: get(web.url(cls, f"children/{mid.pk}/")))
        if cfg.kind != "AL":
            out[f"change page as {role}"] = count(lambda: get(web.url(cls, f"{mid.pk}/change/")))
    return out


def queries(ctx):
    rng = ctx.rng
    cfg = pick_cfg(ctx, [n for n in by_kind(ctx, "AL", "MP", "NS", "LT") if n not in ("MP_D", "MP_DS", "MP_1", "MP_2") and not n.endswith(("_M", "_MS"))])
    cls = rng.choice(cfg.creators) if len(cfg.creators) > 1 and cfg.name.endswith("mix") else cfg.base
    ctx.count("model:" + cfg.name)
    small = [3, 3, rng.choice((2, 3))]  # the first, the middle and the last place are different ones
    levels = len(small)
    large = list(small)
    grow = ctx.index % 5
    deep = False
    if grow < 3:
        large[grow] = large[grow] * rng.choice((4, 5, 6))
        if rng.random() < 0.3:
            k = (grow + 1) % 3
            large[k] = large[k] * 2
    elif grow == 3:
        large = [3, small[1] * 3, small[2] * 4]
    else:
        deep = True
        small.append(1)  # a node with children and one without are not alike
        large = [*small, 2, 1, 1, 1, 1, 1, 1][: 4 + rng.choice((4, 7))]
    if cfg.max_step < 100 and max(large) > cfg.max_step - 4 or len(large) > cfg.max_depth - 4:
        return
    ctx.note(f"{cls.__name__} {small} -> {large}")
    got = []
    chosen = rng.sample(range(9), 5)
    for widths in (small, large):
        ref = regular(cfg, rng, widths)
        extend(cfg, cls, ref)
        size = len(ref.all())
        r = {}
        for i, (where, n) in enumerate(places(ref, levels).items()):
            if i not in chosen:
                continue
            roots = ref.roots()
            other = roots[0] if where != "first root" else roots[1]
            for name, (fn, grows) in calls(cfg, cls, n, other).items():
                n_stmt = count(fn)
                ctx.count("statements_counted", n_stmt)
                r[name, where] = (n_stmt, grows)
        if cls in web_classes():
            for name, n_stmt in pages(cfg, cls, ref).items():
                r[name, "admin"] = (n_stmt, False)
                ctx.count("pages_counted")
                ctx.count("statements_counted", n_stmt)
        got.append((size, r))
    (size0, r0), (size1, r1) = got
    ctx.check(set(r0) == set(r1), "harness", "the calls differ")
    per_level = cfg.kind == "AL"
    for key in r0:
        (a, grows), (b, _) = r0[key], r1[key]
        name, where = key
        ctx.saw(cls.__name__, tuple(small), tuple(large), key)
        label = f"{cls.__name__}: {name} at {where}: {a} statements with {size0} nodes {small}, {b} with {size1} nodes {large}"
        if grows:
            ctx.count("linear_bounds")
            ctx.check(b <= 20 + 4 * size1, "queries:linear", label)
        elif deep and per_level:
            ctx.check(b <= a + SLACK + 5 * (len(large) - len(small)), "queries:" + name.replace(" ", "_"), label)
        else:
            ctx.count("counts_compared")
            ctx.check(b <= a + SLACK, "queries:" + name.replace(" ", "_"), label)
    ctx.sample({"class": cls.__name__, "small": small, "large": large, "counts": {f"{k[0]} @ {k[1]}": [r0[k][0], r1[k][0]] for k in list(r0)[:6]}})


def web_classes():
    from django.contrib import admin

    return admin.site._registry


WORKLOADS = [Workload("queries", queries, 44, 500, aspects=ASPECTS)]
