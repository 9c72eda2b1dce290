import warnings

from django.db import transaction

from .. import decode as dec
from ..core import Workload
from ..model import sort_key
from .common import ASSUME, by_kind, cfgs, history, raw_tree

RULE = (
    "A case is a seeded history of add_root/add_child/add_sibling/move, and of saves that change the ordering fields "
    "followed by a sorted move, on a model with node_order_by (mixed ascending/descending, equal keys included); after "
    "each operation every sibling group, read from raw rows and through get_children/get_root_nodes/get_tree, is compared "
    "with node_order_by. Distinct: (configuration, operation, shape before, place)."
)
ASSUMPTIONS = [
    *ASSUME,
    "Ordering fields are not NULL (except in `nulls`, which judges the place that each node gets, before the first sibling that "
    "exceeds it in the fields that it has), and a node whose ordering fields change is moved with sorted-sibling before the next "
    "operation (ordering is enforced on insertion and moves).",
]
REQUIRED = {"null_places": 400, "op:move": 200, "op:add_sibling": 100, "groups_checked": 2000}
ASPECTS = (
    "add_*:position", "add_*:encoding", "add_*:exception", "add_*:payload", "move:position", "move:encoding",
    "move:exception", "move:payload", "order",
)


def in_order(d, op, desc, rows, decoded):
    cfg, ctx = d.cfg, d.ctx
    if op == "overflow":
        return
    groups = [] if cfg.al_sorted() else list(decoded.children.values())
    if d.rng.random() < 0.3:
        par = d.rng.choice([None, *d.ref.all()])
        if par is None:
            got = [o.pk for o in cfg.base.objects.get_root_nodes()]
            groups.append(got)
            tree = cfg.base.objects.get_tree()
        else:
            h = d.fetch(par)
            groups.append([o.pk for o in cfg.base.objects.get_children(h)])
            tree = cfg.base.objects.get_tree(h)
        ctx.count("api_orders")
        by_parent = {}
        for o in tree:
            if o.pk in d.ref.nodes:
                by_parent.setdefault(d.ref[o.pk].parent.pk, []).append(o.pk)
        groups += by_parent.values()
    for g in groups:
        keys = [sort_key(rows[pk], cfg.order) for pk in g]
        ctx.count("groups_checked")
        ctx.check(keys == sorted(keys), "order", lambda: f"after {desc}: siblings are stored in the order {keys}")


def sorted_history(ctx):
    names = by_kind(ctx, "AL", "MP", "NS", "LT", sorted=True)
    cfg = cfgs(ctx.backend)[names[ctx.index % len(names)]]
    history(ctx, cfg, weights={"delete": 0.7, "update": 1.5}, hooks=[in_order])


def unordered_start(ctx):
    """Siblings that are out of order (ordering fields edited without a move): adding and moving must still keep every
    other node where it is, and the encoding valid."""
    names = by_kind(ctx, "MP", "NS", "LT", sorted=True, exclude=("MP_DS",))
    cfg = cfgs(ctx.backend)[names[ctx.index % len(names)]]
    rng = ctx.rng
    d = raw_tree(ctx, cfg, rng.randrange(3, 12), "wide")
    base = cfg.base
    for n in d.ref.all():
        if rng.random() < 0.5 and "val1" in cfg.fields:
            n.data["val1"] = rng.randrange(-1, 4)
            base.objects.filter(pk=n.pk).update(val1=n.data["val1"])
    d.snapshot()
    ctx.count("unordered_trees")
    for _ in range(rng.randrange(1, 6)):
        before = d.ref.structure()
        t = d.ref[rng.choice(list(d.ref.nodes))]
        ht = d.fetch(t, base)
        op = rng.choice(("add_child", "add_sibling", "move"))
        moved = None
        if op == "move":
            legal = [x for x in d.ref.all() if not x.is_under(t) or True]
            n = rng.choice(legal)
            if t is n or t.is_under(n):
                continue
            moved = n
            hn = d.fetch(n, base)
            pos = rng.choice(("sorted-sibling", "sorted-child"))
            desc = f"move({d.where(n)}, {d.where(t)}, {pos}) with siblings out of order"
            d.call("move", desc, lambda: base.objects.move(hn, ht, pos))
            parent = t if pos == "sorted-child" else t.parent
            pk = n.pk
        else:
            data = d.data()
            desc = f"{op}({d.where(t)}) {data} with siblings out of order"
            fn = getattr(base.objects, op)
            args = (ht, data) if op == "add_child" else (ht, "sorted-sibling", data)
            obj, _ = d.call(op, desc, lambda: fn(*args))
            parent = t if op == "add_child" else t.parent
            pk = obj.pk
        rows = d.snapshot()
        got = dec.decode(base, rows)
        ctx.check(not got.problems, f"{op}:encoding", lambda: f"after {desc}: {got.problems[:3]}")
        kids = {k: [x for x in v if x != pk] for k, v in got.children.items()}
        want = {k: [x for x in v if x != pk] for k, v in before.items()}
        ctx.check(
            {k: v for k, v in kids.items() if v} == {k: v for k, v in want.items() if v}
            and pk in got.children.get(parent.pk, []),
            f"{op}:position",
            lambda: f"after {desc}: other nodes changed place, or the node is not under its parent",
        )
        idx = got.children[parent.pk].index(pk)
        if moved is None:
            d.ref.insert(pk, parent if parent.pk is not None else None, idx, data, base)
        else:
            d.ref.place(moved, parent)
            parent.children.remove(moved)
            parent.children.insert(idx, moved)
        ctx.saw(cfg.name, desc, d.ref.shape())


def exceeds(old, new, order):
    """Whether the sibling with `old` comes after a new one with `new`, whose NULLs are ignored."""
    for f in order:
        lower, f = f.startswith("-"), f.removeprefix("-")
        if new[f] is None:
            continue
        if old[f] is None:
            return False
        if old[f] != new[f]:
            return (old[f] < new[f]) if lower else (old[f] > new[f])
    return False


def nulls(ctx):
    """Ordering fields that are NULL are ignored (with a warning) when a node gets its place among its siblings: before the
    first one that comes after it by the others."""
    names = [n for n, c in cfgs(ctx.backend).items() if n.endswith("_Z")]
    cfg = cfgs(ctx.backend)[names[ctx.index % len(names)]]
    rng = ctx.rng
    d = raw_tree(ctx, cfg, 0)
    base, O = cfg.base, cfg.base.objects

    def value():
        return rng.choice((None, -1, 0, 1, 2))

    for i in range(rng.randrange(6, 16)):
        data = {"name": rng.choice("abc") + str(i), "note": "", "val1": value(), "val2": value()}
        op = rng.choice(("add_root", "add_child", "add_sibling", "move", "move"))
        old = None
        if not d.ref.nodes or op == "add_root":
            op, parent, args = "add_root", d.ref.top, ()
        else:
            t = d.ref[rng.choice(list(d.ref.nodes))]
            if op == "add_child":
                parent, args = t, (d.fetch(t, base),)
            elif op == "add_sibling":
                parent, args = t.parent, (d.fetch(t, base), "sorted-sibling")
            else:
                old = d.ref[rng.choice(list(d.ref.nodes))]
                if t.is_under(old) or t is old:
                    continue
                pos = rng.choice(("sorted-sibling", "sorted-child"))
                parent, args = (t if pos == "sorted-child" else t.parent), (d.fetch(old, base), d.fetch(t, base), pos)
                data = old.data
        desc = f"{op} to {d.where(parent) if parent.pk else 'the roots'} with {data}"
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            with transaction.atomic():
                if old is not None:
                    O.move(*args)
                    pk = old.pk
                else:
                    pk = getattr(O, op)(*args, data).pk
        ctx.count("op_with_nulls:" + op)
        if None in (data["val1"], data["val2"]) and len(parent.children) > (old is not None and old.parent is parent):
            ctx.count("nulls_warned", int(any("null value" in str(w.message) for w in seen)))
        siblings = [x for x in parent.children if x is not old]
        idx = next((i for i, s in enumerate(siblings) if exceeds(s.data, data, cfg.order)), len(siblings))
        if old is not None:
            d.ref.place(old, parent, siblings[idx] if idx < len(siblings) else None)
        else:
            d.ref.insert(pk, parent if parent.pk is not None else None, idx, data, base)
        rows = d.snapshot()
        got = dec.decode(base, rows)
        ctx.check(not got.problems, f"{op}:encoding", lambda: f"{cfg.name}: after {desc}: {got.problems[:3]}")
        have, want = dict(got.children), d.ref.structure()
        if cfg.kind == "AL":
            have, want = ({k: sorted(v) for k, v in x.items() if v} for x in (have, want))
            last = ctx.backend == "psql"  # NULLs, in ascending order
            for par in [None, *d.ref.all()]:
                kids = O.get_children(d.fetch(par)) if par else O.get_root_nodes()
                keys = [
                    (((k.val1 is None) == last, k.val1 or 0), ((k.val2 is None) != last, -(k.val2 or 0)), k.name) for k in kids
                ]
                ctx.check(keys == sorted(keys), "order", lambda: f"{cfg.name}: after {desc}: siblings in the order {keys}")
        have = {k: v for k, v in have.items() if v}
        ctx.check(have == want, f"{op}:position", lambda: f"{cfg.name}: after {desc}: children {have}, expected {want}")
        ctx.count("null_places")
        ctx.saw(cfg.name, op, d.ref.shape(), idx)


WORKLOADS = [
    Workload("nulls", nulls, 200, 4000, aspects=ASPECTS),
    Workload("sorted_history", sorted_history, 1000, 18000, aspects=ASPECTS),
    Workload("unordered_start", unordered_start, 300, 5000, aspects=ASPECTS),
]
