import copy

from django.db import transaction

from treebeard.exceptions import PathOverflow

from .. import decode as dec
from ..core import HOME, Workload
from ..engine import Guard
from ..model import sort_key
from .common import ASSUME, by_kind, distinct_data, everything, pick_cfg, raw_tree

RULE = (
    "A case loads the same random structure twice into the same random materialized path tree: node by node (rolled back) "
    "and with bulk_create (random batch sizes). Both must overflow or neither; the rows, paths, child counts, foreign "
    "keys and many-to-many rows must be the same (under node_order_by: the levels below the first keep the order of the "
    "data), the tree must decode without problems, and the operations that follow must work. Distinct: (configuration, "
    "shape, shape of the data, options)."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"pairs": 600, "both_overflowed": 20, "sorted_pairs": 60}
ASPECTS = ("*",)


def structure(d, cfg, rng, tags, key):
    """Random bulk data with distinct names."""
    make = distinct_data(cfg, rng)
    n = [rng.choice((1, 3, 8, 15, 30))]
    wide = rng.random() < 0.3
    deep = rng.random() < 0.3

    def item():
        n[0] -= 1
        data = make()
        data["name"] = "L" + data["name"]
        if cfg.rel:
            data["tag"] = rng.choice([None, *tags])
            if rng.random() < 0.7:
                data["tags"] = rng.sample(tags, rng.randrange(0, 3))
        out = {"data": data}
        if key:
            out[key] = new_key(d, n[0])
        return out

    top = [item()]
    flat = list(top)
    while n[0] > 0:
        x = rng.random()
        if x < 0.15:
            i = item()
            top.append(i)
        else:
            p = flat[-1] if deep and x < 0.9 else (flat[0] if wide and x < 0.9 else rng.choice(flat))
            i = item()
            p.setdefault("children", []).append(i)
        flat.append(i)
    return top


def new_key(d, i):
    import uuid

    if d.cfg.pk_uuid:
        return uuid.UUID(int=d.rng.getrandbits(128), version=4)
    return 10**9 + d.ctx.index * 1000 + i


def picture(cfg, keys, old):
    """Every row without the keys the database chose, and the many-to-many rows."""
    rows = dec.raw_rows(cfg.base, HOME, cfg.fields)
    rel = {}
    if cfg.rel:
        for o in cfg.base._base_manager.all():
            rel[o.pk] = (o.tag_id, sorted(o.tags.values_list("pk", flat=True)))
    out = []
    for pk, r in rows.items():
        out.append((pk if keys or pk in old else None, sorted(r.items()), rel.get(pk)))
    return sorted(out, key=repr), rows


def below(cfg, rows, d, pk):
    return [(rows[c]["name"], below(cfg, rows, d, c)) for c in d.children.get(pk, [])]


def names(items):
    return [(i["data"]["name"], names(i.get("children", []))) for i in items]


def shape(items):
    return "(" + "".join(shape(i.get("children", [])) for i in items) + ")"


def pair(ctx):
    from ..vapp.models import Tag

    rng = ctx.rng
    cfg = pick_cfg(ctx, by_kind(ctx, "MP", exclude=("MP_mix", "MP_smix", "MP_P")))
    tags = []
    if cfg.rel:
        Tag.objects.all().delete()
        tags = [Tag.objects.create(label=str(i)).pk for i in range(3)]
    d = raw_tree(ctx, cfg, n=rng.randrange(0, 12), data=distinct_data(cfg, rng))
    keep = rng.random() < 0.3
    key = cfg.base._meta.pk.attname if keep else None
    bulk = structure(d, cfg, rng, tags, key)
    if cfg.sorted and rng.random() < 0.5:
        in_order(cfg, bulk)
    parent = rng.choice(d.ref.all()) if d.ref.all() and rng.random() < 0.6 else None
    given = copy.deepcopy(bulk)
    old = set(d.rows)
    before = everything(cfg)
    desc = f"{cfg.name} {d.ref.shape()} load_bulk({shape(bulk)}, {d.where(parent) if parent else None}, keep_ids={keep})"
    ctx.note(desc)
    outcome = {}
    for mode in ("normal", "bulk"):
        kw = {}
        if mode == "bulk":
            kw = {"bulk_create": True}
            if rng.random() < 0.7:
                kw["batch_size"] = rng.choice((1, 2, 3, 7, 1000))
        try:
            with transaction.atomic(HOME):
                with Guard(HOME):
                    h = d.fetch(parent, cfg.base) if parent else None
                    pks = cfg.base.objects.load_bulk(bulk, h, keep, **kw)
                outcome[mode] = (*picture(cfg, keep, old), pks)
                if mode == "normal":
                    transaction.set_rollback(True, HOME)
        except PathOverflow:
            outcome[mode] = "overflow"
        except Exception as exc:
            ctx.fail("bulk:exception", f"{desc} {mode} {kw} raised {exc!r}")
        if mode == "normal" or outcome[mode] == "overflow":
            ctx.check(everything(cfg) == before, "bulk:trace", lambda: f"{desc} {mode} left something behind")
    ctx.count("pairs")
    ctx.saw(cfg.name, d.ref.shape(), shape(bulk), d.where(parent) if parent else None, keep)
    ctx.check(bulk == given, "bulk:input", lambda: f"{desc} modified its input")
    a, b = outcome["normal"], outcome["bulk"]
    if cfg.sorted and (a == "overflow") != (b == "overflow"):
        # levels below the first are inserted one by one, elsewhere, in the normal mode
        ctx.count("sorted_overflow_differs")
        return
    ctx.check(
        (a == "overflow") == (b == "overflow"), "bulk:overflow",
        lambda: f"{desc}: overflow node by node: {a == 'overflow'}, with bulk_create: {b == 'overflow'}",
    )
    if a == "overflow":
        ctx.count("both_overflowed")
        return
    rows = b[1]
    dd = dec.decode(cfg.base, rows)
    ctx.check(not dd.problems, "bulk:encoding", lambda: f"{desc}: {dd.problems[:3]}")
    if not cfg.sorted or is_ordered(cfg, bulk):
        ctx.check(a[0] == b[0], "bulk:content", lambda: f"{desc}: node by node {diff(a[0], b[0])}, with bulk_create {diff(b[0], a[0])}")
    if cfg.sorted:
        ctx.count("sorted_pairs")
        tops = {rows[pk]["name"]: pk for pk in dd.children.get(parent.pk if parent else None, []) if pk not in old}
        got = [(n, below(cfg, rows, dd, pk)) for n, pk in sorted(tops.items())]
        want = sorted(names(bulk))
        ctx.check(got == want, "bulk:content", lambda: f"{desc}: loaded {got}, expected {want}")
        level = [sort_key(rows[pk], cfg.order) for pk in dd.children.get(parent.pk if parent else None, [])]
        ctx.check(level == sorted(level), "bulk:content", lambda: f"{desc}: the first level is not in order: {level}")
    added = set(rows) - old
    ctx.check(len(b[2]) == len(added) and set(b[2]) == added, "bulk:return", lambda: f"{desc} returned {b[2]}, added {added}")
    # the tree goes on living
    refill(d, dd, rows)
    if not cfg.sorted:
        d.run(rng.choice((0, 0, 2)))


def diff(a, b):
    return [x for x in a if x not in b][:4]


def in_order(cfg, items):
    items.sort(key=lambda i: sort_key(i["data"], cfg.order))
    for i in items:
        in_order(cfg, i.get("children", []))


def is_ordered(cfg, items):
    ks = [sort_key(i["data"], cfg.order) for i in items]
    return ks == sorted(ks) and all(is_ordered(cfg, i.get("children", [])) for i in items)


def refill(d, dd, rows):
    from ..model import Forest

    f = Forest()

    def go(pk, parent):
        for c in dd.children.get(pk, []):
            n = f.insert(c, parent, 10**9, {k: rows[c][k] for k in d.cfg.fields}, d.cfg.base)
            go(c, n)

    go(None, None)
    d.ref = f
    d.snapshot()


WORKLOADS = [Workload("pair", pair, 700, 12000, aspects=ASPECTS)]
