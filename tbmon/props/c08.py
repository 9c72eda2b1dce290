from django.db import IntegrityError, transaction

from treebeard.exceptions import (
    InvalidMoveToDescendant,
    InvalidPosition,
    MissingNodeOrderBy,
    NodeAlreadySaved,
    PathOverflow,
)

from ..core import HOME, Workload
from ..engine import CHILD_POS, SIB_POS
from .common import ASSUME, distinct_data, everything, pick_cfg, raw_tree

RULE = (
    "A case is a random forest on which a series of invalid requests is made (bad positions, positions that do not fit "
    "node_order_by, moves under the node itself through any object and class, nodes already saved, contradictory or "
    "missing creation arguments, used primary keys), inside and outside a transaction; every one must raise the "
    "documented exception and leave every row of every table and every object involved as it was, and the valid "
    "operations that follow must work. Distinct: (configuration, shape, request, places)."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"refusals": 4000, "operations_after_refusals": 200}
ASPECTS = ("*",)

GARBAGE = ["", "foo", "Left", "LAST-CHILD", "first_child", "child", "sibling", "last-sibling ", "sorted", "inside", "0"]
SORTED_SIB, SORTED_CHILD = "sorted-sibling", "sorted-child"


def memory(h):
    """The values that are loaded (a deferred one may get loaded)."""
    loaded = [f.attname for f in h._meta.concrete_fields if f.attname in h.__dict__]
    return {a: str(h.__dict__[a]) for a in loaded} | {"adding": h._state.adding}


def requests(d):
    """One random invalid request: (description, callable, exception types, objects involved)."""
    ctx, cfg, rng = d.ctx, d.cfg, d.rng
    nodes = d.ref.all()
    t = d.pick()
    h = d.handle(t)
    cls = rng.choice(d.classes_for(t))
    crs = cfg.creators
    mk = rng.choice(crs)
    data = d.data()
    kind = rng.choice(
        ("bad_add_pos", "bad_move_pos", "misfit_add", "misfit_move", "descendant", "descendant", "descendant", "self",
         "both", "neither", "saved", "saved", "used_pk")
    )
    if kind == "bad_add_pos":
        pos = rng.choice([*GARBAGE, *CHILD_POS, SORTED_CHILD])
        inst = mk(**data)
        if rng.random() < 0.5:
            return (f"add_sibling({d.where(t)}, {pos!r})", lambda: mk.objects.add_sibling(h, pos, data),
                    InvalidPosition, [h])
        return (f"add_sibling({d.where(t)}, {pos!r}, instance)", lambda: mk.objects.add_sibling(h, pos, instance=inst),
                InvalidPosition, [h, inst])
    if kind == "misfit_add":
        pos = rng.choice(SIB_POS) if cfg.sorted else SORTED_SIB
        exc = InvalidPosition if cfg.sorted else MissingNodeOrderBy
        inst = mk(**data)
        return (f"add_sibling({d.where(t)}, {pos!r})", lambda: mk.objects.add_sibling(h, pos, instance=inst), exc, [h, inst])
    n = d.pick()
    hn = d.handle(n)
    if kind in ("bad_move_pos", "misfit_move"):
        if kind == "bad_move_pos":
            pos, exc = rng.choice(GARBAGE), InvalidPosition
        elif cfg.sorted:
            pos, exc = rng.choice([*SIB_POS, *CHILD_POS]), InvalidPosition
        else:
            pos, exc = rng.choice((SORTED_SIB, SORTED_CHILD)), MissingNodeOrderBy
        return f"move({d.where(n)}, {d.where(t)}, {pos!r})", lambda: cls.objects.move(hn, h, pos), exc, [h, hn]
    if kind in ("descendant", "self"):
        below = [x for x in nodes if x.is_under(n)]
        if kind == "self" or not below:
            target, poss = n, ((SORTED_CHILD,) if cfg.sorted else CHILD_POS)
        else:
            target = rng.choice(below)
            poss = (SORTED_CHILD, SORTED_SIB, None) if cfg.sorted else (*CHILD_POS, *SIB_POS, None)
        ht = d.handle(target)
        pos = rng.choice(poss)
        return (f"move({d.where(n)} {type(hn).__name__}, {d.where(target)} {type(ht).__name__}, {pos!r}) via {cls.__name__}",
                lambda: cls.objects.move(hn, ht, pos), InvalidMoveToDescendant, [hn, ht])
    how = rng.choice(("add_root", "add_child", "add_sibling"))

    def create(*a, **k):
        if how == "add_root":
            return mk.objects.add_root(*a, **k)
        if how == "add_child":
            return mk.objects.add_child(h, *a, **k)
        pos = rng.choice((None, SORTED_SIB) if cfg.sorted else (*SIB_POS, None))
        return mk.objects.add_sibling(h, pos, *a, **k)

    if kind == "both":
        inst = mk(**data)
        if how != "add_sibling" and rng.random() < 0.3:
            return f"{how} with both", lambda: create(create_kwargs=data, instance=inst), ValueError, [h, inst]
        return f"{how} with both", lambda: create(data, instance=inst), ValueError, [h, inst]
    if kind == "neither":
        return f"{how} with neither", create, ValueError, [h]
    if kind == "saved":
        return f"{how} of a saved node {d.where(n)}", lambda: create(instance=hn), NodeAlreadySaved, [h, hn]
    # a primary key that is already taken
    used = (NodeAlreadySaved, IntegrityError, *([PathOverflow] if cfg.may_overflow else []))
    pk = n.pk
    if rng.random() < 0.4:
        inst = mk(pk=pk, **data)
        return (f"{how} of an instance with the key of {d.where(n)}", lambda: create(instance=inst), used, [])
    key = cfg.base._meta.pk.attname
    base = cfg.base
    fresh = [{"data": d.data()} for _ in range(rng.randrange(0, 3))]
    for i, f in enumerate(fresh):
        f[key] = new_key(d, i)
    dup = {"data": data, key: pk}
    if fresh and rng.random() < 0.6:
        fresh[rng.randrange(len(fresh))]["children"] = [dup]
        bulk = fresh
    else:
        bulk = [*fresh, dup]
    parent = h if rng.random() < 0.6 else None
    kw = {"bulk_create": True} if cfg.kind == "MP" and rng.random() < 0.4 else {}
    return (f"load_bulk({'under ' + d.where(t) if parent else 'roots'}, keep_ids=True, {kw}) with the key of {d.where(n)}",
            lambda: base.objects.load_bulk(bulk, parent, True, **kw), used, [])


def new_key(d, i):
    import uuid

    if d.cfg.pk_uuid:
        return uuid.UUID(int=d.rng.getrandbits(128), version=4)
    return 10**9 + d.opno * 1000 + i


def refusals(ctx):
    cfg = pick_cfg(ctx, exclude=["MP_D", "MP_DS", "MP_O", "MP_1"])
    rng = ctx.rng
    d = raw_tree(ctx, cfg, n=rng.randrange(1, 16), data=distinct_data(cfg, rng), max_children=8 if cfg.kind == "MP" else None)
    for _ in range(rng.choice((6, 12))):
        before = everything(cfg)
        desc, fn, exc, objs = requests(d)
        memories = [memory(o) for o in objs]
        outer = rng.random() < 0.3
        desc = f"{cfg.name} {desc}" + (" in a transaction" if outer else "")
        ctx.note(desc)
        got = None
        try:
            if outer:
                with transaction.atomic(HOME):
                    try:
                        fn()
                    except Exception as e:
                        got = e
                    # the transaction goes on
                    ctx.check(everything(cfg) == before, "refusal:trace", lambda: f"{desc} left something behind")
            else:
                fn()
        except Exception as e:
            if type(e).__module__.startswith("tbmon"):
                raise
            if got is None:
                got = e
            else:
                ctx.fail("refusal:transaction", f"{desc}: the outer transaction is unusable: {e!r}")
        ctx.count("refusals")
        names = "/".join(e.__name__ for e in (exc if isinstance(exc, tuple) else (exc,)))
        ctx.check(got is not None, "refusal:accepted", lambda: f"{desc} on {d.ref.shape()} was accepted instead of raising {names}")
        ctx.check(isinstance(got, exc), "refusal:exception", lambda: f"{desc} raised {got!r} instead of {names}")
        now = everything(cfg)
        ctx.check(now == before, "refusal:trace", lambda: f"{desc} raised {got!r} but changed the database")
        if "the key of" in desc:  # found out on the way: the objects may be ahead of the database
            d.pool.clear()
        else:
            for o, m in zip(objs, memories):
                new = {k: v for k, v in memory(o).items() if k in m}
                ctx.check(new == m, "refusal:memory", lambda: f"{desc} changed an object: {m} became {new}")
        ctx.saw(cfg.name, desc.split("(")[0], d.ref.shape(), desc)
        if rng.random() < 0.4:
            ctx.count("operations_after_refusals")
            d.step()
            if not d.ref.all():
                break


WORKLOADS = [Workload("refusals", refusals, 900, 14000, aspects=ASPECTS)]
