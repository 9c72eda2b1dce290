import copy
import json
import uuid

from django.core.serializers.json import DjangoJSONEncoder

from .. import decode as dec
from ..core import HOME, Workload
from ..engine import Driver, Guard, clear, plain
from ..obtain import obtain
from .common import ASSUME, by_kind, cfgs, distinct_data, narrow, pick_cfg, raw_tree

RULE = (
    "A case dumps a random forest (or a branch of it), compares the dump with the reference forest, and loads it (possibly "
    "through JSON, with or without the keys, at the top or under a node) into the same model, into a model of another "
    "implementation, or back into the emptied table; the loaded nodes' structure, order, fields, foreign keys, "
    "many-to-many rows and keys are compared with the reference forest, all other rows must be as before, and the loaded "
    "structure must not have been modified. Trees with nodes of inherited models are dumped and loaded through every class, MP tables with wrong depth and numchild values dumped. "
    "Distinct: (source, destination, shape, options)."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"dumps": 800, "loads": 600, "cross_loads": 150, "keep_ids_loads": 100, "m2m_rows": 100, "inherited_dumps": 200, "inherited_loads": 200, "damaged_dumps": 200}
ASPECTS = ("*",)
FAMILIES = {
    "N": ["AL_N", "AL_U", "MP_N", "MP_1", "MP_2", "MP_X", "MP_U", "NS_N", "NS_U", "LT_N", "LT_U", "MP_62",
          "AL_mix", "MP_mix", "NS_mix", "LT_mix"],
    "S": ["AL_S", "MP_S", "NS_S", "LT_S", "AL_MS", "MP_MS", "NS_MS", "LT_MS"],
    "R": ["AL_R", "MP_R", "NS_R", "LT_R", "AL_M", "MP_M", "NS_M", "LT_M"],
    "Q": ["AL_Q", "MP_Q", "NS_Q", "LT_Q"],  # these in C30
    "QS": ["AL_QS", "MP_QS", "NS_QS", "LT_QS"],
}


def fields_of(cfg):
    return cfg.fields + (["tag", "tags"] if cfg.rel else [])


def relations(cfg, d, rng):
    """Give the nodes foreign keys and many-to-many rows, and the reference their values."""
    from ..vapp.models import Tag

    if not cfg.rel:
        return
    Tag.objects.all().delete()
    tags = [Tag.objects.create(label=f"t{i}").pk for i in range(4)]
    for n in d.ref.all():
        fk = rng.choice([None, *tags])
        ts = rng.sample(tags, rng.choice((0, 0, 1, 2, 4)))
        obj = cfg.base.objects.get(pk=n.pk)
        obj.tag_id = fk
        obj.save()
        obj.tags.set(ts)
        n.data["tag"], n.data["tags"] = fk, sorted(ts)
        d.ctx.count("m2m_rows", len(ts))


def expected(cfg, nodes, keep):
    key = cfg.base._meta.pk.attname
    out = []
    for n in nodes:
        item = {"data": {f: n.data[f] for f in fields_of(cfg)}}
        if keep:
            item[key] = n.pk
        if n.children:
            item["children"] = expected(cfg, n.children, keep)
        out.append(item)
    return out


def norm(bulk):
    """Many-to-many values have no order, and uuids may be strings."""
    for item in bulk:
        if not isinstance(item.get("uid", 0), int):
            item["uid"] = uuid.UUID(str(item["uid"]))
        if "tags" in item["data"]:
            item["data"]["tags"] = sorted(item["data"]["tags"])
        norm(item.get("children", []))
    return bulk


def count(bulk):
    return sum(1 + count(i.get("children", [])) for i in bulk)


def dump(ctx, cfg, d, cls, branch, keep):
    parent = d.fetch(branch) if branch else None
    desc = f"{cls.__name__}.dump_bulk({d.where(branch) if branch else None}, keep_ids={keep})"
    ctx.note(desc)
    try:
        with Guard(HOME):
            if parent is None and keep and ctx.rng.random() < 0.5:
                got = cls.objects.dump_bulk()
            else:
                got = cls.objects.dump_bulk(parent, keep)
    except Exception as exc:
        ctx.fail("dump:exception", f"{desc} of {d.ref.shape()} raised {exc!r}")
    want = expected(cfg, [branch] if branch else d.ref.roots(), keep)
    ctx.count("dumps")
    ctx.check(norm(copy.deepcopy(got)) == want, "dump:content", lambda: f"{desc} of {d.ref.shape()} is {got}, expected {want}")
    return got


def read_tree(cfg, alias=HOME):
    """The whole tree as nested (data, pk) read with plain SELECTs."""
    rows = dec.raw_rows(cfg.base, alias, cfg.fields)
    d = dec.decode(cfg.base, rows)
    extra = {}
    if cfg.rel:
        extra = {o.pk: {"tag": o.tag_id, "tags": sorted(o.tags.values_list("pk", flat=True))} for o in cfg.base._base_manager.all()}

    def go(pk):
        data = {f: rows[pk][f] for f in cfg.fields} | extra.get(pk, {})
        return {"data": data, "pk": pk, "children": [go(c) for c in d.children.get(pk, [])]}

    return [go(pk) for pk in d.children.get(None, [])], d


def plain_form(items, key=None, keys=True):
    out = []
    for i in items:
        o = {"data": i["data"], "children": plain_form(i.get("children", []), key, keys)}
        if keys:
            o["pk"] = i[key] if key else i["pk"]
        out.append(o)
    return out


def canonical(cfg, items):
    """Siblings of a sorted adjacency list have the order of their values, and none when they tie."""
    from ..model import sort_key

    if cfg.al_sorted():
        items.sort(key=lambda i: (sort_key(i["data"], cfg.order), repr(i["data"]), str(i.get("pk", ""))))
        for i in items:
            canonical(cfg, i["children"])
    return items


def merge(cfg, existing, bulk):
    """Children lists after loading `bulk` beside `existing` (both in plain form with data)."""
    out = list(existing)
    for item in bulk:
        item = dict(item)
        item["children"] = merge(cfg, [], item["children"])
        if cfg.sorted:
            from ..model import sort_key

            k = sort_key(item["data"], cfg.order)
            i = next((i for i, c in enumerate(out) if sort_key(c["data"], cfg.order) > k), len(out))
            out.insert(i, item)
        else:
            out.append(item)
    return out


def strip_new(items, old):
    """Remove the keys of the nodes that were not there before."""
    out = []
    for i in items:
        o = dict(i)
        if o.get("pk") not in old:
            o.pop("pk", None)
        o["children"] = strip_new(i["children"], old)
        out.append(o)
    return out


def roundtrip(ctx):
    rng = ctx.rng
    c = cfgs(ctx.backend)
    fam = rng.choice(("S", "R") if ctx.own_managers else ("N", "N", "S", "R", "R"))
    if ctx.odd_models and rng.random() < 0.5:
        fam = rng.choice(("Q", "QS"))
    names = [n for n in FAMILIES[fam] if n in c]
    if ctx.own_managers:
        names = narrow(ctx, names)
    src = c[names[ctx.index % len(names)]]
    ds = distinct_data(src, rng)
    d = raw_tree(ctx, src, n=rng.randrange(0, 18), data=ds, max_children=8, gaps=not src.may_overflow)
    relations(src, d, rng)
    cls = rng.choice(d.classes_for(d.ref.top))
    branch = rng.choice(d.ref.all()) if d.ref.all() and rng.random() < 0.4 else None
    keep = rng.random() < 0.5
    bulk = dump(ctx, src, d, cls, branch, keep)
    mode = rng.choice(("same", "back", "cross", "cross"))
    key = src.base._meta.pk.attname
    dst = src
    if mode == "cross":
        dst = c[rng.choice(names)]
        if dst.base is src.base:
            mode = "same"
    load_keep = False
    if keep:
        ok = (mode == "back") or (mode == "cross" and src.pk_uuid == dst.pk_uuid)
        load_keep = ok and rng.random() < 0.8
    if mode == "back":
        clear(src.base)
        dd = Driver(ctx, dst)
        dd.snapshot()
    elif mode == "cross":
        if load_keep:
            clear(dst.base)
            dd = Driver(ctx, dst)
            dd.snapshot()
        else:
            dd = raw_tree(ctx, dst, n=rng.randrange(0, 8), data=distinct_data(dst, rng), max_children=5,
                          gaps=not dst.may_overflow)
            if dst.rel:
                for n in dd.ref.all():
                    n.data["tag"], n.data["tags"] = None, []
        ctx.count("cross_loads")
    else:
        dd = d
    dkey = dst.base._meta.pk.attname
    if dkey != key:
        rename(bulk, key, dkey)
    if rng.random() < 0.3:
        bulk = json.loads(json.dumps(bulk, cls=DjangoJSONEncoder))
        ctx.count("json_loads")
    if rng.random() < 0.3:
        blank_children(bulk, rng)
    target = rng.choice(dd.ref.all()) if dd.ref.all() and rng.random() < 0.5 else None
    before_tree, _ = read_tree(dst)
    old = set(dd.ref.nodes)
    given = copy.deepcopy(bulk)
    lcls = rng.choice([m for m in dst.creators if m._meta.concrete_model is dst.base._meta.concrete_model] or [dst.base])
    desc = (f"{lcls.__name__}.load_bulk({count(bulk)} nodes dumped from {src.name} {d.ref.shape()}, "
            f"{dd.where(target) if target else None}, keep_ids={load_keep}) [{mode}]")
    ctx.note(desc)
    try:
        with Guard(HOME):
            h = dd.fetch(target) if target else None
            out = lcls.objects.load_bulk(bulk, h, load_keep) if load_keep or target else lcls.objects.load_bulk(bulk)
    except Exception as exc:
        ctx.fail("load:exception", f"{desc} raised {exc!r}")
    ctx.count("loads")
    ctx.saw(src.name, dst.name, mode, d.ref.shape(), keep, load_keep, bool(target), lcls.__name__)
    ctx.check(bulk == given, "load:input", lambda: f"{desc} modified its input: {given} became {bulk}")
    after_tree, dec2 = read_tree(dst)
    ctx.check(not dec2.problems, "load:encoding", lambda: f"{desc}: {dec2.problems[:3]}")
    new = plain_form(norm(copy.deepcopy(given)), dkey if load_keep else None, load_keep)
    if dst.pk_uuid and load_keep:
        fix_uuid(new)
    want = copy.deepcopy(before_tree)
    if target:
        node = find(want, target.pk)
        node["children"] = merge(dst, node["children"], new)
    else:
        want = merge(dst, want, new)
    got = after_tree if load_keep else strip_new(after_tree, old)
    if not load_keep:
        want = strip_new(want, old)
    ctx.check(canonical(dst, got) == canonical(dst, want), "load:content", lambda: f"{desc}: the tree is {got}, expected {want}")
    if load_keep:
        ctx.count("keep_ids_loads")
    added = set(dec.raw_rows(dst.base)) - old
    ctx.check(
        isinstance(out, list) and len(out) == len(added) and set(out) == added,
        "load:return", lambda: f"{desc} returned {out}, the added keys are {sorted(added, key=str)}",
    )
    # and dump the loaded tree again
    again = dst.base.objects.dump_bulk(keep_ids=False)
    ctx.check(
        canonical(dst, plain_form(norm(copy.deepcopy(again)), None, False)) == canonical(dst, strip_all(after_tree)),
        "dump:content", lambda: f"dump_bulk after {desc} is {again}, expected {after_tree}",
    )


def extend(cfg, n, cls, rng):
    """Give a node its rows of the child models on the way to `cls`."""
    base = dec.base_of(cfg.base)
    for sub in reversed(cls.__mro__):
        if sub is base or sub not in dec.subclasses(base) or sub._meta.proxy or sub._meta.abstract:
            continue
        obj = sub(**{p.attname: n.pk for p in sub._meta.parents.values() if p is not None})
        obj.pk = n.pk
        for f in sub._meta.local_concrete_fields:
            if f.get_internal_type() == "CharField":
                setattr(obj, f.attname, f"x{rng.randrange(1000)}")
        obj.save_base(raw=True, using=HOME)
    n.cls = cls


def inherited(ctx):
    """Dumping a branch handled through any class of a family, and loading it through any of them."""
    rng = ctx.rng
    c = cfgs(ctx.backend)
    names = [n for n in c if n.endswith("mix") and n != "MP_smix" and n != "LT_smix"]
    cfg = c[names[ctx.index % len(names)]]
    d = raw_tree(ctx, cfg, n=rng.randrange(1, 14), data=distinct_data(cfg, rng), max_children=6)
    for n in d.ref.all():
        if rng.random() < 0.6:
            extend(cfg, n, rng.choice(cfg.creators), rng)
    cls = rng.choice(cfg.creators)
    branch = rng.choice(d.ref.all()) if rng.random() < 0.6 else None
    handle = None
    if branch:
        hc = rng.choice(d.classes_for(branch))
        handle = obtain(ctx, hc, branch.pk)
    keep = rng.random() < 0.6
    desc = f"{cls.__name__}.dump_bulk({d.where(branch) + ' as ' + hc.__name__ if branch else None}, keep_ids={keep})"
    ctx.note(desc)
    try:
        with Guard(HOME):
            got = cls.objects.dump_bulk(handle, keep)
    except Exception as exc:
        ctx.fail("dump:exception", f"{desc} of {d.ref.shape()} raised {exc!r}")
    ctx.count("inherited_dumps")
    want = expected(cfg, [branch] if branch else d.ref.roots(), keep)
    key = cfg.base._meta.pk.attname

    def keyed(items):
        """The key of a node may be stored under the name it has in the class that dumped it."""
        for i in items:
            for k in [k for k in i if k.endswith("_ptr_id")]:
                i[key] = i.pop(k)
            keyed(i.get("children", []))
        return items

    out = keyed(copy.deepcopy(got))
    ctx.check(out == want, "dump:content", lambda: f"{desc} of {d.ref.shape()} is {got}, expected {want}")
    # Load it through the class that dumped it, or through any class when it doesn't carry its keys.
    load_keep = keep and rng.random() < 0.7
    lcls = cls if load_keep else rng.choice(cfg.creators)
    clear(cfg.base)
    dd = Driver(ctx, cfg)
    dd.snapshot()
    given = copy.deepcopy(got)
    desc = f"{lcls.__name__}.load_bulk(keep_ids={load_keep}) of {desc} of {d.ref.shape()}"
    ctx.note(desc)
    try:
        with Guard(HOME):
            added = lcls.objects.load_bulk(got, None, load_keep)
    except Exception as exc:
        ctx.fail("load:exception", f"{desc} raised {exc!r}")
    ctx.count("inherited_loads")
    ctx.check(got == given, "load:input", lambda: f"{desc} modified its input: {given} became {got}")
    after, dec2 = read_tree(cfg)
    ctx.check(not dec2.problems, "load:encoding", lambda: f"{desc}: {dec2.problems[:3]}")
    new = plain_form(out, key if load_keep else None, load_keep)
    now = after if load_keep else strip_new(after, set())
    ctx.check(canonical(cfg, now) == canonical(cfg, new), "load:content", lambda: f"{desc}: the tree is {after}, expected {new}")
    pks = set(dec.raw_rows(cfg.base))
    ctx.check(
        isinstance(added, list) and len(added) == len(pks) and set(added) == pks, "load:return",
        lambda: f"{desc} returned {added}, the keys are {sorted(pks)}",
    )
    chain = [m._meta.concrete_model for m in lcls.__mro__ if m in dec.subclasses(dec.base_of(cfg.base))]
    for sub in dec.subclasses(dec.base_of(cfg.base)):
        if sub._meta.proxy or sub._meta.abstract or sub is dec.base_of(cfg.base):
            continue
        rows = set(plain(sub).values_list("pk", flat=True))
        ctx.check(
            rows == (pks if sub in chain else set()), "load:class",
            lambda: f"{desc}: {sub.__name__} has the rows {sorted(rows)} of {sorted(pks)}",
        )
    ctx.saw(cfg.name, "inherited", d.ref.shape(), cls.__name__, lcls.__name__, keep, load_keep, bool(branch))


def damaged(ctx):
    """MP dumps don't depend on the columns that fix_tree repairs: the paths say what the tree is."""
    from .c15 import damage

    rng = ctx.rng
    cfg = pick_cfg(ctx, by_kind(ctx, "MP"))
    d = raw_tree(ctx, cfg, n=rng.randrange(1, 18), data=distinct_data(cfg, rng), max_children=min(8, cfg.max_step), gaps=not cfg.may_overflow)
    relations(cfg, d, rng)
    ctx.count("damaged_rows", damage(ctx, cfg, d.ref))
    cls = rng.choice(d.classes_for(d.ref.top))
    branch = rng.choice(d.ref.all()) if rng.random() < 0.4 else None
    dump(ctx, cfg, d, cls, branch, rng.random() < 0.5)
    ctx.count("damaged_dumps")
    ctx.saw(cfg.name, "damaged", d.ref.shape(), cls.__name__, bool(branch))


def strip_all(items):
    return [{"data": i["data"], "children": strip_all(i["children"])} for i in items]


def rename(bulk, a, b):
    for i in bulk:
        if a in i:
            i[b] = i.pop(a)
        rename(i.get("children", []), a, b)


def blank_children(bulk, rng):
    for i in bulk:
        if "children" in i:
            blank_children(i["children"], rng)
        elif rng.random() < 0.5:
            i["children"] = []


def fix_uuid(items):
    for i in items:
        i["pk"] = uuid.UUID(str(i["pk"]))
        fix_uuid(i["children"])


def find(items, pk):
    for i in items:
        if i["pk"] == pk:
            return i
        got = find(i["children"], pk)
        if got:
            return got


WORKLOADS = [
    Workload("roundtrip", roundtrip, 900, 14000, aspects=ASPECTS),
    Workload("inherited", inherited, 250, 4000, aspects=ASPECTS),
    Workload("damaged", damaged, 150, 2000, aspects=ASPECTS),
]
