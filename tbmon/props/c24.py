"""The methods that moved from the model to its manager, compared with the manager's."""

import copy
import uuid
import warnings

from django.db import models, transaction

from treebeard import mp_tree
from treebeard.deprecation import RemovedInTreebeard8Warning

from .. import decode as dec
from ..core import HOME, Workload
from ..engine import CHILD_POS, SIB_POS, Guard
from .common import ASSUME, cfgs, distinct_data, family, history, invoke, pick_cfg, raw_tree

RULE = (
    "A case is a random forest, written straight into the table (sometimes damaged) or produced by a seeded history; every "
    "moved class method, node method and MP handler class is called with random arguments, by position or by name, good and "
    "bad, and so is the manager's method on fresh handles of the same nodes, each in a transaction which is rolled back; the "
    "results or exceptions, all rows of all tables and the handles' fields afterwards are compared, and the warnings counted. "
    "Distinct: (configuration, class, method, arguments, shape)."
)
ASSUMPTIONS = [*ASSUME, "The manager's methods are judged by the other properties; here they are the reference."]
REQUIRED = {"calls_compared": 8000, "warnings_seen": 8000, "raised_alike": 200, "writes_compared": 1500}
ASPECTS = ("deprecated:*",)
HERE = __file__


class Handles:
    """Fresh handles, one per node and class of a call."""

    def __init__(self):
        self.got = []

    def __call__(self, node, cls):
        h = cls.objects.get(pk=node.pk)
        self.got.append(h)
        return h


def key_columns(model):
    """The columns that hold keys of tree nodes."""
    out = set()
    for f in model._meta.local_concrete_fields:
        if f.primary_key or f.is_relation:
            out.add(f.column)
    return out


def rows_of(model, using=HOME):
    from django.db import connections

    conn = connections[using]
    qn = conn.ops.quote_name
    fields = model._meta.local_concrete_fields
    cols = [qn(f.column) + ("::text" if f.db_type(conn) == "ltree" else "") for f in fields]
    with conn.cursor() as cur:
        cur.execute(f"SELECT {', '.join(cols)} FROM {qn(model._meta.db_table)}")
        return [dict(zip([f.column for f in fields], r)) for r in cur.fetchall()]


def state(cfg, known, ids):
    """All the rows, with the keys of the new nodes replaced by the nodes' names (sequences are not rolled back)."""
    tables = {m: rows_of(m) for m in family(cfg)}
    base = dec.base_of(cfg.base)
    pk = base._meta.pk.column
    for r in tables[base]:
        if r[pk] not in known:
            ids[norm_key(r[pk])] = f"new node {r['name']!r}"
    out = {}
    for m, rows in tables.items():
        keys = key_columns(m)
        out[m._meta.label] = sorted(
            [tuple(ids.get(norm_key(v), v) if c in keys else v for c, v in r.items()) for r in rows], key=repr
        )
    return out


def norm_key(v):
    return v.hex if isinstance(v, uuid.UUID) else v


def plain_value(x, ids):
    """The parts of a result that can be compared."""
    if isinstance(x, models.Model):
        d = {f.attname: ids.get(norm_key(x.__dict__.get(f.attname)), x.__dict__.get(f.attname)) if f.primary_key or f.is_relation
             else str(x.__dict__.get(f.attname)) for f in x._meta.concrete_fields}
        d["descendants_count"] = x.__dict__.get("descendants_count")
        return (type(x).__name__, d)
    if isinstance(x, models.QuerySet):
        return ("QuerySet", x.model.__name__, [plain_value(o, ids) for o in x])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain_value(o, ids) for o in x])
    if isinstance(x, dict):
        return {k: plain_value(v, ids) for k, v in x.items()}
    return ids.get(norm_key(x), x) if isinstance(x, (int, uuid.UUID)) and not isinstance(x, bool) else x


def run(cfg, known, fn):
    """(result or exception, rows afterwards, handles, warnings, treebeard's warnings) of a call that is rolled back."""
    hs = Handles()
    ids = {}
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        with transaction.atomic(HOME):
            try:
                with transaction.atomic(HOME), Guard(HOME):
                    out = invoke(fn, hs)
                    if isinstance(out, models.QuerySet):
                        list(out)
                exc = None
            except Exception as e:
                exc, out = (type(e).__name__, text_of(e)), None
            rows = state(cfg, known, ids)
            out = plain_value(out, ids)
            handles = [plain_value(h, ids) for h in hs.got]
            caches = [sorted(k for k in h.__dict__ if k.startswith("_cached")) for h in hs.got]
            transaction.set_rollback(True, HOME)
    ours = [w for w in seen if issubclass(w.category, RemovedInTreebeard8Warning)]
    return {"result": out, "exception": exc, "rows": rows, "handles": handles, "caches": caches}, ours


def text_of(e):
    import re

    return re.sub(r"\d+|[0-9a-f-]{32,}", "#", str(e))[:200]


def calls(ctx, d, cls):
    """(name, arguments as text, writes, moved(handles), manager(handles), warnings expected) for one class."""
    cfg, rng = d.cfg, d.rng
    nodes = d.ref.all()
    mine = [n for n in nodes if d.specific is None or n.pk in d.specific.get(cls, d.all_keys)] if cls is not cfg.base else nodes
    base = cls.objects.tree_model

    def some(pool=None, none=0.4):
        pool = nodes if pool is None else pool
        return rng.choice(pool) if pool and rng.random() > none else None

    def spread(pairs):
        """Some arguments by position, the rest by name, trailing ones left out."""
        pairs = pairs[: rng.randrange(len(pairs) + 1)]
        k = rng.randrange(len(pairs) + 1)
        return [v for _, v in pairs[:k]], dict(pairs[k:])

    def bind(args, kw, hs):
        look = lambda v: hs(v[1], v[2]) if isinstance(v, tuple) and v and v[0] is Handles else copy.deepcopy(v)
        return [look(a) for a in args], {k: look(v) for k, v in kw.items()}

    def tell(args, kw):
        t = lambda v: d.where(v[1]) if isinstance(v, tuple) and v and v[0] is Handles else repr(v)
        return ", ".join([t(a) for a in args] + [f"{k}={t(v)}" for k, v in kw.items()])[:200]

    def ref(n, c=None):
        return None if n is None else (Handles, n, c or rng.choice(d.classes_for(n)))

    def classmethod_(name, pairs, writes=False):
        args, kw = spread(pairs)

        def moved(hs):
            a, k = bind(args, kw, hs)
            return getattr(cls, name)(*a, **k)

        def manager(hs):
            a, k = bind(args, kw, hs)
            return getattr(cls.objects, name)(*a, **k)

        return f"{cls.__name__}.{name}", tell(args, kw), writes, moved, manager, 1

    md = rng.choice((None, 0, 1, 2, 5))
    yield classmethod_("get_root_nodes", [])
    yield classmethod_("get_first_root_node", [])
    yield classmethod_("get_last_root_node", [])
    yield classmethod_("get_tree", [("parent", ref(some())), ("max_depth", md)])
    yield classmethod_("get_descendants_group_count", [("parent", ref(some()))])
    yield classmethod_("get_annotated_list", [("parent", ref(some())), ("max_depth", md)])
    yield classmethod_("dump_bulk", [("parent", ref(some())), ("keep_ids", rng.random() < 0.5)])
    yield classmethod_("find_problems", [("parent", ref(some(none=0.8)))] if cfg.kind in ("MP", "NS") else [])
    pairs = [("fix_paths", rng.random() < 0.5), ("parent", ref(some(none=0.7)))] if cfg.kind == "MP" else []
    yield classmethod_("fix_tree", pairs, True)
    data = bulk(ctx, d, cls)
    more = [("bulk_create", rng.random() < 0.5)] if cfg.kind == "MP" else []
    pairs = [("bulk_data", data), ("parent", ref(some())), ("keep_ids", rng.random() < 0.3), *more]
    args, kw = [data], {}
    k = rng.randrange(1, len(pairs) + 1)
    kw = {n: v for n, v in pairs[1:k] if not (n == "bulk_create" and base is not cls)}
    yield (
        f"{cls.__name__}.load_bulk", tell([], kw), True,
        lambda hs: (lambda a, q: cls.load_bulk(*a, **q))(*bind(args, kw, hs)),
        lambda hs: (lambda a, q: cls.objects.load_bulk(*a, **q))(*bind(args, kw, hs)), 1,
    )
    qn = some()
    yield (
        f"{cls.__name__}.get_annotated_list_qs", d.where(qn) if qn else "", False,
        lambda hs: cls.get_annotated_list_qs(cls.objects.get_tree(qn and hs(qn, cfg.base))),
        lambda hs: cls.objects.get_annotated_list_qs(cls.objects.get_tree(qn and hs(qn, cfg.base))), 1,
    )
    # creating and moving
    by_instance = rng.random() < 0.4
    fields = d.data()
    if cls._meta.concrete_model is not cfg.base._meta.concrete_model:
        fields["extra"] = "e"
    saved = some(none=0.9) if by_instance else None

    def material(hs):
        if not by_instance:
            return dict(fields)
        return {"instance": hs(saved, cfg.base) if saved else cls(**fields)}

    def split(m):
        m = dict(m)
        inst = m.pop("instance", None)
        return {"create_kwargs": m, "instance": inst}

    what = ("instance" if by_instance else "kwargs") + (" already saved" if saved else "")
    yield (
        f"{cls.__name__}.add_root", what, True, lambda hs: cls.add_root(**material(hs)),
        lambda hs: cls.objects.add_root(**split(material(hs))), 1,
    )
    if cfg.kind == "MP":
        yield (
            f"MP_AddRootHandler({cls.__name__})", what, True,
            lambda hs: mp_tree.MP_AddRootHandler(cls, **material(hs)).process(),
            lambda hs: cls.objects.add_root(**split(material(hs))), 1,
        )
    if not mine:
        return
    n = rng.choice(mine)
    t = d.pick()
    bad = rng.random() < 0.15
    spos = rng.choice(("x", "sorted-sibling", "last-child", "left", "sorted-child")) if bad else (
        rng.choice(("sorted-sibling", None)) if cfg.sorted else rng.choice((*SIB_POS, None))
    )
    mpos = rng.choice(("x", "sorted-sibling", "last-child", "left", "sorted-child")) if bad else (
        rng.choice(("sorted-sibling", "sorted-child", None)) if cfg.sorted else rng.choice((*SIB_POS, *CHILD_POS, None))
    )
    named = rng.random() < 0.5
    omit = rng.random() < 0.5

    def at(pos):
        if pos is None and omit:
            return [], {}
        return ([], {"pos": pos}) if named else ([pos], {})

    where = f"{d.where(n)} {cls.__name__}"
    tcls = rng.choice(d.classes_for(t))
    yield (
        f"{where}.add_child", what, True, lambda hs: hs(n, cls).add_child(**material(hs)),
        lambda hs: cls.objects.add_child(hs(n, cls), **split(material(hs))), 1,
    )
    yield (
        f"{where}.add_sibling", f"{spos} {what}", True,
        lambda hs: hs(n, cls).add_sibling(*at(spos)[0], **at(spos)[1], **material(hs)),
        lambda hs: cls.objects.add_sibling(hs(n, cls), spos, **split(material(hs))), 1,
    )
    yield (
        f"{where}.move", f"{d.where(t)} {tcls.__name__} {mpos}", True,
        lambda hs: hs(n, cls).move(hs(t, tcls), *at(mpos)[0], **at(mpos)[1]),
        lambda hs: cls.objects.move(hs(n, cls), hs(t, tcls), mpos), 1,
    )
    if cfg.kind == "MP":
        yield (
            f"MP_AddChildHandler({where})", what, True,
            lambda hs: mp_tree.MP_AddChildHandler(hs(n, cls), material(hs)).process(),
            lambda hs: cls.objects.add_child(hs(n, cls), **split(material(hs))), 1,
        )
        yield (
            f"MP_AddSiblingHandler({where})", f"{spos} {what}", True,
            lambda hs: mp_tree.MP_AddSiblingHandler(hs(n, cls), spos, material(hs)).process(),
            lambda hs: cls.objects.add_sibling(hs(n, cls), spos, **split(material(hs))), 1,
        )
        yield (
            f"MP_MoveHandler({where})", f"{d.where(t)} {mpos}", True,
            lambda hs: mp_tree.MP_MoveHandler(hs(n, cls), hs(t, tcls), *at(mpos)[0], **at(mpos)[1]).process(),
            lambda hs: cls.objects.move(hs(n, cls), hs(t, tcls), mpos), 1,
        )

    def method(name, pairs=()):
        args, kw = spread(list(pairs))
        return (
            f"{where}.{name}", tell(args, kw), False,
            lambda hs: getattr(hs(n, cls), name)(*args, **kw),
            lambda hs: getattr(cls.objects, name)(hs(n, cls), *args, **kw), 1,
        )

    inc = rng.random() < 0.5
    yield method("get_descendants", [("include_self", inc), ("max_depth", md)])
    yield method("get_descendant_count", [("max_depth", md)])
    yield method("get_parent", [("update", inc)])
    for name in (
        "get_children", "get_children_count", "get_siblings", "get_first_child", "get_last_child", "get_first_sibling",
        "get_last_sibling", "get_prev_sibling", "get_next_sibling", "get_root", "get_ancestors",
    ):
        yield method(name)


def bulk(ctx, d, cls, depth=0):
    rng = ctx.rng
    out = []
    for _ in range(rng.randrange(1, 3)):
        data = d.data()
        if cls._meta.concrete_model is not d.cfg.base._meta.concrete_model:
            data["extra"] = "e"
        item = {"data": data}
        if depth < 2 and rng.random() < 0.5:
            item["children"] = bulk(ctx, d, cls, depth + 1)
        out.append(item)
    return out


def case(ctx):
    cfg = pick_cfg(ctx, None if ctx.own_managers else list(cfgs(ctx.backend)))
    rng = ctx.rng
    mixed = len({c._meta.concrete_model for c in cfg.creators}) > 1
    if mixed:
        d = history(ctx, cfg, n=rng.randrange(4, 12), raw=False, regime="medium", weights={"delete": 0.2})
    else:
        d = raw_tree(ctx, cfg, rng.randrange(0, 16))
    make = distinct_data(cfg, rng)

    def fresh():
        out = make()
        out["name"] = f"fresh{out['name'][-4:]}-{rng.randrange(10**6)}"
        return out

    d.data = fresh
    d.all_keys = set(d.ref.nodes)
    d.specific = {c: set(c.objects.values_list("pk", flat=True)) for c in cfg.creators} if mixed else None
    if cfg.kind in ("MP", "NS") and len(d.ref) and rng.random() < 0.2:
        damage(ctx, cfg, d)
    compare(ctx, cfg, d, rng.choice(sorted(cfg.label_classes(), key=lambda c: c.__name__) if mixed else d.classes_for(d.ref.top)))


def damage(ctx, cfg, d):
    from ..engine import plain

    n = d.pick()
    col = {"MP": ("numchild", "depth"), "NS": ("depth", "rgt")}[cfg.kind]
    plain(cfg.base).filter(pk=n.pk).update(**{ctx.rng.choice(col): ctx.rng.randrange(0, 9)})
    ctx.count("damaged_trees")


def compare(ctx, cfg, d, cls):
    known = d.all_keys | {norm_key(k) for k in d.all_keys}
    known |= {dec_key(k) for k in d.all_keys}
    for name, args, writes, moved, manager, warned in list(calls(ctx, d, cls)):
        desc = f"{cfg.name} {d.ref.shape()[:150]}: {name}({args})"
        ctx.note(desc)
        want, quiet = run(cfg, known, manager)
        got, loud = run(cfg, known, moved)
        ctx.count("calls_compared")
        ctx.count("writes_compared", writes)
        ctx.saw(cfg.name, cls.__name__, name, args, d.ref.shape())
        if want["exception"]:
            ctx.count("raised_alike")
        for k in want:
            if k == "handles" and want["exception"]:
                continue
            ctx.check(
                got[k] == want[k], "deprecated:" + ("effect" if k in ("rows", "handles", "caches") else "result"),
                lambda: f"{desc}: {k} {short(got[k], want[k])}, but the manager's method {short(want[k], got[k])}",
            )
        ctx.check(not quiet, "deprecated:warning", lambda: f"{desc}: the manager's method warns: {quiet[0].message}")
        ctx.check(
            len(loud) == warned, "deprecated:warning",
            lambda: f"{desc}: {len(loud)} deprecation warnings, expected {warned}: {[str(w.message) for w in loud]}",
        )
        ctx.count("warnings_seen", len(loud))
        for w in loud:
            ctx.check(
                w.filename == HERE, "deprecated:warning",
                lambda: f"{desc}: the warning points at {w.filename}:{w.lineno}, not at the caller",
            )


def dec_key(k):
    """A key as the database driver returns it in raw rows."""
    return k.hex if isinstance(k, uuid.UUID) else k


def short(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return str({k: v for k, v in a.items() if b.get(k) != v})[:400]
    return repr(a)[:400]


WORKLOADS = [Workload("moved", case, 260, 4000, aspects=ASPECTS)]
