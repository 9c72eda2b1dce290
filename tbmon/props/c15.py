from .. import decode as dec
from ..core import HOME, Workload
from ..engine import Driver, Guard, clear, plain, random_forest, raw_build, sort_key
from ..model import Forest
from ..obtain import obtain
from treebeard.exceptions import PathOverflow
from .common import ASSUME, by_kind, pick_cfg, whole_table

RULE = (
    "A case is a materialized path table whose depth and numchild columns hold random values, whose sibling positions "
    "have holes, and (on sorted models) whose siblings are out of order, written straight into the table; after "
    "fix_tree(), with and without fix_paths and parent, every row is compared with what the paths before the call say it "
    "must be, rows outside the parent with what they were; the call is repeated, find_problems() asked, and a history of "
    "operations run on the repaired tree. Distinct: (configuration, shape, damage, arguments)."
)
ASSUMPTIONS = [
    *ASSUME,
    "fix_paths swaps siblings through free positions after the last one: where there are none it may raise PathOverflow, "
    "and must then leave every path as it was. Siblings that tie in node_order_by may come out in any order.",
]
REQUIRED = {"rebuilds": 800, "fixed_rows": 4000, "fix_paths_runs": 300}
ASPECTS = ("fix", "*:position", "*:encoding", "*:exception", "exception")


def build(ctx, cfg):
    rng = ctx.rng
    clear(cfg.base)
    cap = cfg.max_step if cfg.max_step < 1000 else None
    if cap and cap > 10 and rng.random() < 0.8:
        cap = 9
    f = random_forest(cfg, rng, rng.randrange(1, 24), rng.choice(("mixed", "wide", "deep")), max_children=cap)
    if cfg.sorted and rng.random() < 0.7:
        for n in [f.top, *f.all()]:
            rng.shuffle(n.children)
    return raw_build(cfg, f, rng, gaps=rng.random() < 0.8)


def damage(ctx, cfg, ref, spare=()):
    rng = ctx.rng
    n = 0
    rate = rng.choice((0.1, 0.4, 1))
    for pk in list(ref.nodes):
        if pk in spare or rng.random() > rate:
            continue
        upd = {}
        if rng.random() < 0.7:
            upd["depth"] = rng.choice((0, 1, 2, 3, 7, 1000))
        if rng.random() < 0.7:
            upd["numchild"] = rng.choice((0, 1, 2, 3, 7, 1000))
        if upd:
            n += 1
            plain(cfg.base).filter(pk=pk).update(**upd)
    return n


def num(cfg, step):
    n = 0
    for c in step:
        n = n * len(cfg.base.alphabet) + cfg.base.alphabet.index(c)
    return n


def text(cfg, i):
    s = ""
    for _ in range(cfg.base.steplen):
        s = cfg.base.alphabet[i % len(cfg.base.alphabet)] + s
        i //= len(cfg.base.alphabet)
    return s


def wide_enough(cfg, ref, rows):
    """Whether every group of siblings has room for the swaps."""
    for n in [ref.top, *ref.all()]:
        if n.children:
            top = max(num(cfg, rows[c.pk]["path"][-cfg.base.steplen :]) for c in n.children)
            if top + len(n.children) > cfg.max_step:
                return False
    return True


def payload(rows):
    return {pk: {k: v for k, v in r.items() if k not in ("path", "depth", "numchild")} for pk, r in rows.items()}


def case(ctx):
    cfg = pick_cfg(ctx, by_kind(ctx, "MP"))
    rng, base = ctx.rng, cfg.base
    ref = build(ctx, cfg)
    ctx.count("model:" + cfg.name)
    fix_paths = rng.random() < 0.6
    parent = rng.choice(ref.all()) if rng.random() < 0.4 else None
    spare = {parent.pk, *(a.pk for a in parent.ancestors())} if parent else ()
    hurt = damage(ctx, cfg, ref, spare)
    orphans = 0
    if not fix_paths and rng.random() < 0.25:
        mid = [n for n in ref.all() if n.children and n.pk not in spare]
        if mid:
            plain(base).filter(pk=rng.choice(mid).pk)._raw_delete(HOME)
            orphans = 1
    before = dec.raw_rows(base, extra=cfg.fields)
    room = wide_enough(cfg, ref, before) if not orphans else True
    handle = None
    if parent:
        cls = rng.choice([c for c in cfg.creators if c._meta.concrete_model is base._meta.concrete_model] + [base])
        handle = obtain(ctx, cls, parent.pk)
    others = {m: whole_table(m) for m in deps(cfg)}
    kw = {"parent": handle} if parent else {}
    if fix_paths or rng.random() < 0.5:
        kw["fix_paths"] = fix_paths
    desc = f"{cfg.name}.fix_tree(fix_paths={fix_paths}, parent={parent and before[parent.pk]['path']})"
    ctx.note(f"{desc} of { {pk: (r['path'], r['depth'], r['numchild']) for pk, r in before.items()} }"[:1500])
    ctx.count("rebuilds")
    mgr = rng.choice([base, *[c for c in cfg.creators if c._meta.concrete_model is base._meta.concrete_model]]).objects
    try:
        with Guard(HOME):
            mgr.fix_tree(**kw)
    except PathOverflow:
        ctx.count("overflows")
        after = dec.raw_rows(base, extra=cfg.fields)
        ctx.check(
            fix_paths and not room and {pk: r["path"] for pk, r in after.items()} == {pk: r["path"] for pk, r in before.items()},
            "fix", f"{desc} raised PathOverflow (room for swaps: {room}) or left changed paths",
        )
        return
    except Exception as exc:
        ctx.fail("fix", f"{desc} raised {exc!r}")
    after = dec.raw_rows(base, extra=cfg.fields)
    judge(ctx, cfg, ref, before, after, parent, fix_paths, desc, orphans)
    ctx.check({m: whole_table(m) for m in deps(cfg)} == others, "fix", f"{desc} changed dependents")
    # once more: nothing left to do
    with Guard(HOME):
        mgr.fix_tree(**({**kw, "parent": obtain(ctx, base, parent.pk)} if parent else kw))
    again = dec.raw_rows(base, extra=cfg.fields)
    if not (cfg.sorted and ties(cfg, ref, before)):
        ctx.check(again == after, "fix", lambda: f"{desc} is not idempotent: {after} then {again}")
    if not orphans:
        got = mgr.find_problems(parent=obtain(ctx, base, parent.pk)) if parent else mgr.find_problems()
        ctx.check(not any(got), "fix", lambda: f"after {desc} find_problems() reports {got}: {after}")
    ctx.saw(cfg.name, ref.shape(), hurt, fix_paths, parent is not None, orphans)
    if parent is None and not orphans and not (cfg.sorted and not fix_paths):
        use(ctx, cfg, ref, again)


def deps(cfg):
    from ..vapp import models as m

    return list(m.DEPS.get(cfg.base, {}).values())


def ties(cfg, ref, before):
    for n in [ref.top, *ref.all()]:
        keys = [sort_key(before[c.pk], cfg.order) for c in n.children if c.pk in before]
        if len(set(keys)) != len(keys):
            return True
    return False


def judge(ctx, cfg, ref, before, after, parent, fix_paths, desc, orphans):
    step = cfg.base.steplen
    show = lambda rows: {pk: (r["path"], r["depth"], r["numchild"]) for pk, r in rows.items()}
    ctx.check(set(before) == set(after), "fix", f"{desc} added or removed rows")
    ctx.check(payload(before) == payload(after), "fix", f"{desc} changed other columns")
    inside = {pk for pk, r in before.items() if parent is None or r["path"].startswith(before[parent.pk]["path"])}
    for pk in before:
        if pk not in inside:
            ctx.check(before[pk] == after[pk], "fix", f"{desc} changed a row outside the parent: {before[pk]} to {after[pk]}")
    if not fix_paths:
        count = {}
        for r in before.values():
            count[r["path"][:-step]] = count.get(r["path"][:-step], 0) + 1
        for pk in inside:
            p = before[pk]["path"]
            want = {**before[pk], "depth": len(p) // step, "numchild": count.get(p, 0)}
            ctx.count("fixed_rows")
            ctx.check(after[pk] == want, "fix", lambda: f"{desc}: row {before[pk]} became {after[pk]}, expected {want}")
        return
    ctx.count("fix_paths_runs")
    stack = [(parent, before[parent.pk]["path"])] if parent else [(ref.top, "")]
    if parent:
        ctx.check(after[parent.pk]["path"] == before[parent.pk]["path"], "fix", f"{desc} moved the parent itself")
    while stack:
        n, path = stack.pop()
        kids = n.children
        if n.pk is not None:
            ctx.count("fixed_rows")
            want = {**before[n.pk], "path": path, "depth": len(path) // step, "numchild": len(kids)}
            ctx.check(after[n.pk] == want, "fix", lambda: f"{desc}: row {before[n.pk]} became {after[n.pk]}, expected {want}: {show(before)} to {show(after)}")
        if not kids:
            continue
        want = [path + text(cfg, i + 1) for i in range(len(kids))]
        got = [after[c.pk]["path"] for c in sorted(kids, key=lambda c: num_path(cfg, after[c.pk]["path"]))]
        ctx.check(
            got == want, "fix",
            lambda: f"{desc}: the children of {path!r} are at {got}, expected {want}: {show(before)} to {show(after)}",
        )
        order = sorted(kids, key=lambda c: num_path(cfg, after[c.pk]["path"]))
        if cfg.sorted:
            keys = [sort_key(before[c.pk], cfg.order) for c in order]
            ctx.check(keys == sorted(keys), "fix", lambda: f"{desc}: the children of {path!r} are not sorted: {keys}")
        else:
            ctx.check(
                order == kids, "fix",
                lambda: f"{desc}: the children of {path!r} changed their order: {show(before)} to {show(after)}",
            )
        stack += [(c, after[c.pk]["path"]) for c in order]


def num_path(cfg, p):
    rank = {c: i for i, c in enumerate(cfg.base.alphabet)}
    return [rank[c] for c in p]


def use(ctx, cfg, ref, rows):
    """The repaired tree takes further operations."""
    d = Driver(ctx, cfg, regime="small")
    f = Forest()
    dd = dec.decode(cfg.base, rows)
    ctx.check(not dd.problems, "fix", lambda: f"after the rebuild: {dd.problems[:3]}")

    def go(pk, parent):
        n = f.insert(pk, parent, 10**9, {k: rows[pk][k] for k in cfg.fields}, cfg.base)
        for c in dd.children.get(pk, ()):
            go(c, n)

    for pk in dd.children.get(None, ()):
        go(pk, None)
    d.ref = f
    d.snapshot()
    d.run(ctx.rng.choice((1, 3)))
    ctx.count("operations_after_rebuild")


WORKLOADS = [Workload("fix", case, 1100, 16000, aspects=ASPECTS)]
