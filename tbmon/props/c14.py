from django.db import IntegrityError, transaction

from ..core import HOME, Workload
from ..engine import plain
from .common import ASSUME, by_kind, history, pick_cfg, raw_tree

RULE = (
    "A case is a random forest of a materialized path or nested sets model, healthy (written raw or produced by a "
    "history) or with one to three corruptions written straight into the table; find_problems(), for the whole tree and "
    "for several parents, is compared with a classifier that applies the documented meaning of each list to the raw rows "
    "of every node. Distinct: (configuration, shape, corruptions)."
)
ASSUMPTIONS = [
    *ASSUME,
    "A node with several problems may be reported for any of them; where the children of a node are themselves broken, "
    "either way of counting them is accepted; of two overlapping nested set nodes at least one must be reported.",
    "A root node with depth 0 is left out.",
]
REQUIRED = {"healthy_checks": 300, "corrupted_checks": 1000, "nodes_classified": 5000}
ASPECTS = ("problems",)


def names(lists):
    return [[str(x) for x in lst] for lst in lists]


def call(d, parent, what):
    try:
        mgr = d.rng.choice(d.classes_for(d.ref.top)).objects
        return mgr.find_problems(parent=parent) if parent is not None or d.rng.random() < 0.5 else mgr.find_problems()
    except Exception as exc:
        d.ctx.fail("problems", f"{d.cfg.name}: find_problems() of {what} raised {exc!r}")


# ------------------------------------------------------------------ healthy trees
def healthy(ctx):
    cfg = pick_cfg(ctx, by_kind(ctx, "MP", "NS"))
    if ctx.rng.random() < 0.5:
        d = raw_tree(ctx, cfg)
    else:
        d = history(ctx, cfg, n=ctx.rng.choice((5, 12)))
    nodes = d.ref.all()
    for parent in [None, *ctx.rng.sample(nodes, min(4, len(nodes)))]:
        got = call(d, parent and d.fetch(parent), d.ref.shape())
        ctx.count("healthy_checks")
        ctx.check(
            isinstance(got, tuple) and len(got) == (5 if cfg.kind == "MP" else 4) and not any(got),
            "problems", lambda: f"{cfg.name}: find_problems(parent={parent and d.where(parent)}) of the healthy tree "
            f"{d.ref.shape()} reports {got}",
        )
        ctx.saw(cfg.name, "healthy", d.ref.shape(), parent and d.where(parent))


# ------------------------------------------------------------------ materialized path
def mp_applicable(cfg, rows):
    """{pk: (lists that apply, lists that may or may not apply)}"""
    base = cfg.base
    step = base.steplen
    good = lambda p: all(c in base.alphabet for c in p)
    paths = {r["path"] for r in rows.values()}
    strict, broken = {}, []
    for r in rows.values():
        p = r["path"]
        if good(p) and len(p) % step == 0:
            strict[p[:-step]] = strict.get(p[:-step], 0) + 1
        else:
            broken.append(p)
    out = {}
    for pk, r in rows.items():
        p = r["path"]
        must, may = set(), set()
        if not good(p):
            must.add(0)
        if len(p) % step:
            must.add(1)
        if not must:
            if len(p) > step and p[:-step] not in paths:
                must.add(2)
            if r["depth"] != len(p) // step:
                must.add(3)
        elif len(p) > step and p[:-step] not in paths:
            may.add(2)
        if must & {0, 1}:
            may |= {3, 4}
        around = sum(1 for b in broken if b.startswith(p) and len(p) < len(b) < len(p) + 2 * step)
        if not good(p):
            around = len(rows)
        counts = set(range(strict.get(p, 0), strict.get(p, 0) + around + 1))
        if r["numchild"] not in counts:
            must.add(4)
        elif counts != {r["numchild"]}:
            may.add(4)
        out[pk] = (must, may)
    return out


def mp_corrupt(ctx):
    cfg = pick_cfg(ctx, by_kind(ctx, "MP", exclude=("MP_smix",)))
    rng, base = ctx.rng, cfg.base
    d = raw_tree(ctx, cfg, rng.randrange(2, 16))
    step = base.steplen
    alphabet = base.alphabet
    evil = [c for c in "az~ éA0-%_'" + alphabet.lower() + alphabet.upper() if c not in alphabet]
    what = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        kind = rng.choice(("evil", "length", "orphan", "depth", "depth", "numchild", "numchild", "move"))
        nodes = [n for n in d.ref.all() if n.pk in d.rows]
        if not nodes:
            break
        n = d.pick(nodes)
        r = dict(d.rows[n.pk])
        p = r["path"]
        upd = {}
        if kind == "evil":
            i = rng.randrange(len(p))
            upd = {"path": p[:i] + rng.choice(evil) + p[i + 1 :]}
        elif kind == "length":
            if step == 1 or len(p) + 1 > base._meta.get_field("path").max_length:
                continue
            upd = {"path": p + rng.choice(alphabet) if rng.random() < 0.5 else p[:-1]}
        elif kind == "orphan":
            with_kids = [x for x in nodes if x.children]
            if not with_kids:
                continue
            n = rng.choice(with_kids)
            plain(base).filter(pk=n.pk)._raw_delete(HOME)
            what.append(f"the row of {d.where(n)} deleted")
            d.snapshot()
            continue
        elif kind == "move":  # to a place without a parent
            upd = {"path": p + alphabet[-1] * step}
            upd["depth"] = len(upd["path"]) // step
            if not d.rows or len(upd["path"]) > base._meta.get_field("path").max_length:
                continue
        elif kind == "depth":
            true = len(p) // step
            upd = {"depth": rng.choice([x for x in (0, 1, true - 1, true + 1, true + 5) if x != true and x >= (true == 1)])}
        else:
            upd = {"numchild": rng.choice([x for x in (0, 1, r["numchild"] + 1, r["numchild"] - 1, 9) if 0 <= x != r["numchild"]])}
        try:
            with transaction.atomic(HOME):
                plain(base).filter(pk=n.pk).update(**upd)
        except IntegrityError:
            continue
        what.append(f"{d.where(n)} ({p}): {upd}")
        d.snapshot()
    if not what:
        return
    rows = d.snapshot()
    ctx.note("; ".join(what))
    table = mp_applicable(cfg, rows)
    parents = [None] + [
        base(pk=pk, **r) for pk, r in rng.sample(sorted(rows.items(), key=str), min(3, len(rows))) if table[pk] == (set(), set())
    ]
    for parent in parents:
        got = call(d, parent, what)
        ctx.count("corrupted_checks")
        inside = set(rows)
        optional = set()
        if parent is not None:
            inside = {pk for pk, r in rows.items() if r["path"].startswith(parent.path)}
            optional = {pk for pk, r in rows.items() if r["path"].lower().startswith(parent.path.lower())} - inside
        judge_mp(ctx, cfg, rows, table, got, inside, optional, what, parent)
    ctx.saw(cfg.name, d.ref.shape(), tuple(what))


def judge_mp(ctx, cfg, rows, table, got, inside, optional, what, parent):
    label = f"{cfg.name}: find_problems({'' if parent is None else 'parent=' + parent.path}) after {what}"
    ctx.check(isinstance(got, tuple) and len(got) == 5, "problems", f"{label} returned {got!r}")
    reported = {}
    for i, lst in enumerate(got):
        for pk in lst:
            ctx.check(pk not in reported, "problems", f"{label} reports node {rows.get(pk)} twice: {names(got)}")
            reported[pk] = i
    for pk in inside:
        must, may = table[pk]
        ctx.count("nodes_classified")
        i = reported.pop(pk, None)
        if i is None:
            ctx.check(not must, "problems", f"{label} does not report {rows[pk]}, which belongs in lists {sorted(must)}")
        else:
            ctx.check(
                i in must | may, "problems", f"{label} reports {rows[pk]} in list {i}; it belongs in {sorted(must)}: {rows}"
            )
    extra = {pk: i for pk, i in reported.items() if pk not in optional}
    ctx.check(not extra, "problems", f"{label} reports nodes it was not asked about: {extra}")


# ------------------------------------------------------------------ nested sets
def ns_corrupt(ctx):
    cfg = pick_cfg(ctx, by_kind(ctx, "NS"))
    rng, base = ctx.rng, cfg.base
    d = raw_tree(ctx, cfg, rng.randrange(2, 16))
    healthy = dict(d.rows)
    what = []
    for _ in range(rng.choice((1, 1, 1, 2))):
        kind = rng.choice(("reversed", "overlap", "twin", "depth", "depth", "swap"))
        n = d.pick()
        r = d.rows[n.pk]
        upds = []
        if kind == "reversed":
            upds = [(n, {"rgt": rng.choice((r["lft"], max(0, r["lft"] - 1)))})]
        elif kind == "swap":
            upds = [(n, {"rgt": r["lft"], "lft": r["rgt"]})]
        elif kind == "depth":
            upds = [(n, {"depth": rng.choice([x for x in (0, 1, r["depth"] - 1, r["depth"] + 1, 40) if x != r["depth"] and x >= 0])})]
        elif kind == "overlap":
            sib = [s for s in n.parent.children if s is not n and s.parent.pk is not None]
            if not sib:
                continue
            s = d.rows[rng.choice(sib).pk]
            if s["lft"] > r["lft"]:
                upds = [(n, {"rgt": rng.choice((s["lft"], s["rgt"]))})]
            else:
                upds = [(n, {"lft": rng.choice((s["lft"], s["rgt"]))})]
        else:
            roots = d.ref.roots()
            if len(roots) < 2:
                continue
            a, b = rng.sample(roots, 2)
            shift = d.rows[a.pk]["rgt"]
            upds = [
                (x, {
                    "tree_id": d.rows[a.pk]["tree_id"], "lft": d.rows[x.pk]["lft"] + shift,
                    "rgt": d.rows[x.pk]["rgt"] + shift,
                })
                for x in b.walk()
            ]
        for x, u in upds:
            plain(base).filter(pk=x.pk).update(**u)
        what.append(f"{kind} {d.where(n)}: {upds[0][1]}")
        d.snapshot()
    if not what:
        return
    rows = d.snapshot()
    ctx.note("; ".join(what))
    got = call(d, None, what)
    judge_ns(ctx, cfg, rows, got, what)
    ctx.saw(cfg.name, d.ref.shape(), tuple(what))
    # a parent outside the damage: only what is inside it counts
    for n in rng.sample(d.ref.all(), min(3, len(d.ref))):
        r = rows[n.pk]
        anc = n.ancestors()
        if len(what) > 1 or any(rows[x.pk] != healthy[x.pk] for x in [n, *anc]):
            continue
        around = {
            pk for pk, x in rows.items() if x["tree_id"] == r["tree_id"] and x["lft"] < r["lft"] and x["rgt"] > r["rgt"]
        }
        if around != {x.pk for x in anc}:
            continue
        inside = {pk: x for pk, x in rows.items() if x["tree_id"] == r["tree_id"] and x["lft"] >= r["lft"] and x["rgt"] <= r["rgt"]}
        sub = call(d, base(pk=n.pk, **r), what)
        ctx.count("corrupted_checks")
        ctx.check(
            all(pk in inside for lst in sub for pk in lst), "problems",
            lambda: f"{cfg.name}: find_problems(parent={r}) after {what} reports nodes outside the parent: {sub}",
        )
        if all(rows[x.pk] == healthy[x.pk] for x in n.walk()) and len(inside) == len(n.walk()):
            ctx.check(
                not any(sub), "problems",
                lambda: f"{cfg.name}: find_problems(parent={r}) after {what} reports {sub} in a healthy subtree",
            )


def judge_ns(ctx, cfg, rows, got, what):
    label = f"{cfg.name}: find_problems() after {what}"
    ctx.check(isinstance(got, tuple) and len(got) == 4, "problems", f"{label} returned {got!r}")
    ctx.count("corrupted_checks")
    flat = [pk for lst in got for pk in lst]
    ctx.check(len(flat) == len(set(flat)), "problems", f"{label} reports a node twice: {names(got)}")
    rev, over, dup, wrong = (set(x) for x in got)
    show = f"{names(got)} for {rows}"
    want_rev = {pk for pk, r in rows.items() if r["rgt"] <= r["lft"]}
    ctx.check(rev == want_rev, "problems", f"{label}: list 1 should be {want_rev}: {show}")
    trees = {}
    for pk, r in rows.items():
        if pk not in want_rev:
            trees.setdefault(r["tree_id"], {})[pk] = r
    all_over, all_top = set(), set()
    for tree in trees.values():
        overlapping, top = set(), set(tree)
        for a, x in tree.items():
            for b, y in tree.items():
                if a == b:
                    continue
                if y["lft"] < x["lft"] and x["rgt"] < y["rgt"]:
                    top.discard(a)
                elif not (x["rgt"] < y["lft"] or y["rgt"] < x["lft"] or (x["lft"] < y["lft"] and y["rgt"] < x["rgt"])):
                    overlapping.add(a)
                    ctx.check(
                        a in over or b in over, "problems", f"{label}: {x} and {y} overlap, but neither is in list 2: {show}"
                    )
        all_over |= overlapping
        all_top |= top
        if not overlapping:
            ctx.check(
                len(top & dup) >= len(top) - 1, "problems", f"{label}: the root-level nodes {top} share a tree: {show}"
            )
        for a, x in tree.items():
            ctx.count("nodes_classified")
            if a in overlapping or any(tree[o]["lft"] <= x["rgt"] and x["lft"] <= tree[o]["rgt"] for o in overlapping):
                continue
            level = 1 + sum(1 for y in tree.values() if y["lft"] < x["lft"] and x["rgt"] < y["rgt"])
            if x["depth"] != level:
                ctx.check(a in wrong or a in dup, "problems", f"{label}: {x} is nested at depth {level}, not in list 4: {show}")
            else:
                ctx.check(a not in wrong, "problems", f"{label}: {x} is nested at depth {level}, but is in list 4: {show}")
        if overlapping:
            continue
        ctx.check(not (dup & set(tree)) or len(top) > 1, "problems", f"{label}: list 3 names nodes of a one-root tree: {show}")
    ctx.check(over <= all_over, "problems", f"{label}: list 2 names nodes that overlap nothing: {show}")
    if not all_over:
        ctx.check(dup <= all_top, "problems", f"{label}: list 3 names nodes that are not at the root: {show}")


WORKLOADS = [
    Workload("healthy", healthy, 200, 3000, aspects=ASPECTS),
    Workload("mp_corrupt", mp_corrupt, 700, 12000, aspects=ASPECTS),
    Workload("ns_corrupt", ns_corrupt, 400, 7000, aspects=ASPECTS),
]
