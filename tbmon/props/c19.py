from .. import web
from ..core import HOME, Workload
from ..engine import Guard
from .common import ASSUME, distinct_data, everything, pick_cfg, raw_tree

RULE = (
    "A case is a random forest seen through the admin of a base, proxy or child model: the change list and the lazily "
    "loaded children of nodes, all pages of them, by users of six roles, with searches and column sorts; the rows, their "
    "order and their context records are compared with the reference forest. delete_selected and the delete view remove "
    "whole subtrees, also of nodes that only the expanded list shows. Distinct: (configuration, role, request, shape)."
)
ASSUMPTIONS = [
    *ASSUME,
    "has-children of a multi-table child model's list is not judged (its children may be nodes of other models).",
]
REQUIRED = {"requests": 2000, "rows_compared": 1000, "deletions": 100}
ASPECTS = ("adminlist", "delete:*")


def judge_rows(ctx, d, model, role, rows, ctxs, want, parent, label, ordered=True):
    cfg = d.cfg
    got = [str(pk) for pk in rows]
    expect = [str(n.pk) for n in want]
    ctx.count("rows_compared", len(got))
    if ordered and not cfg.odd:  # the changelist follows an ordering in the model's Meta
        ctx.check(got == expect, "adminlist", lambda: f"{label}: rows {got}, expected {expect}")
    else:
        ctx.check(sorted(got) == sorted(expect), "adminlist", lambda: f"{label}: rows {got}, expected {expect}")
    ctx.check(len(ctxs) == len(got), "adminlist", f"{label}: {len(ctxs)} contexts for {len(got)} rows")
    keys = {str(x.pk) for x in d.ref.all()}
    for pk, c in zip(got, ctxs):
        n = next(x for x in want if str(x.pk) == pk)
        can = role == "super" or role == "staff_change"
        if cfg.name.endswith("_R") and n.data["note"].startswith("locked"):
            can = False
        wanted = {"node-id": pk, "level": n.depth, "can-change": int(can)}
        if parent:
            wanted["parent-id"] = str(parent.pk)
        else:  # whatever stands for no parent
            ctx.check(
                str(c.get("parent-id")) not in keys, "adminlist", f"{label}: row {pk} has {c}, and it is a root"
            )
        if model._meta.concrete_model is cfg.base._meta.concrete_model:
            wanted["has-children"] = int(bool(n.children))
        ctx.check(
            {k: v for k, v in c.items() if k in wanted} == wanted, "adminlist", f"{label}: row {pk} has {c}, expected {wanted}"
        )


def visible(model, cfg, nodes, specific):
    if model._meta.concrete_model is cfg.base._meta.concrete_model:
        return list(nodes)
    return [n for n in nodes if n.pk in specific]


def listing(ctx):
    cfg = pick_cfg(ctx)
    rng = ctx.rng
    if len({c._meta.concrete_model for c in cfg.creators}) > 1:
        from .common import history

        # a sorted parent model, or a base whose nodes are partly of the child model
        d = history(ctx, cfg, n=rng.randrange(4, 14), raw=False, regime="medium", weights={"delete": 0.2, "add_root": 3})
        if cfg.al_sorted():
            return
    else:
        d = raw_tree(ctx, cfg, rng.randrange(0, 22), data=distinct_data(cfg, rng))
    model = rng.choice(cfg.creators if rng.random() < 0.7 else [cfg.base])
    specific = set(model.objects.values_list("pk", flat=True)) if model is not cfg.base else set(d.ref.nodes)
    if cfg.name.endswith("_R") and len(d.ref):
        from ..engine import plain

        n = d.pick()
        n.data["note"] = "locked"
        plain(cfg.base).filter(pk=n.pk).update(note="locked")
    role = rng.choices(web.ROLES, (8, 4, 4, 1, 1, 1))[0]
    client = web.client(role, model)
    before = everything(cfg)
    nodes = d.ref.all()
    parents = [None, *rng.sample(nodes, min(4, len(nodes)))]
    params = {}
    x = rng.random()
    if x < 0.2 and nodes:
        params["q"] = rng.choice(nodes).data["name"].strip()[:6] or "a"
    elif x < 0.35:
        params["o"] = rng.choice(("1", "-1"))
    for parent in parents:
        kids = (parent or d.ref.top).children
        if parent is not None and parent.pk not in specific:
            kids = None
        want = None if kids is None else visible(model, cfg, kids, specific)
        look(ctx, d, model, role, client, parent, want, params)
    # keys that are no nodes
    for bad in (["999999999", "x", "-0.5", "-1"] if rng.random() < 0.3 else []):
        r = client.get(web.url(model, f"children/{bad}/"))
        ctx.count("requests")
        want = 302 if role in ("anonymous", "user") else 403 if role == "staff_none" else 404
        ctx.check(
            r.status_code == want, "adminlist", f"{cfg.name}: children of {bad!r} by {role} answered {r.status_code}, expected {want}"
        )
    if rng.random() < 0.4:
        odd_methods(ctx, cfg, model, role, client, before)
    ctx.check(everything(cfg) == before, "adminlist", f"{cfg.name}: looking at the list changed the database")


def look(ctx, d, model, role, client, parent, want, params):
    cfg = d.cfg
    rest = f"children/{parent.pk}/" if parent is not None else ""
    label0 = f"{cfg.name} {d.ref.shape()[:150]}: {role} GET {model.__name__} {d.where(parent) if parent else '(list)'} {params}"
    rows, ctxs = [], []
    page, pages = 1, 1
    while page <= pages:
        q = dict(params, **({"p": page} if page > 1 else {}))
        with Guard(HOME):
            r = client.get(web.url(model, rest), q)
        ctx.count("requests")
        ctx.saw(cfg.name, model.__name__, role, d.ref.shape(), parent and d.where(parent), tuple(q.items()))
        label = f"{label0} answered {r.status_code}"
        ctx.note(label)
        if role in ("anonymous", "user"):
            ctx.check(r.status_code == 302, "adminlist", label)
            return
        if role == "staff_none":
            ctx.check(r.status_code == 403, "adminlist", label)
            return
        if want is None:
            ctx.check(r.status_code == 404, "adminlist", label + ", expected 404")
            return
        ctx.check(r.status_code == 200, "adminlist", label)
        if parent is None:
            html = web.Page(r.content.decode())
            got, cs = html.row_pks(), html.contexts()
            per = r.context_data["cl"].list_per_page if hasattr(r, "context_data") else 200
            pages = max(1, -(-r.context_data["cl"].result_count // per))
        else:
            data = r.json()
            got, cs = web.Page(data["result_html"]).row_pks(), data["tree_context"]
            ctx.check(data["page"] == page, "adminlist", f"{label}: page {data['page']}")
            pages = data["num_pages"]
        ctx.check(
            [str(c["node-id"]) for c in cs] == [str(g) for g in got], "adminlist",
            lambda: f"{label}: the context records are of {[c['node-id'] for c in cs]}, the rows of {got}",
        )
        rows += got
        ctxs += cs
        page += 1
    if "q" in params:
        q = params["q"].lower()
        words = q.split()
        sure = q.isascii() and '"' not in q and "'" not in q
        want2 = [n for n in want if all(w in n.data["name"].lower() for w in words)]
        if not sure:  # quoting rules of the search box are Django's
            want2 = [n for n in want if str(n.pk) in rows]
        want = want2
    judge_rows(ctx, d, model, role, rows, ctxs, want, parent, label0, ordered="o" not in params)


def odd_methods(ctx, cfg, model, role, client, before):
    """Requests that a browser does not send by itself: they show the list, or redirect, and change nothing."""
    rng = ctx.rng
    kind = rng.choice(("head", "empty post", "no selection", "no action", "unknown action", "save"))
    path = web.url(model)
    if kind == "head":
        r = client.head(path)
    else:
        data = {
            "empty post": {},
            "no selection": {"action": "delete_selected", "index": "0"},
            "no action": {"action": "", "_selected_action": ["1"], "index": "0"},
            "unknown action": {"action": "explode", "_selected_action": ["1"]},
            "save": {"_save": "1", "_selected_action": ["1"], "index": "0"},
        }[kind]
        r = client.post(path, data)
    ctx.count("requests")
    ctx.saw(cfg.name, role, kind)
    allowed = (200, 302) if role in ("super", "staff_change", "staff_view") else (302, 403)
    ctx.check(r.status_code in allowed, "adminlist", f"{cfg.name}: {role} {kind} to the change list answered {r.status_code}")
    ctx.check(everything(cfg) == before, "adminlist", f"{cfg.name}: {role} {kind} to the change list changed the database")


def deletion(ctx):
    cfg = pick_cfg(ctx)
    rng = ctx.rng
    d = raw_tree(ctx, cfg, rng.randrange(1, 16), data=distinct_data(cfg, rng))
    model = rng.choice([c for c in cfg.creators if c._meta.concrete_model is cfg.base._meta.concrete_model] + [cfg.base])
    role = rng.choices(("super", "staff_change", "staff_view"), (8, 1, 1))[0]
    client = web.client(role, model)
    before = everything(cfg)
    d.opno = 1
    if rng.random() < 0.7:
        sel = rng.sample(d.ref.all(), min(len(d.ref), rng.choice((1, 1, 2, 4))))
        confirm = rng.random() < 0.8
        data = {"action": "delete_selected", "_selected_action": [str(n.pk) for n in sel]}
        if confirm:
            data["post"] = "yes"
        desc = f"{role} delete_selected {[d.where(n) for n in sel]} confirm={confirm}"
        with Guard(HOME):
            r = client.post(web.url(model), data)
    else:
        sel = [d.pick()]
        confirm = rng.random() < 0.8
        desc = f"{role} delete view of {d.where(sel[0])} confirm={confirm}"
        with Guard(HOME):
            r = client.post(web.url(model, f"{sel[0].pk}/delete/"), {"post": "yes"} if confirm else {})
    ctx.count("requests")
    ctx.note(desc)
    label = f"{cfg.name} {d.ref.shape()[:200]}: {desc} answered {r.status_code}"
    ctx.saw(cfg.name, desc, d.ref.shape())
    ctx.check(r.status_code in (200, 302, 403), "adminlist", label)
    if role != "super" or not confirm:
        ctx.check(everything(cfg) == before, "adminlist", f"{label} and changed the database")
        return
    d.ref.remove(sel)
    ctx.count("deletions")
    d.after("delete", desc)


WORKLOADS = [
    Workload("listing", listing, 330, 5000, aspects=ASPECTS),
    Workload("deletion", deletion, 160, 2500, aspects=ASPECTS),
]
