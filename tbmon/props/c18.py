from django.db.models.signals import post_save

from .. import web
from ..core import HOME, Workload
from ..engine import Guard
from .common import ASSUME, distinct_data, everything, pick_cfg, raw_tree

RULE = (
    "A case is a random forest and a series of requests to the admin's move endpoint, by users of six roles, with valid "
    "nodes, the node itself, its descendants, keys of nodes that do not exist or belong to another model, garbage, missing "
    "fields and the wrong method; after each request the whole database is compared with the reference forest moved as the "
    "drop says (as it was, where the request must be refused), as are the status and the messages. Distinct: "
    "(configuration, role, kind of request, shape, places)."
)
ASSUMPTIONS = [*ASSUME, "Requests are made with Django's test client, without a web server."]
REQUIRED = {"requests": 2000, "moves_done": 500, "refused_requests": 500}
ASPECTS = ("adminmove", "move:*")


def roles(rng):
    return rng.choices(web.ROLES, (8, 4, 1, 1, 1, 1))[0]


def case(ctx):
    cfg = pick_cfg(ctx)
    rng = ctx.rng
    d = raw_tree(ctx, cfg, rng.randrange(2, 16), data=distinct_data(cfg, rng))
    saved = []

    def on_save(sender, instance, **kw):
        saved.append((sender, instance.pk))

    post_save.connect(on_save, weak=False)
    try:
        for _ in range(rng.choice((3, 6, 9))):
            request(ctx, cfg, d, saved)
    finally:
        post_save.disconnect(on_save)


def request(ctx, cfg, d, saved):
    rng = ctx.rng
    role = roles(rng)
    model = rng.choice([c for c in cfg.creators if c._meta.concrete_model is cfg.base._meta.concrete_model] + [cfg.base])
    client = web.client(role, model)
    n, t = d.pick(), d.pick()
    if rng.random() < 0.2:
        t = rng.choice(n.walk())
    relation = rng.choice(("child", "sibling"))
    data = {"node": n.pk, "target": t.pk, "relation": relation}
    bad = None
    x = rng.random()
    if x < 0.12:
        bad = rng.choice(("node", "target", "relation"))
        if rng.random() < 0.3:
            del data[bad]
        else:
            data[bad] = rng.choice(("", "-0.5", "999999999", "x'", "-1", "null", "last-child", "first-sibling", "1" * 40))
    get = bad is None and x > 0.96
    locked = cfg.name.endswith("_R") and rng.random() < 0.25
    if locked:
        from ..engine import plain

        plain(cfg.base).filter(pk=n.pk).update(note="locked!")
        n.data["note"] = "locked!"
        d.snapshot()
    locked = cfg.name.endswith("_R") and n.data["note"].startswith("locked")
    before = everything(cfg)
    desc = f"{role} {'GET' if get else 'POST'} {web.url(model, 'move/')} node={d.where(n)} target={d.where(t)} {relation}" + (
        f" with a bad {bad}: {data.get(bad)!r}" if bad else ""
    )
    d.opno += 1
    ctx.note(f"{d.opno}: {desc}")
    ctx.count("requests")
    ctx.saw(cfg.name, role, bad, get, locked, d.ref.shape(), d.where(n), d.where(t), relation)
    del saved[:]
    with Guard(HOME):
        r = (client.get if get else client.post)(web.url(model, "move/"), data)
    may_ask = role in ("super", "staff_change", "staff_view")
    may_change = role in ("super", "staff_change")
    label = f"{cfg.name} {d.ref.shape()}: {desc} answered {r.status_code}"

    def refused(*codes):
        ctx.count("refused_requests")
        ctx.check(r.status_code in codes, "adminmove", f"{label}, expected {codes}")
        ctx.check(everything(cfg) == before, "adminmove", f"{label} and changed the database")

    if role in ("anonymous", "user"):
        return refused(302)
    if not may_ask:
        return refused(403)
    if bad or get:
        return refused(400)
    if not may_change or locked:
        return refused(403)
    if (t is n and relation == "child") or t.is_under(n):
        ctx.check(web.messages_of(r), "adminmove", f"{label} without a message")
        return refused(400)
    pos = {
        ("child", True): "sorted-child", ("child", False): "last-child",
        ("sibling", True): "sorted-sibling", ("sibling", False): "left",
    }[relation, cfg.sorted]
    if cfg.may_overflow and r.status_code == 400:
        parent = t if relation == "child" else t.parent
        from .c15 import num

        last = max([num(cfg, d.rows[c.pk]["path"][-cfg.base.steplen :]) for c in parent.children], default=0)
        deep = parent is not n.parent and parent.depth + n.height() > cfg.max_depth
        ctx.check(deep or last >= cfg.max_step, "adminmove", f"{label} although there is room")
        ctx.count("overflows")
        return refused(400)
    ctx.check(r.status_code == 200, "adminmove", f"{label}: {r.content[:200]!r}")
    ctx.check(web.messages_of(r), "adminmove", f"{label} without a message")
    ctx.count("moves_done")
    d.moves += 1
    d.ref_move(n, t, pos)
    d.after("move", desc)
    concrete = {(s._meta.concrete_model, pk) for s, pk in saved}
    ctx.check((cfg.base._meta.concrete_model, n.pk) in concrete, "adminmove", f"{label}, but post_save was not sent for the node")
    after = everything(cfg)
    for k in before:
        if k != cfg.base._meta.label:
            ctx.check(after[k] == before[k], "adminmove", f"{label} and changed {k}")


def csrf(ctx):
    """A forged request, without the token, moves nothing."""
    cfg = pick_cfg(ctx)
    rng = ctx.rng
    d = raw_tree(ctx, cfg, rng.randrange(2, 8))
    n, t = rng.sample(d.ref.all(), 2)
    before = everything(cfg)
    c = web.client("super", cfg.base, enforce_csrf_checks=True)
    r = c.post(web.url(cfg.base, "move/"), {"node": n.pk, "target": t.pk, "relation": "sibling"})
    ctx.count("forged_requests")
    ctx.saw(cfg.name, "csrf", d.ref.shape())
    ctx.check(
        r.status_code == 403 and everything(cfg) == before, "adminmove",
        f"{cfg.name}: a move without a CSRF token answered {r.status_code}",
    )


WORKLOADS = [
    Workload("requests", case, 330, 5000, aspects=ASPECTS),
    Workload("csrf", csrf, 20, 60, aspects=ASPECTS),
]
