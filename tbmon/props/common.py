"""Pieces shared by the property modules."""

import json

from django.db import connections

from .. import decode as dec
from ..core import HOME
from ..engine import REGIMES, Cfg, Driver, cfgs, clear, new_data, random_forest, raw_build  # noqa: F401

ASSUME = [
    "Histories are sequential on one connection unless the workload says otherwise.",
    "Handles passed to an operation are fresh, or were returned, received or fetched earlier and describe a row that has "
    "not changed since, as the caveats page asks.",
    "The decoders and the reference forest of tbmon are right; Django, SQLite and PostgreSQL behave as documented.",
]


def usual(ctx):
    return [n for n, c in cfgs(ctx.backend).items() if not c.special]


def narrow(ctx, names):
    """Only the configurations with managers of their own, in a check that is about those."""
    if ctx.odd_models:  # not only those
        c = cfgs(ctx.backend)
        alike = {(c[n].kind, c[n].sorted) for n in names}
        odd = [n for n in c if c[n].odd and (c[n].kind, c[n].sorted) in alike]
        odd += [n for n in odd if n.startswith("LT")]  # only PostgreSQL has them
        return list(names) + odd * max(1, len(names) // len(odd) // 2) if len(names) > 1 and odd else list(names)
    return [n for n in names if cfgs(ctx.backend)[n].own_manager] if ctx.own_managers else list(names)


def pick_cfg(ctx, names=None, exclude=()):
    c = cfgs(ctx.backend)
    every = names is None
    names = narrow(ctx, [n for n in (names or usual(ctx)) if n in c and n not in exclude])
    if ctx.backend == "psql" and every:
        names = names + [n for n in names if n.startswith("LT")]  # only PostgreSQL has them
    return c[names[ctx.index % len(names)]]


def coded(ctx):
    """Configurations with text keys."""
    from ..vapp import models as m

    return [Cfg(n, getattr(m, n)) for n in ("AL_C", "MP_C", "NS_C", "LT_C") if hasattr(m, n)]


def by_kind(ctx, *kinds, sorted=None, exclude=()):
    """Names of the configurations of these implementations."""
    out = []
    for n, c in cfgs(ctx.backend).items():
        if c.kind in kinds and not c.special and n not in exclude and (sorted is None or c.sorted == sorted):
            out.append(n)
    return narrow(ctx, out)


def history(ctx, cfg=None, weights=None, n=None, regime=None, raw=None, hooks=(), handles=0.6, **kw):
    cfg = cfg or pick_cfg(ctx)
    d = Driver(ctx, cfg, regime=regime, weights=weights, handles=handles, **kw)
    ctx.note(f"model={cfg.name} regime={d.regime}")
    ctx.count("model:" + cfg.name)
    d.post_hooks += hooks
    d.start(raw)
    d.run(n or ctx.rng.choice((6, 12, 25)))
    return d


def raw_tree(ctx, cfg, n=None, regime=None, data=None, gaps=True, max_children=None, alias=HOME):
    """A Driver over a tree written straight into the table."""
    d = Driver(ctx, cfg, alias=alias, regime="medium")
    rng = ctx.rng
    clear(cfg.base, alias)
    regime = regime or rng.choice(("mixed", "mixed", "wide", "deep"))
    f = random_forest(cfg, rng, n if n is not None else rng.randrange(1, 26), regime, data, max_children)
    d.ref = raw_build(cfg, f, rng, alias, gaps)
    d.snapshot()
    ctx.note(f"model={cfg.name} tree={d.ref.shape()[:200]}")
    ctx.count("model:" + cfg.name)
    ctx.count("raw_built_trees")
    return d


def distinct_data(cfg, rng):
    """Payloads that never tie under node_order_by."""
    seen = [0]

    def make():
        seen[0] += 1
        d = new_data(cfg, rng)
        d["name"] += f".{seen[0]:03d}"
        return d

    return make


def whole_table(model, using=HOME):
    """Every row of a model's own table, as plain tuples."""
    conn = connections[using]
    qn = conn.ops.quote_name
    cols = [qn(f.column) + ("::text" if f.db_type(conn) == "ltree" else "") for f in model._meta.local_concrete_fields]
    with conn.cursor() as cur:
        cur.execute(f"SELECT {', '.join(cols)} FROM {qn(model._meta.db_table)}")
        return sorted(cur.fetchall(), key=repr)


def family(cfg):
    """All the models whose tables an operation on this configuration may touch."""
    from ..vapp import models as m

    base = dec.base_of(cfg.base)
    out = [base]
    out += [s for s in dec.subclasses(base) if not s._meta.proxy and not s._meta.abstract]
    out += list(m.DEPS.get(base, {}).values())
    out += [f.remote_field.through for f in base._meta.local_many_to_many]
    return out


def everything(cfg, using=HOME):
    return {m._meta.label: whole_table(m, using) for m in family(cfg)}


def show(x):
    return json.dumps(x, default=str, ensure_ascii=True)[:400]


def invoke(fn, *args):
    """Call `fn` from a frame of this file: a warning that names the wrong frame then names this file."""
    return fn(*args)
