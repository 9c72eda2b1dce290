from django.db.models import ProtectedError

from .. import decode as dec
from ..core import Workload
from .common import ASSUME, cfgs, everything, family, history, pick_cfg, raw_tree, whole_table

RULE = (
    "A case is a seeded history in which nodes are deleted one by one, by queryset, through children/descendants "
    "querysets and through proxy or child models; after each deletion the surviving rows (payload and structure) are "
    "compared with the reference forest. In the dependents workload, rows that refer to nodes with CASCADE, SET_NULL and "
    "PROTECT are compared too. Distinct: (configuration, shape before, set of deleted places)."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"op:delete": 500, "refined_deletions": 500, "dependents_deletions": 100, "protected_refusals": 20, "set_null_applied": 20}
ASPECTS = ("delete:*",)


def deletes(ctx):
    history(ctx, weights={"delete": 4})


def refined(ctx):
    """Deleting through querysets that were refined in ways which leave their selection alone."""
    d = raw_tree(ctx, pick_cfg(ctx), n=ctx.rng.randrange(8, 30))
    d.refine_rate = 1
    for _ in range(ctx.rng.randrange(2, 5)):
        if len(d.ref):
            d.opno += 1
            d.op_delete()


def dependents(ctx):
    from ..vapp import models as m

    names = [n for n in ("MP_N", "NS_N", "AL_N", "LT_N", "MP_mix", "NS_mix", "AL_mix", "LT_mix") if n in cfgs(ctx.backend)]
    cfg = cfgs(ctx.backend)[names[ctx.index % len(names)]]
    rng = ctx.rng
    d = raw_tree(ctx, cfg)
    deps = m.DEPS[dec.base_of(cfg.base)]
    for _ in range(rng.randrange(1, 4)):
        nodes = d.ref.all()
        if not nodes:
            break
        for kind, model in deps.items():
            rate = {"casc": 0.5, "null": 0.5, "prot": 0.05}[kind]
            for n in nodes:
                while rng.random() < rate:
                    model.objects.create(node_id=n.pk, label=str(rng.randrange(99)))
        before = everything(cfg)
        sel = rng.sample(nodes, min(len(nodes), rng.choice((1, 1, 2, 4))))
        gone = {x.pk for s in sel for x in s.walk()}
        protected = {r.node_id for r in deps["prot"].objects.all()} & gone
        casc = deps["casc"].objects.filter(node_id__in=gone).count()
        nulls = deps["null"].objects.filter(node_id__in=gone).count()
        mgr = rng.choice([c for c in cfg.creators if c._meta.concrete_model is cfg.base._meta.concrete_model])
        desc = f"delete {[d.where(s) for s in sel]} of {mgr.__name__} with dependents"
        ctx.note(desc)
        ctx.count("dependents_deletions")
        ctx.saw(cfg.name, d.ref.shape(), tuple(d.where(s) for s in sel), bool(protected), casc, nulls)
        keep_dep = {
            k: sorted((r.pk, None if k == "null" and r.node_id in gone else r.node_id) for r in mod.objects.all()
                      if not (k == "casc" and r.node_id in gone))
            for k, mod in deps.items()
        }
        try:
            if len(sel) == 1 and rng.random() < 0.5:
                out = d.fetch(sel[0]).delete()
            else:
                out = mgr.objects.filter(pk__in=[s.pk for s in sel]).delete()
        except ProtectedError as exc:
            ctx.check(protected, "delete:protect", lambda: f"{desc}: refused with {exc!r} though nothing is protected")
            ctx.check(everything(cfg) == before, "delete:protect", lambda: f"{desc}: refused, but something changed")
            ctx.count("protected_refusals")
            for r in deps["prot"].objects.all():
                r.delete()
            continue
        except Exception as exc:
            ctx.fail("delete:exception", f"{desc} raised {exc!r}")
        ctx.check(not protected, "delete:protect", lambda: f"{desc}: deleted nodes protected by a foreign key")
        d.ref.remove(sel)
        d.after("delete", desc)
        now = {k: sorted((r.pk, r.node_id) for r in mod.objects.all()) for k, mod in deps.items()}
        ctx.check(now == keep_dep, "delete:dependents", lambda: f"{desc}: dependents are {now}, expected {keep_dep}")
        lab = deps["casc"]._meta.label
        ctx.check(
            out[0] == sum(out[1].values()) and out[1].get(lab, 0) == casc,
            "delete:return",
            lambda: f"{desc} returned {out}, but {casc} rows of {lab} were deleted",
        )
        if nulls:
            ctx.count("set_null_applied")
        orphans = []
        for mod in family(cfg):
            if mod._meta.pk.remote_field and mod not in deps.values():
                alive = {r[0] for r in whole_table(dec.base_of(cfg.base))}
                orphans += [r for r in whole_table(mod) if r[0] not in alive]
        ctx.check(not orphans, "delete:dependents", lambda: f"{desc}: child-model rows without a node: {orphans[:3]}")


WORKLOADS = [
    Workload("deletes", deletes, 1100, 18000, aspects=ASPECTS),
    Workload("refined", refined, 500, 8000, aspects=ASPECTS),
    Workload("dependents", dependents, 250, 5000, aspects=ASPECTS),
]
