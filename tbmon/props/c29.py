"""The other properties' workloads on models whose manager is their own, and what the tree API's querysets are made of."""

from django.db.models import QuerySet

from ..core import Workload
from . import c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c17, c18, c19, c20, c23, c24, c28
from .common import ASSUME, cfgs, pick_cfg, raw_tree

RULE = (
    "A case is a case of another property's workload (histories of all operations, reading, dumps and loads, faults, signals, "
    "find_problems and fix_tree, concurrent inserts, forms and admin pages), on models whose `objects` is a manager of their "
    "own: one follows relations (select_related, prefetch_related), annotates, and has a queryset class of its own; the other "
    "loads two columns and leaves the rest deferred. The oracles are those of the other properties. In `results`, the class, "
    "the methods and the annotations of every queryset that the navigation methods return are compared with the manager's. "
    "Distinct: (workload, case)."
)
ASSUMPTIONS = [
    *ASSUME,
    "A manager of one's own adds to the queryset of treebeard's manager: it hides no rows, keeps the order and adds no "
    "aggregates.",
]
REQUIRED = {
    "own_cases": 700, "op:move": 400, "op:delete": 100, "refined_deletions": 20, "querysets_compared": 1500,
    "own_nodes_compared": 3000, "dumps": 20, "faults": 100,
    "models_checked": 80, "models_reported": 15,
}
SQLITE_FILES = True


def owned(fn):
    def run(ctx):
        ctx.own_managers = True
        ctx.count("own_cases")
        ctx.saw(fn.__module__, fn.__name__, ctx.index)
        fn(ctx)

    run.__name__ = fn.__name__
    return run


def results(ctx):
    ctx.own_managers = True
    rng = ctx.rng
    cfg = pick_cfg(ctx)
    d = raw_tree(ctx, cfg, n=rng.randrange(1, 20))
    M = cfg.base.objects
    own = type(M.all())
    extra = "upper" if cfg.rel else "tagged"
    made = {"get_root_nodes()": M.get_root_nodes()}
    if cfg.kind != "AL":
        made["get_tree()"] = M.get_tree()
        made["get_descendants_group_count()"] = M.get_descendants_group_count()
    for n in rng.sample(d.ref.all(), min(4, len(d.ref))):
        h = d.fetch(n)
        where = d.where(n)
        for name in ("get_children", "get_descendants", "get_ancestors", "get_siblings"):
            made[f"{name}({where})"] = getattr(M, name)(h)
        if cfg.kind != "AL":
            made[f"get_tree({where})"] = M.get_tree(h)
            made[f"get_descendants_group_count({where})"] = M.get_descendants_group_count(h)
    for name, qs in made.items():
        if not isinstance(qs, QuerySet) and (cfg.kind == "AL" or "count" in name):
            continue  # these are lists
        desc = f"{cfg.name} {d.ref.shape()[:150]}: {name}"
        ctx.check(isinstance(qs, own), "own:queryset", lambda: f"{desc} is a {type(qs).__name__}, not a {own.__name__}")
        nodes = list(qs)
        ctx.check(
            all(hasattr(x, extra) for x in nodes), "own:queryset", lambda: f"{desc}: nodes without the manager's annotation"
        )
        if cfg.rel:
            ctx.check(
                all("tag" in x._state.fields_cache or x.tag_id is None for x in nodes), "own:queryset",
                lambda: f"{desc}: the relations which the manager follows weren't followed",
            )
            ctx.check(
                all("tags" in x._prefetched_objects_cache for x in nodes), "own:queryset",
                lambda: f"{desc}: the relations which the manager prefetches weren't prefetched",
            )
        if hasattr(own, "noted"):
            got = [x.pk for x in qs.noted()]
            want = [x.pk for x in nodes if x.note != ""]
            ctx.check(got == want, "own:queryset", lambda: f"{desc}.noted() is {got}, expected {want}")
            ctx.count("own_methods_called")
        ctx.count("querysets_compared")
        ctx.count("own_nodes_compared", len(nodes))
    ctx.saw(cfg.name, "results", d.ref.shape())


PARTS = [
    # module, workload, quick cases of each backend
    (c01, None, 60), (c02, None, 60), (c03, "deletes", 40), (c03, "refined", 50), (c04, None, 30), (c05, None, 15),
    (c06, "after_history", 25), (c07, "after_history", 25), (c08, None, 40), (c09, "statements", 25), (c09, "handlers", 25),
    (c10, None, 40), (c11, "roundtrip", 50), (c11, "damaged", 15), (c12, None, 30), (c13, None, 20), (c14, None, 20),
    (c15, None, 40), (c17, "same_parent", 40), (c18, "requests", 20), (c19, None, 20), (c20, None, 40), (c23, None, 15),
    (c24, None, 10), (c28, None, 10),
]
def system_check(ctx):
    """The system check reports exactly the models whose default manager is not one of their implementation."""
    from django.core.checks.model_checks import check_all_models
    from django.db import models
    from django.test.utils import isolate_apps

    rng = ctx.rng
    made = cfgs(ctx.backend)
    kinds = [k for k in ("AL", "MP", "NS", "LT") if k + "_N" in made]
    with isolate_apps("tbmon.vapp") as isolated:
        want = {}
        for i in range(rng.randrange(1, 5)):
            kind = rng.choice(kinds)
            node = made[kind + "_N"].base.__mro__[1]
            right = node._DEFAULT_TREEBEARD_MANAGER
            others = [made[k + "_N"].base._DEFAULT_TREEBEARD_MANAGER for k in kinds if k != kind]

            def manager(good):
                cls = right if good else rng.choice([models.Manager, *others])
                how = rng.randrange(3)
                if how == 1:
                    cls = type(f"Own{i}", (cls,), {"__module__": __name__})
                elif how == 2:
                    cls = cls.from_queryset(type(f"Set{i}", (cls._queryset_class,), {}))
                if not good and rng.random() < 0.2:
                    return QuerySet.as_manager()
                return cls()

            attrs = {"name": models.CharField(max_length=9)}
            if kind == "AL":
                attrs["parent"] = models.ForeignKey("self", null=True, on_delete=models.CASCADE, related_name="children_set")
                attrs["sib_order"] = models.IntegerField()
            good = True
            ways = rng.choice(("none", "one", "two", "named"))
            if ways != "none":
                good = rng.random() < 0.5
            meta = {"app_label": "vapp"}
            if ways == "one":
                attrs["objects"] = manager(good)
            elif ways == "two":  # the first one is the default
                attrs["objects" if good else "first"] = manager(good)
                attrs["other" if good else "objects"] = manager(not good)
            elif ways == "named":
                attrs["other"] = manager(not good)
                attrs["objects"] = manager(good)
                meta["default_manager_name"] = "objects"

            def build(name, bases, own, **options):
                own = {"__module__": __name__, "Meta": type("Meta", (), {"app_label": "vapp", **options}), **own}
                return type(name, bases, own)

            name = f"Checked{i}"
            if rng.random() < 0.4:  # all of it is inherited
                parent = type(f"AbstractBase{i}", (node,), {
                    "__module__": __name__, "Meta": type("Meta", (), {"abstract": True, **meta}), **{
                        k: v if not isinstance(v, models.Field) else v.clone() for k, v in attrs.items()}})
                model = type(name, (parent,), {"__module__": __name__, "Meta": type("Meta", (parent.Meta,), {"abstract": False})})
            else:
                model = build(name, (node,), attrs, **meta)
            want[model] = good
            if rng.random() < 0.3:
                want[build(name + "Proxy", (model,), {}, proxy=True)] = good
        errors = check_all_models([isolated.get_app_config("vapp")])
        got = {}
        for model in want:
            mine = [e for e in model.check() if e.id == "treebeard.E001"]
            got[model] = not mine
            ctx.count("models_checked")
            ctx.count("models_reported", int(bool(mine)))
        all_of_them = len([e for e in errors if e.id == "treebeard.E001"])
        names = {m.__name__: v for m, v in want.items()}
        ctx.check(got == want, "own:check", lambda: f"found fit: { {m.__name__: v for m, v in got.items()} }, expected {names}")
        ctx.check(
            all_of_them == list(want.values()).count(False), "own:check",
            lambda: f"{all_of_them} reports in the run of all checks, expected for {names}",
        )
        ctx.saw("check", tuple(want.values()))


WORKLOADS = [
    Workload("results", results, 80, 1500, aspects=("own:*",)),
    Workload("system_check", system_check, 60, 800, aspects=("own:*", "exception")),
]
for _m, _only, _n in PARTS:
    for _w in _m.WORKLOADS:
        if _only in (None, _w.name):
            WORKLOADS.append(
                Workload(
                    f"{_m.__name__[-3:]}.{_w.name}", owned(_w.fn), _n, _n * 15, backends=_w.backends,
                    aspects=("exception", *_w.aspects),
                )
            )
