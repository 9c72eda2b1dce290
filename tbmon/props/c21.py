"""Base, proxy and multi-table child models over one tree."""

from .. import decode as dec
from ..core import Workload
from ..engine import cfgs, plain
from ..obtain import obtain
from .common import ASSUME, history

RULE = (
    "A case is a seeded history on a tree whose nodes are created and handled through the base model, a child model, a "
    "grandchild model and proxies of each; after every operation the rows of every child table are compared with the class "
    "that each node was created as and the values it was given; then every navigation query is asked through every class, "
    "and the classes of the objects it returns are compared with the documented ones. Distinct: (configuration, query, "
    "manager class, handle class, place)."
)
ASSUMPTIONS = ASSUME
REQUIRED = {"child_rows_compared": 1500, "types_compared": 20000, "reached_as_child": 500}
ASPECTS = ("inherit:*", "*:return", "add_*", "move:*", "delete:*", "exception")


def concrete_chain(cls, base):
    """The child models (not the base) whose tables hold a row for a node of this class."""
    out = []
    for c in cls.__mro__:
        if getattr(c, "_meta", None) and not c._meta.abstract and c._meta.concrete_model not in (base, *out):
            if issubclass(c._meta.concrete_model, base):
                out.append(c._meta.concrete_model)
    return out


class Children:
    """Follows the rows of the child tables."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.base = dec.base_of(cfg.base)
        self.models = [s for s in dec.subclasses(self.base) if not s._meta.proxy and not s._meta.abstract]
        self.extra = {}

    def __call__(self, d, op, desc, rows, decoded):
        ctx = d.ctx
        for m in self.models:
            fields = [f.attname for f in m._meta.local_concrete_fields]
            link = m._meta.get_ancestor_link(self.base).attname if m._meta.get_ancestor_link(self.base) else m._meta.pk.attname
            own = m._meta.pk.attname
            got = {r[own]: {k: v for k, v in r.items() if k != own} for r in plain(m).values(*set(fields), own)}
            want = {n.pk for n in d.ref.all() if m in concrete_chain(n.cls or self.base, self.base)}
            ctx.count("child_rows_compared", len(want))
            ctx.check(set(got) == want, "inherit:rows", lambda: f"after {desc}: {m.__name__} has rows for {sorted(got)}, expected {sorted(want)} ({link})")
            for pk, vals in got.items():
                known = self.extra.setdefault((m, pk), vals)
                ctx.check(vals == known, "inherit:rows", lambda: f"after {desc}: {m.__name__} {pk} holds {vals}, was {known}")
        alive = set(d.ref.nodes)
        self.extra = {k: v for k, v in self.extra.items() if k[1] in alive}


def expected(cls, base):
    return cls if cls._meta.concrete_model is base else base


def queries(mgr, h):
    yield "get_children", lambda: list(mgr.get_children(h)), False
    yield "get_descendants", lambda: list(mgr.get_descendants(h)), False
    yield "get_ancestors", lambda: list(mgr.get_ancestors(h)), False
    yield "get_siblings", lambda: list(mgr.get_siblings(h)), False
    yield "get_tree", lambda: list(mgr.get_tree()), False
    yield "get_root_nodes", lambda: list(mgr.get_root_nodes()), False
    for name in ("get_parent", "get_first_child", "get_last_child", "get_prev_sibling", "get_next_sibling"):
        yield name, lambda name=name: getattr(mgr, name)(h), False
    # these may answer with the object that was passed
    for name in ("get_root", "get_first_sibling", "get_last_sibling"):
        yield name, lambda name=name: getattr(mgr, name)(h), True
    yield "get_first_root_node", mgr.get_first_root_node, False
    yield "get_last_root_node", mgr.get_last_root_node, False
    yield "get_descendants(include_self=True)", lambda: list(mgr.get_descendants(h, include_self=True)), True
    yield "get_tree(node)", lambda: list(mgr.get_tree(h)), True


def case(ctx):
    names = [n for n, c in cfgs(ctx.backend).items() if n.endswith("mix")]
    cfg = cfgs(ctx.backend)[names[ctx.index % len(names)]]
    rng = ctx.rng
    kids = Children(cfg)
    d = history(ctx, cfg, n=rng.choice((6, 12, 20)), raw=rng.random() < 0.3, regime=rng.choice(("small", "medium", "churn")), hooks=[kids])
    base = kids.base
    nodes = d.ref.all()
    for n in rng.sample(nodes, min(4, len(nodes))):
        hc = rng.choice(d.classes_for(n))
        h = obtain(ctx, hc, n.pk)
        cls = rng.choice([*cfg.creators, cfg.base])
        want = expected(cls, base)
        # the cached parent of a handle is of the class that asked first
        h = obtain(ctx, hc, n.pk)
        for name, ask, self_ok in queries(cls.objects, h):
            h.__dict__.pop("_cached_parent_obj", None)
            try:
                got = ask()
            except Exception as exc:
                ctx.fail("inherit:types", f"{cls.__name__}.objects.{name}({hc.__name__}) raised {exc!r}")
            for o in got if isinstance(got, list) else [got]:
                if o is None:
                    continue
                ctx.count("types_compared")
                good = type(o) is want or (self_ok and type(o) is type(h) and o.pk == h.pk)
                if base._meta.label.startswith("vapp.AL") and name == "get_parent":
                    good = good or issubclass(type(o), base)
                ctx.check(
                    good, "inherit:types",
                    lambda: f"{cls.__name__}.objects.{name} of a {hc.__name__} returned a {type(o).__name__}, expected {want.__name__}",
                )
        # every class reaches exactly its own nodes
        ctx.saw(cfg.name, cls.__name__, hc.__name__, d.where(n), d.ref.shape())
    for c in {x for x in cfg.creators}:
        chain = set(concrete_chain(c, base))
        want = {n.pk for n in nodes if chain <= set(concrete_chain(n.cls or base, base))}
        got = [o.pk for o in c.objects.all()]
        ctx.count("reached_as_child", len(want))
        ctx.check(
            sorted(got, key=str) == sorted(want, key=str), "inherit:rows",
            lambda: f"{c.__name__}.objects.all() has {got}, expected {sorted(want, key=str)}",
        )
        if cfg.kind != "AL":
            order = [n.pk for n in nodes if n.pk in want]
            ctx.check(got == order, "inherit:rows", lambda: f"{c.__name__}.objects.all() is in the order {got}, expected {order}")


WORKLOADS = [Workload("classes", case, 500, 8000, aspects=ASPECTS)]
