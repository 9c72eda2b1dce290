"""An external mirror (a search index, say) is maintained from the documented signals alone, and compared with the table."""

from contextlib import ExitStack, contextmanager

from django.db.models.signals import post_delete, post_save

from treebeard.exceptions import PathOverflow

from .. import decode as dec
from ..core import HOME, Workload
from ..engine import Guard, clear, raw_build, random_forest
from .c09 import tree_signals
from .common import ASSUME, by_kind, history, pick_cfg, raw_tree

RULE = (
    "A case is a seeded history of tree operations (or load_bulk, a rebuild with fix_paths) while an external mirror of "
    "the tree columns is kept up to date from nothing but post_save and the documented treebeard signals; after every "
    "operation, and at every treebeard signal, the mirror is compared with the rows of the table. Senders, the database "
    "alias and the post_delete signals are compared too. Distinct: (configuration, operation, shape, signals sent)."
)
ASSUMPTIONS = [
    *ASSUME,
    "numchild is not mirrored (no signal speaks of it); after an operation that failed the mirror is read afresh, as its "
    "transaction was rolled back.",
]
REQUIRED = {"signals_applied": 2000, "mirror_comparisons": 2000}
ASPECTS = ("signal*",)
COLS = {"MP": ("path", "depth"), "NS": ("tree_id", "lft", "rgt", "depth"), "LT": ("path",)}


class Mirror:
    def __init__(self, ctx, cfg, alias=HOME, online=True):
        self.ctx, self.cfg, self.alias, self.online = ctx, cfg, alias, online
        self.cols = COLS[cfg.kind]
        self.rows = {}
        self.log = []
        self.deleted = set()
        self.post_deleted = []

    def read(self):
        return {pk: {c: r[c] for c in self.cols} for pk, r in dec.raw_rows(self.cfg.base, self.alias).items()}

    def resync(self):
        self.rows = self.read()
        self.log, self.deleted, self.post_deleted = [], set(), []

    # -- receivers
    def on_save(self, sender, instance, using, **kw):
        if not issubclass(sender, self.cfg.base) or using != self.alias:
            return
        self.log.append("post_save")
        row = {}
        for c in self.cols:
            v = getattr(instance, c)
            row[c] = str(v) if c == "path" else v
        self.rows[instance.pk] = row

    def on_delete(self, sender, instance, using, **kw):
        if sender._meta.concrete_model is self.cfg.base and using == self.alias:
            self.post_deleted.append(instance.pk)

    def receiver(self, name):
        def receive(sender, **kw):
            self.apply(name, sender, kw)

        return receive

    def apply(self, name, sender, kw):
        ctx = self.ctx
        ctx.count("signals_applied")
        ctx.count("signal:" + name)
        self.log.append(name)
        kw.pop("signal")
        ctx.note(f"   signal {name} {({k: str(v) for k, v in kw.items()})}")
        ctx.check(
            sender._meta.concrete_model is self.cfg.base, "signal:sender",
            f"{name}: the sender is {sender!r}, the rows changed are of {self.cfg.base!r}",
        )
        using = kw.pop("using", None)
        ctx.check(using == self.alias, "signal:using", f"{name}: using={using!r}, the rows changed in {self.alias!r}")
        getattr(self, f"{self.cfg.kind.lower()}_{name}")(**kw)
        if self.online:
            self.compare(f"when {name} was received", f"signal:{name}")

    def drop(self, pks):
        for pk in pks:
            del self.rows[pk]
        self.deleted.update(pks)

    def mp_path_updated(self, old_path, new_path):
        step = self.cfg.base.steplen
        for r in self.rows.values():
            if r["path"].startswith(old_path):
                r["path"] = new_path + r["path"][len(old_path) :]
                r["depth"] += (len(new_path) - len(old_path)) // step

    def mp_nodes_deleted(self, pks_to_remove, paths_to_remove):
        self.drop([
            pk for pk, r in self.rows.items()
            if pk in pks_to_remove or any(r["path"].startswith(p) for p in paths_to_remove)
        ])
        self.ctx.check(
            not set(pks_to_remove) - self.deleted, "signal:nodes_deleted", f"nodes_deleted names unknown {pks_to_remove}"
        )

    def ns_gap_altered(self, tree_id, start_index, offset):
        for r in self.rows.values():
            if r["tree_id"] == tree_id:
                for c in ("lft", "rgt"):
                    if r[c] >= start_index:
                        r[c] += offset

    def ns_tree_ids_incremented(self, min_tree_id):
        for r in self.rows.values():
            if r["tree_id"] >= min_tree_id:
                r["tree_id"] += 1

    def ns_subtree_moved(self, tree_id, lft, rgt, target_tree_id, index_offset, depth_offset):
        for r in self.rows.values():
            if r["tree_id"] == tree_id and r["lft"] >= lft and r["rgt"] <= rgt:
                r["tree_id"] = target_tree_id
                r["lft"] += index_offset
                r["rgt"] += index_offset
                r["depth"] += depth_offset

    def ns_nodes_deleted(self, removed_ranges):
        self.drop([
            pk for pk, r in self.rows.items()
            if any(r["tree_id"] == t and a <= r["lft"] and r["rgt"] <= b for t, a, b in removed_ranges)
        ])

    def lt_subtree_moved_right(self, path):
        path = str(path).split(".")
        k = len(path) - 1
        for r in self.rows.values():
            p = r["path"].split(".")
            if p[:k] == path[:k] and len(p) > k and p[k].encode() >= path[k].encode():
                p[k] += "A"
                r["path"] = ".".join(p)

    def lt_subtree_moved(self, old_path, new_path):
        old, new = str(old_path).split("."), str(new_path).split(".")
        for r in self.rows.values():
            p = r["path"].split(".")
            if p[: len(old)] == old:
                r["path"] = ".".join(new + p[len(old) :])

    def lt_nodes_deleted(self, paths_to_remove):
        gone = [str(p).split(".") for p in paths_to_remove]
        self.drop([pk for pk, r in self.rows.items() if any(r["path"].split(".")[: len(g)] == g for g in gone)])

    # -- the oracle
    def compare(self, when, aspect="signal:mirror", cols=None):
        ctx = self.ctx
        ctx.count("mirror_comparisons")
        got, want = self.rows, self.read()
        if cols:
            got, want = ({pk: {c: r[c] for c in cols} for pk, r in x.items()} for x in (got, want))
        if got != want:
            diff = [
                f"{pk}: mirror {got.get(pk)}, table {want.get(pk)}"
                for pk in [*want, *(set(got) - set(want))] if got.get(pk) != want.get(pk)
            ]
            ctx.check(False, aspect, f"{self.cfg.name}: {when} the mirror differs from the table: " + "; ".join(diff[:4]))
        ctx.check(True, aspect, "")

    @contextmanager
    def connected(self):
        with ExitStack() as stack:
            pairs = [(s, self.receiver(n)) for n, s in tree_signals(self.cfg).items()]
            pairs += [(post_save, self.on_save), (post_delete, self.on_delete)]
            for s, r in pairs:
                s.connect(r, weak=False)
                stack.callback(s.disconnect, r)
            yield self

    def hook(self, d, op, desc, rows, decoded):
        ctx = self.ctx
        if op == "overflow":
            self.resync()
            return
        self.compare(f"after {desc}, signals {self.log}")
        ctx.saw(self.cfg.name, op, d.ref.shape(), tuple(self.log))
        if op == "delete":
            ctx.check(
                set(self.post_deleted) == self.deleted,  # Django sends it for a proxy and its base model alike
                "signal:nodes_deleted",
                lambda: f"{desc}: nodes_deleted covered {sorted(map(str, self.deleted))}, post_delete was sent for "
                f"{sorted(map(str, self.post_deleted))}",
            )
        else:
            ctx.check(
                not self.deleted and not self.post_deleted, "signal:nodes_deleted", f"{desc} sent a deletion signal"
            )
        self.log, self.deleted, self.post_deleted = [], set(), []


def hist(ctx):
    cfg = pick_cfg(ctx, by_kind(ctx, "MP", "NS", "LT"))
    rng = ctx.rng
    m = Mirror(ctx, cfg, online=ctx.rng.random() < 0.6)
    d = history(ctx, cfg, n=1, raw=True, weights={"move": 1.3, "delete": 1.3})
    m.resync()
    d.post_hooks.append(m.hook)
    with m.connected():
        d.run(rng.choice((6, 12, 20)))


def random_bulk(cfg, rng, n):
    f = random_forest(cfg, rng, n)

    def dump(node):
        out = {"data": dict(node.data)}
        if node.children:
            out["children"] = [dump(c) for c in node.children]
        return out

    return [dump(r) for r in f.roots()]


def bulk(ctx):
    cfg = pick_cfg(ctx, by_kind(ctx, "MP", "NS", "LT", exclude=("MP_D", "MP_DS", "MP_O")))
    rng = ctx.rng
    d = raw_tree(ctx, cfg, rng.randrange(1, 10))
    m = Mirror(ctx, cfg)
    m.resync()
    data = random_bulk(cfg, rng, rng.randrange(1, 8))
    parent = d.fetch(d.pick()) if rng.random() < 0.6 else None
    with m.connected():
        ctx.note(f"load_bulk({data}, {parent and parent.pk})")
        try:
            cfg.base.objects.load_bulk(data, parent)
        except PathOverflow:
            if not cfg.may_overflow:
                raise
            return  # whether there was room is C16's
        m.compare(f"after load_bulk, signals {m.log}")
        ctx.saw(cfg.name, "load_bulk", tuple(m.log))


def rebuild(ctx):
    """fix_tree(fix_paths=True) of a healthy tree with holes, or of a sorted tree that is out of order."""
    # Out of order siblings need spare positions to be swapped, so full models are left out.
    cfg = pick_cfg(ctx, by_kind(ctx, "MP", exclude=("MP_D", "MP_DS", "MP_O")))
    rng = ctx.rng
    clear(cfg.base)
    f = random_forest(cfg, rng, rng.randrange(2, 20), max_children=9)
    if cfg.sorted:
        for n in [f.top, *f.all()]:
            rng.shuffle(n.children)
    raw_build(cfg, f, rng, gaps=cfg.max_step > 100)
    m = Mirror(ctx, cfg)
    m.resync()
    parent = None
    if rng.random() < 0.4:
        parent = rng.choice(list(cfg.base.objects.all()))
    with m.connected(), Guard(HOME):
        cfg.base.objects.fix_tree(fix_paths=True, parent=parent)
        m.compare(f"after fix_tree(fix_paths=True, parent={parent and parent.path}), signals {m.log}")
    ctx.saw(cfg.name, "fix_tree", len(m.log))


WORKLOADS = [
    Workload("hist", hist, 450, 7000, aspects=ASPECTS),
    Workload("bulk", bulk, 100, 1500, aspects=ASPECTS),
    Workload("rebuild", rebuild, 100, 1500, aspects=ASPECTS),
]
