"""Faults at any statement, in signal handlers, lost connections and kills: all or nothing."""

import os
import random
import signal
import traceback

from django.db import OperationalError, connections, models, transaction

from .. import decode as dec
from ..core import HOME, Workload
from ..engine import CHILD_POS, SIB_POS, Guard
from ..obtain import obtain
from .common import ASSUME, distinct_data, everything, pick_cfg, raw_tree, whole_table

RULE = (
    "A case is a random forest (with dependents and many-to-many rows) and an operation (add_*, move, delete, load_bulk "
    "with and without bulk_create, fix_tree with fix_paths) that is made to fail: at its k-th statement (before or after "
    "the database ran it), in the j-th call of a save/delete/treebeard signal handler, by losing the connection, or by "
    "killing the process with SIGKILL. Then every row of every table involved must be as before, an enclosing transaction "
    "must go on, and the next operations must work. Distinct: (configuration, operation, fault, place of the fault)."
)
ASSUMPTIONS = [
    *ASSUME,
    "The process is killed with SQLite on a real file, the connection is lost with PostgreSQL; power failures are left to "
    "the databases.",
]
REQUIRED = {"faults": 3000, "fault:statement": 1000, "fault:signal": 300, "fault:kill": 20, "fault:disconnect": 20}
SQLITE_FILES = True
LEVEL = "fault_enumeration"


class Injected(Exception):
    pass


class InjectedDb(OperationalError):
    pass


class Fault:
    """An execute wrapper that does something at the k-th statement of an operation."""

    def __init__(self, k=None, mode="before", action=None):
        self.k, self.mode, self.action = k, mode, action
        self.n = 0
        self.fired = None

    def __call__(self, execute, sql, params, many, context):
        head = sql.lstrip()[:9].upper()
        if head.startswith(("SAVEPOINT", "RELEASE", "ROLLBACK", "BEGIN")):
            return execute(sql, params, many, context)
        self.n += 1
        if self.n != self.k:
            return execute(sql, params, many, context)
        self.fired = sql[:60]
        if self.mode == "after":
            execute(sql, params, many, context)
        self.action()


def tree_signals(cfg):
    import treebeard.mp_tree as mp
    import treebeard.ns_tree as ns

    if cfg.kind == "MP":
        return {"path_updated": mp.path_updated, "nodes_deleted": mp.nodes_deleted}
    if cfg.kind == "NS":
        return {k: getattr(ns, k) for k in ("gap_altered", "tree_ids_incremented", "subtree_moved", "nodes_deleted")}
    if cfg.kind == "LT":
        import treebeard.ltree as lt

        return {k: getattr(lt, k) for k in ("subtree_moved_right", "subtree_moved", "nodes_deleted")}
    return {}


def operation(d):
    """A random operation as (kind, description, callable). The callable fetches what it needs, so it can be repeated."""
    cfg, rng = d.cfg, d.rng
    nodes = d.ref.all()
    kinds = ["add_root", "add_child", "add_sibling", "move", "move", "move", "delete", "delete", "load_bulk"]
    if cfg.kind == "MP":
        kinds += ["fix_tree", "load_bulk"]
    kind = rng.choice(kinds)
    t = d.pick()
    tc = rng.choice(d.classes_for(t))
    mk = rng.choice(cfg.creators)
    data = d.data()
    kw = dict(data)
    if mk._meta.concrete_model is not cfg.base._meta.concrete_model:
        kw["extra"] = "e"

    way = rng.random()

    def get(n, c):  # in the same way each time the call is repeated
        return obtain(d.ctx, c, n.pk, rng=random.Random(way))

    if kind == "add_root":
        return kind, f"{mk.__name__}.add_root", lambda: mk.objects.add_root(dict(kw))
    if kind == "add_child":
        return kind, f"{mk.__name__}.add_child({d.where(t)})", lambda: mk.objects.add_child(get(t, tc), dict(kw))
    if kind == "add_sibling":
        pos = "sorted-sibling" if cfg.sorted else rng.choice(SIB_POS)
        return (kind, f"{mk.__name__}.add_sibling({d.where(t)}, {pos})",
                lambda: mk.objects.add_sibling(get(t, tc), pos, dict(kw)))
    if kind == "move":
        n = d.pick()
        legal = [x for x in nodes if x is not n and not x.is_under(n)]
        if not legal:
            return operation(d) if len(nodes) > 1 else ("add_root", "add_root", lambda: mk.objects.add_root(dict(kw)))
        t = d.pick(legal)
        tc, nc = rng.choice(d.classes_for(t)), rng.choice(d.classes_for(n))
        pos = rng.choice(("sorted-sibling", "sorted-child")) if cfg.sorted else rng.choice((*SIB_POS, *CHILD_POS))
        return (kind, f"move({d.where(n)}, {d.where(t)}, {pos})", lambda: nc.objects.move(get(n, nc), get(t, tc), pos))
    if kind == "delete":
        sel = rng.sample(nodes, min(len(nodes), rng.choice((1, 1, 2, 3))))
        pks = [s.pk for s in sel]
        if len(sel) == 1 and rng.random() < 0.5:
            return kind, f"delete({d.where(sel[0])})", lambda: get(sel[0], tc if sel[0] is t else cfg.base).delete()
        return kind, f"filter({[d.where(s) for s in sel]}).delete()", lambda: cfg.base.objects.filter(pk__in=pks).delete()
    if kind == "fix_tree":
        return kind, "fix_tree(fix_paths=True)", lambda: cfg.base.objects.fix_tree(fix_paths=True)
    bulk = []
    for _ in range(rng.randrange(1, 3)):
        item = {"data": d.data()}
        bulk.append(item)
        for _ in range(rng.randrange(0, 3)):
            kid = {"data": d.data()}
            item.setdefault("children", []).append(kid)
            if rng.random() < 0.4:
                kid["children"] = [{"data": d.data()}]
    parent = t if rng.random() < 0.6 else None
    extra = {"bulk_create": True, "batch_size": rng.choice((1, 2, 1000))} if cfg.kind == "MP" and rng.random() < 0.6 else {}
    if cfg.rel:
        from ..vapp.models import Tag

        tags = list(Tag.objects.values_list("pk", flat=True))
        for item in bulk:
            item["data"]["tags"] = tags[:2]
    return (kind, f"load_bulk({bulk}, {d.where(parent) if parent else None}, {extra})",
            lambda: cfg.base.objects.load_bulk(bulk, get(parent, cfg.base) if parent else None, False, **extra))


def prepare(ctx, names=None):
    from ..vapp import models as m

    cfg = pick_cfg(ctx, names, exclude=["MP_D", "MP_DS", "MP_O"] if names is None else ())
    rng = ctx.rng
    d = raw_tree(ctx, cfg, n=rng.randrange(2, 14), data=distinct_data(cfg, rng), max_children=6 if cfg.kind == "MP" else None)
    m.Tag.objects.all().delete()
    if cfg.rel:
        tags = [m.Tag.objects.create(label=str(i)) for i in range(3)]
        for n in rng.sample(d.ref.all(), (len(d.ref) + 1) // 2):
            cfg.base.objects.get(pk=n.pk).tags.set(rng.sample(tags, 2))
    for kind, model in m.DEPS.get(dec.base_of(cfg.base), {}).items():
        if kind != "prot":
            for n in d.ref.all():
                if rng.random() < 0.5:
                    model.objects.create(node_id=n.pk, label="x")
    return cfg, d


def count_statements(fn):
    """How many statements the operation issues; its effects are rolled back."""
    probe = Fault()
    with transaction.atomic(HOME):
        with connections[HOME].execute_wrapper(probe):
            with Guard(HOME):
                fn()
        transaction.set_rollback(True, HOME)
    return probe.n


def dry_run(ctx, desc, fn):
    from treebeard.exceptions import PathOverflow

    try:
        return count_statements(fn)
    except PathOverflow:
        return None
    except Exception as exc:
        if not any(f"{os.sep}treebeard{os.sep}" in f.filename for f in traceback.extract_tb(exc.__traceback__)):
            raise
        ctx.fail("dry:exception", f"{desc} raised {exc!r}")


def unchanged(ctx, cfg, before, desc, op):
    now = everything(cfg)
    if now == before:
        ctx.count("oracle_evaluations")
        return
    diff = [(k, [r for r in v if r not in before[k]][:3], [r for r in before[k] if r not in v][:3])
            for k, v in now.items() if v != before[k]]
    ctx.fail(f"{op}:atomic", f"{desc}: rows were left changed (table, now, before): {str(diff)[:700]}")


def followup(ctx, d):
    """The tree must still be usable."""
    d.pool.clear()
    d.snapshot()
    if ctx.rng.random() < 0.3:
        ctx.count("followups")
        d.step()


def can_go_on(cfg, kind):
    """Deleting from an adjacency list is Django's own delete and fix_tree starts with plain updates: when they fail, an
    enclosing transaction can only be rolled back."""
    return kind != "fix_tree" and (kind, cfg.kind) != ("delete", "AL")


def run_fault(ctx, cfg, d, kind, desc, fn, arm, exc_types):
    """Run `fn` under the fault, alone or inside an enclosing transaction that catches the failure."""
    from ..vapp.models import Tag

    before = everything(cfg)
    outer = ctx.rng.random() < 0.4 and can_go_on(cfg, kind)
    tags = whole_table(Tag)
    got = None
    if outer:
        with transaction.atomic(HOME):
            Tag.objects.create(label="outer-1")
            try:
                with arm:
                    fn()
            except exc_types as exc:
                got = exc
            try:
                unchanged(ctx, cfg, before, desc + " (inside a transaction that goes on)", kind) if got else None
                Tag.objects.create(label="outer-2")
            except transaction.TransactionManagementError as exc:
                ctx.fail(f"{kind}:atomic", f"{desc}: the enclosing transaction cannot go on: {exc!r}")
        ctx.count("outer_transactions")
        labels = [t.label for t in Tag.objects.all() if t.label.startswith("outer")]
        ctx.check(sorted(labels) == ["outer-1", "outer-2"], f"{kind}:atomic", lambda: f"{desc}: the enclosing transaction lost rows: {labels}")
        Tag.objects.filter(label__startswith="outer").delete()
    else:
        try:
            with arm:
                fn()
        except exc_types as exc:
            got = exc
    ctx.check(not connections[HOME].in_atomic_block, f"{kind}:atomic", f"{desc}: the connection is still in a transaction")
    if got is None:
        return None
    unchanged(ctx, cfg, before, desc, kind)
    ctx.check(whole_table(Tag) == tags, f"{kind}:atomic", f"{desc}: other tables changed")
    return got


def statements(ctx):
    cfg, d = prepare(ctx)
    rng = ctx.rng
    for _ in range(2 if ctx.quick else 4):
        if not d.ref.all():
            return
        kind, desc, fn = operation(d)
        n = dry_run(ctx, desc, fn)
        if not n:
            continue
        ks = list(range(1, n + 1))
        if len(ks) > 6:
            ks = sorted(set(rng.sample(ks, 5) + [n]))
        for k in ks:
            mode = rng.choice(("before", "after"))
            exc = rng.choice((Injected, InjectedDb))

            def boom(exc=exc):
                raise exc("injected")

            fault = Fault(k, mode, boom)
            what = f"{cfg.name} {desc} failing {mode} statement {k} of {n}"
            ctx.note(what)
            ctx.count("faults")
            ctx.count("fault:statement")
            ctx.count("faulted:" + kind)
            got = run_fault(ctx, cfg, d, kind, what, fn, connections[HOME].execute_wrapper(fault), (exc,))
            ctx.check(got is not None, f"{kind}:atomic", lambda: f"{what} ({fault.fired}): the failure was swallowed")
            ctx.saw(cfg.name, kind, mode, k, n, d.ref.shape())
        followup(ctx, d)


class Handler:
    """Connects a receiver that raises at its j-th call."""

    def __init__(self, sig, j):
        self.sig, self.j, self.n = sig, j, 0
        self.__qualname__ = "Handler"  # Django logs it

    def __call__(self, sender, **kwargs):
        self.n += 1
        if self.n == self.j:
            raise Injected("handler")

    def __enter__(self):
        self.sig.connect(self, weak=False)

    def __exit__(self, *exc):
        self.sig.disconnect(self)


def handlers(ctx):
    cfg, d = prepare(ctx)
    rng = ctx.rng
    s = models.signals
    general = {"pre_save": s.pre_save, "post_save": s.post_save, "pre_delete": s.pre_delete, "post_delete": s.post_delete}
    for _ in range(3 if ctx.quick else 6):
        if not d.ref.all():
            return
        kind, desc, fn = operation(d)
        if not dry_run(ctx, desc, fn):
            continue
        sigs = {**general, **tree_signals(cfg), **tree_signals(cfg)}
        calls = {}
        for name, sig in sigs.items():
            calls[name] = Handler(sig, 0)
        for h in calls.values():
            h.__enter__()
        try:
            count_statements(fn)
        finally:
            for h in calls.values():
                h.__exit__()
        live = [(name, h.n) for name, h in calls.items() if h.n]
        if not live:
            continue
        for name, n in rng.sample(live, min(len(live), 2)):
            j = rng.randrange(1, n + 1)
            what = f"{cfg.name} {desc} with a {name} handler failing at call {j} of {n}"
            ctx.note(what)
            ctx.count("faults")
            ctx.count("fault:signal")
            ctx.count("signal:" + name)
            got = run_fault_no_tags(ctx, cfg, kind, what, fn, Handler(sigs[name], j))
            ctx.check(got, f"{kind}:atomic", lambda: f"{what}: the failure was swallowed")
            ctx.saw(cfg.name, kind, name, j, n, d.ref.shape())
        followup(ctx, d)



def run_fault_no_tags(ctx, cfg, kind, what, fn, arm):
    """As run_fault, but nothing else may be saved meanwhile (the handlers listen to every model)."""
    before = everything(cfg)
    got = False
    if ctx.rng.random() < 0.4 and can_go_on(cfg, kind):
        with transaction.atomic(HOME):
            try:
                with arm:
                    fn()
            except Injected:
                got = True
                unchanged(ctx, cfg, before, what + " (inside a transaction that goes on)", kind)
    else:
        try:
            with arm:
                fn()
        except Injected:
            got = True
    if got:
        unchanged(ctx, cfg, before, what, kind)
    return got


def kill(ctx):
    """SIGKILL in the middle of an operation of a forked process, on an SQLite file."""
    cfg, d = prepare(ctx)
    rng = ctx.rng
    for _ in range(2):
        if not d.ref.all():
            return
        kind, desc, fn = operation(d)
        n = dry_run(ctx, desc, fn)
        if not n:
            continue
        k, mode = rng.randrange(1, n + 1), rng.choice(("before", "after"))
        what = f"{cfg.name} {desc} killed {mode} statement {k} of {n}"
        ctx.note(what)
        before = everything(cfg)
        connections.close_all()
        pid = os.fork()
        if not pid:
            try:
                signal.alarm(60)
                with connections[HOME].execute_wrapper(Fault(k, mode, lambda: os.kill(os.getpid(), signal.SIGKILL))):
                    fn()
            finally:
                os._exit(3)
        _, status = os.waitpid(pid, 0)
        killed = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL
        if not killed:
            raise OSError(f"the process was not killed: {status} {what}")
        ctx.count("faults")
        ctx.count("fault:kill")
        ctx.count("faulted:" + kind)
        unchanged(ctx, cfg, before, what, kind)
        ctx.saw(cfg.name, kind, "kill", k, n, d.ref.shape())
        followup(ctx, d)


def disconnect(ctx):
    """The connection to PostgreSQL is lost in the middle of an operation."""
    cfg, d = prepare(ctx)
    rng = ctx.rng
    for _ in range(2):
        if not d.ref.all():
            return
        kind, desc, fn = operation(d)
        n = dry_run(ctx, desc, fn)
        if not n:
            continue
        k, mode = rng.randrange(1, n + 1), rng.choice(("before", "after"))
        what = f"{cfg.name} {desc} losing the connection {mode} statement {k} of {n}"
        ctx.note(what)
        before = everything(cfg)

        def cut():
            connections[HOME].connection.close()
            raise InjectedDb("connection lost")

        got = None
        try:
            with connections[HOME].execute_wrapper(Fault(k, mode, cut)):
                fn()
        except Exception as exc:
            got = exc
        connections[HOME].close()
        ctx.count("faults")
        ctx.count("fault:disconnect")
        ctx.count("faulted:" + kind)
        ctx.check(got is not None, f"{kind}:atomic", f"{what}: the failure was swallowed")
        unchanged(ctx, cfg, before, what, kind)
        ctx.saw(cfg.name, kind, "disconnect", k, n, d.ref.shape())
        followup(ctx, d)


ASPECTS = ("*:atomic",)
WORKLOADS = [
    Workload("statements", statements, 300, 5000, aspects=ASPECTS),
    Workload("handlers", handlers, 250, 4000, aspects=ASPECTS),
    Workload("kill", kill, 60, 1500, backends=("sqlite",), aspects=ASPECTS),
    Workload("disconnect", disconnect, 60, 1500, backends=("psql",), aspects=ASPECTS),
]
