import random
import threading
import time

from django.db import connection

from .. import decode as dec
from ..core import Workload
from ..engine import clear, new_data, sort_key
from ..obtain import obtain
from .common import ASSUME, by_kind, cfgs, raw_tree

RULE = (
    "A case is a random forest in PostgreSQL and two to six threads, each with a connection of its own, that call "
    "add_child at the same time (on one parent; or on several, for the implementations without shifts), with random "
    "delays before and after statements. The table must decode to the forest that results from running the calls one "
    "after another in some order that respects which call returned before which began: nothing lost, doubled or torn, "
    "no exception. Distinct: the observed order of (thread, statement) events."
)
ASSUMPTIONS = [
    *ASSUME,
    "Read committed isolation; the promise covers add_child on the same parent, and on different parents of adjacency list "
    "and of unsorted materialized path and ltree models (nothing existing is shifted there).",
]
REQUIRED = {"concurrent_calls": 2000, "overlapping_calls": 500}
WORKERS = 6


class Jitter:
    """Delays around statements, and the log of their order."""

    def __init__(self, tid, seed, log, level):
        self.tid, self.rng, self.log, self.level = tid, random.Random(seed), log, level

    def pause(self):
        x = self.rng.random()
        if x < self.level:
            time.sleep(self.rng.choice((0.0005, 0.001, 0.003, 0.006)))

    def __call__(self, execute, sql, params, many, context):
        verb = sql.lstrip()[:6].upper()
        self.pause()
        out = execute(sql, params, many, context)
        self.log.append((self.tid, verb))
        self.pause()
        return out


def run_threads(ctx, plans, level):
    """plans: one list of callables per thread, which return a primary key. Returns [(thread, begin, end, pk)], errors."""
    log, done, errors = [], [], []
    barrier = threading.Barrier(len(plans))

    def body(tid, plan, seed):
        try:
            j = Jitter(tid, seed, log, level)
            connection.ensure_connection()
            with connection.execute_wrapper(j):
                barrier.wait(30)
                for fn in plan:
                    a = time.perf_counter()
                    pk, what = fn()
                    done.append((tid, a, time.perf_counter(), pk, what))
                    j.pause()
        except Exception as exc:
            errors.append(f"thread {tid}: {type(exc).__name__}: {exc}")
        finally:
            connection.close()

    threads = [
        threading.Thread(target=body, args=(t, p, f"{ctx.case_seed}:{t}"), daemon=True) for t, p in enumerate(plans)
    ]
    for t in threads:
        t.start()
    for t in threads:
        t.join(60)
    if any(t.is_alive() for t in threads):
        errors.append("a thread did not finish (deadlock?)")
    ctx.saw(tuple(log))
    ctx.count("statements_interleaved", len(log))
    return done, errors


def concurrent(ctx, several):
    if several:
        names = by_kind(ctx, "AL", sorted=False) + by_kind(ctx, "MP", "LT", sorted=False, exclude=("MP_D", "MP_O"))
    else:
        names = by_kind(ctx, "AL", "MP", "NS", "LT", exclude=("MP_D", "MP_DS", "MP_O"))
    cfg = cfgs(ctx.backend)[names[ctx.index % len(names)]]
    rng = ctx.rng
    d = raw_tree(ctx, cfg, rng.randrange(1, 9), gaps=False, max_children=5)
    candidates = [n for n in d.ref.all() if n.depth < min(4, cfg.max_depth - 1)] or d.ref.roots()
    nthreads = rng.choice((2, 3, 4, 6))
    per = rng.choice((1, 2, 4))
    targets = [rng.choice(candidates)] if not several else rng.sample(candidates, min(len(candidates), 3))
    seq = [0]

    def make(target):
        cls = rng.choice(cfg.creators)
        seq[0] += 1
        data = new_data(cfg, rng)
        data["name"] += f".{seq[0]:03d}"
        kwargs = dict(data)
        if cls._meta.concrete_model is not cfg.base._meta.concrete_model:
            kwargs["extra"] = "e"
        by_instance = rng.random() < 0.4
        handle_cls = rng.choice(d.classes_for(target))
        shared = d.fetch(target, handle_cls) if rng.random() < 0.6 else None

        def fn():
            h = shared or obtain(ctx, handle_cls, target.pk)
            if by_instance:
                obj = cls.objects.add_child(h, instance=cls(**kwargs))
            else:
                obj = cls.objects.add_child(h, kwargs)
            return obj.pk, (target.pk, data)

        return fn

    plans = [[make(rng.choice(targets)) for _ in range(per)] for _ in range(nthreads)]
    ctx.note(f"{cfg.name} {d.ref.shape()}: {nthreads} threads, {per} calls each, on {[d.where(t) for t in targets]}")
    level = rng.choice((0, 0.2, 0.6))
    done, errors = run_threads(ctx, plans, level)
    label = f"{cfg.name}: {nthreads} threads called add_child {per} times each on {[d.where(t) for t in targets]} at once"
    ctx.count("concurrent_calls", len(done))
    ctx.check(not errors, "concurrent", f"{label}: {errors[:3]}")
    ctx.count("overlapping_calls", sum(1 for x in done if any(y[0] != x[0] and y[1] < x[2] and x[1] < y[2] for y in done)))
    judge(ctx, cfg, d, done, label)
    if ctx.rng.random() < 0.1:
        clear(cfg.base)


def judge(ctx, cfg, d, done, label):
    rows = dec.raw_rows(cfg.base, extra=cfg.fields)
    dd = dec.decode(cfg.base, rows)
    ctx.check(not dd.problems, "concurrent", lambda: f"{label}: {dd.problems[:4]}")
    old = set(d.ref.nodes)
    new = {x[3]: x for x in done}
    ctx.check(len(new) == len(done), "concurrent", f"{label}: a key was returned twice")
    ctx.check(set(rows) == old | set(new), "concurrent", f"{label}: rows {set(rows) ^ (old | set(new))} are lost or doubled")
    for pk, (_, _, _, _, (parent, data)) in new.items():
        for k, v in data.items():
            ctx.check(rows[pk][k] == v, "concurrent", f"{label}: {rows[pk]} should hold {data}")
        ctx.check(pk in dd.children.get(parent, ()), "concurrent", f"{label}: node {pk} is not under {parent}")
    before = d.ref.structure()
    for p, kids in dd.children.items():
        was = before.get(p, [])
        kept = [k for k in kids if k in old]
        if cfg.al_sorted():
            ctx.check(set(kept) == set(was), "concurrent", f"{label}: the children of {p} were {was}, now {kids}")
            continue
        ctx.check(kept == was, "concurrent", f"{label}: the children of {p} were {was}, now {kids}")
        if cfg.sorted:
            keys = [sort_key(rows[k], cfg.order) for k in kids]
            ctx.check(keys == sorted(keys), "concurrent", lambda: f"{label}: the children of {p} are not sorted: {keys}")
            continue
        ctx.check(kids[: len(was)] == was, "concurrent", f"{label}: a new child of {p} is not after the old ones: {kids}")
        added = kids[len(was) :]
        for i, a in enumerate(added):
            for b in added[i + 1 :]:
                ctx.check(
                    not new[b][2] < new[a][1], "concurrent",
                    f"{label}: node {b} was returned before node {a} was asked for, but comes after it",
                )


def same_parent(ctx):
    concurrent(ctx, False)


def several_parents(ctx):
    concurrent(ctx, True)


WORKLOADS = [
    Workload("same_parent", same_parent, 500, 8000, backends=("psql",)),
    Workload("several_parents", several_parents, 200, 3000, backends=("psql",)),
]
