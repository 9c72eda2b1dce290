"""The workload engine: drives random histories of tree operations through the public API of real models and compares
the database (decoded from raw rows) with the reference forest after every single operation."""

import signal
import string
from contextlib import contextmanager

from django.db import connections, models

from treebeard.exceptions import PathOverflow

from . import decode as dec
from .core import Abandoned, HOME, HarnessError, Runaway, Violation
from .model import Forest, sort_key
from .obtain import obtain

QUERY_CAP = 20000
ZERO_KEYS = False  # one of the nodes that are written straight into a table has the primary key 0
ALARM = 120


class HarnessTimeout(BaseException):
    """Inconclusive: a call did not come back in time."""


def _on_alarm(*_):
    raise HarnessTimeout("a treebeard call did not return in time")


class Guard:
    """Counts queries of one call, and stops a call that runs away."""

    def __init__(self, alias, cap=QUERY_CAP):
        self.alias, self.cap = alias, cap
        self.n = 0

    def __call__(self, execute, sql, params, many, context):
        self.n += 1
        if self.n > self.cap:
            raise Runaway(f"more than {self.cap} queries in one call")
        return execute(sql, params, many, context)

    def __enter__(self):
        self.cm = connections[self.alias].execute_wrapper(self)
        self.cm.__enter__()
        try:
            signal.signal(signal.SIGALRM, _on_alarm)
            signal.alarm(ALARM)
            self.armed = True
        except ValueError:  # not the main thread
            self.armed = False
        return self

    def __exit__(self, *exc):
        if self.armed:
            signal.alarm(0)
        self.cm.__exit__(*exc)


class Cfg:
    """One tree configuration under test."""

    def __init__(self, name, base, creators=None, may_overflow=False, data="name"):
        self.name = name
        self.base = base
        self.kind = dec.kind_of(base)
        self.creators = creators or [base]
        self.order = list(base.node_order_by or [])
        self.sorted = bool(self.order)
        self.may_overflow = may_overflow
        self.fields = ["name", "note"] + (["val1", "val2"] if hasattr(base, "val1") else [])
        self.rel = hasattr(base, "tags")
        self.odd = name.endswith(("_Q", "_QS"))
        if self.odd:
            self.fields.append("id")
        self.special = name.endswith(("_W", "_Z")) or self.odd  # only where they are asked for
        self.own_manager = name.endswith(("_M", "_MS"))
        self.pk_uuid = isinstance(base._meta.pk, models.UUIDField)
        self.pk_text = isinstance(base._meta.pk, models.CharField)
        self.pk_int = isinstance(base._meta.pk, models.AutoField)
        if self.kind == "MP":
            self.max_step = len(base.alphabet) ** base.steplen - 1
            self.max_depth = base._meta.get_field("path").max_length // base.steplen
        else:
            self.max_step = self.max_depth = 10**9

    def al_sorted(self):
        return self.kind == "AL" and self.sorted

    def label_classes(self):
        out = set()
        for c in [self.base, *self.creators]:
            out.update([c, *dec.subclasses(c)])
        return out


_CFGS = {}


def cfgs(backend):
    if backend in _CFGS:
        return _CFGS[backend]
    from .vapp import models as m

    c = {}
    for k in ("AL", "MP", "NS"):
        for s in ("N", "U", "S", "R", "M", "MS", "W", "Z"):
            b = getattr(m, f"{k}_{s}")
            c[f"{k}_{s}"] = Cfg(f"{k}_{s}", b)
    for s in ("1", "2", "D", "DS", "O", "X"):
        c[f"MP_{s}"] = Cfg(f"MP_{s}", getattr(m, f"MP_{s}"), may_overflow=True)
    c["MP_S"].may_overflow = False
    for k in ("AL", "MP", "NS"):
        for s in ("Q", "QS"):
            c[f"{k}_{s}"] = Cfg(f"{k}_{s}", getattr(m, f"{k}_{s}"))
    c["AL_mix"] = Cfg("AL_mix", m.AL_N, [m.AL_N, m.AL_I, m.AL_P, m.AL_II, m.AL_PP, m.AL_IP])
    c["MP_mix"] = Cfg("MP_mix", m.MP_N, [m.MP_N, m.MP_I, m.MP_P, m.MP_II, m.MP_PP, m.MP_IP])
    c["NS_mix"] = Cfg("NS_mix", m.NS_N, [m.NS_N, m.NS_I, m.NS_P, m.NS_II, m.NS_PP, m.NS_IP])
    c["MP_smix"] = Cfg("MP_smix", m.MP_S, [m.MP_S, m.MP_IS])
    if backend == "psql":
        c["MP_62"] = Cfg("MP_62", m.MP_62, may_overflow=True)
        for s in ("N", "U", "S", "R", "M", "MS", "W", "Z", "Q", "QS"):
            c[f"LT_{s}"] = Cfg(f"LT_{s}", getattr(m, f"LT_{s}"))
        c["LT_mix"] = Cfg("LT_mix", m.LT_N, [m.LT_N, m.LT_I, m.LT_P, m.LT_II, m.LT_PP, m.LT_IP])
        c["LT_smix"] = Cfg("LT_smix", m.LT_S, [m.LT_S, m.LT_IS])
    _CFGS[backend] = c
    return c


def plain(model, using=HOME):
    """A plain Django queryset, without treebeard's manager."""
    return models.QuerySet(model=model, using=using)


def clear(model, using=HOME):
    """Empty the table (and its dependents) with raw statements."""
    from .vapp import models as m

    base = dec.base_of(model)
    conn = connections[using]
    victims = []
    for sub in reversed(dec.subclasses(base)):
        if not sub._meta.proxy and not sub._meta.abstract:
            victims.append(sub._meta.db_table)
    for dep in m.DEPS.get(base, {}).values():
        victims.append(dep._meta.db_table)
    if base is m.MP_N:
        victims.append(m.Owner._meta.db_table)
    for f in base._meta.local_many_to_many:
        victims.append(f.remote_field.through._meta.db_table)
    with conn.cursor() as cur:
        for t in [*victims, base._meta.db_table]:
            cur.execute(f"DELETE FROM {conn.ops.quote_name(t)}")


NASTY = ["", "a", "A", "ä", "%", "_", "\\", "'", '"', "<b>", "0", "9", "Z", "日本", " ", "&amp;", "x" * 40, "\t", "--"]


def new_data(cfg, rng):
    d = {"name": rng.choice(NASTY) + str(rng.randrange(4)), "note": f"n{rng.randrange(10**6)}"}
    if "val1" in cfg.fields:
        d["val1"] = rng.randrange(-1, 3)
        d["val2"] = rng.randrange(-1, 2)
    if cfg.odd:
        d["id"] = rng.choice(("0", "1", "2", "None", "'", "x"))
    return d


# ------------------------------------------------------------------ writing a tree directly into the table
def lt_labels(rng, n, hostile=0.3):
    """`n` distinct increasing labels of the kind the library produces."""
    if rng.random() < hostile:
        pool = set()
        lengths = (0, 0, 0, 1, 1, 2) if n < 300 else (1, 2, 3, 4, 5, 6)
        while len(pool) < n:
            first = rng.choice(string.ascii_uppercase if rng.random() < 0.8 else string.digits[1:])
            rest = "".join(rng.choice("0059AZ") for _ in range(rng.choice(lengths)))
            pool.add(first + rest)
    else:
        letters = list(string.ascii_uppercase) + ["Z" + c for c in string.digits + string.ascii_uppercase]
        pool = set(rng.sample(letters[: max(26, n)], n)) if n <= 62 else {f"Z{i:04d}" for i in range(n)}
    return sorted(pool)


def encode(cfg, forest, rng, gaps=True):
    """{pk: tree columns} for `forest`, with the holes that deletions and moves leave behind."""
    out = {}
    base = cfg.base
    if cfg.kind == "MP":

        def step(i):
            s = ""
            for _ in range(base.steplen):
                s = base.alphabet[i % len(base.alphabet)] + s
                i //= len(base.alphabet)
            return s

        def go(node, path, depth):
            n = len(node.children)
            slack = cfg.max_step - n
            pos = list(range(1, n + 1))
            if gaps and n and slack > 0 and rng.random() < 0.6:
                top = n + min(slack, rng.choice((1, 2, 3, 8, 40)))
                if rng.random() < 0.1:
                    top = cfg.max_step if cfg.may_overflow else top
                pos = sorted(rng.sample(range(1, top + 1), n))
            for p, c in zip(pos, node.children):
                out[c.pk] = {"path": path + step(p), "depth": depth, "numchild": len(c.children)}
                go(c, path + step(p), depth + 1)

        go(forest.top, "", 1)
    elif cfg.kind == "NS":
        tid = 0
        for r in forest.roots():
            tid += 1 + (rng.choice((0, 0, 0, 1, 5)) if gaps else 0)
            counter, stack = 0, [(r, 1)]
            while stack:
                node, depth = stack.pop()
                counter += 1
                if depth is None:
                    out[node.pk]["rgt"] = counter
                    continue
                out[node.pk] = {"tree_id": tid, "lft": counter, "rgt": None, "depth": depth}
                stack.append((node, None))
                stack.extend((c, depth + 1) for c in reversed(node.children))
    elif cfg.kind == "AL":
        for n in [forest.top] + forest.all():
            o = 0
            for c in n.children:
                o += 1 + (rng.choice((0, 0, 0, 1, 4)) if gaps else 0)
                out[c.pk] = {"parent_id": n.pk}
                if not cfg.sorted:
                    out[c.pk]["sib_order"] = o
    else:

        def go(node, path):
            labels = lt_labels(rng, len(node.children), 0.3 if gaps else 0)
            for lab, c in zip(labels, node.children):
                out[c.pk] = {"path": ".".join([*path, lab])}
                go(c, [*path, lab])

        go(forest.top, [])
    return out


def random_forest(cfg, rng, n, regime="mixed", data=None, max_children=None):
    """A random ordered forest over temporary negative keys (or uuids)."""
    import uuid

    f = Forest()
    cap = max_children or (cfg.max_step if cfg.max_step < 10**6 else 10**6)
    nodes = []
    tries = 0
    while len(nodes) < n and tries < 20 * n + 50:
        tries += 1
        if not nodes or rng.random() < {"wide": 0.05, "deep": 0.03}.get(regime, 0.15):
            parent = None
        elif regime == "deep":
            parent = nodes[-1] if rng.random() < 0.8 else rng.choice(nodes)
        elif regime == "wide":
            parent = nodes[0] if rng.random() < 0.7 else rng.choice(nodes)
        else:
            parent = rng.choice(nodes)
        p = parent or f.top
        if len(p.children) >= cap or (parent is not None and parent.depth >= cfg.max_depth):
            continue
        pk = len(nodes) + 1
        if cfg.pk_uuid:
            pk = uuid.UUID(int=rng.getrandbits(128), version=4)
        elif cfg.pk_text:
            pk = text_key(rng, {x.pk for x in nodes})
        d = data() if data else new_data(cfg, rng)
        if cfg.sorted:
            idx = sorted_index(cfg, p, d)
        else:
            idx = rng.randrange(len(p.children) + 1)
        nodes.append(f.insert(pk, parent, idx, d, cfg.base))
    return f


def sorted_index(cfg, parent, data, skip=None):
    k = sort_key(data, cfg.order)
    kids = [c for c in parent.children if c is not skip]
    for i, c in enumerate(kids):
        if sort_key(c.data, cfg.order) > k:
            return i
    return len(kids)


KEYS = [
    "1", "01", "1.0", "1e3", "-0", "true", "null", "[1]", '{"a":1}', "[", "a b", "a/b", "/a", "a?b=c", "a#b", "a%b", "%2F", 'a"b', '"]',
    "a\\b", "\\", "a'b", "\u00e4", "<b>", "a]b", "a&b=c", "a+b", "_2F", "a;b", "a,b", "a.b", ":", "children", "0", "$&", "${a}", "a\tb",
]


def text_key(rng, taken):
    while True:
        k = rng.choice(KEYS) + (rng.choice(KEYS) if rng.random() < 0.3 else "")
        if k not in taken:
            return k


def raw_build(cfg, forest, rng, using=HOME, gaps=True, extra=None):
    """Write `forest` straight into the table; returns a forest keyed by the real primary keys."""
    enc = encode(cfg, forest, rng, gaps)
    order = forest.all()
    zero = rng.choice(order).pk if order and cfg.pk_int and ZERO_KEYS else None
    if cfg.kind == "AL":
        by_tmp = {}
        waiting = []
        for n in order if len(order) < 200 else sorted(order, key=lambda n: n.depth):
            if waiting and waiting[-1][1] != n.depth:
                plain(cfg.base, using).bulk_create([o for o, _ in waiting])
                waiting = []
            e = dict(enc[n.pk])
            p = e.pop("parent_id")
            obj = cfg.base(**n.data, **e, parent_id=by_tmp[p].pk if p is not None else None)
            if cfg.pk_uuid or cfg.pk_text:
                obj.pk = n.pk
            elif n.pk == zero:
                obj.pk = 0
            if len(order) < 200:
                plain(cfg.base, using).bulk_create([obj])
            else:
                waiting.append((obj, n.depth))
            by_tmp[n.pk] = obj
        plain(cfg.base, using).bulk_create([o for o, _ in waiting])
        objs = [by_tmp[n.pk] for n in order]
    else:
        objs = []
        for n in order:
            obj = cfg.base(**n.data, **enc[n.pk])
            if cfg.pk_uuid or cfg.pk_text:
                obj.pk = n.pk
            elif n.pk == zero:
                obj.pk = 0
            objs.append(obj)
        shuffled = list(objs)
        rng.shuffle(shuffled)
        plain(cfg.base, using).bulk_create(shuffled)
    real = {n.pk: o.pk for n, o in zip(order, objs)}
    out = Forest()
    for n in order:
        out.insert(
            real[n.pk], out.nodes[real[n.parent.pk]] if n.parent.pk is not None else None, 10**9, n.data, cfg.base
        )
    return out


def refinements(cfg):
    """Ways to refine a queryset of nodes without changing which nodes it selects."""
    out = {
        "distinct": lambda qs: qs.distinct(),
        "order_by": lambda qs: qs.order_by("-name"),
        "unordered": lambda qs: qs.order_by(),
        "random order": lambda qs: qs.order_by("?"),
        "reverse": lambda qs: qs.reverse(),
        "defer": lambda qs: qs.defer("note"),
        "annotate": lambda qs: qs.annotate(shown=models.F("name")),
        "group": lambda qs: qs.annotate(rows=models.Count("pk")).filter(rows=1),
        "exists": lambda qs: qs.filter(models.Exists(plain(cfg.base, qs.db).filter(pk=models.OuterRef("pk")))),
        "or": lambda qs: qs | qs.none(),
        "and": lambda qs: qs & qs.all(),
        "evaluated": lambda qs: (bool(qs), qs)[1],
    }
    if not cfg.own_manager:  # those don't go with what these managers already do
        out["only"] = lambda qs: qs.only("name")
        out["only pk"] = lambda qs: qs.only("pk")
        out["defer all"] = lambda qs: qs.defer(*(f.name for f in cfg.base._meta.concrete_fields if not f.primary_key))
        if cfg.kind != "AL":
            out["lock"] = lambda qs: qs.select_for_update()
    if cfg.rel:
        out["select_related"] = lambda qs: qs.select_related("tag")
        out["prefetch_related"] = lambda qs: qs.prefetch_related("tags")
        out["joined"] = lambda qs: qs.filter(models.Q(tags=None) | models.Q(tags__pk__gt=0)).distinct()
    if cfg.kind == "AL":
        out["select_related"] = lambda qs: qs.select_related("parent")
        if not cfg.odd:  # there "+" is its name
            out["prefetch_related"] = lambda qs: qs.prefetch_related("children_set")
    return out


# ------------------------------------------------------------------ the driver
SIB_POS = ("first-sibling", "left", "right", "last-sibling")
CHILD_POS = ("first-child", "last-child")

REGIMES = {
    # name: (max nodes, weights of add_root, add_child, add_sibling, move, delete, update)
    "small": (10, (1, 3, 3, 8, 2, 1)),
    "medium": (30, (1, 4, 4, 8, 2, 1)),
    "wide": (56, (1, 5, 8, 6, 1, 0.3)),
    "deep": (24, (0.5, 6, 2, 6, 1, 0.3)),
    "churn": (20, (2, 5, 5, 6, 6, 1)),
    "left": (40, (0.5, 2, 9, 4, 0.5, 0)),
}


class Driver:
    def __init__(self, ctx, cfg, alias=HOME, regime=None, max_nodes=None, weights=None, handles=0.6, gaps=None, refine=0.35):
        self.ctx, self.cfg, self.alias, self.rng = ctx, cfg, alias, ctx.rng
        self.regime = regime or self.rng.choice(list(REGIMES))
        mx, w = REGIMES[self.regime]
        self.max_nodes = max_nodes or mx
        ops = ("add_root", "add_child", "add_sibling", "move", "delete", "update")
        self.weights = dict(zip(ops, w))
        for k, v in (weights or {}).items():
            self.weights[k] = self.weights.get(k, 1) * v
        self.handle_rate = handles
        self.refine_rate = refine
        self.ref = Forest()
        self.pool = {}
        self.rows = {}
        self.nops = 0
        self.opno = 0
        self.post_hooks = []
        self.moves = 0

    # -- setup
    def start(self, raw=None):
        clear(self.cfg.base, self.alias)
        rng = self.rng
        if raw is None:
            raw = rng.random() < 0.4
        if raw:
            n = rng.randrange(2, self.max_nodes)
            f = random_forest(self.cfg, rng, n, {"wide": "wide", "left": "wide", "deep": "deep"}.get(self.regime, "mixed"))
            self.ref = raw_build(self.cfg, f, rng, self.alias)
            self.ctx.count("raw_built_trees")
        self.snapshot()
        d = dec.decode(self.cfg.base, self.rows)
        if d.problems or not self.same_structure(d):
            raise HarnessError(f"bad start state: {d.problems[:3]}")

    def snapshot(self):
        self.rows = dec.raw_rows(self.cfg.base, self.alias, self.cfg.fields)
        return self.rows

    def same_structure(self, d):
        want = self.ref.structure()
        if self.cfg.al_sorted():
            return {k: set(v) for k, v in want.items()} == {k: set(v) for k, v in d.children.items() if v}
        return want == {k: v for k, v in d.children.items() if v}

    # -- handles
    def _val(self, h, c):
        v = h.__dict__.get(c, getattr(h, c))
        return str(v) if c == "path" else v

    def classes_for(self, node):
        out = [c for c in self.cfg.creators if c._meta.concrete_model is self.cfg.base._meta.concrete_model]
        if self.cfg.base not in out:
            out.append(self.cfg.base)
        if node.cls is not None and node.cls not in out:
            out += [node.cls] * 2
        return out

    def fetch(self, node, cls=None):
        cls = cls or self.rng.choice(self.classes_for(node))
        return obtain(self.ctx, cls, node.pk)

    def handle(self, node, cls=None):
        """A handle on `node`: freshly fetched, or kept from earlier operations with its row unchanged since."""
        if self.rng.random() < self.handle_rate:
            row = self.rows.get(node.pk)
            held = [
                h for h, moves, seen in self.pool.get(node.pk, ())
                if seen == row and (self.cfg.kind != "AL" or moves == self.moves)
            ]
            if held:
                self.ctx.count("reused_handles")
                return self.rng.choice(held)
        h = self.fetch(node, cls)
        self.ctx.count("fresh_handles")
        self.keep(h)
        return h

    def keep(self, h):
        """Keep a handle that an operation returned, received or fetched. It may be used again for as long as the row it
        describes does not change (and, for an adjacency list, which caches depths and parents, until the next move)."""
        lst = [x for x in self.pool.get(h.pk, ()) if x[0] is not h]
        lst.append((h, self.moves, self.rows.get(h.pk)))
        self.pool[h.pk] = lst[-4:]

    # -- picking
    def pick(self, candidates=None):
        c = candidates if candidates is not None else self.ref.all()
        if not c:
            return None
        rng = self.rng
        x = rng.random()
        if self.regime in ("wide", "left") and x < 0.6:
            big = max([self.ref.top, *c], key=lambda n: len(n.children))
            kids = [k for k in big.children if k in c] if candidates is not None else big.children
            if kids:
                return rng.choice(kids) if x < 0.3 else rng.choice([kids[0], kids[-1], kids[len(kids) // 2]])
        if self.regime == "deep" and x < 0.5:
            return max(c, key=lambda n: n.depth)
        return rng.choice(c)

    # -- one operation
    def step(self):
        ops = dict(self.weights)
        n = len(self.ref)
        if n == 0:
            op = "add_root"
        else:
            if n >= self.max_nodes:
                for k in ("add_root", "add_child", "add_sibling"):
                    ops[k] = 0
                ops["delete"] = max(ops["delete"], 0.7)
            op = self.rng.choices(list(ops), list(ops.values()))[0]
        self.opno += 1
        getattr(self, "op_" + op)()

    def run(self, n):
        for _ in range(n):
            self.step()

    def call(self, op, desc, fn, guard_cap=QUERY_CAP):
        """Run one treebeard call under the guard; returns (value, overflow flag)."""
        self.ctx.note(f"{self.opno}: {desc}")
        self.ctx.count("ops")
        self.ctx.count("op:" + op)
        try:
            with Guard(self.alias, guard_cap) as g:
                out = fn()
            self.last_queries = g.n
            return out, False
        except PathOverflow as exc:
            if self.cfg.may_overflow:
                self.ctx.count("overflows")
                self.ctx.note(f"   PathOverflow: {exc}")
                return None, True
            self.ctx.fail(f"{op}:exception", f"{desc} raised {exc!r}")
        except (Violation, Abandoned):
            raise
        except Runaway as exc:
            self.ctx.fail(f"{op}:exception", f"{desc}: {exc}")
        except Exception as exc:
            self.reset_connection()
            self.ctx.fail(f"{op}:exception", f"{desc} raised {type(exc).__name__}: {exc}")

    def reset_connection(self):
        conn = connections[self.alias]
        if not conn.in_atomic_block:
            return
        conn.needs_rollback = True

    def data(self):
        return new_data(self.cfg, self.rng)

    def creator(self):
        return self.rng.choice(self.cfg.creators)

    def _create(self, op, desc, mgr_cls, fn, parent, index_of, target=None, target_node=None, data=None):
        """Shared tail of the three creating operations."""
        cfg, rng = self.cfg, self.rng
        data = data or self.data()
        by_instance = rng.random() < 0.4
        kwargs = dict(data)
        if mgr_cls is not cfg.base and mgr_cls._meta.concrete_model is not cfg.base._meta.concrete_model:
            kwargs["extra"] = data["note"]
        if by_instance:
            inst = mgr_cls(**kwargs)
            args, kw = (), {"instance": inst}
        else:
            inst = None
            args, kw = (kwargs,), {}
        shape = self.ref.shape()
        obj, overflow = self.call(op, f"{desc} {data}", lambda: fn(*args, **kw))
        if overflow:
            self.after(op, desc, failed=True, memory=[(target, target_node)] if target is not None else [])
            if target is not None:
                self.keep(target)
            return None
        ctx = self.ctx
        ctx.check(isinstance(obj, mgr_cls) and obj.pk is not None, f"{op}:return", f"{desc} returned {obj!r}")
        if inst is not None:
            ctx.check(obj is inst, f"{op}:return", f"{desc}: the supplied instance was not the one returned")
        node = self.ref.insert(obj.pk, parent, index_of(data), data, mgr_cls)
        ctx.saw(cfg.name, op, desc.split(" ")[0], shape, node.depth, node.index())
        mem = [(obj, node)]
        if target is not None:
            mem.append((target, target_node))
        self.after(op, desc, memory=mem)
        for h, _ in mem:
            self.keep(h)
        return node

    def op_add_root(self, data=None):
        cls = self.creator()
        data = data or self.data()
        return self._create(
            "add_root",
            f"{cls.__name__}.add_root",
            cls,
            lambda *a, **k: cls.objects.add_root(*a, **k),
            None,
            lambda d: self._index(None, d),
            data=data,
        )

    def _index(self, parent, d, default="last"):
        p = parent or self.ref.top
        if self.cfg.sorted:
            return sorted_index(self.cfg, p, d)
        return len(p.children)

    def op_add_child(self, target_node=None, data=None):
        t = target_node or self.pick()
        if t.depth >= self.cfg.max_depth and not self.cfg.may_overflow:
            return None
        h = self.handle(t)
        cls = self.creator()
        return self._create(
            "add_child",
            f"{cls.__name__}.add_child({self.where(t)} via {type(h).__name__})",
            cls,
            lambda *a, **k: cls.objects.add_child(h, *a, **k),
            t,
            lambda d: self._index(t, d),
            h,
            t,
            data=data,
        )

    def op_add_sibling(self, target_node=None, pos=None, data=None):
        t = target_node or self.pick()
        rng = self.rng
        if self.cfg.sorted:
            pos = rng.choice(("sorted-sibling", None))
        elif pos is None:
            if self.regime == "left":
                pos = rng.choice(("first-sibling", "left", "left", "right", None))
            else:
                pos = rng.choice((*SIB_POS, None))
        h = self.handle(t)
        cls = self.creator()
        parent = t.parent

        def index_of(d):
            if self.cfg.sorted:
                return sorted_index(self.cfg, parent, d)
            i = t.index()
            return {"first-sibling": 0, "left": i, "right": i + 1}.get(pos, len(parent.children))

        def fn(*a, **k):
            if pos is None and rng.random() < 0.5:
                return cls.objects.add_sibling(h, **(dict(create_kwargs=a[0]) if a else {}), **k)
            return cls.objects.add_sibling(h, pos, *a, **k)

        return self._create(
            "add_sibling",
            f"{cls.__name__}.add_sibling({self.where(t)} via {type(h).__name__}, {pos})",
            cls,
            fn,
            parent if parent.pk is not None else None,
            index_of,
            h,
            t,
            data=data,
        )

    def where(self, n):
        path = []
        while n.parent is not None:
            path.append(str(n.index()))
            n = n.parent
        return "/" + ".".join(reversed(path))

    def op_move(self, node=None, target=None, pos=None):
        rng = self.rng
        n = node or self.pick()
        if target is None:
            under = set(id(x) for x in n.walk())
            legal = [x for x in self.ref.all() if id(x) not in under]
            if rng.random() < 0.35 and n.parent is not None and len(n.parent.children) > 1:
                legal = [x for x in n.parent.children if x is not n]
            t = self.pick(legal) if legal and rng.random() > 0.04 else n
        else:
            t = target
        if pos is None:
            if self.cfg.sorted:
                choices = ["sorted-sibling", "sorted-child", None]
            else:
                choices = [*SIB_POS, *CHILD_POS, None]
            if t is n:
                choices = [c for c in choices if c is None or "child" not in c]
            pos = rng.choice(choices)
        if self.cfg.kind == "MP" and not self.cfg.may_overflow:
            if t.depth + (1 if pos and "child" in pos else 0) + n.height() - 1 > self.cfg.max_depth:
                return
        hn = self.handle(n)
        ht = hn if (t is n and rng.random() < 0.5) else self.handle(t)
        cls = type(hn) if rng.random() < 0.7 else self.cfg.base
        desc = f"{cls.__name__}.move({self.where(n)} {type(hn).__name__}, {self.where(t)} {type(ht).__name__}, {pos})"
        shape = self.ref.shape()
        before = self.ref.structure()
        self.ctx.saw(self.cfg.name, pos, shape, self.where(n), self.where(t))
        out, overflow = self.call("move", desc, lambda: cls.objects.move(hn, ht, *([pos] if pos or rng.random() < 0.5 else [])))
        self.moves += 1
        if not overflow:
            self.ref_move(n, t, pos)
            if self.ref.structure() == before:
                self.ctx.count("noop_moves")
        self.after("move", desc, failed=overflow, memory=[(hn, n), (ht, t)])
        self.keep(hn)
        self.keep(ht)
        return n

    def ref_move(self, n, t, pos):
        cfg = self.cfg
        if pos is None:
            pos = "sorted-sibling" if cfg.sorted else "last-sibling"
        parent = t if pos.endswith("child") else t.parent
        if pos.startswith("sorted"):
            kids = [c for c in parent.children if c is not n]
            i = sorted_index(cfg, parent, n.data, skip=n)
            self.ref.place(n, parent, kids[i] if i < len(kids) else None)
        elif pos in ("left", "right") and t is n:
            return
        elif pos.startswith("first"):
            kids = [c for c in parent.children if c is not n]
            self.ref.place(n, parent, kids[0] if kids else None)
        elif pos.startswith("last"):
            self.ref.place(n, parent, None)
        elif pos == "left":
            self.ref.place(n, parent, t)
        else:
            kids = [c for c in parent.children if c is not n]
            i = kids.index(t) + 1
            self.ref.place(n, parent, kids[i] if i < len(kids) else None)

    def op_delete(self, how=None):
        rng = self.rng
        cfg = self.cfg
        ways = ("node", "node", "pks", "children", "descendants", "name")
        how = how or rng.choice(ways[2:] if self.refine_rate == 1 else ways)
        mgr = rng.choice([c for c in cfg.creators if c._meta.concrete_model is cfg.base._meta.concrete_model] or [cfg.base])
        refine = rng.choice(list(refinements(cfg).items())) if how != "node" and rng.random() < self.refine_rate else None

        def deleting(qs):
            return (refine[1](qs) if refine else qs).delete()

        if how == "node":
            n = self.pick()
            h = self.handle(n)
            sel = [n]
            desc = f"{type(h).__name__}({self.where(n)}).delete()"
            fn = h.delete
        elif how == "pks":
            alln = self.ref.all()
            sel = rng.sample(alln, min(len(alln), rng.randrange(0, 9 if self.refine_rate == 1 else 5)))
            pks = [s.pk for s in sel]
            desc = f"{mgr.__name__}.filter(pk in {[self.where(s) for s in sel]}).delete()"
            fn = lambda: deleting(mgr.objects.filter(pk__in=pks))
        elif how == "children":
            n = self.pick()
            h = self.handle(n)
            sel = list(n.children)
            desc = f"get_children({self.where(n)}).delete()"
            fn = lambda: deleting(mgr.objects.get_children(h))
        elif how == "descendants":
            n = self.pick()
            if cfg.kind == "AL":
                return
            h = self.handle(n)
            inc = rng.random() < 0.3
            sel = n.walk() if inc else n.descendants()
            desc = f"get_descendants({self.where(n)}, include_self={inc}).delete()"
            fn = lambda: deleting(mgr.objects.get_descendants(h, include_self=inc))
        else:
            name = rng.choice([x.data["name"] for x in self.ref.all()])
            sel = [x for x in self.ref.all() if x.data["name"] == name]
            desc = f"{mgr.__name__}.filter(name={name!r}).delete() selecting {[self.where(s) for s in sel]}"
            fn = lambda: deleting(mgr.objects.filter(name=name))
        if refine:
            desc += f" refined by {refine[0]}"
            self.ctx.count("refined_deletions")
        shape = self.ref.shape()
        out, overflow = self.call("delete", desc, fn)
        self.ctx.saw(cfg.name, "delete", shape, tuple(sorted(self.where(s) for s in sel)))
        gone = self.ref.remove(sel)
        for pk in gone:
            self.pool.pop(pk, None)
        self.after("delete", desc)
        labels = {c._meta.label for c in (cfg.base, *cfg.creators) if c._meta.concrete_model is cfg.base._meta.concrete_model}
        self.ctx.check(
            isinstance(out, tuple) and sum(v for k, v in out[1].items() if k in labels) == len(gone),
            "delete:return",
            lambda: f"{desc} returned {out!r}, but {len(gone)} tree rows were deleted",
        )
        return gone

    def op_update(self):
        """Save payload changes through a fresh handle: the tree must not notice. On a sorted model, re-sort the node."""
        n = self.pick()
        h = self.fetch(n)
        d = self.data()
        if not self.cfg.sorted:
            d.pop("val1", None)
        elif self.rng.random() < 0.3:
            d = {"note": d["note"]}
        for k, v in d.items():
            setattr(h, k, v)
        self.call("update", f"save({self.where(n)}) {d}", h.save)
        old = dict(n.data)
        n.data.update(d)
        if self.cfg.sorted and set(d) & {f.lstrip("-") for f in self.cfg.order}:
            self.snapshot()
            overflows = self.ctx.counters.get("overflows", 0)
            self.op_move(n, n, "sorted-sibling")
            if self.ctx.counters.get("overflows", 0) != overflows:  # it could not be sorted: take the change back
                h = self.fetch(n)
                for k, v in old.items():
                    setattr(h, k, v)
                h.save()
                n.data.update(old)
                self.snapshot()
        else:
            self.after("update", "save")

    # -- the oracle
    def after(self, op, desc, failed=False, memory=()):
        ctx = self.ctx
        rows = self.snapshot()
        d = dec.decode(self.cfg.base, rows)
        ctx.count("states_checked")
        ctx.count("rows_decoded", len(rows))
        if failed:
            op = "overflow"
        ctx.check(not d.problems, f"{op}:encoding", lambda: f"after {desc}: " + "; ".join(d.problems[:4]))
        if not self.same_structure(d):
            ctx.check(
                False,
                f"{op}:position",
                f"after {desc}: the database holds {self.show(d.children)}, expected {self.show(self.ref.structure())}",
            )
        for n in self.ref.all():
            r = rows[n.pk]
            for k, v in n.data.items():
                if r[k] != v:
                    ctx.fail(f"{op}:payload", f"after {desc}: node {n.pk} has {k}={r[k]!r}, expected {v!r}")
        for h, n in memory if ctx.relevant(f"{op}:memory") else ():
            r = rows[n.pk]
            for c, v in r.items():
                got = self._val(h, c)
                if got != v:
                    ctx.check(
                        False,
                        f"{op}:memory",
                        f"after {desc}: the object {self.where(n)} in memory has {c}={got!r}, the database {v!r}",
                    )
            ctx.count("memory_checks")
            if self.cfg.kind == "AL" and not failed:
                ctx.check(
                    h.get_depth() == n.depth,
                    f"{op}:memory",
                    lambda: f"after {desc}: get_depth() of {self.where(n)} is {h.get_depth()}, expected {n.depth}",
                )
        for hook in self.post_hooks:
            hook(self, op, desc, rows, d)

    def show(self, children):
        """A compact picture with positional names instead of keys."""
        names = {}

        def go(pk):
            kids = children.get(pk, [])
            s = str(pk)[-6:]
            return s + ("(" + " ".join(go(k) for k in kids) + ")" if kids else "")

        try:
            return " ".join(go(k) for k in children.get(None, []))[:600]
        except RecursionError:
            return "<cyclic>"


@contextmanager
def rollback_after(alias):
    from django.db import transaction

    with transaction.atomic(using=alias):
        sid = transaction.savepoint(using=alias)
        try:
            yield
        finally:
            transaction.savepoint_rollback(sid, using=alias)
