from treebeard.exceptions import PathOverflow

from ..core import HOME, Workload
from ..engine import CHILD_POS, SIB_POS, Driver, Guard, clear, new_data, sorted_index
from .c15 import num
from .common import ASSUME, cfgs, everything, pick_cfg

RULE = (
    "A case is a history on a materialized path model of small capacity (4 to 61 children per node, 2 to 255 levels), a "
    "parent filled to its last position, a chain grown to the last level, or a load_bulk that does or does not fit; "
    "whether each call raises PathOverflow is compared with what the paths of the table before the call leave room for, "
    "and a refused call must leave every row as it was. Distinct: (configuration, operation, place, room)."
)
ASSUMPTIONS = [
    *ASSUME,
    "Positions are only shifted to the right: an insertion may raise PathOverflow when there is no free position from the "
    "requested one on, although there are some before it; so may a move within a group of siblings whose last positions are "
    "all taken.",
]
REQUIRED = {"overflows": 300, "capacity_checks": 3000, "filled_parents": 40, "grown_chains": 20, "fits_before_the_end": 100}
ASPECTS = ("capacity", "overflow:*", "*:exception", "exception", "*:encoding")
SMALL = ("MP_D", "MP_DS", "MP_O", "MP_1", "MP_2", "MP_62", "MP_X")


class CapDriver(Driver):
    """Judges every overflow against the room there was."""

    def room(self, parent):
        kids = (parent or self.ref.top).children
        last = max([num(self.cfg, self.rows[c.pk]["path"][-self.cfg.base.steplen :]) for c in kids], default=0)
        return len(kids), last

    def fits(self, parent, index, p=None, without=None):
        """Whether there is a free position from the one on that a node placed at `index` takes (or from `p` on)."""
        kids = (parent or self.ref.top).children
        taken = [num(self.cfg, self.rows[c.pk]["path"][-self.cfg.base.steplen :]) for c in kids]
        if p is None:
            order = [x for c, x in zip(kids, taken) if c is not without]
            p = order[index] if index < len(order) else max(taken, default=0) + 1
        return any(x not in taken for x in range(p, min(self.cfg.max_step, p + len(taken)) + 1))

    def pos_of(self, node):
        return num(self.cfg, self.rows[node.pk]["path"][-self.cfg.base.steplen :])

    def happened(self, before):
        return self.ctx.counters.get("overflows", 0) > before

    def _create(self, op, desc, mgr_cls, fn, parent, index_of, target=None, target_node=None, data=None):
        before = self.ctx.counters.get("overflows", 0)
        n, last = self.room(parent)
        deep = parent is not None and parent.depth + 1 > self.cfg.max_depth
        kids = (parent or self.ref.top).children
        data = data or self.data()
        appended = index_of(data) == n and (op != "add_sibling" or not kids or target_node is kids[-1] or "left" not in desc)
        top = self.cfg.max_step
        p = None
        if kids and not appended and not self.cfg.sorted:
            p = 1 if "first-sibling" in desc else self.pos_of(target_node) + (", right)" in desc)
        fits = self.fits(parent, index_of(data), p)
        self.ctx.saw(self.cfg.name, op, deep, n, last, appended, fits)
        out = super()._create(op, desc, mgr_cls, fn, parent, index_of, target, target_node, data=data)
        over = self.happened(before)
        self.judge(desc, over, deep or n >= top or (appended and last >= top and not self.cfg.sorted), deep or not fits,
                   f"{n} siblings, the last at {last} of {top}, free from {p or index_of(data)} on: {fits}, too deep: {deep}", last >= top)
        return out

    def op_move(self, node=None, target=None, pos=None):
        cfg, rng = self.cfg, self.rng
        n = node or self.pick()
        under = set(id(x) for x in n.walk())
        legal = [x for x in self.ref.all() if id(x) not in under]
        t = target or (self.pick(legal) if legal else n)
        if pos is None:
            pos = "sorted-" + rng.choice(("sibling", "child")) if cfg.sorted else rng.choice((*SIB_POS, *CHILD_POS))
        if t is n and "child" in pos:
            return
        parent = t if "child" in pos else t.parent
        same = parent is n.parent
        count, last = self.room(parent)
        deep = not same and (parent.depth + n.height()) > cfg.max_depth
        full = not same and count >= cfg.max_step
        append = not same and (pos.startswith("last") or (pos == "right" and t is parent.children[-1]))
        p = None
        if not cfg.sorted:
            p = 1 if pos.startswith("first") else last + 1 if append or pos.startswith("last") else self.pos_of(t) + (pos == "right")
        i = sorted_index(cfg, parent, n.data, skip=n) if cfg.sorted else 0
        fits = self.fits(parent, i, p, without=n)
        before = self.ctx.counters.get("overflows", 0)
        self.ctx.saw(cfg.name, pos, deep, same, count, last, n.height(), fits)
        desc = f"move({self.where(n)}, {self.where(t)}, {pos})"
        super().op_move(n, t, pos)
        self.judge(
            desc, self.happened(before), deep or full or (append and last >= cfg.max_step), deep or not fits,
            f"{count} siblings there, the last at {last} of {cfg.max_step}, free from {p or i} on: {fits}, same parent: {same}, too deep: {deep}",
            last >= cfg.max_step,
        )

    def judge(self, desc, over, must, may, why, full):
        self.ctx.count("capacity_checks")
        if full and not may:
            self.ctx.count("fits_before_the_end")
        if must:
            self.ctx.check(over, "capacity", f"{self.cfg.name}: {desc} did not raise PathOverflow ({why})")
        elif not may:
            self.ctx.check(not over, "capacity", f"{self.cfg.name}: {desc} raised PathOverflow although there is room ({why})")
        else:
            self.ctx.count("either_way")


def hist(ctx):
    cfg = pick_cfg(ctx, [n for n in SMALL if n in cfgs(ctx.backend)] + ["MP_D", "MP_DS", "MP_O"])
    d = CapDriver(ctx, cfg, regime=ctx.rng.choice(("small", "wide", "deep", "left", "medium")), weights={"delete": 0.7})
    ctx.note(f"model={cfg.name} regime={d.regime}")
    ctx.count("model:" + cfg.name)
    d.start()
    d.run(ctx.rng.choice((8, 15, 30)))


def fill(ctx):
    """A parent takes exactly as many children as its alphabet and step length have positions."""
    cfg = pick_cfg(ctx, [n for n in SMALL if n in cfgs(ctx.backend) and n != "MP_X"])
    rng = ctx.rng
    d = CapDriver(ctx, cfg, regime="small", handles=rng.choice((0, 0.8)))
    clear(cfg.base)
    d.snapshot()
    ctx.note(f"fill {cfg.name}")
    parent = None
    for _ in range(rng.randrange(0, cfg.max_depth if cfg.max_depth < 10 else 3)):
        parent = d.op_add_child(parent) if parent else d.op_add_root()
    if parent is not None and parent.depth >= cfg.max_depth:
        parent = parent.parent if parent.parent.pk is not None else None
    how = rng.choice(("append", "append", "left", "first-sibling", "right", "mixed"))
    kids = (parent or d.ref.top).children
    while len(kids) < cfg.max_step:
        n = len(kids)
        step = how if how != "mixed" else rng.choice(("append", "left", "first-sibling", "right"))
        if cfg.sorted or step == "append" or not kids:
            d.op_add_child(parent) if parent else d.op_add_root()
        else:
            d.op_add_sibling(rng.choice(kids), step)
        d.opno += 1
        ctx.check(len(kids) == n + 1, "capacity", f"{cfg.name}: only {n} of {cfg.max_step} positions could be filled ({how})")
    ctx.count("filled_parents")
    for _ in range(2):
        d.op_add_child(parent) if parent else d.op_add_root()
        d.op_add_sibling(rng.choice(kids))
    ctx.check(len(kids) == cfg.max_step, "capacity", f"{cfg.name}: more children than positions")
    d.run(4)


def chain(ctx):
    """A chain grows to exactly max_length // steplen levels."""
    names = [n for n in ("MP_D", "MP_DS", "MP_O", "MP_N", "MP_S", "MP_U", "MP_2") if n in cfgs(ctx.backend)]
    cfg = cfgs(ctx.backend)[names[ctx.index % len(names)]]
    may = cfg.may_overflow
    cfg.may_overflow = True
    try:
        d = CapDriver(ctx, cfg, regime="deep", max_nodes=300, handles=0.9)
        clear(cfg.base)
        d.snapshot()
        ctx.note(f"chain {cfg.name}")
        n = d.op_add_root()
        while n.depth < cfg.max_depth:
            m = d.op_add_child(n)
            ctx.check(m is not None, "capacity", f"{cfg.name}: only {n.depth} of {cfg.max_depth} levels could be used")
            n = m
        ctx.count("grown_chains")
        ctx.check(d.op_add_child(n) is None, "capacity", f"{cfg.name}: deeper than {cfg.max_depth} levels")
        d.op_add_root()
        new = d.ref.roots()[-1] if d.ref.roots()[0].children else d.ref.roots()[0]
        d.op_move(new, n, "sorted-child" if cfg.sorted else ctx.rng.choice(CHILD_POS))
        old = [r for r in d.ref.roots() if r is not new][0]
        d.op_move(old, new, "sorted-child" if cfg.sorted else ctx.rng.choice(CHILD_POS))
        d.op_move(new, n, "sorted-sibling" if cfg.sorted else ctx.rng.choice(SIB_POS))
    finally:
        cfg.may_overflow = may


def bulk(ctx):
    """load_bulk loads data that fits, and refuses with PathOverflow, leaving the table alone, data that does not."""
    cfg = pick_cfg(ctx, ["MP_D", "MP_DS", "MP_O", "MP_1", "MP_2"])
    rng = ctx.rng
    d = CapDriver(ctx, cfg, regime="small")
    d.start(True)
    parent = d.pick() if rng.random() < 0.6 and len(d.ref) else None
    n, last = d.room(parent)
    base_depth = parent.depth if parent else 0
    sizes = [max(0, cfg.max_step - last), cfg.max_step - last + 1, 1, 2]
    width = rng.choice([s for s in sizes if s > 0])
    inner = rng.choice((0, 1, cfg.max_step, cfg.max_step + 1))
    levels = rng.choice((0, 1, max(0, cfg.max_depth - base_depth - 1), max(0, cfg.max_depth - base_depth)))
    if levels > 6:
        levels = 3
    data = [{"data": new_data(cfg, rng)} for _ in range(width)]
    if cfg.sorted:  # no ties, and after everything else
        for i, x in enumerate(data):
            x["data"].update(val1=9, val2=0, name=f"~{i:03d}")
    cur = rng.choice(data)
    for _ in range(levels):
        cur["children"] = [{"data": new_data(cfg, rng)}]
        cur = cur["children"][0]
    if inner and levels:
        up = rng.choice(data)
        up["children"] = [{"data": new_data(cfg, rng)} for _ in range(inner)] if "children" not in up else up["children"]
        widest = max(len(x.get("children", ())) for x in data)
    else:
        widest = 0
    depth = 1 + max(height(x) for x in data)
    must = last + width > cfg.max_step or widest > cfg.max_step or base_depth + depth > cfg.max_depth
    bulk_create = rng.random() < 0.5
    before = everything(cfg)
    h = d.fetch(parent) if parent else None
    over = False
    desc = f"load_bulk({width} trees, widest {widest}, {depth} levels, bulk_create={bulk_create}) under {parent and d.where(parent)}"
    ctx.note(f"{cfg.name} {desc}; {n} children there, the last at {last} of {cfg.max_step}")
    kw = {"bulk_create": True} if bulk_create else {}
    try:
        with Guard(HOME):
            pks = cfg.base.objects.load_bulk(data, h, **kw)
    except PathOverflow:
        over = True
        ctx.count("overflows")
    except Exception as exc:
        ctx.fail("capacity", f"{cfg.name}: {desc} raised {exc!r}")
    ctx.count("capacity_checks")
    ctx.count("bulk_loads")
    ctx.saw(cfg.name, "load_bulk", must, width, widest, depth, bulk_create)
    ctx.check(over == must, "capacity", f"{cfg.name}: {desc} with the last sibling at {last} of {cfg.max_step}: overflow {over}, expected {must}")
    if over:
        ctx.check(everything(cfg) == before, "capacity", f"{cfg.name}: the refused {desc} changed the table")
    else:
        ctx.check(len(pks) == sum(size(x) for x in data), "capacity", f"{cfg.name}: {desc} returned {len(pks)} keys")


def height(x):
    return max((1 + height(c) for c in x.get("children", ())), default=0)


def size(x):
    return 1 + sum(size(c) for c in x.get("children", ()))


WORKLOADS = [
    Workload("hist", hist, 350, 6000, aspects=ASPECTS),
    Workload("fill", fill, 60, 900, aspects=ASPECTS),
    Workload("chain", chain, 28, 420, aspects=ASPECTS),
    Workload("bulk", bulk, 250, 4000, aspects=ASPECTS),
]
