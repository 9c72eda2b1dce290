"""The tree widget of the admin's change list: the real script with the real jQuery on a minimal DOM."""

from urllib.parse import parse_qs, urlencode

from django.contrib import admin

from .. import web
from ..browser import Page, said
from ..core import Workload
from .common import ASSUME, coded, distinct_data, everything, pick_cfg, raw_tree

RULE = (
    "A case is a random forest, and the change list of its admin with the widget's script running on it (jQuery as Django "
    "ships it, a minimal DOM, node), used by a simulated user: expanding and collapsing rows in any order, with the server's "
    "answers arriving late and out of order, dragging rows over others and dropping them. Whenever no request is pending the "
    "visible rows are compared with the reference forest; a drop must send exactly the request that the marker announced, "
    "and the database is compared with the reference forest moved so. Distinct: (configuration, role, query, shape, actions)."
)
ASSUMPTIONS = [
    *ASSUME,
    "The DOM of tbmon/js/minidom.js behaves as a browser's does for what jQuery and the widget use of it; rows are laid out "
    "20 pixels apart. No rendering, no style sheets.",
    "No node's key is \"\", \".\" or \"..\": no address holds them.",
]
REQUIRED = {"pages_loaded": 150, "clicks": 600, "rows_compared": 3000, "drops": 150, "late_answers": 80, "later_pages": 25}
ASPECTS = ("widget:*", "move:*")


class Widget:
    """What the user should see."""

    def __init__(self, ctx, d, model, role, q, page):
        self.ctx, self.d, self.model, self.role, self.q, self.page_no = ctx, d, model, role, q, page
        self.per_page = admin.site._registry[model].list_per_page
        self.open = set()
        self.asked = set()
        self.loading = {}
        self.shut_while_loading = False

    def match(self, nodes):
        return [n for n in nodes if self.q is None or self.q.lower() in n.data["name"].lower()]

    def roots(self):
        r = self.match(self.d.ref.roots())
        return r[(self.page_no - 1) * self.per_page : self.page_no * self.per_page]

    def rows(self):
        out = []

        def go(nodes):
            for n in nodes:
                out.append(n)
                if n.pk in self.open:
                    go(self.match(n.children))

        go(self.roots())
        return out

    def close(self, n):
        for x in n.walk():
            self.open.discard(x.pk)

    def can_change(self, n):
        return self.role in ("super", "staff_change") and not (
            self.d.cfg.name.endswith("_R") and n.data["note"].startswith("locked")
        )

    def judge(self, page, label):
        ctx = self.ctx
        st = page.state
        ctx.check(not st["errors"], "widget:error", lambda: f"{label}: {st['errors'][:2]}")
        got = [(r["id"], r["spacers"] + 1, r["toggles"], r["draggable"], r["handles"]) for r in page.visible()]
        want = [(str(n.pk), n.depth, int(bool(n.children)), self.can_change(n), 1) for n in self.rows()]
        ctx.count("rows_compared", len(want))
        ctx.check(got == want, "widget:rows", lambda: f"{label}: rows (key, level, toggles, draggable, handles) {got}, expected {want}")
        ids = [r["id"] for r in st["rows"]]
        ctx.check(len(set(ids)) == len(ids), "widget:rows", lambda: f"{label}: rows {ids} repeat")
        for r in page.visible():
            n = next(x for x in self.rows() if str(x.pk) == r["id"])
            if n.children:
                want = "treebeard-expanded" if n.pk in self.open else "treebeard-collapsed"
                ctx.check(r["open"] == want, "widget:toggle", lambda: f"{label}: the toggle of {r['id']} is {r['open']}, expected {want}")


def use(ctx):
    cfg = pick_cfg(ctx)
    if ctx.index % 5 == 0:
        cs = coded(ctx)
        cfg = cs[ctx.index // 5 % len(cs)]
    rng = ctx.rng
    d = raw_tree(ctx, cfg, rng.choice((rng.randrange(1, 18), rng.randrange(12, 34))), data=distinct_data(cfg, rng))
    model = rng.choice([c for c in cfg.creators if c._meta.concrete_model is cfg.base._meta.concrete_model] + [cfg.base])
    if cfg.name.endswith("_R"):
        from ..engine import plain

        n = d.pick()
        n.data["note"] = "locked"
        plain(cfg.base).filter(pk=n.pk).update(note="locked")
        d.snapshot()
    role = rng.choices(("super", "staff_change", "staff_view"), (8, 3, 2))[0]
    client = web.client(role, model, enforce_csrf_checks=True)
    listing = admin.site._registry[model]
    usual = listing.list_per_page
    try:
        listing.list_per_page = rng.choice((usual, usual, 2, 3, 5))
        for _ in range(rng.choice((1, 2, 3))):
            session(ctx, d, model, role, client)
    finally:
        listing.list_per_page = usual


def session(ctx, d, model, role, client):
    rng = ctx.rng
    q, page_no, params = None, 1, {}
    per_page = admin.site._registry[model].list_per_page
    x = rng.random()
    if x < 0.15:
        q = (rng.choice(d.ref.all()).data["name"].strip() or "a")[:2]
        if not q.strip() or any(c in q for c in "\"' "):
            q = "1"
        params["q"] = q
    elif x < 0.6 and len(d.ref.roots()) > per_page:
        pages = range(2, (len(d.ref.roots()) - 1) // per_page + 2)
        with_children = [p for p in pages if any(n.children for n in d.ref.roots()[(p - 1) * per_page : p * per_page])]
        page_no = params["p"] = rng.choice(with_children or pages)
        ctx.count("later_pages")
    search = "?" + urlencode(params) if params else ""
    w = Widget(ctx, d, model, role, q, page_no)
    page = Page(client, web.url(model), search)
    ctx.count("pages_loaded")
    base = f"{d.cfg.name} {d.ref.shape()}: {role} {web.url(model)}{search}"
    steps = []

    def label():
        return f"{base}: " + ", ".join(steps)

    ctx.note(base)
    ctx.check(page.state["scripted"], "widget:error", lambda: f"{base}: the page has no script")
    w.judge(page, base)
    for _ in range(rng.choice((2, 6, 12))):
        act(ctx, d, w, page, steps)
        if not page.requests:
            w.judge(page, label())
    while page.requests:
        answer(ctx, w, page, steps, rng.choice(page.requests))
    w.judge(page, label())
    ctx.saw(d.cfg.name, role, search, d.ref.shape(), tuple(steps))
    if rng.random() < 0.8:
        drag(ctx, d, w, page, steps, label)
    ctx.sample({"page": base, "steps": steps[:20]})


def name(d, n):
    return d.where(n)


def act(ctx, d, w, page, steps):
    rng = ctx.rng
    if page.requests and rng.random() < 0.3:
        return answer(ctx, w, page, steps, rng.choice(page.requests))
    rows = [n for n in w.rows() if n.children and any(r["id"] == str(n.pk) for r in page.visible())]
    if not rows:
        return
    n = rng.choice(rows)
    click(ctx, d, w, page, steps, n)


def click(ctx, d, w, page, steps, n):
    steps.append(f"click {name(d, n)}")
    ctx.count("clicks")
    before = {r["key"] for r in page.requests}
    page.do("click", str(n.pk))
    toggled(ctx, d, w, page, steps, n, before)


def toggled(ctx, d, w, page, steps, n, before):
    new = [r for r in page.requests if r["key"] not in before]
    if n.pk in w.open:
        w.close(n)
        if n.pk in w.loading.values():
            ctx.count("collapsed_while_loading")
        want = 0
    else:
        w.open.add(n.pk)
        want = 0 if n.pk in w.asked else 1
    ctx.check(
        len(new) == want, "widget:request",
        lambda: f"{', '.join(steps)}: {len(new)} requests, expected {want}: {[r['url'] for r in new]}",
    )
    if new:
        w.asked.add(n.pk)
        w.loading[new[0]["key"]] = n.pk


def answer(ctx, w, page, steps, request):
    if request is not page.requests[0]:
        ctx.count("late_answers")
    pk = w.loading.pop(request["key"], None)
    steps.append(f"answer {request['url'][:60]}")
    before = {r["key"] for r in page.requests}
    r = page.answer(request)
    ctx.check(
        request["method"] == "GET" and r.status_code == 200, "widget:request",
        lambda: f"{', '.join(steps)}: {request['method']} answered {r.status_code}",
    )
    more = [x for x in page.requests if x["key"] not in before]
    if more:
        ctx.count("more_pages")
        w.loading[more[0]["key"]] = pk


def drag(ctx, d, w, page, steps, label):
    rng = ctx.rng
    shown = w.rows()
    can = [n for n in shown if w.can_change(n)]
    if not can:
        return
    n = rng.choice(can)
    steps.append(f"drag {name(d, n)}")
    ctx.count("drags")
    page.do("dragstart", str(n.pk))
    ctx.check(not page.state["errors"], "widget:error", lambda: f"{label()}: {page.state['errors']}")
    t, half = None, None
    for _ in range(rng.choice((1, 1, 2, 4))):
        vis = {r["id"] for r in page.visible()}
        over = [x for x in d.ref.all() if str(x.pk) in vis and x in w.rows()]
        t = rng.choice(over)
        half = rng.choice(("top", "bottom"))
        steps.append(f"over {name(d, t)} {half}")
        before = {r["key"] for r in page.requests}
        page.do("dragenter", str(t.pk))
        if t.children and t.pk not in w.open:
            toggled(ctx, d, w, page, steps, t, before)
        elif [r for r in page.requests if r["key"] not in before]:
            ctx.fail("widget:request", f"{label()}: dragging over an open row sent a request")
        for _ in range(3):
            if page.requests and rng.random() < 0.6:
                answer(ctx, w, page, steps, rng.choice(page.requests))
        page.do("dragover", str(t.pk), half)
        if rng.random() < 0.3:
            half = rng.choice(("top", "bottom"))
            steps.append(f"over {name(d, t)} {half}")
            page.do("dragover", str(t.pk), half)
        row = next(r for r in page.state["rows"] if r["id"] == str(t.pk))
        if t is n:
            ctx.check(page.state["tooltip"] == said("Abort"), "widget:drag", lambda: f"{label()}: says {page.state['tooltip']!r}")
        else:
            want = (said("As Sibling"), ["target-node-sibling"]) if half == "top" else (said("As child"), ["target-node-parent"])
            got = (page.state["tooltip"], [m for m in row["marks"] if m.startswith("target")])
            ctx.check(got == want, "widget:drag", lambda: f"{label()}: shows {got}, expected {want}")
        others = [r["id"] for r in page.state["rows"] if r["id"] != str(t.pk) and any(m.startswith("target") for m in r["marks"])]
        ctx.check(not others, "widget:drag", lambda: f"{label()}: {others} are marked as the target too")
    ctx.check(not page.state["errors"], "widget:error", lambda: f"{label()}: {page.state['errors']}")
    dropped = rng.random() < 0.85
    before = {r["key"] for r in page.requests}
    if dropped:
        steps.append("drop")
        page.do("drop", str(t.pk))
    page.do("dragend")
    new = [r for r in page.requests if r["key"] not in before]
    left = [r["id"] for r in page.state["rows"] if r["marks"]]
    ctx.check(not left, "widget:drag", lambda: f"{label()}: {left} are still marked after the drag")
    if not dropped or t is n:
        ctx.check(not new, "widget:drag", lambda: f"{label()}: sent {new}")
        while page.requests:
            answer(ctx, w, page, steps, rng.choice(page.requests))
        w.judge(page, label())
        return
    ctx.count("drops")
    relation = "sibling" if half == "top" else "child"
    ctx.check(len(new) == 1 and new[0]["method"] == "POST" and new[0]["url"] == "move/", "widget:drag", lambda: f"{label()}: sent {new}")
    data = {k: v for k, v in parse_qs(new[0]["body"]).items()}
    want = {"node": [str(n.pk)], "target": [str(t.pk)], "relation": [relation]}
    ctx.check(data == want, "widget:drag", lambda: f"{label()}: sent {data}, expected {want}")
    ctx.check(page.state["reloads"] == 0, "widget:drag", lambda: f"{label()}: reloaded before the answer")
    rows = everything(d.cfg)
    r = page.answer(new[0])
    ctx.check(page.state["reloads"] == 1, "widget:drag", lambda: f"{label()}: {page.state['reloads']} reloads after the answer")
    below = (t is n and relation == "child") or t.is_under(n)
    if below:
        ctx.count("refused_drops")
        ctx.check(r.status_code == 400 and everything(d.cfg) == rows, "widget:drag", lambda: f"{label()}: answered {r.status_code}")
        return
    if d.cfg.may_overflow and r.status_code == 400:
        ctx.count("overflows")
        return
    ctx.check(r.status_code == 200, "widget:drag", lambda: f"{label()}: answered {r.status_code}: {r.content[:100]!r}")
    pos = {("child", True): "sorted-child", ("child", False): "last-child",
           ("sibling", True): "sorted-sibling", ("sibling", False): "left"}[relation, d.cfg.sorted]
    d.opno += 1
    d.moves += 1
    d.ref_move(n, t, pos)
    d.after("move", label())
    ctx.count("moves_done")


WORKLOADS = [Workload("use", use, 340, 6000, aspects=ASPECTS)]
