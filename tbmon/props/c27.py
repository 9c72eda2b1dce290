"""Node data and request parameters are shown as text: pages of hostile and of harmless data differ in that text only."""

import json
import re
from html.parser import HTMLParser
from urllib.parse import quote as url_quote
from urllib.parse import unquote_plus

from django.contrib.admin.utils import quote as admin_quote
from django.db import transaction
from django.utils.html import escape

from treebeard.forms import TreeNodeChoiceField, movenodeform_factory

from .. import web
from ..core import HOME, Workload
from ..engine import clear, plain
from .common import ASSUME, by_kind, coded, pick_cfg, raw_tree

RULE = (
    "A case is a random forest and a series of pages of the admin and of the move form: each is fetched with markup, quotes, "
    "entities, template and format syntax in the nodes' fields, text keys and request parameters, and again with harmless "
    "tokens in their place; both pages are parsed and must be the same elements, attributes and texts, except that where the "
    "one has a token the other has exactly the hostile text (percent-encoded in links). Distinct: (configuration, page, "
    "shape, texts)."
)
ASSUMPTIONS = [*ASSUME, "Pages are read with Python's HTML parser; runs of white space count as one space."]
REQUIRED = {"pages_compared": 1000, "texts_read_back": 4000, "json_records": 300, "labels_compared": 200, "messages_shown": 60}
ASPECTS = ("markup", "exception")

NASTY = [
    "<script>alert(1)</script>", '"><img src=x onerror=alert(1)>', "' onmouseover='x", "</script><script>x()</script>",
    "<!-- x", "-->", "&lt;b&gt;", "&amp;amp;", "&#60;i&#62;", "{{ 7|add:7 }}", "{% debug %}", "%(node)s %(other)s", "%s%%d",
    "a\u2028b", "]]>", "</option></select><b>", "</textarea><b>", "</title>", "javascript:alert(1)", "\\u003Cb\\u003E", "`${1}`",
    '{"node-id": "1"}', "<a href='/x'>k</a>", "&nbsp;&nbsp;", "\u202eabc", "?q=1&p=2#x", "+", "a/b", "x;y", "100%",
]
TOKEN = re.compile(r"QTOK(\d+)Z")


class Texts:
    """The texts of one pass: hostile ones, or tokens."""

    def __init__(self, nasty, hostile):
        self.nasty, self.hostile = nasty, hostile

    def __call__(self, i):
        return self.nasty[i] if self.hostile else f"QTOK{i}Z"


class Events(HTMLParser):
    """A page as a list of elements, attributes and texts."""

    def __init__(self, html):
        super().__init__(convert_charrefs=True)
        self.out = []
        self.script = None
        self.feed(html)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        attrs = [
            (k, "" if (k == "value" and a.get("name") == "csrfmiddlewaretoken") or k == "data-csrftoken" else v) for k, v in attrs
        ]
        self.out.append(("element", tag, attrs))
        if tag == "script":
            self.script = a.get("type")

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        self.script = None
        self.out.append(("end", tag))

    def handle_data(self, data):
        if self.script == "application/json":
            self.out.append(("json", json.loads(data)))
        elif self.out and self.out[-1][0] == "text":
            self.out[-1] = ("text", self.out[-1][1] + data)
        else:
            self.out.append(("text", data))

    def handle_comment(self, data):
        self.out.append(("comment", data))

    def handle_decl(self, decl):
        self.out.append(("declaration", decl))

    def unknown_decl(self, data):
        self.out.append(("declaration", data))

    def handle_pi(self, data):
        self.out.append(("instruction", data))


def words(s):
    return " ".join(s.split())


def expand(s, nasty, how):
    return TOKEN.sub(lambda m: how(nasty[int(m[1])]), s)


def as_is(t):
    return t


def canonical(link):
    """A link with every layer of percent encoding and of the admin's own quoting taken off."""
    while True:
        plainer = words(re.sub(r"_([0-9A-F]{2})", lambda m: chr(int(m[1], 16)), unquote_plus(link)))
        if plainer == link:
            return link
        link = plainer


def same_value(ctx, key, good, got, nasty):
    if not isinstance(good, str) or not isinstance(got, str) or not TOKEN.search(good):
        return good == got
    ctx.count("texts_read_back")
    if key in ("href", "action", "src", "data-href", "data-popup-opener"):
        return canonical(expand(good, nasty, as_is)) == canonical(got)
    return words(expand(good, nasty, as_is)) == words(got)


def same_json(ctx, good, got, nasty):
    if type(good) is not type(got):
        return False
    if isinstance(good, dict):
        return list(good) == list(got) and all(same_json(ctx, good[k], got[k], nasty) for k in good)
    if isinstance(good, list):
        return len(good) == len(got) and all(same_json(ctx, a, b, nasty) for a, b in zip(good, got))
    if isinstance(good, str) and TOKEN.search(good):
        ctx.count("texts_read_back")
        return expand(good, nasty, as_is) == got
    return good == got


def compare(ctx, label, good, got, nasty):
    """`good`: the harmless page, `got`: the hostile one."""
    ctx.count("pages_compared")
    a, b = Events(good).out, Events(got).out
    for i, (x, y) in enumerate(zip(a, b)):
        ok = x[0] == y[0]
        if ok and x[0] == "element":
            ok = x[1] == y[1] and [k for k, _ in x[2]] == [k for k, _ in y[2]] and all(
                same_value(ctx, k, v, w, nasty) for (k, v), (_, w) in zip(x[2], y[2])
            )
        elif ok and x[0] == "json":
            ctx.count("json_records", len(x[1]) if isinstance(x[1], list) else 1)
            ok = same_json(ctx, x[1], y[1], nasty)
        elif ok and x[0] == "text":
            ok = words(expand(x[1], nasty, as_is)) == words(y[1])
            ctx.count("texts_read_back", len(TOKEN.findall(x[1])))
        elif ok:
            ok = x == y
        if not ok:
            ctx.fail("markup", f"{label}: part {i} of the page is {str(y)[:250]}, with harmless data it is {str(x)[:250]}")
    ctx.check(len(a) == len(b), "markup", f"{label}: the page has {len(b)} parts, with harmless data {len(a)}")


def plant(model, shape, T):
    """A tree with text keys, through the public API: the same shape each time."""
    made = {}
    for i, parent in enumerate(shape):
        kw = dict(name=T(i), note=T(i), code=str(i) + T(i))
        if parent is None:
            made[i] = model.objects.add_root(kw)
        else:
            made[i] = model.objects.add_child(model.objects.get(pk=made[parent].pk), kw)
    return [model.objects.get(pk=made[i].pk) for i in range(len(shape))]


def texts(rng, n):
    out = []
    for _ in range(n):
        t = rng.choice(NASTY)
        if rng.random() < 0.3:
            t = t + rng.choice(NASTY)
        out.append(t.strip())
    return out


def case(ctx):
    rng = ctx.rng
    code = ctx.index % 4 == 0
    if code:
        cs = coded(ctx)
        cfg = cs[ctx.index // 4 % len(cs)]
        clear(cfg.base)
        n = rng.randrange(2, 8)
        shape = [None] + [rng.choice([None, *range(i)]) for i in range(1, n)]
        ctx.note(f"model={cfg.name} tree={shape}")
        model = cfg.base
        where = str(shape)
    else:
        cfg = pick_cfg(ctx, exclude=by_kind(ctx, "AL", sorted=True))
        d = raw_tree(ctx, cfg, rng.randrange(2, 9))
        keys = [x.pk for x in d.ref.all()]
        n = len(keys)
        model = rng.choice(d.classes_for(d.ref.top))
        where = d.ref.shape()
    ctx.count("model:" + cfg.name)
    nasty = texts(rng, n + 4)
    nasty[n + 1] = nasty[n + 1].replace("/", "|")
    web.user("super", model)
    a, b = rng.sample(range(n), 2)
    plan = dict(
        a=a, b=b, pos=rng.choice(("sorted-child", "sorted-sibling") if cfg.sorted else ("first-child", "left", "right")),
        some=rng.sample(range(n), rng.randrange(1, n + 1)), relation=rng.choice(("child", "sibling")),
        move=rng.random() < 0.5,
    )
    plan["kids"] = [a, b]
    passes = {}
    for hostile in (False, True):
        T = Texts(nasty, hostile)
        with transaction.atomic(HOME):
            if code:
                nodes = plant(model, shape, T)
            else:
                for i, k in enumerate(keys):
                    plain(cfg.base).filter(pk=k).update(name=T(i), note=T(i))
                nodes = [model.objects.get(pk=k) for k in keys]
            passes[hostile] = pages(ctx, cfg, model, nodes, T, n, plan, nasty)
            transaction.set_rollback(True, HOME)
    for (name, good), (_, got) in zip(passes[False], passes[True], strict=True):
        ctx.saw(cfg.name, model.__name__, name, where, tuple(nasty))
        label = f"{cfg.name} {where}: {name}, texts {nasty}"
        ctx.check(got["status"] == good["status"], "markup", lambda: f"{label}: status {got['status']}, with harmless data {good['status']}")
        ctx.check(got["type"] == good["type"], "markup", lambda: f"{label}: {got['type']}, with harmless data {good['type']}")
        if good["html"] is not None:
            compare(ctx, label, good["html"], got["html"], nasty)
        if "json" in good:
            ctx.check(same_json(ctx, good["json"], got["json"], nasty), "markup", lambda: f"{label}: {str(got['json'])[:300]}")
            ctx.count("json_records", len(good["json"]))
        ctx.count("messages_shown", good.get("messages", 0))
    for (name, good), (_, got) in zip(passes[False], passes[True]):
        if name == "move form":
            labels(ctx, cfg, got["choices"], nasty, where)


def response(r, is_json=False):
    out = {"status": r.status_code, "type": r.headers.get("Content-Type"), "html": None}
    if is_json:
        data = r.json()
        out["html"] = data.pop("result_html")
        out["json"] = data
    elif "html" in (out["type"] or ""):
        out["html"] = r.content.decode()
        out["messages"] = out["html"].count('class="messagelist"')
    return out


def pages(ctx, cfg, model, nodes, T, n, plan, nasty):
    """[(name, page)] of one pass."""
    c = web.client("super", model)
    key = lambda o: admin_quote(str(o.pk))
    a, b = nodes[plan["a"]], nodes[plan["b"]]
    out = []

    def get(name, rest, data=None):
        out.append((name, response(c.get(web.url(model, rest), data or {}))))

    get("list", "")
    get("list, searched", "", {"q": T(n) + " Zq9"})
    for o in [nodes[i] for i in plan["kids"]]:
        r = c.get(web.url(model, f"children/{url_quote(str(o.pk), safe='')}/"))
        out.append(("children", response(r, r.status_code == 200)))
    r = c.get(web.url(model, f"children/{url_quote(T(n + 1), safe='')}/"))
    out.append(("children of an unknown key", {"status": r.status_code, "type": None, "html": None}))
    get("change form", f"{key(a)}/change/")
    get("add form", "add/")
    get("add form with initial values", "add/", {"name": T(n + 2), "treebeard_position": T(n + 3), "treebeard_ref_node": T(n + 2)})
    get("history", f"{key(a)}/history/")
    get("delete confirmation", f"{key(a)}/delete/")
    some = [nodes[i] for i in plan["some"]]
    r = c.post(web.url(model), {"action": "delete_selected", "_selected_action": [str(o.pk) for o in some]})
    out.append(("bulk delete confirmation", response(r)))
    bad = {"name": T(n), "note": T(n + 1), "treebeard_position": T(n + 2), "treebeard_ref_node": T(n + 3)}
    out.append(("refused change", response(c.post(web.url(model, f"{key(a)}/change/"), bad))))
    out.append(("refused addition", response(c.post(web.url(model, "add/"), bad))))
    r = c.post(web.url(model, "move/"), {"node": T(n), "target": T(n + 1), "relation": T(n + 2)})
    out.append(("refused move", response(r)))
    get("list after a refused move", "")
    F = movenodeform_factory(model)
    form = F(instance=model.objects.get(pk=a.pk))
    page = {"status": 200, "type": None, "html": form.as_p(), "choices": [str(t) for v, t in form.fields["treebeard_ref_node"].choices if v != ""]}
    out.append(("move form", page))
    form = F(bad, instance=model.objects.get(pk=a.pk))
    form.is_valid()
    out.append(("invalid move form", {"status": 200, "type": None, "html": form.as_table()}))
    if cfg.kind != "AL":
        field = TreeNodeChoiceField(queryset=model.objects.get_tree(), empty_label=T(n))
        out.append(("choice field", {"status": 200, "type": None, "html": field.widget.render("x", b.pk)}))
    if plan["move"]:
        r = c.post(web.url(model, "move/"), {"node": str(a.pk), "target": str(b.pk), "relation": plan["relation"]})
        out.append(("move", response(r)))
        get("list after a move", "")
    r = c.post(web.url(model, f"{key(b)}/delete/"), {"post": "yes"})
    out.append(("delete", response(r)))
    get("list after a deletion", "")
    return out


def labels(ctx, cfg, got, nasty, where):
    """Each label is the indentation and the escaped name."""
    names = {escape(t) for t in nasty}
    for t in got:
        ctx.count("labels_compared")
        ctx.check(
            any(t.endswith(x) and set(t[: -len(x)].split("&nbsp;")) == {""} for x in names),
            "markup", lambda: f"{cfg.name} {where}: the choice label {t!r} is not an indented, escaped name",
        )


WORKLOADS = [Workload("pages", case, 60, 900, aspects=ASPECTS)]
