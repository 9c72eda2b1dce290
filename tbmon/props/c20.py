"""The move form, used directly and through the admin's add and change views."""

from html import escape

from django.db import transaction

from treebeard.exceptions import PathOverflow
from treebeard.forms import movenodeform_factory

from .. import web
from ..core import HOME, Workload
from ..engine import Guard
from ..obtain import obtain
from .common import ASSUME, distinct_data, everything, history, pick_cfg, raw_tree

RULE = (
    "A case is a random forest and a series of uses of the move form, directly or through the admin's add and change views: "
    "its choices and initial values are compared with the reference forest; it is submitted as rendered, with a new place, "
    "with new ordering values, with references that are the node itself, its descendants, unknown or garbage, and with an "
    "invalid inline; after each submission every row is compared with the reference forest. Distinct: (configuration, way, "
    "action, shape, places)."
)
ASSUMPTIONS = [
    *ASSUME,
    "Outside the admin the form is saved inside a transaction, as its documentation asks.",
]
REQUIRED = {"choices_compared": 3000, "form_saves": 600, "unchanged_submissions": 150, "refused_forms": 200, "admin_posts": 300}
ASPECTS = ("form:*", "form", "exception")

_FORMS = {}


def form_class(model):
    if model not in _FORMS:
        _FORMS[model] = movenodeform_factory(model)
    return _FORMS[model]


def positions(cfg):
    return ("sorted-child", "sorted-sibling") if cfg.sorted else ("first-child", "left", "right")


def check_choices(ctx, d, got, node, label):
    """`got`: (value, label) pairs without the empty choice, labels as HTML or as text."""
    hidden = set(node.walk()) if node is not None else set()
    want = [n for n in d.ref.all() if n not in hidden]
    ctx.count("choices_compared", len(got))
    ctx.check([str(v) for v, _ in got] == [str(n.pk) for n in want], "form:choices",
              lambda: f"{label}: choices {[str(v) for v, _ in got]}, expected {[str(n.pk) for n in want]}")
    for (_, text), n in zip(got, want):
        expect = "&nbsp;" * 4 * (n.depth - 1) + escape(n.data["name"])
        ctx.check(str(text) == expect, "form:choices", lambda: f"{label}: choice {n.pk} reads {text!r}, expected {expect!r}")


def rendered(page, model):
    """The name: value pairs a browser would send for the rendered form."""
    data = {}
    names = {"id", "name", "note", "val1", "val2", "extra", "tag", "tags", "treebeard_position", "treebeard_ref_node"}
    for tag, a in page.tags:
        name = a.get("name")
        if tag == "input" and name and (name in names or "-" in name) and a.get("type") not in ("checkbox", "submit", "file"):
            data[name] = a.get("value", "")
    data.update((name, text) for name, text in page.areas.items() if name in names or "-" in name)
    for name, opts in page.options.items():
        if name in names:
            sel = [v for v, _, s in opts if s]
            data[name] = sel if name == "tags" else (sel[0] if sel else opts[0][0] if opts else "")
    return data


def room(d, n, ref, pos):
    """None: the call must succeed; True: it must overflow; 'maybe' otherwise."""
    cfg = d.cfg
    if not cfg.may_overflow:
        return None
    from .c15 import num

    parent = ref if ref is not None and pos.endswith("child") else ref.parent if ref is not None else d.ref.top
    h = n.height() if n is not None else 1
    last = max([num(cfg, d.rows[c.pk]["path"][-cfg.base.steplen :]) for c in parent.children], default=0)
    deep = parent.depth + h > cfg.max_depth
    return "maybe" if deep or last >= cfg.max_step else None


def place(d, n, ref, pos):
    """The reference outcome of moving `n` as the form says."""
    if ref is None:
        first = d.ref.roots()[0]
        d.ref_move(n, first, "sorted-sibling" if d.cfg.sorted else "first-sibling")
    else:
        d.ref_move(n, ref, pos)


def start(ctx):
    cfg = pick_cfg(ctx)
    rng = ctx.rng
    if len({c._meta.concrete_model for c in cfg.creators}) > 1:
        d = history(ctx, cfg, n=rng.randrange(4, 12), raw=False, regime="medium", weights={"delete": 0.2, "add_root": 3})
    else:
        d = raw_tree(ctx, cfg, rng.randrange(0, 14), data=distinct_data(cfg, rng))
    model = rng.choice(cfg.creators)
    if model._meta.concrete_model is cfg.base._meta.concrete_model:
        mine = d.ref.all()
    else:
        keys = set(model.objects.filter(pk__in=list(d.ref.nodes)).values_list("pk", flat=True))
        mine = [n for n in d.ref.all() if n.pk in keys]
    return cfg, d, model, mine


def new_values(ctx, cfg, model, i):
    rng = ctx.rng
    data = distinct_data(cfg, rng)()
    data["name"] = (data["name"].strip() or "n") + f"~{i}"
    out = dict(data)
    if model._meta.concrete_model is not cfg.base._meta.concrete_model:
        out["extra"] = "e"
    return data, out


def case(ctx):
    cfg, d, model, mine = start(ctx)
    if len({(tuple(n.data.get(k.lstrip("-")) for k in cfg.order)) for n in d.ref.all()}) < len(d.ref) and cfg.al_sorted():
        return
    rng = ctx.rng
    for i in range(rng.choice((2, 4, 6))):
        d.opno += 1
        d.snapshot()
        mine = [n for n in mine if n.pk in d.ref.nodes]
        adding = not mine or rng.random() < 0.35
        node = None if adding else rng.choice(mine)
        way = "admin" if rng.random() < 0.45 else "form"
        got = (by_admin if way == "admin" else by_form)(ctx, cfg, d, model, node, i)
        if got is not None:
            mine.append(got)


def plan(ctx, cfg, d, node):
    """What to submit: (kind, pos, ref, garbage)."""
    rng = ctx.rng
    alln = d.ref.all()
    kind = rng.choices(("as is", "payload", "place", "values", "both", "bad ref", "bad pos", "bad name"), (2, 1, 6, 2, 2, 2, 1, 1))[0]
    if node is None and kind in ("payload", "values"):
        kind = "place"
    legal = [n for n in alln if node is None or (n is not node and not n.is_under(node))]
    pos = rng.choice(positions(cfg))
    ref = rng.choice(legal) if legal and rng.random() < 0.8 else None
    return kind, pos, ref, legal


def bad_refs(ctx, node, d):
    out = ["999999999", "x'", "-1", "0x", "1" * 30, "first-child"]
    if node is not None:
        out += [str(n.pk) for n in node.walk()] * 3
    return out


def fill(ctx, cfg, d, model, node, base, i):
    """Change what was rendered as planned. Returns (data, expected outcome)."""
    rng = ctx.rng
    kind, pos, ref, legal = plan(ctx, cfg, d, node)
    data = dict(base)
    values = {}
    invalid = False
    initial = (base["treebeard_ref_node"], base["treebeard_position"])
    if node is None:
        values, sent = new_values(ctx, cfg, model, i)
        data.update(sent)
    if kind == "payload":
        values = {"note": f"changed {i}"}
        data.update(values)
    if kind in ("place", "both", "bad name") or (node is None and kind != "as is"):
        data["treebeard_position"] = pos
        data["treebeard_ref_node"] = str(ref.pk) if ref is not None else ""
    if kind in ("values", "both") and node is not None:
        new, _ = new_values(ctx, cfg, model, i)
        keys = rng.sample(sorted(new), rng.randrange(1, len(new) + 1))
        values = {k: new[k] for k in keys}
        data.update(values)
    if kind == "bad ref":
        data["treebeard_ref_node"] = rng.choice(bad_refs(ctx, node, d))
        invalid = True
    elif kind == "bad pos":
        good = positions(cfg)
        data["treebeard_position"] = rng.choice(
            [p for p in ("", "left", "right", "first-child", "last-child", "sorted-child", "sorted-sibling", "x") if p not in good]
        )
        invalid = True
    elif kind == "bad name":
        data["name"] = rng.choice(("", "x" * 201))
        invalid = True
    if node is not None and data["name"].strip() != node.data["name"]:
        values = {**values, "name": data["name"].strip()}  # form fields are stripped
    if "tags" in data and rng.random() < 0.5:
        from ..vapp.models import Tag

        while Tag.objects.count() < 3:
            Tag.objects.create(label="t")
        pks = [str(k) for k in Tag.objects.values_list("pk", flat=True)[:4]]
        new = {"tags": rng.sample(pks, rng.randrange(0, 3)), "tag": rng.choice(["", *pks])}
        if (sorted(new["tags"]), new["tag"]) != (sorted(data["tags"]), data["tag"]):
            values = {**values, "tags": None}
        data.update(new)
    final = (data["treebeard_ref_node"], data["treebeard_position"])
    if node is not None and "note" not in cfg.order and rng.random() < 0.3 and not values:
        del data["note"]  # a field that has a default stays as it is
    tree_change = final != initial or bool(set(values) & {k.lstrip("-") for k in cfg.order} and any(
        node is not None and node.data.get(k) != v for k, v in values.items() if k in {x.lstrip("-") for x in cfg.order}
    ))
    ref_node = None
    if not invalid and final[0]:
        ref_node = next(n for n in d.ref.all() if str(n.pk) == final[0])
    return kind, data, values, invalid, tree_change, ref_node, final[1]


def apply_ref(d, cfg, model, node, obj_pk, values, tree_change, ref, pos):
    if node is None:
        n = d.ref.insert(obj_pk, None, len(d.ref.roots()), values, model)
        if ref is None:
            if cfg.sorted:
                d.ref_move(n, n, "sorted-sibling")
        else:
            d.ref_move(n, ref, pos)
        return n
    node.data.update(values)
    if tree_change:
        place(d, node, ref, pos)
    return None


def memory_ok(ctx, d, obj, desc):
    row = d.rows[obj.pk]
    for c, v in row.items():
        got = d._val(obj, c)
        ctx.check(got == v, "form:memory", lambda: f"{desc}: the returned object has {c}={got!r}, the row {v!r}")


def by_form(ctx, cfg, d, model, node, i):
    rng = ctx.rng
    F = form_class(model)
    inst = obtain(ctx, model, node.pk) if node is not None else None
    if node is None and rng.random() < 0.3:
        inst = model()
    extra = {}
    if node is None and rng.random() < 0.4:  # a view that offers a place
        at = d.pick() if len(d.ref) and rng.random() < 0.8 else None
        extra["initial"] = {
            "treebeard_position": rng.choice(positions(cfg)), "treebeard_ref_node": at and rng.choice((at.pk, d.fetch(at)))
        }
    form = F(instance=inst, **extra)
    label = f"{cfg.name} {d.ref.shape()[:150]}: {F.__name__} {'add' if node is None else 'edit ' + d.where(node)}"
    check_choices(ctx, d, [c for c in form.fields["treebeard_ref_node"].choices if c[0] != ""], node, label)
    html = form.as_p()
    base = rendered(web.Page(html), model)
    kind, data, values, invalid, change, ref, pos = fill(ctx, cfg, d, model, node, base, i)
    desc = f"{label} {kind} {data}"
    ctx.note(f"{d.opno}: {desc}")
    ctx.saw(cfg.name, model.__name__, "form", kind, d.ref.shape(), node and d.where(node), ref and d.where(ref), pos)
    before = everything(cfg)
    inst = obtain(ctx, model, node.pk) if node is not None else (model() if inst is not None else None)
    form = F(data, instance=inst, **extra)
    valid = form.is_valid()
    ctx.check(valid == (not invalid), "form:valid", lambda: f"{desc}: valid={valid}, errors {form.errors.as_json()}")
    if invalid:
        ctx.count("refused_forms")
        if rng.random() < 0.5:
            try:
                form.save()
                ctx.check(False, "form:valid", f"{desc}: saving the invalid form succeeded")
            except ValueError:
                pass
        ctx.check(everything(cfg) == before, "form:valid", f"{desc}: an invalid form changed the database")
        return None
    full = room(d, node, ref, pos)
    try:
        with transaction.atomic(HOME), Guard(HOME):
            if rng.random() < 0.25:
                obj = form.save(commit=False)
                obj.save()
                form.save_m2m()
            else:
                obj = form.save()
    except PathOverflow as exc:
        ctx.check(full, "form:exception", f"{desc}: {exc!r} although there is room")
        ctx.count("overflows")
        ctx.check(everything(cfg) == before, "form:exception", f"{desc} overflowed and changed the database")
        return None
    return finish(ctx, cfg, d, model, node, obj, values, change, ref, pos, desc, before, data)


def finish(ctx, cfg, d, model, node, obj, values, change, ref, pos, desc, before, data):
    ctx.count("form_saves")
    if not change and not values:
        ctx.count("unchanged_submissions")
        ctx.check(everything(cfg) == before, "form:unchanged", f"{desc}: submitting the form as rendered changed the database")
    pk = obj if not hasattr(obj, "pk") else obj.pk
    relations_ok(ctx, model, pk, data, desc)
    values.pop("tags", None)
    ctx.check(node is None or pk == node.pk, "form:return", f"{desc} returned {obj!r}")
    new = apply_ref(d, cfg, model, node, pk, values, change, ref, pos)
    d.after("form", desc)
    if hasattr(obj, "pk"):
        ctx.check(isinstance(obj, model), "form:return", f"{desc} returned {obj!r}")
        memory_ok(ctx, d, obj, desc)
    return new


def by_admin(ctx, cfg, d, model, node, i):
    rng = ctx.rng
    client = web.client("super", model)
    path = web.url(model, "add/" if node is None else f"{node.pk}/change/")
    r = client.get(path)
    label = f"{cfg.name} {d.ref.shape()[:150]}: admin {model.__name__} {'add' if node is None else 'edit ' + d.where(node)}"
    ctx.check(r.status_code == 200, "form:admin", f"{label}: GET answered {r.status_code}")
    page = web.Page(r.content.decode())
    opts = [(v, escape(t.replace("\xa0", "\0")).replace("\0", "&nbsp;")) for v, t, _ in page.options["treebeard_ref_node"] if v]
    check_choices(ctx, d, opts, node, label)
    base = rendered(page, model)
    base.pop("_save", None)
    kind, data, values, invalid, change, ref, pos = fill(ctx, cfg, d, model, node, base, i)
    inline = next((k[: -len("-TOTAL_FORMS")] for k in data if k.endswith("-TOTAL_FORMS")), None)
    bad_inline = good_inline = False
    if inline and rng.random() < 0.5:
        have = int(data[f"{inline}-TOTAL_FORMS"])
        data[f"{inline}-TOTAL_FORMS"] = str(have + 1)
        bad_inline = rng.random() < 0.6
        good_inline = not bad_inline
        data[f"{inline}-{have}-label"] = "x" * 51 if bad_inline else f"inline{i}"
        if node is not None:
            data[f"{inline}-{have}-node"] = str(node.pk)
    desc = f"{label} {kind}{' with an invalid inline' if bad_inline else ''} {data}"
    ctx.note(f"{d.opno}: {desc}")
    ctx.saw(cfg.name, model.__name__, "admin", kind, bad_inline, good_inline, d.ref.shape(), node and d.where(node), ref and d.where(ref), pos)
    before = everything(cfg)
    full = room(d, node, ref, pos) if not invalid else None
    with Guard(HOME):
        r = client.post(path, data)
    ctx.count("admin_posts")
    if invalid or bad_inline:
        ctx.count("refused_forms")
        if bad_inline:
            ctx.count("invalid_inlines")
        if bad_inline and not invalid and full and r.status_code == 500:
            pass
        else:
            ctx.check(r.status_code == 200, "form:admin", f"{desc} answered {r.status_code}")
            ctx.check("errorlist" in r.content.decode(), "form:admin", f"{desc} shows no error")
        ctx.check(everything(cfg) == before, "form:admin", lambda: f"{desc}: a refused form changed the database: {diff(before, everything(cfg))}")
        return None
    if full and r.status_code == 500:
        ctx.count("overflows")
        ctx.check(everything(cfg) == before, "form:admin", f"{desc} overflowed and changed the database")
        return None
    ctx.check(r.status_code == 302, "form:admin", lambda: f"{desc} answered {r.status_code}: {errors(r)}")
    if node is None:
        now = set(model.objects.values_list("pk", flat=True)) if model._meta.concrete_model is cfg.base._meta.concrete_model else None
        known = set(d.ref.nodes)
        fresh = [k for k in d.snapshot() if k not in known]
        ctx.check(len(fresh) == 1 and (now is None or fresh[0] in now), "form:admin", f"{desc}: {len(fresh)} new nodes")
        pk = fresh[0]
    else:
        pk = node.pk
    if good_inline:
        from ..vapp import models as m

        ctx.count("inlines_saved")
        dep = m.DEPS[cfg.base]["casc"]
        ctx.check(
            dep.objects.filter(label=f"inline{i}", node_id=pk).count() >= 1, "form:admin", f"{desc}: the inline was not saved with the node"
        )
    if not change and not values and not good_inline:
        return finish(ctx, cfg, d, model, node, pk, values, change, ref, pos, desc, before, data)
    ctx.count("form_saves")
    relations_ok(ctx, model, pk, data, desc)
    values.pop("tags", None)
    new = apply_ref(d, cfg, model, node, pk, values, change, ref, pos)
    d.after("form", desc)
    return new


def relations_ok(ctx, model, pk, data, desc):
    if "tags" in data:
        obj = model.objects.get(pk=pk)
        got = (sorted(str(t) for t in obj.tags.values_list("pk", flat=True)), str(obj.tag_id or ""))
        ctx.check(got == (sorted(data["tags"]), data["tag"]), "form:relations", lambda: f"{desc}: the node has the tags {got}")
        ctx.count("relations_compared")


def diff(a, b):
    return str({k: ([r for r in b[k] if r not in a[k]][:3], [r for r in a[k] if r not in b[k]][:3]) for k in a if a[k] != b[k]})[:500]


def errors(r):
    return " ".join(t.strip() for t in web.Page(r.content.decode()).text if "rror" in t or "elect" in t)[:300]


WORKLOADS = [Workload("forms", case, 700, 9000, aspects=ASPECTS)]
