"""Django's own facilities on trees: fixtures, writes through the ORM, derived querysets, migrations."""

import copy
import io
import os
import pickle
import shutil
import tempfile

from asgiref.sync import async_to_sync
from django.apps import apps
from django.core import serializers
from django.core.management import call_command
from django.db import connection, connections, models, transaction
from django.db.migrations.autodetector import MigrationAutodetector
from django.db.migrations.loader import MigrationLoader
from django.db.migrations.questioner import NonInteractiveMigrationQuestioner
from django.db.migrations.state import ProjectState
from django.db.migrations.writer import MigrationWriter

from .. import decode as dec
from ..core import HOME, Workload
from ..engine import CHILD_POS, clear
from .c06 import compare, limited, pks
from .c11 import extend
from .common import ASSUME, distinct_data, everything, family, pick_cfg, raw_tree, whole_table

RULE = (
    "A case is a random forest written straight into the table, of any implementation and configuration, with rows of child "
    "models and of related models. fixtures: it is written with dumpdata or serializers (json, jsonl, xml, python) and read "
    "into emptied tables; every table must hold exactly what it held, and operations and navigation must then work. writes: "
    "payload is changed through save, update, bulk_update, update_or_create and their kin, on nodes and on the querysets that "
    "navigation returns; the named columns of the named rows must change and no other. querysets: what navigation returns is "
    "filtered, excluded, sliced, reversed, counted, combined, pickled, copied, used as a subquery, read asynchronously, and "
    "compared with the same done to the list of the reference forest. migrations: makemigrations must write a migration for "
    "the models that builds the tables they have, and must then find nothing to do. Distinct: (workload, configuration, shape, step)."
)
ASSUMPTIONS = [*ASSUME]
REQUIRED = {
    "fixtures": 150, "fixture_rows": 1500, "writes": 400, "derived_queries": 4000, "migrations_written": 2, "models_migrated": 10,
    "columns_compared": 200,
}
ASPECTS = ("django:*", "exception", "nav", "structure", "encoding*", "payload*", "unmoved")


# -- fixtures
def tree_with_rows(ctx, most=20):
    rng = ctx.rng
    cfg = pick_cfg(ctx)
    d = raw_tree(ctx, cfg, n=rng.randrange(1, most), data=distinct_data(cfg, rng))
    others = {}
    for n in d.ref.all():
        cls = rng.choice(cfg.creators)
        if cls._meta.concrete_model is not cfg.base._meta.concrete_model and rng.random() < 0.6:
            extend(cfg, n, cls, rng)
    from ..vapp import models as m

    for kind, dep in m.DEPS.get(dec.base_of(cfg.base), {}).items():
        for n in d.ref.all():
            if rng.random() < 0.2:
                fk = next(f for f in dep._meta.concrete_fields if f.remote_field and issubclass(cfg.base, f.related_model))
                dep._base_manager.create(**{fk.attname: n.pk})
    return cfg, d, others


def empty(cfg):
    """Delete every row of the family, children first, without treebeard."""
    con = connections[HOME]
    qn = con.ops.quote_name
    with con.cursor() as cur:
        tables = [m._meta.db_table for m in reversed(family(cfg))]
        tables.sort(key=lambda t: t == dec.base_of(cfg.base)._meta.db_table)
        for t in tables:
            cur.execute(f"DELETE FROM {qn(t)}")


def fixtures(ctx):
    rng = ctx.rng
    cfg, d, _ = tree_with_rows(ctx)
    before = everything(cfg)
    fmt = rng.choice(("json", "jsonl", "xml"))
    if fmt == "xml" and not plain_text(before):
        fmt = "json"  # Django's XML reader strips blanks
    how = rng.choice(("dumpdata", "dumpdata", "serializers", "python"))
    mods = []
    for mod in family(cfg):
        if mod not in mods:
            mods.append(mod)
    desc = f"{cfg.name} {d.ref.shape()[:200]}: {how} {fmt}"
    ctx.count("fixtures")
    ctx.count("fixture_rows", sum(map(len, before.values())))
    ctx.saw("fixture", cfg.name, d.ref.shape(), how, fmt)
    home = tempfile.mkdtemp(prefix="tbmon-fixture-")
    try:
        if how == "dumpdata":
            path = os.path.join(home, f"tree.{fmt}")
            labels = [mod._meta.label for mod in mods if not mod._meta.auto_created]
            args = {"format": fmt, "output": path, "verbosity": 0}
            if rng.random() < 0.5:
                args["use_base_manager"] = True
            if rng.random() < 0.5:
                args["indent"] = 2
            call_command("dumpdata", *labels, **args)
            empty(cfg)
            call_command("loaddata", path, verbosity=0)
        else:
            objs = [o for mod in mods if not mod._meta.auto_created for o in mod._base_manager.order_by("pk")]
            text = serializers.serialize("python" if how == "python" else fmt, objs)
            empty(cfg)
            got = list(serializers.deserialize("python" if how == "python" else fmt, text))
            if rng.random() < 0.3 and cfg.kind != "AL":
                rng.shuffle(got)
                got.sort(key=lambda o: mods.index(type(o.object)))  # rows of parent models first
            with transaction.atomic(), connection.constraint_checks_disabled():
                for o in got:
                    o.save()
    except Exception as exc:
        ctx.fail("django:fixture", f"{desc} raised {exc!r}")
    finally:
        shutil.rmtree(home, ignore_errors=True)
    after = everything(cfg)
    for label, rows in before.items():
        ctx.check(
            after[label] == rows, "django:fixture",
            lambda: f"{desc}: {label} was {rows[:6]}… and came back as {after[label][:6]}…",
        )
    d.snapshot()
    compare(d, per_node=3)
    if how == "dumpdata":  # which sets the sequences right
        d.run(4)


def plain_text(tables):
    """Nothing that XML, as Django writes and reads it, cannot carry."""
    for rows in tables.values():
        for r in rows:
            for x in r:
                if isinstance(x, str) and (x != x.strip() or not x.isprintable()):
                    return False
    return True


# -- writes
def fresh(cfg, rng):
    return {c: ("w%05d" % rng.randrange(10**5) if c in ("name", "note") else rng.randrange(10**5)) for c in payload(cfg)}


def payload(cfg):
    out = []
    base = dec.base_of(cfg.base)
    for f in base._meta.concrete_fields:
        if f.attname in ("name", "note", "val1", "val2") and f.attname not in {x.lstrip("-") for x in cfg.base.node_order_by or ()}:
            if not getattr(f, "unique", False):
                out.append(f.attname)
    return out


def writes(ctx):
    rng = ctx.rng
    cfg = pick_cfg(ctx)
    d = raw_tree(ctx, cfg, n=rng.randrange(2, 20), data=distinct_data(cfg, rng))
    cols = payload(cfg)
    base = dec.base_of(cfg.base)
    if not cols:
        return
    extra = sorted({f.attname for f in base._meta.local_concrete_fields if not f.primary_key} - set(dec.tree_cols(base)))
    for _ in range(rng.randrange(2, 6)):
        before = dec.raw_rows(base, extra=extra)
        tied = {m._meta.label: whole_table(m) for m in family(cfg) if m is not base}
        want = {pk: dict(r) for pk, r in before.items()}
        nodes = rng.sample(d.ref.all(), min(len(d.ref.all()), rng.randrange(1, 5)))
        n = nodes[0]
        cls = rng.choice(d.classes_for(n))
        h = d.fetch(n, cls)
        new = fresh(cfg, rng)
        some = rng.sample(cols, rng.randrange(1, len(cols) + 1))
        vals = {c: new[c] for c in some}
        kind = rng.choice(
            ("save", "save", "update_fields", "asave", "update", "aupdate", "bulk_update", "update_or_create", "get_or_create",
             "nav update", "nav update", "expression", "copied", "force_update")
        )
        hit = [n.pk]
        try:
            if kind in ("save", "asave", "force_update", "update_fields", "copied", "expression"):
                if kind == "copied":
                    h = pickle.loads(pickle.dumps(copy.deepcopy(h)))
                for c, v in vals.items():
                    setattr(h, c, models.Value(v) if kind == "expression" else v)
                if kind == "asave":
                    async_to_sync(h.asave)()
                elif kind == "force_update":
                    h.save(force_update=True)
                elif kind == "update_fields":
                    h.save(update_fields=list(vals))
                else:
                    h.save()
            elif kind in ("update", "aupdate"):
                hit = [x.pk for x in nodes]
                q = cls.objects.filter(pk__in=hit)
                hit = [x.pk for x in nodes if cls in d.classes_for(x) or cls is cfg.base]
                got = q.update(**vals) if kind == "update" else async_to_sync(q.aupdate)(**vals)
                ctx.check(got == len(hit), "django:write", lambda: f"{cfg.name} update() of {len(hit)} nodes returned {got}")
            elif kind == "bulk_update":
                nodes = [x for x in nodes if cls in d.classes_for(x)]
                objs = [d.fetch(x, cls) for x in nodes]
                hit = [x.pk for x in nodes]
                for o in objs:
                    for c, v in vals.items():
                        setattr(o, c, v)
                cls.objects.bulk_update(objs, list(vals), batch_size=rng.choice((None, 1, 2)))
            elif kind == "update_or_create":
                o, made = cls.objects.select_related(None).update_or_create(pk=n.pk, defaults=vals)
                ctx.check(not made and o.pk == n.pk, "django:write", f"{cfg.name} update_or_create made {o!r}")
            elif kind == "get_or_create":
                vals = {}
                o, made = cls.objects.select_related(None).get_or_create(pk=n.pk, defaults=new)
                ctx.check(not made and o.pk == n.pk, "django:write", f"{cfg.name} get_or_create made {o!r}")
            else:
                name, q, keys = rng.choice(navigation(d, n, cfg.base.objects, d.fetch(n, cfg.base), rng))
                kind = f"{name}.update"
                hit = keys
                got = q.update(**vals)
                ctx.check(got == len(keys), "django:write", lambda: f"{cfg.name} {kind}() returned {got} for {len(keys)} nodes")
        except Exception as exc:
            ctx.fail("django:write", f"{cfg.name} {d.ref.shape()[:200]}: {kind} {vals} on {d.where(n)} as {cls.__name__} raised {exc!r}")
        for pk in hit:
            want[pk].update(vals)
        ctx.count("writes")
        ctx.saw("write", cfg.name, kind, tuple(vals), d.ref.shape())
        after = dec.raw_rows(base, extra=extra)
        diff = {pk: (want.get(pk), after.get(pk)) for pk in set(want) | set(after) if want.get(pk) != after.get(pk)}
        ctx.check(
            not diff, "django:write",
            lambda: f"{cfg.name} {d.ref.shape()[:200]}: {kind} {vals} on {d.where(n)}: (expected, found) {list(diff.items())[:3]}",
        )
        now = {m._meta.label: whole_table(m) for m in family(cfg) if m is not base}
        ctx.check(now == tied, "django:write", lambda: f"{cfg.name}: {kind} {vals} on {d.where(n)} changed tables of other models")
        d.snapshot()
    compare(d, per_node=2)


# -- querysets
def navigation(d, n, mgr, h, rng):
    """(name, queryset, expected keys in order): the queries that answer with a queryset."""
    ref = d.ref
    md = rng.choice((None, 0, 1, 2))
    out = [
        ("get_root_nodes", mgr.get_root_nodes(), pks(ref.roots())),
        ("get_children", mgr.get_children(h), pks(n.children)),
        ("get_siblings", mgr.get_siblings(h), pks(n.parent.children)),
        ("get_ancestors", mgr.get_ancestors(h), pks(n.ancestors())),
        ("get_descendants", mgr.get_descendants(h), limited(n, None, False)),
        ("get_descendants(include_self=True)", mgr.get_descendants(h, include_self=True), limited(n, None, True)),
        ("get_tree", mgr.get_tree(), pks(ref.all())),
        (f"get_tree(node, max_depth={md})", mgr.get_tree(h, max_depth=md), limited(n, md, True)),
    ]
    if d.cfg.kind != "AL":
        out.append(("all", mgr.all(), pks(ref.all())))
    return [x for x in out if isinstance(x[1], models.QuerySet)]


def copied(q, rng):
    x = rng.randrange(5)
    if x == 0:
        return copy.copy(q), "copy"
    if x == 1:
        return copy.deepcopy(q), "deepcopy"
    if x == 2:
        return pickle.loads(pickle.dumps(q)), "pickle"
    if x == 3:
        out = q.model._base_manager.all()
        out.query = pickle.loads(pickle.dumps(q.query))
        return out, "pickled query"
    return q._chain(), "chain"


def querysets(ctx):
    rng = ctx.rng
    cfg = pick_cfg(ctx)
    d = raw_tree(ctx, cfg, n=rng.randrange(2, 25), data=distinct_data(cfg, rng))
    names = {n.pk: n.data["name"] for n in d.ref.all()}
    shape = d.ref.shape()
    nodes = d.ref.all()
    for n in rng.sample(nodes, min(3, len(nodes))):
        h = d.fetch(n, cfg.base)
        for name, q, want in navigation(d, n, cfg.base.objects, h, rng):
            mid = names[rng.choice(nodes).pk]
            other_n = rng.choice(nodes)
            other = rng.choice(navigation(d, other_n, cfg.base.objects, d.fetch(other_n, cfg.base), rng))
            for _ in range(rng.randrange(2, 6)):
                step, got, exp = "?", None, None
                try:
                    step, got, exp = derive(rng, q, want, names, mid, other, cfg)
                except Exception as exc:
                    ctx.fail("django:queryset", f"{cfg.name} {shape[:200]}: {name} of {d.where(n)}, derived ({step}), raised {exc!r}")
                ctx.count("derived_queries")
                ctx.count("derived:" + step.split("(")[0])
                ctx.saw("queryset", cfg.name, name.split("(")[0], step, shape)
                ctx.check(
                    got == exp, "django:queryset",
                    lambda: f"{cfg.name} {shape[:200]}: {name} of {d.where(n)}, {step}: {got}, expected {exp}",
                )


class Failed(Exception):
    pass


def derive(rng, q, want, names, mid, other, cfg):
    """(step, answer, expected) for one thing done to the queryset `q`, whose keys are `want` in order."""
    kind = rng.choice(STEPS)
    try:
        return derivation(rng, kind, q, want, names, mid, other, cfg)
    except Exception as exc:
        raise Failed(f"{kind}: {exc!r}") from exc


STEPS = (
    "filter", "exclude", "count", "exists", "first", "last", "reverse", "slice", "index", "in_bulk", "values_list", "iterator",
    "subquery", "contains", "aggregate", "order_by", "or", "and", "union", "intersection", "difference", "only", "get", "copied",
    "copied filter", "async for", "acount", "afirst", "annotate", "distinct", "using", "bool", "len", "none", "exclude subquery",
    "exists subquery", "values count", "select_for_update", "navigate subset", "all", "complex_filter", "paginate",
)


def derivation(rng, kind, q, want, names, mid, other, cfg):
    oname, oq, okeys = other
    low = [k for k in want if names[k] < mid]
    as_set = lambda x: sorted(x, key=str)
    if kind == "filter":
        return kind, pks(q.filter(name__lt=mid)), low
    if kind == "complex_filter":
        return kind, pks(q.filter(models.Q(name__lt=mid) | models.Q(pk__in=okeys))), [k for k in want if k in low or k in okeys]
    if kind == "exclude":
        return kind, pks(q.exclude(name__lt=mid)), [k for k in want if k not in low]
    if kind == "count":
        return kind, q.count(), len(want)
    if kind == "len":
        return kind, len(q.all()), len(want)
    if kind == "bool":
        return kind, bool(q.all()), bool(want)
    if kind == "none":
        return kind, pks(q.none()), []
    if kind == "all":
        return kind, pks(q.all()), want
    if kind == "exists":
        return kind, q.exists(), bool(want)
    if kind == "first":
        return kind, [o.pk for o in (q.first(),) if o], want[:1]
    if kind == "last":
        return kind, [o.pk for o in (q.last(),) if o], want[-1:]
    if kind == "reverse":
        return kind, pks(q.reverse()), want[::-1]
    if kind == "slice":
        a = rng.randrange(0, len(want) + 1)
        b = rng.choice((None, rng.randrange(a, len(want) + 2)))
        return f"slice({a}, {b})", pks(q[a:b]), want[a:b]
    if kind == "paginate":
        from django.core.paginator import Paginator

        p = Paginator(q, rng.randrange(1, 5))
        return kind, [o.pk for page in p for o in page], want
    if kind == "index":
        if not want:
            return kind, None, None
        i = rng.randrange(len(want))
        return f"index({i})", q[i].pk, want[i]
    if kind == "in_bulk":
        return kind, as_set(q.in_bulk()), as_set(want)
    if kind == "values_list":
        return kind, list(q.values_list("pk", "name")), [(k, names[k]) for k in want]
    if kind == "values count":
        return kind, [(r["pk"], r["n"]) for r in q.values("pk").annotate(n=models.Count("name"))], [(k, 1) for k in want]
    if kind == "iterator":
        return kind, pks(q.iterator(chunk_size=rng.choice((1, 2, 100)))), want
    if kind == "subquery":
        return kind, as_set(pks(cfg.base._base_manager.filter(pk__in=q.values("pk")))), as_set(want)
    if kind == "exclude subquery":
        return kind, as_set(pks(cfg.base._base_manager.exclude(pk__in=q.values("pk")))), as_set(set(names) - set(want))
    if kind == "exists subquery":
        out = cfg.base._base_manager.filter(models.Exists(q.filter(pk=models.OuterRef("pk"))))
        return kind, as_set(pks(out)), as_set(want)
    if kind == "contains":
        pk = rng.choice(list(names))
        return kind, q.contains(cfg.base._base_manager.get(pk=pk)), pk in want
    if kind == "aggregate":
        got = q.aggregate(n=models.Count("pk"), low=models.Min("name"), high=models.Max("name"))
        mine = [names[k] for k in want]
        return kind, got, {"n": len(mine), "low": min(mine, default=None), "high": max(mine, default=None)}
    if kind == "order_by":
        return kind, pks(q.order_by("-name")), sorted(want, key=lambda k: names[k], reverse=True)
    if kind == "or":
        return f"or({oname})", as_set(pks(q | oq)), as_set(set(want) | set(okeys))
    if kind == "and":
        return f"and({oname})", as_set(pks(q & oq)), as_set(set(want) & set(okeys))
    if kind in ("union", "intersection", "difference"):
        got = getattr(q.order_by(), kind)(oq.order_by())
        op = {"union": set.union, "intersection": set.intersection, "difference": set.difference}[kind]
        return f"{kind}({oname})", as_set(pks(got)), as_set(op(set(want), set(okeys)))
    if kind == "only":
        return kind, [(o.pk, o.name) for o in q.select_related(None).only("name")], [(k, names[k]) for k in want]
    if kind == "get":
        if not want:
            return kind, None, None
        k = rng.choice(want)
        return kind, q.get(name=names[k]).pk, k
    if kind == "copied":
        got, how = copied(q, rng)
        return f"{kind}({how})", pks(got), want
    if kind == "copied filter":
        got, how = copied(q, rng)
        return f"{kind}({how})", pks(got.filter(name__lt=mid)), low
    if kind == "async for":
        async def read():
            return [o.pk async for o in q.all()]

        return kind, async_to_sync(read)(), want
    if kind == "acount":
        return kind, async_to_sync(q.acount)(), len(want)
    if kind == "afirst":
        return kind, [o.pk for o in (async_to_sync(q.afirst)(),) if o], want[:1]
    if kind == "annotate":
        got = [(o.pk, o.size) for o in q.annotate(size=models.functions.Length("name"))]
        return kind, got, [(k, len(names[k])) for k in want]
    if kind == "distinct":
        return kind, pks(q.distinct()), want
    if kind == "using":
        return kind, pks(q.using(HOME)), want
    if kind == "select_for_update":
        with transaction.atomic():
            return kind, pks(q.select_related(None).select_for_update()), want
    if kind == "navigate subset":  # keys and objects out of a derived queryset work as nodes
        if not want:
            return kind, None, None
        k = rng.choice(want)
        o = q.filter(name__lte=names[k]).get(pk=k)
        return kind, pks(cfg.base.objects.get_ancestors(o)) + [o.pk], ancestors_of(cfg, k)
    raise AssertionError(kind)


def ancestors_of(cfg, pk):
    got = dec.decode(cfg.base, dec.raw_rows(cfg.base))
    parent = {c: p for p, kids in got.children.items() for c in kids}
    out = [pk]
    while parent.get(out[0]) is not None:
        out.insert(0, parent[out[0]])
    return out


# -- migrations
def columns(con, table):
    with con.cursor() as cur:
        cols = {
            c.name: (str(c.type_code), c.null_ok, getattr(c, "collation", None))
            for c in con.introspection.get_table_description(cur, table)
        }
        cons = con.introspection.get_constraints(cur, table)
    return cols, sorted(
        (tuple(c["columns"] or ()), c["primary_key"], c["unique"], bool(c["index"]), bool(c["check"]), c.get("type"),
         (c["foreign_key"] or (None, None))[1])
        for c in cons.values()
    )


def migrations(ctx):
    """makemigrations for the harness's application, migrate in tables of their own, makemigrations again."""
    rng = ctx.rng
    target = ProjectState.from_apps(apps)
    app = apps.get_app_config("vapp").label
    loader = MigrationLoader(None, ignore_no_migrations=True)
    start = loader.project_state()
    for key in list(start.models):
        if key[0] == app:
            start.remove_model(*key)
    ask = NonInteractiveMigrationQuestioner(specified_apps={app}, dry_run=True)
    changes = MigrationAutodetector(start, target, ask).changes(graph=loader.graph, trim_to_apps={app}, convert_apps={app})
    ctx.check(app in changes, "django:migration", "makemigrations found no models")
    state = start.clone()
    done = []
    for mig in changes[app]:
        try:
            text = MigrationWriter(mig, include_header=False).as_string()
            space = {}
            exec(compile(text, "<migration>", "exec"), space)
        except Exception as exc:
            ctx.fail("django:migration", f"the migration that makemigrations writes cannot be read: {exc!r}")
        again = space["Migration"](mig.name, app)
        ctx.count("migrations_written")
        done.append(again)
        state = again.mutate_state(state, preserve=True)
    more = MigrationAutodetector(state.clone(), ProjectState.from_apps(apps), ask).changes(graph=loader.graph, trim_to_apps={app}, convert_apps={app})
    ctx.check(
        not more.get(app), "django:migration",
        lambda: f"after the migration makemigrations still finds {[op.describe() for m in more[app] for op in m.operations][:5]}",
    )
    # the tables that the migration makes are those of the models
    trees = [m for m in apps.get_app_config("vapp").get_models() if hasattr(m, "get_root_nodes") or dec_kind(m)]
    have = {m._meta.db_table: columns(connection, m._meta.db_table) for m in trees if m._meta.managed and not m._meta.proxy}
    made, rows = scratch_tables(ctx, done, start, state, list(have), rng)
    for table, want in have.items():
        ctx.count("models_migrated")
        ctx.count("columns_compared", len(want[0]))
        ctx.check(
            made[table] == want, "django:migration",
            lambda: f"table {table}: migrated as {made[table]}, the model has {want}",
        )
    ctx.saw("migrations", ctx.backend, ctx.index)


def dec_kind(m):
    try:
        return dec.kind_of(m)
    except TypeError:
        return None


def scratch_tables(ctx, done, start, state, tables, rng):
    """Run the migrations in an empty SQLite database or an empty schema, both removed again."""
    con = connection.copy("scratch")
    connections["scratch"] = con
    out = {}
    home = None
    try:
        if con.vendor == "sqlite":
            home = tempfile.mkdtemp(prefix="tbmon-migrate-")
            con.settings_dict["NAME"] = os.path.join(home, "db.sqlite3")
            prepare(con, start)
        else:
            with con.cursor() as cur:
                cur.execute("CREATE SCHEMA scratch")
                cur.execute("SET search_path TO scratch, public")
        now = start.clone()
        for mig in done:
            with con.schema_editor(atomic=mig.atomic) as editor:
                now = mig.apply(now, editor)
        for t in tables:
            out[t] = columns(con, t)
    finally:
        if con.vendor != "sqlite":
            with con.cursor() as cur:
                cur.execute("DROP SCHEMA IF EXISTS scratch CASCADE")
        con.close()
        del connections["scratch"]
        if home:
            shutil.rmtree(home, ignore_errors=True)
    return out, None


def prepare(con, start):
    """The tables of other applications that ours refer to."""
    with con.schema_editor() as editor:
        for m in start.apps.get_models(include_auto_created=False):
            editor.create_model(m)


WORKLOADS = [
    Workload("fixtures", fixtures, 200, 2500, aspects=ASPECTS),
    Workload("writes", writes, 220, 3000, aspects=ASPECTS),
    Workload("querysets", querysets, 250, 4000, aspects=ASPECTS),
    Workload("migrations", migrations, 1, 2, aspects=ASPECTS),
]
