"""Ways to get hold of a node object."""

import copy
import pickle

from django.db import models

from . import decode as dec


def fields(cls):
    return [f.name for f in cls._meta.concrete_fields if not f.primary_key]


def pickled(h, rng):
    return pickle.loads(pickle.dumps(h, rng.choice((0, 2, 5))))


def ways(cls):
    """name: function(queryset, cls, pk, rng) returning the object."""
    out = {
        "get": lambda q, c, pk, rng: q.get(pk=pk),
        "only key": lambda q, c, pk, rng: q.select_related(None).only("pk").get(pk=pk),
        "only one": lambda q, c, pk, rng: q.select_related(None).only(rng.choice(fields(c))).get(pk=pk),
        "defer all": lambda q, c, pk, rng: q.select_related(None).defer(*fields(c)).get(pk=pk),
        "defer one": lambda q, c, pk, rng: q.select_related(None).defer(rng.choice(fields(c))).get(pk=pk),
        "in_bulk": lambda q, c, pk, rng: q.in_bulk([pk])[pk],
        "iterator": lambda q, c, pk, rng: next(q.filter(pk=pk).iterator(chunk_size=1)),
        "pickled": lambda q, c, pk, rng: pickled(q.get(pk=pk), rng),
        "pickled, deferred": lambda q, c, pk, rng: pickled(q.select_related(None).only("pk").get(pk=pk), rng),
        "pickled queryset": lambda q, c, pk, rng: pickled(q.filter(pk=pk), rng)[0],
        "copy": lambda q, c, pk, rng: copy.copy(q.get(pk=pk)),
        "deepcopy": lambda q, c, pk, rng: copy.deepcopy(q.get(pk=pk)),
        "annotated": lambda q, c, pk, rng: q.annotate(one=models.Value(1)).get(pk=pk),
        "union": lambda q, c, pk, rng: q.order_by().filter(pk=pk).union(q.order_by().filter(pk=pk))[0],
        "base manager": lambda q, c, pk, rng: c._base_manager.get(pk=pk),
        "refreshed": lambda q, c, pk, rng: refreshed(q.select_related(None).only("pk").get(pk=pk)),
        "related": lambda q, c, pk, rng: related(q.get(pk=pk)),
    }
    if not any(not p._meta.abstract for p in cls._meta.get_parent_list() if not cls._meta.proxy):
        table = lambda c: c._meta.db_table.join('""')
        column = lambda c: c._meta.pk.column.join('""')
        out["raw"] = lambda q, c, pk, rng: c._base_manager.raw(f"SELECT * FROM {table(c)} WHERE {column(c)} = %s", [db(c, q, pk)])[0]
        out["raw key"] = lambda q, c, pk, rng: c._base_manager.raw(
            f"SELECT {column(c)} FROM {table(c)} WHERE {column(c)} = %s", [db(c, q, pk)])[0]
    return out


def db(c, q, pk):
    from django.db import connections

    return c._meta.pk.get_db_prep_value(pk, connections[q.db])


def refreshed(h):
    h.refresh_from_db()
    return h


def related(h):
    """Through a foreign key, where there is one."""
    if dec.kind_of(type(h)) == "AL":
        child = type(h)._base_manager.filter(parent=h.pk).first()
        if child is not None and type(child.parent) is type(h):
            return child.parent
    for rel in h._meta.related_objects:
        if rel.one_to_many and not rel.hidden and rel.related_model is not type(h):
            row = rel.related_model._base_manager.filter(**{rel.field.name: h.pk}).first()
            if row is not None and type(getattr(row, rel.field.name)) is type(h):
                return getattr(row, rel.field.name)
    return h


def obtain(ctx, cls, pk, qs=None, rng=None):
    """The object of `cls` with that key: got in the usual way or, where the case asks for it, in an odd one."""
    q = qs if qs is not None else cls.objects.all()
    if not ctx.odd_handles:
        return q.get(pk=pk)
    rng = rng or ctx.rng
    w = ways(cls)
    name = rng.choice(list(w))
    ctx.count("obtained:" + name)
    h = w[name](q, cls, pk, rng)
    assert h is not None and h.pk == pk and type(h) is cls, ("harness", name, h)
    return h
