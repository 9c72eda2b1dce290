"""Independent decoders: from raw table rows to an ordered forest plus a list of broken storage invariants.

Nothing here calls treebeard: rows come from plain SELECT statements, and the decoders know only the documented
encodings (materialized path, nested sets, adjacency list, ltree).
"""

from django.db import connections

from .core import HOME


def kind_of(model):
    names = {c.__name__ for c in model.__mro__}
    for k in ("MP", "NS", "AL", "LT"):
        if f"{k}_Node" in names:
            return k
    raise TypeError(model)


def subclasses(cls):
    """All of them, parents first."""
    out = []
    for c in cls.__subclasses__():
        out += [c, *subclasses(c)]
    return out


def base_of(model):
    """The concrete model whose table holds the tree columns."""
    col = {"MP": "path", "LT": "path", "NS": "lft", "AL": "parent"}[kind_of(model)]
    return model._meta.get_field(col).model._meta.concrete_model


TREE_COLS = {
    "MP": ("path", "depth", "numchild"),
    "NS": ("tree_id", "lft", "rgt", "depth"),
    "LT": ("path",),
    "AL": ("parent_id", "sib_order"),
}


def tree_cols(model):
    k = kind_of(model)
    if k == "AL" and model.node_order_by:
        return ("parent_id",)
    return TREE_COLS[k]


def raw_rows(model, using=HOME, extra=()):
    """{pk: {column: value}} read with one plain SELECT."""
    base = base_of(model)
    meta = base._meta
    conn = connections[using]
    pkf = meta.pk
    names = [*tree_cols(base), *extra]
    fields = {f.attname: f for f in meta.local_concrete_fields}
    sel = [conn.ops.quote_name(pkf.column)]
    for n in names:
        q = conn.ops.quote_name(fields[n].column)
        if n == "path" and kind_of(base) == "LT":
            q += "::text"
        sel.append(q)
    with conn.cursor() as cur:
        cur.execute(f"SELECT {', '.join(sel)} FROM {conn.ops.quote_name(meta.db_table)}")
        got = cur.fetchall()
    out = {}
    for r in got:
        d = dict(zip(names, r[1:]))
        if d.get("parent_id") is not None:
            d["parent_id"] = pkf.to_python(d["parent_id"])
        out[pkf.to_python(r[0])] = d
    return out


class Decoded:
    def __init__(self):
        self.children = {}
        self.problems = []
        self.depth = {}

    def bad(self, msg):
        self.problems.append(msg)


def decode(model, rows):
    return {"MP": _mp, "NS": _ns, "AL": _al, "LT": _lt}[kind_of(model)](base_of(model), rows)


def _mp(model, rows):
    d = Decoded()
    steplen, alphabet = model.steplen, model.alphabet
    max_length = model._meta.get_field("path").max_length
    rank = {c: i for i, c in enumerate(alphabet)}
    by_path = {}
    ok = []
    for pk, r in rows.items():
        p = r["path"]
        if not p or len(p) % steplen:
            d.bad(f"node {pk}: path {p!r} is not a whole number of steps")
        elif len(p) > max_length:
            d.bad(f"node {pk}: path {p!r} is longer than max_length={max_length}")
        elif any(c not in rank for c in p):
            d.bad(f"node {pk}: path {p!r} has characters outside the alphabet")
        elif p in by_path:
            d.bad(f"nodes {by_path[p]} and {pk} share the path {p!r}")
        else:
            by_path[p] = pk
            ok.append((tuple(rank[c] for c in p), pk))
    ok.sort()
    for _, pk in ok:
        r = rows[pk]
        p = r["path"]
        depth = len(p) // steplen
        d.depth[pk] = depth
        if r["depth"] != depth:
            d.bad(f"node {pk}: depth {r['depth']} but path {p!r} is at depth {depth}")
        parent = None
        if depth > 1:
            parent = by_path.get(p[:-steplen])
            if parent is None:
                d.bad(f"node {pk}: path {p!r} has no parent row")
                continue
        d.children.setdefault(parent, []).append(pk)
    for pk, r in rows.items():
        n = len(d.children.get(pk, ()))
        if r["numchild"] != n:
            d.bad(f"node {pk}: numchild {r['numchild']} but it has {n} children")
    return d


def _ns(model, rows):
    d = Decoded()
    trees = {}
    for pk, r in rows.items():
        trees.setdefault(r["tree_id"], []).append((r["lft"], r["rgt"], pk))
    for tid in sorted(trees):
        nodes = sorted(trees[tid])
        if tid < 1:
            d.bad(f"tree_id {tid} is not positive")
        bounds = sorted([x[0] for x in nodes] + [x[1] for x in nodes])
        if bounds != list(range(1, 2 * len(nodes) + 1)):
            d.bad(f"tree {tid}: the lft/rgt values are {bounds[:40]}, not 1..{2 * len(nodes)}")
        stack = []
        roots = 0
        for lft, rgt, pk in nodes:
            if rgt <= lft:
                d.bad(f"node {pk}: lft {lft} >= rgt {rgt}")
            while stack and stack[-1][1] < lft:
                stack.pop()
            if stack and rgt > stack[-1][1]:
                d.bad(f"node {pk} [{lft},{rgt}] partially overlaps node {stack[-1][2]} {stack[-1][:2]}")
            parent = stack[-1][2] if stack else None
            if parent is None:
                roots += 1
                if roots > 1:
                    d.bad(f"tree {tid} has more than one root (node {pk})")
            depth = len(stack) + 1
            d.depth[pk] = depth
            if rows[pk]["depth"] != depth:
                d.bad(f"node {pk}: depth {rows[pk]['depth']} but it is nested at depth {depth}")
            d.children.setdefault(parent, []).append(pk)
            stack.append((lft, rgt, pk))
    return d


def _al(model, rows):
    d = Decoded()
    sorted_model = bool(model.node_order_by)
    groups = {}
    for pk, r in rows.items():
        p = r["parent_id"]
        if p is not None and p not in rows:
            d.bad(f"node {pk}: parent {p} does not exist")
        groups.setdefault(p, []).append((0 if sorted_model else r["sib_order"], pk))
    for p, members in groups.items():
        if not sorted_model:
            members.sort(key=lambda m: m[0])
            orders = [m[0] for m in members]
            if len(set(orders)) != len(orders):
                d.bad(f"children of {p}: sib_order values repeat: {orders[:40]}")
        d.children[p] = [m[1] for m in members]
    seen = set()
    stack = [(pk, 1) for pk in d.children.get(None, ())]
    while stack:
        pk, depth = stack.pop()
        seen.add(pk)
        d.depth[pk] = depth
        stack.extend((c, depth + 1) for c in d.children.get(pk, ()))
    if len(seen) != len(rows):
        d.bad(f"nodes {sorted(map(str, set(rows) - seen))[:10]} are not reachable from a root")
    return d


def _lt(model, rows):
    d = Decoded()
    by_path = {}
    for pk, r in rows.items():
        p = tuple(r["path"].split(".")) if r["path"] else ()
        if not p or not all(p):
            d.bad(f"node {pk}: empty path or label in {r['path']!r}")
            continue
        if p in by_path:
            d.bad(f"nodes {by_path[p]} and {pk} share the path {r['path']!r}")
            continue
        by_path[p] = pk
    for p in sorted(by_path, key=lambda p: [s.encode() for s in p]):
        pk = by_path[p]
        d.depth[pk] = len(p)
        parent = None
        if len(p) > 1:
            parent = by_path.get(p[:-1])
            if parent is None:
                d.bad(f"node {pk}: path {'.'.join(p)!r} has no parent row")
                continue
        d.children.setdefault(parent, []).append(pk)
    return d
