"""The codecs below the trees: numbers and steps, labels, and the path field."""

import string

from ..core import Workload
from .common import ASSUME, cfgs, raw_tree

RULE = (
    "Cases: (numbers) a random alphabet and random numbers, boundary values included, converted there and back; (labels) "
    "random neighbours and taken labels, among them labels that extend one another, and long series of insertions into one "
    "sibling group; (fields, PostgreSQL) a random ltree forest asked through the field's lookups and transforms. Distinct: "
    "the inputs."
)
ASSUMPTIONS = [*ASSUME, "Labels are those the library produces: digits and upper case letters."]
REQUIRED = {"conversions": 20000, "labels_generated": 10000, "lookups_compared": 1000}
ASPECTS = ("codec:*", "exception")
CHARS = string.digits + string.ascii_uppercase
BASE85 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"


def numbers(ctx):
    from treebeard.numconv import NumConv

    rng = ctx.rng
    size = rng.choice((2, 3, 4, 6, 10, 16, 35, 36, 62, 85, rng.randrange(2, 86)))
    alphabet = "".join(rng.sample(BASE85, size))
    if rng.random() < 0.6:
        alphabet = "".join(sorted(alphabet))
    conv = NumConv(alphabet)
    nums = {0, 1, size - 1, size, size + 1}
    for _ in range(40):
        k = rng.randrange(0, 20)
        nums.update((size**k - 1, size**k, size**k + 1, rng.randrange(size ** (k + 1))))
    nums = sorted(n for n in nums if n >= 0)
    seen = {}
    for n in nums:
        s = conv.int2str(n)
        ctx.count("conversions")
        want, x = "", n
        while True:
            x, r = divmod(x, size)
            want = alphabet[r] + want
            if not x:
                break
        ctx.check(s == want, "codec:number", lambda: f"{alphabet!r}: int2str({n}) is {s!r}, expected {want!r}")
        ctx.check(conv.str2int(s) == n, "codec:number", lambda: f"{alphabet!r}: str2int({s!r}) is {conv.str2int(s)}, expected {n}")
        pad = alphabet[0] * rng.randrange(3) + s
        ctx.check(conv.str2int(pad) == n, "codec:number", lambda: f"{alphabet!r}: str2int({pad!r}) is {conv.str2int(pad)}, expected {n}")
        ctx.check(s not in seen, "codec:number", lambda: f"{alphabet!r}: {n} and {seen[s]} are both {s!r}")
        seen[s] = n
    ctx.saw(alphabet, tuple(nums[:10]))
    outside = [c for c in BASE85 + " éÀ" if c not in alphabet]
    for bad, fn in (
        ("a negative number", lambda: conv.int2str(-rng.randrange(1, 100))),
        ("characters outside the alphabet", lambda: conv.str2int(alphabet[1] + rng.choice(outside) + alphabet[0])),
        ("a repeated character", lambda: NumConv(alphabet + rng.choice(alphabet))),
    ):
        try:
            got = fn()
        except ValueError:
            ctx.count("refusals")
        else:
            ctx.check(False, "codec:number", f"{alphabet!r}: {bad} gave {got!r} instead of ValueError")


def label(rng, chars):
    return "".join(rng.choice(chars) for _ in range(rng.choice((1, 1, 2, 2, 3, 4))))


def fits(after, before):
    """Whether the library promises a label between the two (between L and L0, or below 0, 00, ... there is none, or none
    that leaves room for another)."""
    if before is None:
        return True
    if after is None:
        return before.strip("0") != ""
    return after < before and not (before.startswith(after) and before[len(after) :].strip("0") == "")


def impossible(after, before):
    if before is None:
        return False
    if after is None:
        return before == "0"
    return after >= before or before == after + "0"


def labels(ctx):
    from treebeard.ltree import InvalidLabelConstraints, generate_label

    rng = ctx.rng
    chars = rng.choice((CHARS, CHARS, "0A", "09AZ", "0Z", "YZ", "01"))
    taken = sorted({label(rng, chars) for _ in range(rng.choice((0, 1, 2, 4, 10, 40)))})
    for i in range(len(taken) + 1):
        after = taken[i - 1] if i else None
        before = taken[i] if i < len(taken) else None
        judge_label(ctx, generate_label, InvalidLabelConstraints, after, before, set(taken))
        if after and before:
            judge_label(ctx, generate_label, InvalidLabelConstraints, before, after, set(taken))
            judge_label(ctx, generate_label, InvalidLabelConstraints, after, after, set(taken))
    # one sibling group, filled by insertions anywhere
    group = []
    spot = rng.choice(("anywhere", "front", "back", "middle", "second"))
    for _ in range(rng.choice((10, 40, 120))):
        n = len(group)
        i = {"anywhere": rng.randrange(n + 1), "front": 0, "back": n, "middle": n // 2, "second": min(1, n)}[spot]
        after = group[i - 1] if i else None
        before = group[i] if i < n else None
        got = judge_label(ctx, generate_label, InvalidLabelConstraints, after, before, set(group))
        if got is None:
            break
        group.insert(i, got)
    ctx.saw(tuple(taken), spot, len(group))


def judge_label(ctx, generate, invalid, after, before, taken):
    q = f"generate_label(after={after!r}, before={before!r}, {len(taken)} taken)"
    try:
        got = generate(taken, before=before, after=after)
    except invalid:
        ctx.check(not fits(after, before), "codec:label", f"{q} found no label although there are some")
        ctx.count("no_label")
        return None
    ctx.count("labels_generated")
    ctx.check(not impossible(after, before), "codec:label", lambda: f"{q} gave {got!r} where nothing fits")
    ctx.check(
        isinstance(got, str) and got and set(got) <= set(CHARS) and got not in taken
        and (after is None or after < got) and (before is None or got < before),
        "codec:label", lambda: f"{q} gave {got!r}",
    )
    ctx.check(
        len(got) <= max(len(after or ""), len(before or "")) + 1, "codec:label", lambda: f"{q} gave the needlessly long {got!r}"
    )
    return got


def fields(ctx):
    from django.db.models import F

    from treebeard.ltree.fields import PathValue, Subpath

    rng = ctx.rng
    names = [n for n in cfgs("psql") if n.startswith("LT") and not n.endswith("mix")]
    cfg = cfgs("psql")[names[ctx.index % len(names)]]
    d = raw_tree(ctx, cfg, rng.randrange(1, 22))
    M = cfg.base.objects
    nodes = d.ref.all()
    for n in rng.sample(nodes, min(5, len(nodes))):
        obj = M.get(pk=n.pk)
        path = d.rows[n.pk]["path"]
        arg = rng.choice((obj.path, path, path.split("."), PathValue(path)))
        where = f"{cfg.name} {d.ref.shape()[:120]} {d.where(n)}"

        def same(name, got, want):
            ctx.count("lookups_compared")
            ctx.check(got == want, "codec:field", lambda: f"{where}: {name} of {arg!r} gave {got}, expected {want}")

        same("str(path)", str(obj.path), path)
        same("list(path)", list(obj.path), path.split("."))
        same("len(path)", len(obj.path), n.depth)
        same("path[-1]", obj.path[-1], path.split(".")[-1])
        same("exact", [o.pk for o in M.filter(path=arg)], [n.pk])
        same("descendants", [o.pk for o in M.filter(path__descendants=arg)], [x.pk for x in n.walk()])
        same("ancestors", [o.pk for o in M.filter(path__ancestors=arg)], [x.pk for x in n.ancestors()] + [n.pk])
        same("depth", [o.pk for o in M.filter(path__depth=n.depth)], [x.pk for x in nodes if x.depth == n.depth])
        same("depth__gt", M.filter(path__depth__gt=n.depth).count(), len([x for x in nodes if x.depth > n.depth]))
        same(
            "in", sorted(str(o.pk) for o in M.filter(path__in=[arg, obj.path])), [str(n.pk)]
        )
        same("gt", [o.pk for o in M.filter(path__gt=arg)], [x.pk for x in nodes][nodes.index(n) + 1 :])
        pos = rng.randrange(n.depth)
        length = rng.choice((None, 1, n.depth - pos))
        got = M.filter(pk=n.pk).prefetch_related(None).annotate(sub=Subpath(F("path"), pos, length)).values_list("sub", flat=True).get()
        parts = path.split(".")[pos:]
        same(f"Subpath({pos}, {length})", str(got), ".".join(parts if length is None else parts[:length]))
        same("values", str(M.filter(pk=n.pk).prefetch_related(None).values_list("path", flat=True).get()), path)
        # what is saved is what is read
        obj.note = "saved"
        obj.save()
        same("path after save()", str(M.get(pk=n.pk).path), path)
        n.data["note"] = "saved"
        ctx.saw(cfg.name, d.ref.shape(), d.where(n), type(arg).__name__, pos, length)
    d.after("update", "saving objects")
    try:
        Subpath("path", -rng.randrange(1, 5))
        ctx.check(False, "codec:field", "Subpath with a negative position was accepted")
    except ValueError:
        ctx.count("refusals")


WORKLOADS = [
    Workload("numbers", numbers, 250, 4000, backends=("sqlite",), aspects=ASPECTS),
    Workload("labels", labels, 400, 8000, backends=("psql",), aspects=ASPECTS),
    Workload("fields", fields, 200, 3000, backends=("psql",), aspects=ASPECTS),
]
