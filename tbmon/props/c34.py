"""The other properties' workloads in other languages, number formats and time zones, and with huge keys."""

from django.db import connections
from django.test.utils import override_settings
from django.utils import timezone, translation

from treebeard.forms import movenodeform_factory

from .. import web
from ..core import HOME, Workload
from . import c01, c02, c03, c06, c08, c10, c11, c12, c13, c14, c15, c18, c19, c20, c21, c23, c27, c28
from .common import ASSUME, distinct_data, pick_cfg, raw_tree

RULE = (
    "A case is a case of another property's workload, with a language picked at random (each of those that treebeard is "
    "translated to, and others), with and without thousand separators, in a random time zone, and after every sequence of "
    "the database has been set on to a value that is formatted with separators, or does not fit 32 bits, or is no longer exact "
    "as a float of the page's script. The oracles are those of the other properties. Distinct: (workload, case)."
)
ASSUMPTIONS = [*ASSUME]
REQUIRED = {"cases_abroad": 500, "sequences_moved": 400, "separators": 150, "op:move": 300, "texts_compared": 800, "texts_translated": 200}
LANGS = ("de", "es", "fr", "hu", "nl", "pl", "ru", "ar", "hi", "ja", "tr", "pt-br", "de-ch", "fa", "en")
ZONES = ("UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Apia")
STARTS = (0, 998, 1234566, 2**31 - 3, 2**53 - 3, 2**53 + 10**9, 2**62)


def move_sequences(start, using=HOME):
    con = connections[using]
    with con.cursor() as cur:
        if con.vendor == "sqlite":
            cur.execute("DELETE FROM sqlite_sequence")
            cur.execute("INSERT INTO sqlite_sequence (name, seq) SELECT name, %s FROM sqlite_master WHERE type = 'table'", [start])
        else:
            cur.execute(
                "SELECT setval(seqrelid::regclass, %s, true) FROM pg_sequence WHERE seqmax > %s AND %s >= seqmin"
                " AND seqrelid::regclass::text LIKE 'vapp%%' AND seqrelid::regclass::text NOT LIKE 'vapp_tag%%'",  # which are emptied
                [max(start, 1), start + 10**6, max(start, 1)],
            )


def abroad(fn):
    def run(ctx):
        rng = ctx.rng
        lang, zone = rng.choice(LANGS), rng.choice(ZONES)
        grouped = rng.random() < 0.6
        start = rng.choice(STARTS)
        ctx.count("cases_abroad")
        ctx.count("language:" + lang)
        ctx.count("keys_after:%d" % start)
        ctx.count("separators", int(grouped))
        ctx.note(f"language={lang} zone={zone} separators={grouped} keys after {start}")
        ctx.saw(fn.__module__, fn.__name__, ctx.index)
        move_sequences(start)
        ctx.count("sequences_moved")
        with override_settings(USE_THOUSAND_SEPARATOR=grouped, LANGUAGE_CODE=lang), translation.override(lang), timezone.override(zone):
            fn(ctx)

    run.__name__ = fn.__name__
    return run


PARTS = [
    (c01, None, 40), (c02, None, 40), (c03, "deletes", 30), (c06, None, 15), (c08, None, 30), (c10, None, 30),
    (c11, "roundtrip", 30), (c12, None, 15), (c13, None, 15), (c14, None, 15), (c15, None, 20), (c18, "requests", 80), (c19, None, 50),
    (c20, None, 90), (c21, None, 15), (c23, None, 15), (c27, None, 10), (c28, None, 60),
]


# -- texts
def spoken(response):
    from django.contrib.messages import get_messages

    return [str(m) for m in get_messages(response.wsgi_request)][-1:]  # the earlier ones are still in the client's cookie


POSITIONS = {
    False: [("first-child", "First child of"), ("left", "Before"), ("right", "After")],
    True: [("sorted-child", "Child of"), ("sorted-sibling", "Sibling of")],
}


def texts(ctx):
    """Each text is in the language that is active when it is shown, whichever was active before."""
    rng = ctx.rng
    cfg = pick_cfg(ctx)
    d = raw_tree(ctx, cfg, n=rng.randrange(2, 7), data=distinct_data(cfg, rng))
    model = cfg.base
    F = movenodeform_factory(model)
    c = web.client("super", model)
    n, t = rng.sample(d.ref.all(), 2)
    for lang in rng.sample(LANGS, 4):
        with override_settings(LANGUAGE_CODE=lang), translation.override(lang):
            def expect(what, got, msgid, **kw):
                want = translation.gettext(msgid) % kw if kw else translation.gettext(msgid)
                ctx.count("texts_compared")
                ctx.count("texts_translated", int(translation.gettext(msgid) != msgid))
                ctx.check(str(got) == want, "texts", lambda: f"{cfg.name} {what} in {lang} is {str(got)!r}, expected {want!r}")

            ctx.saw("texts", cfg.name, lang)
            form = F(instance=d.fetch(n, model)) if rng.random() < 0.5 else F()
            expect("label", form.fields["treebeard_position"].label, "Position")
            expect("label", form.fields["treebeard_ref_node"].label, "Relative to")
            html = form.as_p()
            page = web.Page(html)
            shown = {o[0]: o[1] for o in page.options["treebeard_ref_node"]}
            if cfg.kind != "AL":  # whose form lists its choices itself, after Django's dashes
                expect("empty choice", shown[""], "-- root --")
            got = {o[0]: o[1] for o in page.options["treebeard_position"]}
            for value, msgid in POSITIONS[cfg.sorted]:
                expect("position", got.get(value), msgid)
            # the messages of the admin's moves
            url = web.url(model, "move/")
            r = c.post(url, {"node": "-5", "target": t.pk, "relation": "child"})
            expect("message of a bad move", "".join(spoken(r)), "Invalid form data provided")
            r = c.post(url, {"node": t.pk, "target": t.pk, "relation": "child"})
            expect("message of an impossible move", "".join(spoken(r)), "Can't move node to itself.")
            if n.is_under(t):
                r = c.post(url, {"node": t.pk, "target": n.pk, "relation": "child"})
                expect("message of an impossible move", "".join(spoken(r)), "Can't move node to a descendant.")
            relation = rng.choice(("child", "sibling"))
            if cfg.may_overflow or t.is_under(n):
                continue
            r = c.post(url, {"node": n.pk, "target": t.pk, "relation": relation})
            ctx.check(r.status_code == 200, "adminmove", lambda: f"{cfg.name}: move to {relation} answered {r.status_code}")
            names = {"node": str(d.fetch(n, model)), "other": str(d.fetch(t, model))}
            expect("message of a move", "".join(spoken(r)), f'Moved node "%(node)s" as {relation} of "%(other)s"', **names)
            d.ref_move(n, t, {
                ("child", True): "sorted-child", ("child", False): "last-child", ("sibling", True): "sorted-sibling",
                ("sibling", False): "left"}[relation, cfg.sorted])
            d.snapshot()


WORKLOADS = [Workload("texts", texts, 160, 2500, aspects=("texts", "adminmove", "exception"))]
for _m, _only, _n in PARTS:
    for _w in _m.WORKLOADS:
        if _only in (None, _w.name):
            WORKLOADS.append(
                Workload(
                    f"{_m.__name__[-3:]}.{_w.name}", abroad(_w.fn), _n, _n * 20, backends=_w.backends,
                    aspects=("exception", *_w.aspects),
                )
            )
SQLITE_FILES = any(getattr(m, "SQLITE_FILES", False) for m, _, _ in PARTS)
