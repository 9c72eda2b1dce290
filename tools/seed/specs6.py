HERE_NS = {}
exec(open("/verif/tools/seed/specs5.py").read(), HERE_NS)
MP, NS, AL, LT, M, HEAD, LTHEAD, model, WEB, RACE, EARLY, TAGS = (
    HERE_NS[k] for k in ("MP", "NS", "AL", "LT", "M", "HEAD", "LTHEAD", "model", "WEB", "RACE", "EARLY", "TAGS"))
SPECS = [
    dict(
        id="al-depth-recursive", property="C31",
        edits=[(AL, """        depth = 0
        node = self
        while node is not None:
            node = node.parent
            depth += 1
        self._cached_depth = depth
""", """        depth = 1 + self.parent.get_depth()
        self._cached_depth = depth
""")],
        needs="An adjacency list about a thousand levels deep.",
        breaks="get_depth() of its deepest nodes raises RecursionError.",
        demo=HEAD % "" + model("AL_Node") + """
parent = None
for i in range(1200):
    parent = N.objects.create(name=str(i), parent_id=parent and parent.pk, sib_order=1)
expect(N.objects.get(pk=parent.pk).get_depth(), 1200, "depth")
""",
    ),
    dict(
        id="mp-dump-batches", property="C31",
        edits=[(MP, """        for pyobj in serializers.serialize("python", qset.iterator(chunk_size=2000)):
""", """        batches = (qset[i : i + 999] for i in range(0, qset.count(), 1000))
        for pyobj in (obj for batch in batches for obj in serializers.serialize("python", batch)):
""")],
        needs="A dump of a thousand nodes or more.",
        breaks="Every thousandth node is left out of the dump.",
        demo=HEAD % "" + model("MP_Node", "steplen = 6") + """
N.objects.bulk_create(N(name=str(i), path=N._get_path("", 1, i), depth=1, numchild=0) for i in range(1, 1101))
expect([x["data"]["name"] for x in O.dump_bulk()], [str(i) for i in range(1, 1101)], "dumped names")
""",
    ),
    dict(
        id="ns-rgt-relative", property="C32",
        edits=[(NS, "        # this is just to update the cache\n        target.rgt = node.rgt + 2\n",
                "        # this is just to update the cache\n        target.rgt += 2\n")],
        needs="A first child added to an object whose rgt is deferred.",
        breaks="The value loads after the rows have been shifted, and is then shifted again in memory.",
        demo=HEAD % "" + model("NS_Node") + """
a = O.add_root({"name": "a"})
h = N.objects.only("name").get(pk=a.pk)
O.add_child(h, {"name": "b"})
expect((h.lft, h.rgt), tuple(N.objects.values_list("lft", "rgt").get(pk=a.pk)), "the object's place")
expect(h.is_leaf(), False, "is_leaf")
""",
    ),
    dict(
        id="mp-leaf-tree-slice", property="C33",
        edits=[(MP, """        if parent is not None and parent.is_leaf():
            return cls.objects.filter(pk=parent.pk)

        filters = {}
""", """        if parent is not None and parent.is_leaf():
            return cls.objects.filter(pk=parent.pk)[:1]

        filters = {}
""")],
        needs="get_tree(leaf) or get_descendants(leaf, include_self=True) that is filtered, updated or ordered further.",
        breaks="The queryset cannot be filtered, updated or reversed any more.",
        demo=HEAD % "" + model("MP_Node") + """
a = O.add_root({"name": "a"})
try:
    got = [n.name for n in O.get_tree(a).filter(name="a")]
except TypeError as exc:
    got = repr(exc)
expect(got, ["a"], "filtered tree of a leaf")
""",
    ),
    dict(
        id="mp-numchild-lambda", property="C33",
        edits=[(MP, "    numchild = models.PositiveIntegerField(default=0)\n",
                "    numchild = models.PositiveIntegerField(default=lambda: 0)\n")],
        needs="makemigrations for a model with a materialized path.",
        breaks="The migration cannot be written.",
        demo=HEAD % "" + model("MP_Node") + """
from django.apps import apps
from django.db.migrations import Migration, operations
from django.db.migrations.state import ModelState
from django.db.migrations.writer import MigrationWriter

state = ModelState.from_model(N)
m = type("Migration", (Migration,), {"operations": [
    operations.CreateModel(state.name, list(state.fields.items()), state.options, state.bases)]})("0001_initial", "demo")
try:
    text = MigrationWriter(m).as_string()
    compile(text, "migration", "exec")
    got = "written"
except ValueError as exc:
    got = str(exc)
expect(got, "written", "the migration")
""",
    ),
]
