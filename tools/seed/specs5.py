HERE_NS = {}
exec(open("/verif/tools/seed/specs4.py").read(), HERE_NS)
MP, NS, AL, LT, M, HEAD, LTHEAD, model, WEB, RACE, EARLY, TAGS = (
    HERE_NS[k] for k in ("MP", "NS", "AL", "LT", "M", "HEAD", "LTHEAD", "model", "WEB", "RACE", "EARLY", "TAGS"))
SPECS = [
    dict(
        id="al-zero-key-root", property="C30",
        edits=[(AL, "        if self.parent_id is None:\n            return 1\n", "        if not self.parent_id:\n            return 1\n")],
        needs="A node with the primary key 0 that has children.",
        breaks="The children are reported at depth 1.",
        demo=HEAD % "" + model("AL_Node") + """
root = O.add_root({"id": 0, "name": "root"})
a = O.add_child(N.objects.get(pk=0), {"name": "a"})
O.add_child(a, {"name": "b"})
expect([(n.name, n.get_depth()) for n in N.objects.order_by("name")], [("a", 2), ("b", 3), ("root", 1)], "depths")
""",
    ),
    dict(
        id="mp-falsy-parent-problems", property="C30",
        edits=[(MP, "        if parent is not None:\n            qs = cls.objects.filter(path__startswith=parent.path)\n",
                "        if parent:\n            qs = cls.objects.filter(path__startswith=parent.path)\n")],
        needs="find_problems called on a node that is false in a boolean context, with problems elsewhere in the table.",
        breaks="The problems of the whole table are reported instead of the branch's.",
        demo=HEAD % "" + model("MP_Node", "def __len__(self):\n    return len(self.name) - 1") + """
a = O.add_root({"name": "a"})
b = O.add_root({"name": "b"})
O.add_child(a, {"name": "c"})
N.objects.filter(name="a").update(numchild=5)
expect(O.find_problems(parent=N.objects.get(name="b")), ([], [], [], [], []), "problems in the branch of b")
""",
    ),
]
