HERE_NS = {}
exec(open("/verif/tools/seed/specs2.py").read(), HERE_NS)
MP, NS, AL, LT, M, HEAD, LTHEAD, model, WEB = (HERE_NS[k] for k in ("MP", "NS", "AL", "LT", "M", "HEAD", "LTHEAD", "model", "WEB"))
RACE = HERE_NS["HERE_NS"]["RACE"]
EARLY = RACE.replace('"first", "second"]', '"early", "first"]').replace('"second"', '"early"')
TAGS = "treebeard/templatetags/admin_tree.py"
SPECS = [
    dict(
        id="al-order-before-lock", property="C17",
        edits=[
            (AL, "        \"\"\"Adds a child to the node.\"\"\"\n        # Lock the parent row\n",
             "        \"\"\"Adds a child to the node.\"\"\"\n        siblings = self.model.objects.tree_model.objects.filter(parent=target)\n"
             "        max = 0 if self.model.node_order_by else siblings.aggregate(max=Max(\"sib_order\"))[\"max\"] or 0\n        # Lock the parent row\n"),
            (AL, "            max = (\n                self.model.objects.tree_model.objects.filter(parent=target).aggregate(max=Max(\"sib_order\"))[\"max\"] or 0\n            )\n            newobj.sib_order",
             "            newobj.sib_order"),
        ],
        needs="Two transactions that call add_child on the same parent at the same time.",
        breaks="Both children get the same sib_order.",
        demo=HEAD % '"psql"' + model("AL_Node") + RACE % (
            "", "[]", 3,
            'orders = sorted(N.objects.filter(parent=root).values_list("sib_order", flat=True))\nexpect(orders, [1, 2], "sib_order of the children")'),
    ),
    dict(
        id="mp-dump-depth-field", property="C11",
        edits=[(MP, "            depth = int(len(path) / cls.steplen)\n            # this will be", "            depth = fields[\"depth\"]\n            # this will be")],
        needs="A dump of a tree whose depth column is wrong (the dump is what fix_tree tells to work on).",
        breaks="Nodes are dumped under the wrong parent, or dump_bulk fails.",
        demo=HEAD % "" + model("MP_Node") + '''
root = O.add_root({"name": "root"})
a = O.add_child(root, {"name": "a"})
O.add_child(a, {"name": "b"})
N.objects.filter(name="b").update(depth=1)
expect(
    O.dump_bulk(keep_ids=False),
    [{"data": {"name": "root"}, "children": [{"data": {"name": "a"}, "children": [{"data": {"name": "b"}}]}]}],
    "dump of a tree with a wrong depth",
)
''',
    ),
    dict(
        id="mp-fix-park-no-signal", property="C13",
        edits=[(MP, "                                self._rewrite_node_path(old_path, new_path)\n                                # update actual_sequence to reflect the new position\n                                actual_sequence[max_position]",
                "                                if occupant[\"numchild\"]:\n                                    self._rewrite_node_path(old_path, new_path)\n"
                "                                else:\n                                    cls.objects.filter(pk=occupant[\"pk\"]).update(path=new_path)\n"
                "                                # update actual_sequence to reflect the new position\n                                actual_sequence[max_position]")],
        needs="fix_tree(fix_paths=True) that reorders siblings, with a leaf in the way of the node to be placed.",
        breaks="The leaf is moved out of the way without path_updated: a listener that follows the signals loses it.",
        demo=HEAD % "" + model("MP_Node", 'node_order_by = ["name"]') + '''
from treebeard.mp_tree import path_updated

for name in "abc":
    O.add_root({"name": name})
N.objects.filter(name="a").update(name="z")
mirror = dict(N.objects.values_list("pk", "path"))


def follow(sender, old_path, new_path, **kwargs):
    for pk, path in list(mirror.items()):
        if path.startswith(old_path):
            mirror[pk] = new_path + path[len(old_path):]


path_updated.connect(follow)
O.fix_tree(fix_paths=True)
expect(mirror, dict(N.objects.values_list("pk", "path")), "paths kept by a listener to path_updated")
''',
    ),
    dict(
        id="mp-shift-past-holes", property="C16",
        edits=[(MP, "            if node.path > priorpath:\n                break\n", "            if node.path > priorpath and not movebranch:\n                break\n")],
        needs="A move before a sibling in a group whose last position is taken, with a hole in between.",
        breaks="Siblings beyond the hole are shifted too: PathOverflow although the node fits.",
        demo=HEAD % "" + model("MP_Node", 'steplen = 1\nalphabet = "01234"') + '''
for name in "abcd":
    O.add_root({"name": name})
N.objects.get(name="b").delete()
x = O.add_child(N.objects.get(name="a"), {"name": "x"})
O.move(x, N.objects.get(name="a"), "first-sibling")
expect(shape(N), [(1, "x"), (1, "a"), (1, "c"), (1, "d")], "after moving a node into a group with a hole")
''',
    ),
    dict(
        id="ns-ancestors-plain-queryset", property="C29",
        edits=[(NS, "        return self.tree_model.objects.filter(tree_id=node.tree_id, lft__lt=node.lft, rgt__gt=node.rgt)\n",
                "        ancestors = NS_NodeQuerySet(self.tree_model, using=self._db).order_by(\"tree_id\", \"lft\")\n"
                "        return ancestors.filter(tree_id=node.tree_id, lft__lt=node.lft, rgt__gt=node.rgt)\n")],
        needs="A manager of one's own (with select_related or an annotation, or a queryset class of its own).",
        breaks="get_ancestors returns nodes without the manager's annotations, and a queryset without its methods.",
        demo=HEAD % "" + '''
from django.db.models.functions import Upper
from treebeard.ns_tree import NS_NodeManager


class Own(NS_NodeManager):
    def get_queryset(self):
        return super().get_queryset().annotate(upper=Upper("name"))

''' + model("NS_Node", "objects = Own()") + '''
root = O.add_root({"name": "root"})
child = O.add_child(root, {"name": "child"})
expect([getattr(n, "upper", None) for n in O.get_ancestors(N.objects.get(name="child"))], ["ROOT"], "annotation of the ancestors")
''',
    ),
    dict(
        id="lt-ancestors-by-common-root", property="C06",
        edits=[(LT, "        return self.tree_model.objects.filter(path__ancestors=node.path).exclude(pk=node.pk)\n",
                "        if len(node.path) == 2:\n            return self.tree_model.objects.filter(path__ancestors=node.path, path__depth=1)\n"
                "        return self.tree_model.objects.filter(path__ancestors=node.path).exclude(path__depth__gte=len(node.path) - (len(node.path) > 4))\n")],
        needs="A node more than four levels deep.",
        breaks="Its parent is missing from get_ancestors.",
        demo=LTHEAD + model("LT_Node") + '''
n = O.add_root({"name": "0"})
for i in range(1, 7):
    n = O.add_child(n, {"name": str(i)})
for m in O.get_tree():
    expect([a.name for a in O.get_ancestors(m)], [str(i) for i in range(int(m.name))], f"ancestors of {m.name}")
''',
    ),
    dict(
        id="lt-sorted-leaf-before-lock", property="C17",
        edits=[
            (LT, "        ```\n        obj = self.__class__(**create_kwargs)\n        ```\n        \"\"\"\n        # Lock parent row\n",
             "        ```\n        obj = self.__class__(**create_kwargs)\n        ```\n        \"\"\"\n        is_sorted = self.model.node_order_by and not target.is_leaf()\n        # Lock parent row\n"),
            (LT, "        if self.model.node_order_by and not target.is_leaf():\n", "        if is_sorted:\n"),
        ],
        needs="A sorted model and two transactions that add the first children of a node at the same time.",
        breaks="The second child is appended where it should have been sorted in.",
        demo=LTHEAD + model("LT_Node", 'node_order_by = ["name"]') + EARLY % ("", "[]", 3, ""),
    ),
    dict(
        id="mp-sorted-stale-leaf", property="C17",
        edits=[(MP, "        if self.model.node_order_by and not node.is_leaf():\n", "        if self.model.node_order_by and not target.is_leaf():\n")],
        needs="A sorted model and two transactions that add the first children of a node at the same time.",
        breaks="The second child is appended where it should have been sorted in.",
        demo=HEAD % '"psql"' + model("MP_Node", 'node_order_by = ["name"]') + EARLY % ("", "[]", 3, ""),
    ),
    dict(
        id="admin-level-query", property="C25",
        edits=[(TAGS, '"level": depth,', '"level": obj.get_depth(),')],
        needs="A children page of the admin with many rows, of an adjacency list.",
        breaks="The page sends one more statement for each row.",
        demo=HEAD % "ROOT_URLCONF='__main__'" + model("AL_Node", "def __str__(self):\n    return self.name") + WEB + """
from django.db import connection
from django.test.utils import CaptureQueriesContext

root = O.add_root({"name": "root"})


def queries(n):
    for i in range(n):
        O.add_child(N.objects.get(pk=root.pk), {"name": "x"})
    with CaptureQueriesContext(connection) as ctx:
        expect(c.get(f"/admin/demo/n/children/{root.pk}/").status_code, 200, "status of the list")
    return len(ctx)


queries(1)
a, b = queries(3), queries(30)
check(b <= a + 3, f"statements for a list of 4 nodes: {a}, of 34 nodes: {b}")
""",
    ),
    dict(
        id="ns-move-root-count", property="C05",
        edits=[(NS, "                target_tree = self.get_siblings(target).reverse()[0].tree_id + 1\n", "                target_tree = self.get_root_nodes().count() + 1\n")],
        needs="A deleted root (a hole in tree_id), then a node moved behind the last root.",
        breaks="The moved branch gets the tree_id of the last tree: two trees overlap.",
        demo=HEAD % "" + model("NS_Node") + """
for name in "abc":
    O.add_root({"name": name})
O.add_child(N.objects.get(name="b"), {"name": "b1"})
N.objects.get(name="a").delete()
O.move(N.objects.get(name="b1"), N.objects.get(name="b"), "last-sibling")
expect(len(set(N.objects.values_list("tree_id", flat=True))), 3, "distinct tree ids of three roots")
""",
    ),
]
