HERE_NS = {}
exec(open("/verif/tools/seed/specs2.py").read(), HERE_NS)
MP, NS, AL, LT, M, HEAD, LTHEAD, model, WEB = (HERE_NS[k] for k in ("MP", "NS", "AL", "LT", "M", "HEAD", "LTHEAD", "model", "WEB"))
UTILS, DEPR = "treebeard/utils.py", "treebeard/deprecation.py"
JS = "treebeard/static/treebeard/treebeard-admin.js"

SPECS = [
    dict(
        id="ns-root-count", property="C01",
        edits=[(NS, "            newtree_id = last_root.tree_id + 1\n", "            newtree_id = self.get_root_nodes().count() + 1\n")],
        needs="The deletion of a root that is not the last one, and then add_root.",
        breaks="The new root gets the tree_id of the last root: two trees are merged in storage.",
        demo=HEAD % "" + model("NS_Node") + '''
for name in "abc":
    O.add_root({"name": name})
O.add_child(N.objects.get(name="c"), {"name": "c1"})
N.objects.get(name="a").delete()
O.add_root({"name": "d"})
expect(shape(N), [(1, "b"), (1, "c"), (2, "c1"), (1, "d")], "after a deletion and add_root")
''',
    ),
    dict(
        id="lt-move-beside-itself-target", property="C10",
        edits=[(LT, "            using=using,\n        )\n        target.refresh_from_db()\n\n    def get_root_nodes", "            using=using,\n        )\n        if nodes_moved:\n            target.refresh_from_db()\n\n    def get_root_nodes")],
        needs="A move relative to the node itself, through another object of it, that gives it a new label.",
        breaks="The object passed as the target keeps the node's old path: its children are not found any more.",
        demo=LTHEAD + model("LT_Node") + '''
a = O.add_root({"name": "a"})
b = O.add_root({"name": "b"})
O.add_child(b, {"name": "b1"})
t = N.objects.get(name="b")
O.move(N.objects.get(name="b"), t, "first-sibling")
O.move(N.objects.get(name="b"), t, "first-sibling")
O.move(N.objects.get(name="b"), t, "last-sibling")
expect(str(t.path), str(N.objects.get(name="b").path), "path of the target object after moves beside itself")
expect([n.name for n in O.get_children(t)], ["b1"], "children of the target object")
''',
    ),
    dict(
        id="mp-bulk-pad", property="C12",
        edits=[(MP, "                child.object.path = self.model._get_path(parent_node.path, child_depth, i + 1)\n",
                '                child.object.path = parent_node.path + self.model._int2str(i + 1).zfill(self.model.steplen)\n')],
        needs="load_bulk(bulk_create=True) on a model whose alphabet doesn't start with 0.",
        breaks="The paths of the descendants contain characters that are not in the alphabet, in another place of the order.",
        demo=HEAD % "" + model("MP_Node", 'alphabet = "ABCDEFGHIJ"\nsteplen = 3').replace("app_label = 'demo'", "app_label = 'treebeard'") + '''
data = [{"data": {"name": "r"}, "children": [{"data": {"name": n}} for n in "abc"]}]
O.load_bulk(data, bulk_create=True)
bulk = list(N.objects.values_list("name", "path"))
N.objects.all().delete()
O.load_bulk(data)
expect(bulk, list(N.objects.values_list("name", "path")), "paths with and without bulk_create")
''',
    ),
    dict(
        id="al-child-model-order", property="C21",
        edits=[(AL, "                self.model.objects.tree_model.objects.filter(parent=target).aggregate", "                self.model.objects.filter(parent=target).aggregate")],
        needs="A node of a child model (multi-table inheritance) added below a parent that has children of the base model.",
        breaks="The new node gets a sib_order in use, so that it isn't the last child.",
        demo=HEAD % "" + model("AL_Node") + '''

class C(N):
    extra = models.CharField(max_length=9)

    class Meta:
        app_label = "demo"


tables(C)
root = O.add_root({"name": "root"})
for name in "zyx":
    O.add_child(root, {"name": name})
C.objects.add_child(root, {"name": "new", "extra": "e"})
expect([n.name for n in O.get_children(root)], ["z", "y", "x", "new"], "children after adding a node of the child model")
expect(len(set(N.objects.filter(parent=root).values_list("sib_order", flat=True))), 4, "distinct sib_order values")
''',
    ),
    dict(
        id="deprecated-default-manager", property="C24",
        edits=[(DEPR, "    return getattr(cls.objects, treebeard_method)(self, *args, **kwargs)", "    return getattr(cls._default_manager, treebeard_method)(self, *args, **kwargs)"),
               (DEPR, "    return getattr(cls.objects, treebeard_method)(*args, **kwargs)", "    return getattr(cls._default_manager, treebeard_method)(*args, **kwargs)")],
        needs="A model whose default manager is not the one called objects, and overrides a tree method.",
        breaks="The deprecated methods of the nodes answer with another manager than the one their warnings name.",
        demo=HEAD % "" + '''
from treebeard.mp_tree import MP_NodeManager


class Published(MP_NodeManager):
    def get_children(self, node):
        return super().get_children(node).exclude(name="draft")
''' + model("MP_Node", "published = Published()\nobjects = MP_NodeManager()") + '''
import warnings

warnings.simplefilter("ignore")
root = O.add_root({"name": "root"})
for name in ("a", "draft"):
    O.add_child(root, {"name": name})
expect([n.name for n in root.get_children()], [n.name for n in N.objects.get_children(root)], "children by the deprecated method")
''',
    ),
    dict(
        id="widget-page-param", property="C28",
        edits=[(JS, '            params.set("p", page);\n', '            if (page > 1) {\n                params.set("p", page);\n            }\n')],
        needs="A row expanded on the second page of a change list, with children on more than one page.",
        breaks="The first request of the children carries the page of the list, so that the first page of children is missing.",
        files=("browser.py", "js/browser.js", "js/minidom.js"),
        demo=HEAD % 'ROOT_URLCONF="__main__"' + model("MP_Node").replace("app_label = 'demo'", "app_label = 'treebeard'") + WEB.replace("    form = movenodeform_factory(N)", "    form = movenodeform_factory(N)\n    list_per_page = 2") + '''
from browser import Page

for name in "abc":
    r = O.add_root({"name": name})
for name in "123":
    O.add_child(r, {"name": name})
page = Page(c, "/admin/treebeard/n/", "?p=2")
expect(page.state["errors"], [], "errors of the script")
page.do("click", str(r.pk))
while page.requests:
    page.answer(page.requests[0])
want = [str(r.pk), *(str(n.pk) for n in O.get_children(r))]
expect([row["id"] for row in page.visible()], want, "rows after expanding the node on the second page")
''',
    ),
    dict(
        id="mp-fix-overflow", property="C15",
        edits=[(MP, "                                if len(new_path) > len(old_path):\n", "                                if len(new_path) > cls._meta.get_field(\"path\").max_length:\n")],
        needs="fix_tree(fix_paths=True) on siblings that are out of order, the last of them at the last position.",
        breaks="A sibling is parked at a path that is longer than its level's: other nodes' paths are rewritten with it.",
        demo=HEAD % "" + model("MP_Node", 'node_order_by = ["name"]\nsteplen = 1\nalphabet = "01234"') + '''
for path, name in (("1", "d"), ("2", "b"), ("3", "c"), ("4", "a")):
    N(path=path, depth=1, numchild=0, name=name).save()
    N(path=path + "1", depth=2, numchild=0, name=name + "1").save()
from treebeard.exceptions import PathOverflow

N.objects.update(numchild=0)
try:
    O.fix_tree(fix_paths=True)
except PathOverflow:
    rows = sorted(N.objects.values_list("path", "name"))
else:
    rows = sorted(N.objects.values_list("path", "name"))
    expect([n for p, n in rows if len(p) == 1], list("abcd"), "roots after fix_tree")
expect(sorted(len(p) for p, n in rows), [1] * 4 + [2] * 4, f"lengths of the paths after fix_tree: {rows}")
kids = {n: p for p, n in rows}
check(all(kids[n + "1"] == kids[n] + "1" for n in "abcd"), f"children of their parents after fix_tree: {rows}")
''',
    ),
]
