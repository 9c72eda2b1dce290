MP = "treebeard/mp_tree.py"
NS = "treebeard/ns_tree.py"
AL = "treebeard/al_tree.py"
LT = "treebeard/ltree/__init__.py"
M = "treebeard/models.py"

HEAD = '''
from demolib import check, expect, shape, start, tables

start(%s)
from django.db import models

from treebeard.al_tree import AL_Node
from treebeard.mp_tree import MP_Node
from treebeard.ns_tree import NS_Node
'''
LTHEAD = '''
from demolib import check, expect, shape, start, tables

start("psql")
from django.db import models

from treebeard.ltree import LT_Node
'''


def model(base, body="", name="N", field="name = models.CharField(max_length=99)"):
    ind = "".join(f"    {line}\n" for line in [field, *body.splitlines()])
    extra = ""
    if base == "AL_Node":
        extra = f"    parent = models.ForeignKey('self', null=True, related_name='kids_{name.lower()}', on_delete=models.CASCADE, db_index=True)\n"
        if "node_order_by" not in body:
            extra += "    sib_order = models.PositiveIntegerField()\n"
    return f"\n\nclass {name}({base}):\n{ind}{extra}\n    class Meta({base}.Meta):\n        app_label = 'demo'\n\n\ntables({name})\nO = {name}.objects\n"


RACE = '''
import threading
import time

from django.db import connection, transaction

root = O.add_root({"name": "root"})
%s
errors = []
started = threading.Event()


def other():
    try:
        h = N.objects.get(pk=root.pk)
        started.set()
        O.add_child(h, {"name": "second"})
    except Exception as exc:
        errors.append(repr(exc))
    finally:
        connection.close()


with transaction.atomic():
    O.add_child(N.objects.get(pk=root.pk), {"name": "first"})
    t = threading.Thread(target=other)
    t.start()
    started.wait(20)
    time.sleep(1.5)
t.join(60)
expect(errors, [], "two add_child calls at the same time")
kids = [n.name for n in O.get_children(N.objects.get(pk=root.pk))]
expect(kids, [*%s, "first", "second"], "children after two add_child calls at the same time")
expect(len(O.get_tree()), %d, "nodes in the tree")
%s
'''

SPECS = [
    dict(
        id="mp-delete-lost-children", property="C03",
        edits=[(MP, "parents[parentpath] += 1", "parents[parentpath] = 1")],
        needs="A queryset deletion that removes several children of one parent and leaves others.",
        breaks="numchild of the parent counts only one of the deleted children.",
        demo=HEAD % "" + model("MP_Node") + '''
root = O.add_root({"name": "root"})
for c in "abcd":
    O.add_child(root, {"name": c})
N.objects.filter(name__in=["a", "c"]).delete()
expect(N.objects.get(pk=root.pk).numchild, 2, "numchild after deleting two of four children")
''',
    ),
    dict(
        id="ns-delete-gap-order", property="C05",
        edits=[(NS, "for tree_id, drop_lft, drop_rgt in sorted(ranges, reverse=True):", "for tree_id, drop_lft, drop_rgt in ranges:")],
        needs="A queryset deletion that removes two separate subtrees of the same tree.",
        breaks="The gaps are closed from left to right with positions that have already shifted: wrong intervals.",
        demo=HEAD % "" + model("NS_Node") + '''
root = O.add_root({"name": "root"})
for c in "abcde":
    O.add_child(N.objects.get(pk=root.pk), {"name": c})
for c in "xyz":
    O.add_child(N.objects.get(name="a"), {"name": c})
N.objects.filter(name__in=["a", "c"]).delete()
expect(list(N.objects.values_list("name", "lft", "rgt")), [("root", 1, 8), ("b", 2, 3), ("d", 4, 5), ("e", 6, 7)], "intervals")
''',
    ),
    dict(
        id="mp-fix-tree-max-position", property="C15",
        edits=[(MP, "                        if max_position is None or actual_position > max_position:\n                            max_position = actual_position\n",
                "                        max_position = len(actual_sequence)\n")],
        needs="fix_tree(fix_paths=True) on a sorted model whose siblings are out of order and have holes between their positions, so "
        "that the position after the number of siblings is taken.",
        breaks="The occupant is moved on top of another node's path: IntegrityError, or branches merged.",
        demo=HEAD % "" + model("MP_Node", 'node_order_by = ["name"]') + '''
for i, name in [(1, "c"), (2, "b"), (4, "a")]:
    N(name=name, path=f"000{i}", depth=1, numchild=0).save()
try:
    O.fix_tree(fix_paths=True)
except Exception as exc:
    check(False, f"fix_tree raised {exc!r}")
expect(list(N.objects.values_list("path", "name")), [("0001", "a"), ("0002", "b"), ("0003", "c")], "after fix_tree")
''',
    ),
    dict(
        id="mp-path-updated-robust", property="C09",
        edits=[(MP, "            path_updated.send(sender=model, old_path=oldpath, new_path=newpath, using=queryset.db)",
                "            path_updated.send_robust(sender=model, old_path=oldpath, new_path=newpath, using=queryset.db)")],
        needs="A receiver of path_updated that raises in the middle of a move.",
        breaks="The failure is swallowed and the half-announced change is kept instead of being rolled back.",
        demo=HEAD % "" + model("MP_Node") + '''
from treebeard.mp_tree import path_updated

a = O.add_root({"name": "a"})
b = O.add_root({"name": "b"})


def refuse(**kw):
    raise RuntimeError("no")


path_updated.connect(refuse)
try:
    O.move(b, a, "left")
except RuntimeError:
    pass
expect(shape(N), [(1, "a"), (1, "b")], "tree after a receiver refused the move")
''',
    ),
    dict(
        id="order-by-comparator", property="C04",
        edits=[(M, '''        fields, filters = [], []
        for field in self.model.node_order_by:
            comparator = "gt"
''', '''        fields, filters = [], []
        comparator = "gt"
        for field in self.model.node_order_by:
''')],
        needs="node_order_by with an ascending field after a descending one, and siblings that tie on the descending field.",
        breaks="The ascending field is compared the wrong way round.",
        demo=HEAD % "" + model("MP_Node", 'a = models.IntegerField()\nnode_order_by = ["-a", "name"]') + '''
root = O.add_root({"name": "r", "a": 0})
for a, name in [(1, "b"), (1, "a"), (1, "c"), (2, "z")]:
    O.add_child(N.objects.get(pk=root.pk), {"a": a, "name": name})
got = list(O.get_children(N.objects.get(pk=root.pk)).values_list("a", "name"))
expect(got, [(2, "z"), (1, "a"), (1, "b"), (1, "c")], "order of the children")
''',
    ),
    dict(
        id="al-refused-move-changes-node", property="C08",
        edits=[(AL, '''        if target.is_descendant_of(node):
            raise InvalidMoveToDescendant(_("Can't move node to a descendant."))

        if node == target and (''', '''        if node.parent_id != target.parent_id:
            node.parent = parent or target.parent

        if target.is_descendant_of(node):
            raise InvalidMoveToDescendant(_("Can't move node to a descendant."))

        if node == target and (''')],
        needs="A refused move of an adjacency list node below its own descendant, and then a save of the same object.",
        breaks="The refused move leaves the object with its own descendant as the parent; saving it creates a cycle.",
        demo=HEAD % "" + model("AL_Node") + '''
from treebeard.exceptions import InvalidMoveToDescendant

a = O.add_root({"name": "a"})
b = O.add_child(a, {"name": "b"})
c = O.add_child(b, {"name": "c"})
x = N.objects.get(name="a")
try:
    O.move(x, N.objects.get(name="c"), "right")
except InvalidMoveToDescendant:
    pass
expect(x.parent_id, None, "parent of the object after the refused move")
''',
    ),
    dict(
        id="numconv-float", property="C22",
        edits=[("treebeard/numconv.py", "            num //= self.radix", "            num = int(num / self.radix)")],
        needs="A number of more than 53 bits (a steplen of 11 or more with a long alphabet).",
        breaks="int2str loses low digits, so that it is no longer the inverse of str2int and not monotonic.",
        demo='''
from demolib import expect, start

start()
from treebeard.numconv import NumConv

c = NumConv("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")
for n in (36**11 - 1, 36**12 + 36**11 - 1, 2**61 + 12345):
    expect(c.str2int(c.int2str(n)), n, f"round trip of {n}")
''',
    ),
    dict(
        id="admin-move-object-permission", property="C18",
        edits=[("treebeard/admin.py", "if not self.has_change_permission(request, node):", "if not self.has_change_permission(request):")],
        needs="An admin class with object-level change permissions, and a node that the user may not change.",
        breaks="The move endpoint moves a node that the user has no permission to change.",
        demo=HEAD % 'ROOT_URLCONF="__main__"' + model("MP_Node") + '''
from django.contrib import admin
from django.contrib.auth.models import User
from django.core.management import call_command
from django.test import Client
from django.urls import path

from treebeard.admin import TreeAdmin


class Admin(TreeAdmin):
    def has_change_permission(self, request, obj=None):
        return obj is None or obj.name != "locked"


admin.site.register(N, Admin)
urlpatterns = [path("admin/", admin.site.urls)]
call_command("migrate", run_syncdb=True, verbosity=0)
a = O.add_root({"name": "a"})
b = O.add_root({"name": "locked"})
User.objects.create_superuser("u", "u@example.com", "p")
c = Client(raise_request_exception=False)
c.force_login(User.objects.get())
r = c.post("/admin/demo/n/move/", {"node": b.pk, "target": a.pk, "relation": "child"})
check(r.status_code == 403, f"status {r.status_code} for a node that may not be changed")
expect(shape(N), [(1, "a"), (1, "locked")], "tree after a move that is not permitted")
''',
    ),
    dict(
        id="admin-context-object-permission", property="C19",
        edits=[("treebeard/templatetags/admin_tree.py", "int(cl.model_admin.has_change_permission(request, obj))", "int(cl.model_admin.has_change_permission(request))")],
        needs="An admin class with object-level change permissions.",
        breaks="The row records say that the user can change (and drag) nodes that may not be changed.",
        demo=HEAD % 'ROOT_URLCONF="__main__"' + model("MP_Node") + '''
from django.contrib import admin
from django.contrib.auth.models import User
from django.core.management import call_command
from django.test import Client
from django.urls import path

from treebeard.admin import TreeAdmin


class Admin(TreeAdmin):
    def has_change_permission(self, request, obj=None):
        return obj is None or obj.name != "locked"


admin.site.register(N, Admin)
urlpatterns = [path("admin/", admin.site.urls)]
call_command("migrate", run_syncdb=True, verbosity=0)
a = O.add_root({"name": "a"})
O.add_child(a, {"name": "free"})
O.add_child(a, {"name": "locked"})
User.objects.create_superuser("u", "u@example.com", "p")
c = Client(raise_request_exception=False)
c.force_login(User.objects.get())
r = c.get(f"/admin/demo/n/children/{a.pk}/")
expect([x["can-change"] for x in r.json()["tree_context"]], [1, 0], "can-change of the children")
''',
    ),
]
