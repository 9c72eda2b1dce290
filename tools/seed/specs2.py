HERE_NS = {}
import os
exec(open("/verif/tools/seed/specs1.py").read(), HERE_NS)
MP, NS, AL, LT, M, HEAD, LTHEAD, model = (HERE_NS[k] for k in ("MP", "NS", "AL", "LT", "M", "HEAD", "LTHEAD", "model"))
ADMIN, TAGS, FORMS, DEPR = "treebeard/admin.py", "treebeard/templatetags/admin_tree.py", "treebeard/forms.py", "treebeard/deprecation.py"
WEB = '''
from django.contrib import admin
from django.contrib.auth.models import User
from django.core.management import call_command
from django.test import Client
from django.urls import path

from treebeard.admin import TreeAdmin
from treebeard.forms import movenodeform_factory


class Admin(TreeAdmin):
    form = movenodeform_factory(N)


admin.site.register(N, Admin)
urlpatterns = [path("admin/", admin.site.urls)]
call_command("migrate", run_syncdb=True, verbosity=0)
User.objects.create_superuser("u", "u@example.com", "p")
c = Client(raise_request_exception=False)
c.force_login(User.objects.get())
'''

SPECS = [
    dict(
        id="al-last-order-by-count", property="C02",
        edits=[(AL, "            return self.get_last_sibling(target_node).sib_order + 1", "            return self.get_siblings(target_node).count() + 1")],
        needs="A deletion in a sibling group (a hole in sib_order) and then a move or insertion at its end.",
        breaks="The node gets a sib_order in use, or one before the last: it does not become the last sibling.",
        demo=HEAD % "" + model("AL_Node") + '''
root = O.add_root({"name": "root"})
for name in "abcd":
    O.add_child(root, {"name": name})
other = O.add_root({"name": "x"})
N.objects.filter(name__in="ab").delete()
O.move(N.objects.get(name="x"), N.objects.get(name="c"), "last-sibling")
expect(shape(N), [(1, "root"), (2, "c"), (2, "d"), (2, "x")], "after moving a node to the end of a group with holes")
''',
    ),
    dict(
        id="lt-move-stale-after-shift", property="C02",
        edits=[(LT, "        if nodes_moved:\n            node.refresh_from_db()\n", "        if nodes_moved:\n            target.refresh_from_db()\n")],
        needs="A move among siblings with neighbouring labels, where making room shifts the moved node itself.",
        breaks="The descendants of the moved node are looked for at its old path and are left behind.",
        demo=LTHEAD + model("LT_Node") + '''
a = N(name="a", path="A"); a.save()
b = N(name="b", path="A0"); b.save()
c = N(name="c", path="C"); c.save()
d = N(name="d", path="C.X"); d.save()
O.move(N.objects.get(name="c"), N.objects.get(name="b"), "left")
expect(shape(N), [(1, "a"), (1, "c"), (2, "d"), (1, "b")], "after a move that shifted the moved node")
''',
    ),
    dict(
        id="annotated-branch-close", property="C23",
        edits=[(M, 'list(range(0, prev_depth - start_depth + 1))', 'list(range(0, prev_depth))')],
        needs="An annotated list of a branch below the first level.",
        breaks="Too many closing marks at the end of the list of a branch.",
        demo=HEAD % "" + model("MP_Node") + '''
a = O.add_root({"name": "a"})
b = O.add_child(a, {"name": "b"})
O.add_child(b, {"name": "c"})
got = [(n.name, len(i["close"])) for n, i in O.get_annotated_list(N.objects.get(name="b"))]
expect(got, [("b", 0), ("c", 2)], "closing marks of a branch")
''',
    ),
    dict(
        id="form-root-position", property="C20",
        edits=[(FORMS, 'pos = "sorted-sibling" if self.is_sorted else "first-sibling"', 'pos = "sorted-sibling" if self.is_sorted else "last-sibling"')],
        needs="A node edited in the form so that it becomes a root, by first-child of the empty reference.",
        breaks="The node becomes the last sibling of the roots instead of the first.",
        demo=HEAD % "" + model("MP_Node") + '''
from treebeard.forms import movenodeform_factory

a = O.add_root({"name": "a"})
O.add_root({"name": "b"})
x = O.add_child(a, {"name": "x"})
Form = movenodeform_factory(N)
f = Form({"name": "x", "treebeard_position": "first-child", "treebeard_ref_node": ""}, instance=N.objects.get(name="x"))
check(f.is_valid(), f"errors {f.errors}")
f.save()
expect(shape(N), [(1, "x"), (1, "a"), (1, "b")], "after moving a node to the root in the form")
''',
    ),
    dict(
        id="form-offers-descendants", property="C20",
        edits=[(FORMS, 'queryset = queryset.exclude(pk__in=descendants.values_list("pk", flat=True))', 'queryset = queryset.exclude(pk__in=[instance.pk])')],
        needs="The form of a node with children.",
        breaks="The descendants of the node are offered as references, and choosing one raises.",
        demo=HEAD % "" + model("NS_Node") + '''
from treebeard.forms import movenodeform_factory

a = O.add_root({"name": "a"})
b = O.add_child(a, {"name": "b"})
Form = movenodeform_factory(N)
f = Form(instance=N.objects.get(name="a"))
offered = [n.name for n in f.fields["treebeard_ref_node"].queryset]
expect(offered, [], "references offered for the only root")
''',
    ),
    dict(
        id="mp-children-interval", property="C06",
        edits=[(MP, "path + cls.alphabet[-1] * cls.steplen)", "path + cls.alphabet[-1] + cls.alphabet[0] * (cls.steplen - 1))")],
        needs="A steplen of at least two and a child whose position starts with the last character of the alphabet.",
        breaks="The last children of a nearly full group are missing from get_children and get_siblings.",
        demo=HEAD % "" + model("MP_Node", "steplen = 2\nalphabet = '012'") + '''
root = O.add_root({"name": "root"})
for c in "abcdefgh":
    O.add_child(N.objects.get(pk=root.pk), {"name": c})
expect("".join(n.name for n in O.get_children(N.objects.get(pk=root.pk))), "abcdefgh", "children")
''',
    ),
    dict(
        id="lt-descendant-prefix", property="C07",
        edits=[(LT, "return len(self.path) > len(node.path) and all([self.path[idx] == label for idx, label in enumerate(node.path)])",
                "return len(self.path) > len(node.path) and str(self.path).startswith(str(node.path))")],
        needs="Labels of which one is a prefix of another (they come from inserting to the left), and a node below the longer one.",
        breaks="is_descendant_of says yes for nodes of another branch, and moves are refused.",
        demo=LTHEAD + model("LT_Node") + '''
N(name="a", path="A").save()
N(name="b", path="A0").save()
N(name="c", path="A0.A").save()
expect(N.objects.get(name="c").is_descendant_of(N.objects.get(name="a")), False, "is_descendant_of of a node of another branch")
''',
    ),
    dict(
        id="ns-find-problems-overlap", property="C14",
        edits=[(NS, 'while stack and stack[-1]["rgt"] < node["lft"]:', 'while stack and stack[-1]["rgt"] <= node["lft"]:')],
        needs="A corrupted table in which an interval begins exactly where the one before ends.",
        breaks="The overlap is not reported.",
        demo=HEAD % "" + model("NS_Node") + '''
r = N(name="r", tree_id=1, lft=1, rgt=8, depth=1); r.save()
a = N(name="a", tree_id=1, lft=2, rgt=4, depth=2); a.save()
b = N(name="b", tree_id=1, lft=4, rgt=5, depth=2); b.save()
expect(O.find_problems()[1], [b.pk], "overlapping nodes")
''',
    ),
    dict(
        id="mp-save-default-db", property="C26",
        edits=[(MP, "        newobj._cached_parent_obj = target\n        newobj.save(using=self._db)", "        newobj._cached_parent_obj = target\n        newobj.save(using=self._db or 'default')")],
        needs="A database router that sends the model to a database other than the default one.",
        breaks="add_child writes the new node to the default database.",
        demo='''
from demolib import check, expect, shape, start, tables
import sys, types

router = types.ModuleType("demorouter")


class Router:
    def db_for_read(self, model, **hints):
        return "other" if model._meta.app_label == "demo" else None

    db_for_write = db_for_read


router.Router = Router
sys.modules["demorouter"] = router
DB = {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"}
start(DATABASES={"default": DB, "other": dict(DB)}, DATABASE_ROUTERS=["demorouter.Router"])
from django.db import models

from treebeard.mp_tree import MP_Node


class N(MP_Node):
    name = models.CharField(max_length=99)

    class Meta(MP_Node.Meta):
        app_label = "demo"


tables(N)
tables(N, using="other")
O = N.objects
root = O.add_root({"name": "root"})
O.add_child(root, {"name": "a"})
expect(list(N.objects.using("default").values_list("name", flat=True)), [], "rows in the default database")
expect(list(N.objects.using("other").values_list("name", flat=True)), ["root", "a"], "rows in the routed database")
''',
    ),
    dict(
        id="form-label-markup", property="C27",
        edits=[(FORMS, "return mark_safe(conditional_escape(self._get_indent(obj)) + conditional_escape(label))",
                "return self._get_indent(obj) + mark_safe(label)")],
        needs="A node whose text is markup, shown in the list of references.",
        breaks="The text of the node is emitted as markup in the form.",
        demo=HEAD % "" + model("MP_Node", 'def __str__(self):\n    return self.name') + '''
from treebeard.forms import movenodeform_factory

O.add_root({"name": "<script>alert(1)</script>"})
html = str(movenodeform_factory(N)())
check("<script>" not in html, "the form holds the node's text as markup")
''',
    ),
]
