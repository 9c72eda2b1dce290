HERE_NS = {}
exec(open("/verif/tools/seed/specs6.py").read(), HERE_NS)
MP, NS, AL, LT, M, HEAD, LTHEAD, model, WEB, RACE, EARLY, TAGS = (
    HERE_NS[k] for k in ("MP", "NS", "AL", "LT", "M", "HEAD", "LTHEAD", "model", "WEB", "RACE", "EARLY", "TAGS"))
FORMS, JS = "treebeard/forms.py", "treebeard/static/treebeard/treebeard-admin.js"
SITE = model("MP_Node").replace("app_label = 'demo'", "app_label = 'treebeard'") + WEB
SPECS = [
    dict(
        id="form-texts-at-import", property="C34",
        edits=[(FORMS, "import gettext_lazy as _\n", "import gettext as _\n")],
        needs="A form shown in another language than the one that was active when the module was imported.",
        breaks="Its labels and choices stay in the language of the import.",
        demo=HEAD % "USE_I18N=True" + model("MP_Node") + """
from django.utils import translation

from treebeard.forms import movenodeform_factory

F = movenodeform_factory(N)
O.add_root({"name": "a"})
with translation.override("de"):
    want = translation.gettext("First child of")
    expect(want != "First child of", True, "a translation exists")
    expect(dict(F().fields["treebeard_position"].choices).get("first-child"), want, "position in German")
""",
    ),
    dict(
        id="widget-number-ids", property="C34",
        edits=[(JS, """        $resultList.on('drop', "tbody tr", (event) => {
            if (targetNode.id == draggedNode.id) {
""", """        $resultList.on('drop', "tbody tr", (event) => {
            if (targetNode.id - draggedNode.id === 0) {
""")],
        needs="Primary keys above 2^53 that a script's numbers cannot tell apart, and a drop of one of these rows on the other.",
        breaks="The drop is ignored: no move is asked for.",
        files=("browser.py", "js/browser.js", "js/minidom.js"),
        demo=HEAD % 'ROOT_URLCONF="__main__"' + SITE + """
from browser import Page

for i in range(2):
    O.add_root({"name": str(i), "id": 2**53 + i})
page = Page(c, "/admin/treebeard/n/")
expect(page.state["errors"], [], "errors of the script")
page.do("dragstart", str(2**53))
page.do("dragenter", str(2**53 + 1))
page.do("dragover", str(2**53 + 1), "bottom")
page.do("drop", str(2**53 + 1))
expect([r["method"] for r in page.requests], ["POST"], "requests sent after the drop")
""",
    ),
]
SPECS += [
    dict(
        id="check-any-tree-manager", property="C29",
        edits=[(M, "        if not issubclass(manager_cls, cls._DEFAULT_TREEBEARD_MANAGER):\n", "        if not issubclass(manager_cls, NodeManager):\n")],
        needs="A model of one implementation with the manager of another.",
        breaks="The system check does not report it.",
        demo=HEAD % "" + """
from django.core.checks.model_checks import check_all_models

from treebeard.ns_tree import NS_NodeManager


class N(MP_Node):
    name = models.CharField(max_length=9)
    objects = NS_NodeManager()

    class Meta(MP_Node.Meta):
        app_label = 'demo'


expect([e.id for e in N.check() if e.id.startswith("treebeard")], ["treebeard.E001"], "reports of the system check")
""",
    ),
    dict(
        id="null-sort-key-first", property="C04",
        edits=[(M, """                    category=RuntimeWarning,
                )
                continue
""", """                    category=RuntimeWarning,
                )
                filters.append(Q(*[Q(**{f: v}) for f, v in fields] + [Q(**{f"{field}__isnull": False})]))
                fields.append((f"{field}__isnull", True))
                continue
""")],
        needs="A new node whose first ordering field is NULL among siblings where it is not.",
        breaks="The node is put before all siblings that have the field, rather than to its place by the other fields.",
        demo=HEAD % "" + """

class N(MP_Node):
    name = models.CharField(max_length=9)
    rank = models.IntegerField(null=True)
    node_order_by = ["rank", "name"]

    class Meta(MP_Node.Meta):
        app_label = 'demo'


tables(N)
O = N.objects
import warnings

warnings.simplefilter("ignore")
for name, rank in (("a", 1), ("c", 1), ("e", 2)):
    O.add_root({"name": name, "rank": rank})
O.add_root({"name": "d", "rank": None})
expect([n.name for n in O.get_root_nodes()], ["a", "c", "d", "e"], "names of the roots")
""",
    ),
]
