"""TreeAdmin for every tree model of the harness."""

import warnings

from django.contrib import admin

from treebeard.admin import TreeAdmin, admin_factory
from treebeard.forms import movenodeform_factory

from . import models as m


def register(model, **attrs):
    inlines = []
    if model in m.DEPS:
        dep = m.DEPS[model]["casc"]
        inlines = [type(f"{model.__name__}Inline", (admin.TabularInline,), {"model": dep, "extra": 0})]
    attrs.setdefault("inlines", inlines)
    attrs.setdefault("search_fields", ["name"])
    attrs.setdefault("list_per_page", 200)
    form = movenodeform_factory(model)
    admin.site.register(model, type(f"{model.__name__}Admin", (admin_factory(form),), attrs))


class Guarded:
    """An object-level rule: nodes whose note starts with "locked" cannot be changed."""

    def has_change_permission(self, request, obj=None):
        if obj is not None and obj.note.startswith("locked"):
            return False
        return super().has_change_permission(request, obj)


class GuardedAdmin(Guarded, TreeAdmin):
    pass


SMALL_PAGES = ("AL_U", "MP_U", "NS_U", "LT_U", "MP_2", "AL_S", "MP_S", "NS_S", "LT_S")

for _name, _model in sorted(vars(m).items()):
    if _name[:3] in ("AL_", "MP_", "NS_", "LT_") and getattr(_model, "_meta", None) and not _model._meta.abstract:
        if _model in (x for deps in m.DEPS.values() for x in deps.values()) or _name in ("MP_Node", "NS_Node", "AL_Node", "LT_Node"):
            continue
        if _name.endswith("_R"):
            admin.site.register(
                _model,
                type(f"{_name}Admin", (GuardedAdmin,), {"form": movenodeform_factory(_model), "search_fields": ["name"]}),
            )
        else:
            attrs = {"list_per_page": 3} if _name in SMALL_PAGES else {}
            if _name.endswith("_U"):  # which TreeAdmin ignores, with a warning
                attrs |= {"list_display": ["name", "note"], "list_editable": ["note"]}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                register(_model, **attrs)
