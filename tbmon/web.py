"""Requests to the Django admin, and reading its pages."""

import json
import re
from html.parser import HTMLParser

from django.contrib.auth.models import Permission, User
from django.contrib.messages.storage.cookie import CookieStorage  # noqa: F401
from django.test import Client

ROLES = ("super", "staff_change", "staff_view", "staff_none", "user", "anonymous")


def codename(action, model):
    return f"{action}_{model._meta.model_name}"


def user(role, model):
    """A user of this role, with the permissions it has on `model`."""
    name = f"{role}_{model._meta.model_name}" if role.startswith("staff") else role
    u = User.objects.filter(username=name).first()
    if u is None:
        u = User.objects.create(
            username=name, is_staff=role not in ("user",), is_superuser=role == "super", is_active=True, password="!"
        )
        wanted = {"staff_change": ("view", "change"), "staff_view": ("view",)}.get(role, ())
        for a in wanted:
            perm = Permission.objects.filter(
                codename=codename(a, model), content_type__app_label="vapp", content_type__model=model._meta.model_name
            ).first()
            assert perm is not None, ("harness: no permission", model, a)
            u.user_permissions.add(perm)
    return u


def client(role, model, **kw):
    c = Client(raise_request_exception=False, **kw)
    if role != "anonymous":
        c.force_login(user(role, model))
    return c


def url(model, rest=""):
    return f"/admin/vapp/{model._meta.model_name}/{rest}"


class Page(HTMLParser):
    """Collects the rows of a change list, form controls and any element that a payload might have smuggled in."""

    def __init__(self, html):
        super().__init__(convert_charrefs=True)
        self.rows, self.tags, self.options, self.text = [], [], {}, []
        self._row = None
        self._select = None
        self._opt = None
        self._json = self._area = None
        self.json = {}
        self.areas = {}
        self._in_results = self._body = False
        self.feed(html)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        self.tags.append((tag, a))
        if tag == "table" and a.get("id") == "result_list":
            self._in_results = True
        if tag == "tbody":
            self._body = True
        if tag == "tr" and self._in_results and self._body:
            self._row = {"links": [], "text": "", "boxes": []}
        elif tag == "a" and self._row is not None:
            self._row["links"].append(a.get("href", ""))
        elif tag == "input" and self._row is not None and a.get("type") == "checkbox":
            self._row["boxes"].append(a.get("value"))
        elif tag == "textarea":
            self._area = a.get("name")
            self.areas[self._area] = ""
        elif tag == "select":
            self._select = a.get("name")
            self.options.setdefault(self._select, [])
        elif tag == "option" and self._select:
            self._opt = [a.get("value"), "", "selected" in a]
            self.options[self._select].append(self._opt)
        elif tag == "script" and a.get("type") == "application/json":
            self._json = a.get("id")
            self.json[self._json] = ""

    def handle_endtag(self, tag):
        if tag == "tr" and self._row is not None:
            if self._row["links"] or self._row["boxes"]:
                self.rows.append(self._row)
            self._row = None
        elif tag == "table":
            self._in_results = self._body = False
        elif tag == "textarea":
            self.areas[self._area] = self.areas[self._area].removeprefix("\n")
            self._area = None
        elif tag == "select":
            self._select = None
        elif tag == "option":
            self._opt = None
        elif tag == "script":
            self._json = None

    def handle_data(self, data):
        self.text.append(data)
        if self._row is not None:
            self._row["text"] += data
        if self._opt is not None:
            self._opt[1] += data
        if self._area is not None:
            self.areas[self._area] += data
        if self._json is not None:
            self.json[self._json] += data

    def row_pks(self):
        out = []
        for r in self.rows:
            got = None
            for link in r["links"]:
                mt = re.search(r"/([^/]+)/change/", link)
                if mt:
                    got = mt.group(1)
                    break
            out.append(got if got is not None else (r["boxes"] or [None])[0])
        return out

    def contexts(self):
        return json.loads(self.json["tree-context"])


def messages_of(response):
    """The texts of the messages a response leaves in its cookie."""
    cookie = response.cookies.get("messages")
    return cookie.value if cookie is not None else ""
