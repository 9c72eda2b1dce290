"""A page of the admin with its script running, in a node process; its requests are answered through Django's test client."""

import gettext
import json
import os
import re
import subprocess
from urllib.parse import parse_qs, urljoin

import django
import treebeard
from django.utils.translation import get_language

HERE = os.path.dirname(os.path.abspath(__file__))
VENDOR = os.path.join(os.path.dirname(django.__file__), "contrib/admin/static/admin/js")
_proc = None


class BrowserError(Exception):
    pass


def _node():
    global _proc
    if _proc is None or _proc.poll() is not None:
        _proc = subprocess.Popen(
            ["node", "--stack-size=4000", os.path.join(HERE, "js", "browser.js")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
        )
    return _proc


def _send(what):
    p = _node()
    p.stdin.write(json.dumps(what) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise OSError("the node process ended")
    out = json.loads(line)
    if "harness" in out:
        raise BrowserError(out["harness"])
    return out


_texts = {}
SCRIPT = re.compile(r'<script[^>]*\bsrc="([^"]+)"')


def catalogs(client, base, html):
    """The scripts of the page that are no files: the texts in the active language."""
    out = []
    for src in SCRIPT.findall(html):
        url = urljoin(base, src)
        if url.startswith("/static/"):
            continue
        known = (url, get_language())
        if known not in _texts:
            r = client.get(url)
            if r.status_code != 200:
                raise BrowserError(f"script {url} answered {r.status_code}")
            _texts[known] = r.content.decode()
        out.append(_texts[known])
    return out


def said(text):
    """What the page has to say for `text` in the active language, according to treebeard's catalogs."""
    lang = get_language() or "en"
    for name in (lang, lang.split("-")[0]):
        path = os.path.join(os.path.dirname(treebeard.__file__), "locale", name, "LC_MESSAGES", "djangojs.mo")
        if os.path.exists(path):
            with open(path, "rb") as f:
                return gettext.GNUTranslations(f).gettext(text)
    return text


class Page:
    def __init__(self, client, base, search=""):
        self.client, self.base = client, base
        r = client.get(base + search)
        if r.status_code != 200:
            raise BrowserError(f"page {base}{search} answered {r.status_code}")
        static = os.path.join(os.path.dirname(treebeard.__file__), "static/treebeard/treebeard-admin.js")
        html = r.content.decode()
        self.state = _send({
            "cmd": "load", "html": html, "catalogs": catalogs(client, base, html), "search": search, "script": static,
            "jquery": os.path.join(VENDOR, "vendor/jquery/jquery.js"), "init": os.path.join(VENDOR, "jquery.init.js"),
        })
        self.log = []

    def do(self, cmd, *args):
        self.state = _send({"cmd": cmd, "args": list(args)})
        return self.state

    @property
    def requests(self):
        return self.state["requests"]

    def answer(self, request):
        """Send one of the page's requests to the server, and give the page the answer."""
        url = self.base + request["url"]  # the widget's addresses are relative to the list
        self.log.append((request["method"], request["url"], request["body"]))
        headers = {k: v for k, v in request["headers"].items() if k.lower() != "content-type"}
        if request["method"] == "GET":
            r = self.client.get(url, headers=headers)
        else:
            data = {k: v[0] for k, v in parse_qs(request["body"], keep_blank_values=True).items()}
            r = self.client.post(url, data, headers=headers)
        self.do("respond", {
            "key": request["key"], "status": r.status_code, "body": r.content.decode(),
            "headers": {"content-type": r.headers.get("Content-Type", "")},
        })
        return r

    def visible(self):
        return [r for r in self.state["rows"] if r["visible"]]
