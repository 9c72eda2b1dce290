"""Helpers of the demonstrations: Django on a private SQLite (in memory) or a throw-away PostgreSQL, with given models."""

import atexit
import os
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())  # the tree to demonstrate on
BIN = "/usr/lib/postgresql/16/bin/"


def _as_pg(work, *cmd):
    user = ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups"] if os.getuid() == 0 else []
    subprocess.run(
        [*user, "env", f"HOME={work}", *cmd], cwd=work, check=True, stdin=subprocess.DEVNULL,
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120,
    )


def _cluster():
    work = tempfile.mkdtemp(prefix="demo.", dir="/tmp")
    os.chmod(work, 0o755)
    pg = os.path.join(work, "pg")
    os.mkdir(pg, 0o700)
    if os.getuid() == 0:
        shutil.chown(pg, "postgres", "postgres")

    def stop():
        try:
            _as_pg(pg, BIN + "pg_ctl", "-w", "-m", "immediate", "-D", pg + "/data", "stop")
        except Exception:
            pass
        shutil.rmtree(work, ignore_errors=True)

    atexit.register(stop)
    _as_pg(pg, BIN + "initdb", "-D", pg + "/data", "-U", "demo", "--auth=trust", "-E", "UTF8", "--locale=C.UTF-8", "--no-sync")
    _as_pg(
        pg, BIN + "pg_ctl", "-w", "-t", "120", "-D", pg + "/data", "-l", pg + "/log", "-o",
        f"-k {pg} -c listen_addresses='' -c fsync=off -c max_connections=100", "start",
    )
    return pg


def start(engine="sqlite", **extra):
    import django
    from django.conf import settings

    if engine == "psql":
        db = {"ENGINE": "django.db.backends.postgresql", "NAME": "postgres", "USER": "demo", "HOST": _cluster(), "PASSWORD": ""}
    else:
        db = {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"}
    conf = dict(
        DATABASES={"default": db}, SECRET_KEY="x", ALLOWED_HOSTS=["*"], USE_TZ=True,
        DEFAULT_AUTO_FIELD="django.db.models.BigAutoField",
        INSTALLED_APPS=[
            "django.contrib.auth", "django.contrib.contenttypes", "django.contrib.sessions", "django.contrib.admin",
            "django.contrib.messages", "treebeard",
        ],
        MIDDLEWARE=[
            "django.contrib.sessions.middleware.SessionMiddleware",
            "django.contrib.auth.middleware.AuthenticationMiddleware",
            "django.contrib.messages.middleware.MessageMiddleware",
        ],
        SESSION_ENGINE="django.contrib.sessions.backends.signed_cookies",
        STATIC_URL="/static/",
        TEMPLATES=[
            {
                "BACKEND": "django.template.backends.django.DjangoTemplates", "APP_DIRS": True,
                "OPTIONS": {
                    "context_processors": [
                        "django.contrib.auth.context_processors.auth",
                        "django.template.context_processors.request",
                        "django.contrib.messages.context_processors.messages",
                    ]
                },
            }
        ],
    )
    conf.update(extra)
    settings.configure(**conf)
    django.setup()
    import treebeard

    assert os.path.realpath(treebeard.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), treebeard.__file__
    if engine == "psql":
        from django.db import connection

        with connection.cursor() as cur:
            cur.execute("CREATE EXTENSION IF NOT EXISTS ltree")


def tables(*models, using="default"):
    from django.db import connections

    with connections[using].schema_editor() as ed:
        for m in models:
            ed.create_model(m)


def shape(model):
    """(depth, name) of all the nodes in the order of get_tree()."""
    return [(n.get_depth(), n.name) for n in model.objects.get_tree()]


def expect(got, want, what):
    if got != want:
        print(f"BROKEN: {what}: {got!r}, expected {want!r}")
        sys.exit(1)


def check(cond, what):
    if not cond:
        print(f"BROKEN: {what}")
        sys.exit(1)
