"""Django settings of the monitoring harness (never part of /repo)."""

import os

_ENGINE = os.environ.get("TBMON_DB", "sqlite")


def _db(name):
    if _ENGINE == "psql":
        return {
            "ENGINE": "django.db.backends.postgresql",
            "NAME": name,
            "USER": "tbmon",
            "HOST": os.environ["TBMON_PGHOST"],
            "PORT": "",
            "PASSWORD": "",
        }
    return {"ENGINE": "django.db.backends.sqlite3", "NAME": os.environ.get("TBMON_SQLITE_" + name, ":memory:")}


DATABASES = {"default": _db(os.environ.get("TBMON_DBNAME", "main"))}
if os.environ.get("TBMON_OTHER"):
    DATABASES["other"] = _db(os.environ["TBMON_OTHER"])
    DATABASE_ROUTERS = ["tbmon.router.Router"]

SECRET_KEY = "tbmon"
DEBUG = False
ALLOWED_HOSTS = ["*"]
USE_TZ = True
DEFAULT_AUTO_FIELD = "django.db.models.BigAutoField"
PASSWORD_HASHERS = ["django.contrib.auth.hashers.MD5PasswordHasher"]
INSTALLED_APPS = [
    "django.contrib.auth",
    "django.contrib.contenttypes",
    "django.contrib.sessions",
    "django.contrib.admin",
    "django.contrib.messages",
    "treebeard",
    "tbmon.vapp",
]
MIDDLEWARE = [
    "django.contrib.sessions.middleware.SessionMiddleware",
    "django.contrib.auth.middleware.AuthenticationMiddleware",
    "django.contrib.messages.middleware.MessageMiddleware",
]
SESSION_ENGINE = "django.contrib.sessions.backends.signed_cookies"
ROOT_URLCONF = "tbmon.urls"
STATIC_URL = "/static/"
TEMPLATES = [
    {
        "BACKEND": "django.template.backends.django.DjangoTemplates",
        "DIRS": [],
        "APP_DIRS": True,
        "OPTIONS": {
            "context_processors": [
                "django.contrib.auth.context_processors.auth",
                "django.template.context_processors.request",
                "django.contrib.messages.context_processors.messages",
            ],
        },
    },
]
# No migrations anywhere: every table is created by syncdb.
MIGRATION_MODULES = {a: None for a in ("auth", "contenttypes", "sessions", "admin", "messages", "vapp")}
LOGGING = {"version": 1, "disable_existing_loggers": True}
