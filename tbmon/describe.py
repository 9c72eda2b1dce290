import importlib
import os


def describe(prop_id):
    os.environ.setdefault("TBMON_DB", "sqlite")
    os.environ["DJANGO_SETTINGS_MODULE"] = "tbmon.settings"
    import django

    django.setup()
    m = importlib.import_module(f"tbmon.props.{prop_id.lower()}")
    backends = [b for b in ("sqlite", "psql") if any(b in w.backends for w in m.WORKLOADS)]
    return {
        "backends": backends,
        "rule": m.RULE,
        "level": getattr(m, "LEVEL", "exploration"),
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "required": getattr(m, "REQUIRED", {}),
        "budget": {**{"quick": 45, "thorough": 420}, **getattr(m, "BUDGET", {})},
        "multi_db": getattr(m, "MULTI_DB", False),
        "sqlite_files": getattr(m, "SQLITE_FILES", False),
        "workers": getattr(m, "WORKERS", None),
    }
