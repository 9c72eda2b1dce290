"""One worker process: runs its share of a property's cases on one backend and writes a result file."""

import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback
import warnings
import zlib


def schedule(prop, backend, tier, only=None):
    """All cases of this backend, interleaved so that any prefix keeps the proportions of the workloads."""
    items = []
    for w in prop.WORKLOADS:
        if backend not in w.backends or (only and w.name != only):
            continue
        q = w.quota(tier)
        for i in range(q):
            items.append(((i + 0.5) / q, zlib.crc32(w.name.encode()), w, i))
    items.sort(key=lambda x: x[:2])
    return [(w, i) for _, _, w, i in items]


def setup_django(spec):
    os.environ["TBMON_DB"] = spec["backend"]
    for k, v in spec.get("env", {}).items():
        os.environ[k] = v
    os.environ["DJANGO_SETTINGS_MODULE"] = "tbmon.settings"
    import django

    django.setup()
    import treebeard

    root = os.path.realpath(os.path.dirname(os.path.dirname(treebeard.__file__)))
    if root != os.path.realpath(spec["repo"]):
        raise RuntimeError(f"treebeard was imported from {root}, not {spec['repo']}")


def create_tables(alias="default"):
    from django.core.management import call_command

    from django.db import connections

    conn = connections[alias]
    if conn.vendor == "postgresql":
        with conn.cursor() as cur:
            cur.execute("CREATE EXTENSION IF NOT EXISTS ltree")
    call_command("migrate", run_syncdb=True, verbosity=0, database=alias)


def run_case(prop, w, i, spec, findings):
    from django.db.utils import InterfaceError, OperationalError

    from .core import Abandoned, Ctx, HarnessError, Violation

    ctx = Ctx(spec["prop"], spec["backend"], spec["tier"], spec["seed"], w.name, i, w.aspects, findings)
    random.seed(ctx.case_seed)
    from . import engine
    from .vapp.models import Payload

    Payload.truth, engine.ZERO_KEYS = True, False
    verdict = "held"
    info = None
    try:
        w.fn(ctx)
    except Violation as v:
        verdict = "violated"
        info = {"aspect": v.aspect, "message": v.message, "mechanism": v.mechanism}
    except Abandoned as a:
        verdict = "abandoned"
        info = str(a)
    except Exception as exc:
        # Something the property expects to work raised: in the library, or as a result of what it returned (a queryset that
        # cannot be evaluated, a page that is not there). Only what the environment may have caused is a harness error.
        frames = traceback.extract_tb(exc.__traceback__)
        lib = os.path.join(os.path.realpath(spec["repo"]), "treebeard") + os.sep
        environment = (HarnessError, OSError, MemoryError, subprocess.SubprocessError, OperationalError, InterfaceError)
        if isinstance(exc, environment) and not any(os.path.realpath(f.filename).startswith(lib) for f in frames):
            raise
        verdict = "violated"
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in frames[-6:])
        info = {
            "aspect": "exception", "mechanism": "exception",
            "message": f"unexpected {type(exc).__name__}: {exc} ({where})",
        }
    return ctx, verdict, info


def close_transactions():
    """After a case that stopped early: leave every connection usable."""
    from django.db import connections

    for c in connections.all(initialized_only=True):
        if c.in_atomic_block:
            c.in_atomic_block = False
            c.savepoint_ids = []
            c.atomic_blocks = []
            c.needs_rollback = False
            try:
                c.rollback()
                c.set_autocommit(True)
            except Exception:
                pass
        c.needs_rollback = False


def main():
    spec = json.load(open(sys.argv[1]))
    out_path = sys.argv[2]
    warnings.simplefilter("ignore")
    res = {
        "cases": 0, "counters": {}, "distinct": [], "samples": [], "known": {}, "violation": None, "error": None,
        "workloads": {}, "truncated": False,
    }
    distinct = set()
    failures = 0
    try:
        setup_django(spec)
        if spec["backend"] == "sqlite" and spec.get("tables", True):
            create_tables()
            if spec.get("env", {}).get("TBMON_OTHER"):
                create_tables("other")
        prop = importlib.import_module(f"tbmon.props.{spec['prop'].lower()}")
        findings = [f["mechanism"] for f in spec["findings"]]
        if spec.get("replay"):
            cases = [
                (w, spec["replay"]["index"]) for w in prop.WORKLOADS if w.name == spec["replay"]["workload"]
            ]
        else:
            cases = schedule(prop, spec["backend"], spec["tier"], spec.get("only"))[spec["shard"] :: spec["shards"]]
        for w, i in cases:
            if time.time() > spec["deadline"]:
                res["truncated"] = True
                break
            began = time.time()
            try:
                ctx, verdict, info = run_case(prop, w, i, spec, findings)
            except Exception as exc:  # a harness error: inconclusive, unless another case finds a violation
                res["error"] = f"{type(exc).__name__}: {exc}\n{traceback.format_exc()[-3000:]}"
                failures += 1
                if failures > 10 or spec.get("replay"):
                    break
                close_transactions()
                continue
            close_transactions()
            res["cases"] += 1
            wl = res["workloads"].setdefault(w.name, {"held": 0, "abandoned": 0, "violated": 0})
            wl[verdict] += 1
            for k, v in ctx.counters.items():
                res["counters"][k] = res["counters"].get(k, 0) + v
            if len(distinct) < 2_000_000:
                distinct |= ctx.distinct
            if len(res["samples"]) < 6:
                for s in ctx.samples:
                    res["samples"].append({"workload": w.name, "backend": spec["backend"], "case": i, "what": s})
                if res["cases"] <= 2 and ctx.trace:
                    res["samples"].append(
                        {"workload": w.name, "backend": spec["backend"], "case": i, "trace": ctx.trace[:25]}
                    )
            for k, v in ctx.known.items():
                res["known"].setdefault(k, v)
            if spec.get("verbose"):
                print(f"[{spec['backend']}] {w.name} {i}: {time.time() - began:.1f} s, {verdict} {info or ''}", flush=True)
            if verdict == "violated":
                res["violation"] = {
                    "property": spec["prop"], "workload": w.name, "backend": spec["backend"], "index": i,
                    "seed": spec["seed"], "tier": spec["tier"], "trace": ctx.trace[-200:], **info,
                }
                if not spec.get("keep_going"):
                    break
                res.setdefault("all_violations", []).append(res["violation"])
    except BaseException as exc:  # a harness error, or a timeout: inconclusive
        res["error"] = f"{type(exc).__name__}: {exc}\n{traceback.format_exc()[-3000:]}"
    res["distinct"] = sorted(distinct)
    tmp = out_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f, default=str)
    os.replace(tmp, out_path)


if __name__ == "__main__":
    main()
