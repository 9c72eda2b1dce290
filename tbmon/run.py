"""The orchestrator behind ./check: starts databases and workers, folds their observations into one verdict, writes
the evidence file.

Exit 0: held on everything observed (listed findings are printed as KNOWN-FINDING lines). Exit 1: violated, with a
VIOLATION line and a replay file. Exit 2: inconclusive (harness error, timeout, or the deciding monitor was not reached).
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import pg

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("TBMON_REPO", "/repo")


def load_findings(prop):
    try:
        data = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == prop]


def child_env(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("TBMON_", "DJANGO_", "DATABASE_"))}
    env.update(
        PYTHONPATH=f"{REPO}:{VERIF}",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        TZ="UTC",
        LC_ALL="C.UTF-8",
    )
    env["PYTHONDONTWRITEBYTECODE"] = ""
    return env


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", help="run only this workload")
    ap.add_argument("--backend")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.time()
    prop_id = args.prop
    sys.path.insert(0, REPO)
    scratch = tempfile.mkdtemp(prefix="tbmon-run.", dir="/tmp")
    os.chmod(scratch, 0o755)
    cluster = None
    procs = []
    try:
        replay = json.load(open(args.replay)) if args.replay else None
        seed, tier = args.seed, args.tier
        if replay:
            seed, tier = replay["seed"], replay["tier"]
        desc = describe(prop_id, scratch)
        backends = desc["backends"]
        if replay:
            backends = [replay["backend"]]
        elif args.backend:
            backends = [b for b in backends if b == args.backend]
        multi = desc.get("multi_db", False)
        ncpu = max(2, min(8, os.cpu_count() or 4))
        share = {}
        if replay:
            share = {backends[0]: 1}
        elif len(backends) == 1:
            share = {backends[0]: min(desc.get("workers") or ncpu, ncpu)}
        else:
            share = {"sqlite": max(1, ncpu * 3 // 8), "psql": max(1, ncpu - ncpu * 3 // 8)}
            if desc.get("workers"):
                share = {b: max(1, desc["workers"] // 2) for b in backends}
        budget = args.budget or desc["budget"][tier]
        findings = load_findings(prop_id)
        env = child_env(scratch)
        specs = []
        if "psql" in backends:
            cluster = pg.start_cluster()
            cluster.sql("postgres", "CREATE DATABASE tmpl")
            tspec = {
                "backend": "psql", "repo": REPO, "prop": prop_id,
                "env": {"TBMON_PGHOST": cluster.dir, "TBMON_DBNAME": "tmpl"},
            }
            p = os.path.join(scratch, "tmpl.json")
            json.dump(tspec, open(p, "w"))
            r = subprocess.run(
                [PY, "-m", "tbmon.mktables", p], env=env, cwd=scratch, capture_output=True, text=True, timeout=300
            )
            if r.returncode:
                raise RuntimeError("could not create the tables: " + r.stderr[-2000:])
        deadline = time.time() + budget
        for b in backends:
            for s in range(share[b]):
                spec = {
                    "prop": prop_id, "backend": b, "tier": tier, "seed": seed, "shard": s, "shards": share[b],
                    "deadline": deadline, "repo": REPO, "findings": findings, "env": {}, "replay": replay,
                    "verbose": args.verbose, "keep_going": args.keep_going, "scratch": scratch, "only": args.only,
                }
                if b == "psql":
                    name = f"w{s}"
                    cluster.sql("postgres", f"CREATE DATABASE {name} TEMPLATE tmpl")
                    spec["env"] = {"TBMON_PGHOST": cluster.dir, "TBMON_DBNAME": name}
                    if multi:
                        cluster.sql("postgres", f"CREATE DATABASE {name}o TEMPLATE tmpl")
                        spec["env"]["TBMON_OTHER"] = name + "o"
                else:
                    files = desc.get("sqlite_files", False)
                    if files or multi:
                        d = os.path.join(scratch, f"sq{s}")
                        os.mkdir(d)
                        spec["env"]["TBMON_SQLITE_main"] = os.path.join(d, "main.db")
                        spec["env"]["TBMON_SQLITE_other"] = os.path.join(d, "other.db")
                    if multi:
                        spec["env"]["TBMON_OTHER"] = "other"
                specs.append(spec)
        for n, spec in enumerate(specs):
            sp, op = os.path.join(scratch, f"spec{n}.json"), os.path.join(scratch, f"out{n}.json")
            json.dump(spec, open(sp, "w"))
            log = open(os.path.join(scratch, f"log{n}"), "w")
            procs.append(
                (
                    subprocess.Popen(
                        [PY, "-m", "tbmon.worker", sp, op], env=env, cwd=scratch, preexec_fn=die_with_parent,
                        stdout=None if args.verbose else log, stderr=None if args.verbose else log,
                    ),
                    spec, op, os.path.join(scratch, f"log{n}"),
                )
            )
        results = wait(procs, deadline)
        return conclude(args, prop_id, tier, seed, desc, results, findings, replay, t0)
    except Exception as exc:
        import traceback

        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop_id} harness error: {exc}", flush=True)
        return 2
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        if cluster:
            cluster.stop()
        shutil.rmtree(scratch, ignore_errors=True)


def die_with_parent():
    """Ask the kernel to end this child when its parent is gone."""
    import ctypes

    PR_SET_PDEATHSIG, SIGKILL = 1, 9
    ctypes.CDLL(None).prctl(PR_SET_PDEATHSIG, SIGKILL)


def describe(prop_id, scratch):
    """What the property module declares, read without importing Django here."""
    r = subprocess.run(
        [PY, "-c", "import sys, json\nfrom tbmon.describe import describe\nprint(json.dumps(describe(sys.argv[1])))", prop_id],
        env=child_env(scratch), cwd=scratch, capture_output=True, text=True, timeout=120,
    )
    if r.returncode:
        raise RuntimeError(r.stderr[-3000:])
    return json.loads(r.stdout.splitlines()[-1])


def wait(procs, deadline):
    """Collect the workers; the first violation stops the others."""
    results = {}
    hard = deadline + 200
    stop = False
    while len(results) < len(procs):
        for n, (p, spec, op, log) in enumerate(procs):
            if n in results:
                continue
            if os.path.exists(op):
                results[n] = json.load(open(op))
                results[n]["spec"] = spec
                if results[n]["violation"] and not spec.get("keep_going"):
                    stop = True
            elif p.poll() is not None and not os.path.exists(op):
                tail = open(log).read()[-2000:]
                results[n] = {"error": f"worker ended with {p.returncode}: {tail}", "spec": spec}
        if stop or time.time() > hard:
            break
        time.sleep(0.05)
    for n, (p, spec, op, log) in enumerate(procs):
        if n not in results:
            p.kill()
            p.wait()
            if not stop:
                results[n] = {"error": "the worker did not finish in time (inconclusive)", "spec": spec}
    return results


def conclude(args, prop_id, tier, seed, desc, results, findings, replay, t0):
    counters, workloads, known, samples, distinct = {}, {}, {}, [], set()
    cases = 0
    errors, violations = [], []
    per_backend = {}
    for r in results.values():
        if r.get("error"):
            errors.append(r["error"])
        if r.get("all_violations"):
            violations += r["all_violations"]
        elif r.get("violation"):
            violations.append(r["violation"])
        for k, v in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        b = r["spec"]["backend"]
        per_backend[b] = per_backend.get(b, 0) + r.get("cases", 0)
        for k, v in r.get("workloads", {}).items():
            w = workloads.setdefault(k, {"held": 0, "abandoned": 0, "violated": 0})
            for kk, vv in v.items():
                w[kk] += vv
        for k, v in r.get("known", {}).items():
            known.setdefault(k, v)
        samples += r.get("samples", [])
        distinct.update(r.get("distinct", []))
        cases += r.get("cases", 0)
    for f in findings:
        if f["mechanism"] in known:
            print(f"KNOWN-FINDING: property={prop_id} {f['what']}")
    code = 0
    why = ""
    if violations:
        code = 1
    elif errors:
        code, why = 2, errors[0]
    elif not replay:
        for name, least in desc["required"].items():
            if counters.get(name, 0) < least:
                code, why = 2, f"counter {name} is {counters.get(name, 0)}, expected at least {least}"
        held = sum(w["held"] for w in workloads.values())
        if not code and held * 2 < cases:
            code, why = 2, f"only {held} of {cases} cases ran to their end: {counters}"
    samples = samples[:10]
    evidence = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": desc["level"],
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(distinct),
            "rule": desc["rule"],
            "samples": samples,
            "counters": dict(sorted(counters.items())),
            "cases_per_workload": workloads,
            "cases_per_backend": per_backend,
            "truncated_by_time": any(r.get("truncated") for r in results.values()),
        },
        "assumptions": desc["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if known:
        evidence["coverage"]["known_findings_observed"] = known
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    if not args.no_evidence and not replay:
        text = json.dumps(evidence, indent=1, default=str, ensure_ascii=True)
        while len(text) > 60000 and samples:
            samples.pop()
            text = json.dumps(evidence, indent=1, default=str, ensure_ascii=True)
        with open(os.path.join(VERIF, "evidence", f"{prop_id}.json"), "w") as f:
            f.write(text + "\n")
    seen = set()
    for v in violations:
        if len(seen) and (not args.keep_going or (v["workload"], v["mechanism"], v["message"][:60]) in seen):
            continue
        seen.add((v["workload"], v["mechanism"], v["message"][:60]))
        if replay:
            path = args.replay
        else:
            path = os.path.join(VERIF, "evidence", "replays", f"{prop_id}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
        print(f"VIOLATION property={prop_id} replay={path}")
        print(f"  workload={v['workload']} backend={v['backend']} case={v['index']} mechanism={v['mechanism']}")
        print(f"  {v['message'][:1500]}")
        for line in v["trace"][-8:]:
            print("   ", line[:300])
    total = sum(counters.get(k, 0) for k in ("oracle_evaluations",))
    print(
        f"{prop_id} {tier} seed={seed}: {cases} cases, {len(distinct)} distinct, {total} oracle evaluations, "
        f"{len(violations)} violations, {time.time() - t0:.1f}s"
    )
    if code == 2:
        print(f"INCONCLUSIVE property={prop_id} {why}")
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    sys.exit(main())
