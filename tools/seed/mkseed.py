"""Writes /verif/seeded/<id>/ from the specs in specs*.py. Run: python3 tools/seed/mkseed.py [ID...]"""

import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")


def main():
    specs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "specs*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SPECS"]:
            assert s["id"] not in specs, s["id"]
            specs[s["id"]] = s
    only = sys.argv[1:]
    work = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", work + "/r"], check=True)
        for id, s in specs.items():
            if only and id not in only:
                continue
            for path, old, new in s["edits"]:
                p = os.path.join(work, "r", path)
                text = open(p).read()
                n = text.count(old)
                assert n == 1, (id, path, n, old)
                open(p, "w").write(text.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=work + "/r", capture_output=True, text=True, check=True).stdout
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=work + "/r", check=True)
            d = os.path.join(SEEDED, id)
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            shutil.copy(HERE + "/demo.sh", d)
            shutil.copy(HERE + "/demolib.py", d)
            for extra in s.get("files", ()):
                text = open(os.path.join(os.path.dirname(os.path.dirname(HERE)), "tbmon", extra)).read()
                text = text.replace('"js", "browser.js"', '"browser.js"')
                open(os.path.join(d, os.path.basename(extra)), "w").write(text)
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            json.dump(
                {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                open(d + "/meta.json", "w"), indent=1,
            )
            print(id)
    finally:
        shutil.rmtree(work)


main()
