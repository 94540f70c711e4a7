"""Generates /verif/seeded from the descriptions in tools/seedlist/*.py (nothing else reads them)."""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def main(only):
    seeds = []
    for f in sorted(glob.glob(V + "/tools/seedlist/*.py")):
        seeds += runpy.run_path(f)["SEEDS"]
    for s in seeds:
        if only and s["id"] not in only:
            continue
        d = "%s/seeded/%s" % (V, s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with tempfile.TemporaryDirectory() as tmp:
            subprocess.check_call("git -C /repo archive HEAD zigpy_cc | tar x -C %s" % tmp,
                                  shell=True)
            subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c "
                                  "user.email=x@x commit -qm x", shell=True, cwd=tmp)
            for path, old, new in s["edits"]:
                p = "%s/zigpy_cc/%s" % (tmp, path)
                text = open(p).read()
                if text.count(old) != 1:
                    sys.exit("%s: %d matches in %s for %r" % (s["id"], text.count(old), path, old))
                with open(p, "w") as f:
                    f.write(text.replace(old, new))
            diff = subprocess.check_output(["git", "diff"], cwd=tmp)
        with open(d + "/patch.diff", "wb") as f:
            f.write(diff)
        with open(d + "/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(V + "/tools/demolib.py", d)
        with open(d + "/demo.py", "w") as f:
            f.write("from demolib import *\n" + s["demo"])
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"],
                       "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
        print(s["id"])


main(sys.argv[1:])
