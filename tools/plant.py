"""python3 tools/plant.py SPEC.py...   Build /verif/seeded/<id>/ from a spec and try it out on a scratch copy of /repo.

A spec sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old text, new text)], DEMO (Python, with `shims` imported) and
optionally ALSO (further checks to run). Nothing here is used by a check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# exit 0: the behaviour is as it should be
. /opt/vp/env.sh
export TF_DETERMINISTIC_OPS=0
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$HERE:$PYTHONPATH"
exec "$PY" -W ignore "$HERE/demo.py"
"""
PREAMBLE = '''import shims
import numpy as np
from shims import tf


def check(condition, *message):
    if not condition:
        print("BROKEN:", *message)
        raise SystemExit(1)


'''


def inside(copy, command, **kwargs):
    """Run with /repo replaced by the copy."""
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, command)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kwargs)


def stable(copy):
    out = tempfile.mktemp(suffix=".json")
    inside(copy, "bash /opt/vp/test.sh %s" % out)
    passed = set(json.load(open(out))["passed"])
    os.unlink(out)
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]


def main(paths):
    quick = "--no-check" in paths
    only = "--only-check" in paths
    for path in [p for p in paths if not p.startswith("--")]:
        spec = {}
        exec(open(path).read(), spec)
        folder = os.path.join(ROOT, "seeded", spec["ID"])
        work = tempfile.mkdtemp(prefix="plant-")
        copy = os.path.join(work, "repo")
        try:
            shutil.copytree("/repo", copy, symlinks=True)
            status = []
            for name, old, new in spec["EDITS"]:
                file = os.path.join(copy, name)
                text = open(file).read()
                if text.count(old) != 1:
                    raise SystemExit("%s: %d matches in %s of %r" % (spec["ID"], text.count(old), name, old))
                open(file, "w").write(text.replace(old, new))
            diff = subprocess.run(["git", "-C", copy, "diff"], stdout=subprocess.PIPE, text=True).stdout
            os.makedirs(folder, exist_ok=True)
            open(os.path.join(folder, "patch.diff"), "w").write(diff)
            open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
            open(os.path.join(folder, "demo.py"), "w").write(PREAMBLE + spec["DEMO"].strip("\n") + "\n")
            shutil.copy(os.path.join(ROOT, "tools", "demo_shims.py"), os.path.join(folder, "shims.py"))
            json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                      open(os.path.join(folder, "meta.json"), "w"), indent=1)
            if not only:
                good = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                bad = inside(copy, "bash %s" % os.path.join(folder, "demo.sh"), timeout=300)
                status.append("demo clean %d patched %d" % (good.returncode, bad.returncode))
                if good.returncode != 0:
                    print(good.stdout[-1500:])
                if bad.returncode != 1:
                    print(bad.stdout[-1500:])
                else:
                    status.append([l for l in bad.stdout.splitlines() if l.startswith("BROKEN")][:1] or bad.stdout[-300:])
                build = inside(copy, "bash /opt/vp/build.sh")
                status.append("build %d" % build.returncode)
                failing = stable(copy)
                status.append("stable tests pass" if not failing else "FAILING TESTS %s" % failing)
            if not quick:
                for prop in [spec["PROPERTY"]] + list(spec.get("ALSO", [])):
                    check = subprocess.run(["bash", os.path.join(ROOT, "check.sh"), prop], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                           env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
                    lines = [l for l in check.stdout.splitlines() if l.strip()]
                    status.append("%s rc=%d %s" % (prop, check.returncode, "CAUGHT " + " | ".join(lines[-3:-2])[:300] if check.returncode == 1 else "MISSED " + " ".join(lines[-1:])))
            print(spec["ID"], spec["PROPERTY"], *status, sep=" ; ")
            sys.stdout.flush()
        finally:
            shutil.rmtree(work, ignore_errors=True)


main(sys.argv[1:])
