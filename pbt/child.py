"""python -m pbt.child MODULE FUNCTION: calls FUNCTION of pbt.checks.MODULE in a process of its own; case on stdin, result on stdout (JSON).

Besides: `in_process`, which does this from a check with a given hash seed.
"""
import importlib
import json
import os
import subprocess
import sys

from pbt.core import ROOT, HarnessError, Violation

MARK = "RESULT "


def in_process(module, function, case, hash_seed):
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
    process = subprocess.run([sys.executable, "-W", "ignore", "-m", "pbt.child", module, function], input=json.dumps(case), cwd=ROOT,
                             env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=300)
    for line in process.stdout.splitlines():
        if line.startswith(MARK):
            result = json.loads(line[len(MARK):])
            if "violation" in result:
                raise Violation("in a process of its own: " + result["violation"])
            return result["value"]
    raise HarnessError("process for %s.%s failed (%s): %s" % (module, function, process.returncode, process.stderr[-2000:]))


def main(module, function):
    case = json.load(sys.stdin)
    from pbt import shims  # noqa: F401
    try:
        result = {"value": getattr(importlib.import_module("pbt.checks." + module), function)(case)}
    except Violation as e:
        result = {"violation": str(e)}
    except (HarnessError, ImportError, OSError):
        raise
    except Exception as e:
        result = {"violation": "unexpected %s: %s" % (type(e).__name__, str(e)[:600])}
    print(MARK + json.dumps(result))


if __name__ == "__main__":
    main(*sys.argv[1:])
    sys.stdout.flush()
    os._exit(0)
