"""python -m pbt.main ID [--replay FILE]"""
import importlib
import os
import sys
import traceback

MODULES = {}
for module, ids in {
    "batches": "C01 C02 C03 C04",
    "tensors": "C05 C06 C07 C08 C09",
    "steps": "C11 C12 C13",
    "protocol": "C10 C15 C19 C20 C21",
    "svgd": "C14",
    "randomness": "C16 C17 C18 C22 C23",
    "modelutils": "C24 C25 C26",
    "bnn": "C27 C28 C29 C30 C31 C38 C39 C40",
    "training": "C41 C42 C43",
    "operation": "C44 C45 C46",
    "defaults": "C47",
    "traces": "C32 C33",
    "objectives": "C34",
    "robustness": "C35 C36 C37",
}.items():
    for i in ids.split():
        MODULES[i] = module


def main(argv):
    prop = argv[0]
    from pbt import core
    try:
        from pbt import shims  # noqa: F401
        module = importlib.import_module("pbt.checks." + MODULES[prop])
        parts, rule, assumptions = module.CHECKS[prop]()
        runner = core.Runner(prop, parts, rule, assumptions)
        if len(argv) > 2 and argv[1] == "--replay":
            return runner.replay(argv[2])
        return runner.run()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)      # TensorFlow's threads are not waited for
