#!/usr/bin/env python3
"""check.py <property id> <quick|thorough> : decide one property against /repo's working tree."""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PRECISE_REPO", "/repo"))

import traceback, warnings
warnings.simplefilter("ignore")


def main():
    from harness import tlc
    if sys.argv[1:2] == ["setup"]:
        print(tlc.classes())
        res = tlc.run("SelfTest")
        print(f"self-test of the arithmetic: {res.distinct} states, ok")
        return 0
    from harness import common, registry
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = common.Ctx(pid, tier, seed)
    try:
        registry.CHECKS[pid](ctx)
    except tlc.Machinery as ex:
        print("MACHINERY FAILURE:", ex)
        return 2
    except Exception as ex:          # the code under test raised where it should answer
        repo = os.environ.get("PRECISE_REPO", "/repo")
        frames = traceback.extract_tb(ex.__traceback__)
        inner = [f for f in frames if f.filename.startswith(repo + os.sep)]
        if not inner:
            raise
        traceback.print_exc()
        ctx.violation(f"raised:{type(ex).__name__}", f"{type(ex).__name__}: {ex} at {inner[-1].filename}:{inner[-1].name}",
                      {"traceback": traceback.format_exc()})
    return common.finish(ctx)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
