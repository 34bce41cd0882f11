"""python3 -m rbmsa <property> [--tier quick|thorough]"""
import importlib
import os
import sys
import threading

from .ctx import Ctx
from .program import AnalysisError
from .report import Report


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    rep = Report(prop, tier)
    try:
        ctx = Ctx(rep)
        mod = importlib.import_module(f"rbmsa.props.{prop.lower()}")
        mod.check(ctx, rep)
    except AnalysisError as e:
        if any(o["status"] == "violated" for o in rep.obl):
            return rep.finish()
        print(f"{prop}: cannot analyse: {e}", file=sys.stderr)
        return 2
    return rep.finish()


if __name__ == "__main__":
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 2)
