"""python3 -m lint.run C02 [--tier quick|thorough]"""
from __future__ import annotations
import importlib
import os
import sys
import traceback


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.setrecursionlimit(20000)
    from .project import AnalysisBroken, Project
    from .report import Check
    mod = importlib.import_module(f'lint.checks.{pid.lower()}')
    ck = Check(pid, mod.TITLE)
    try:
        proj = Project()
        mod.run(proj, ck, tier)
        from .cfg import Graph
        ck.functions |= Graph.built
    except (AnalysisBroken, SyntaxError) as e:
        print(f'ANALYSIS-BROKEN property={pid} {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid} internal error')
        return 2
    return ck.finish(tier, seed)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
