#!/usr/bin/env python3
"""check.py <property id>: decides one property statically from /repo's current sources."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
import ir
from ir import AnalysisBroken
from report import Report
sys.setrecursionlimit(50000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    reg = json.load(open(os.path.join(HERE, 'checks', 'registry.json')))
    rep = Report(pid, tier, seed)
    broken = None
    try:
        mod = importlib.import_module(reg[pid])
        m = ir.load()
        rep.cov['translation_units'] = len(m.srcs)
        rep.cov['functions_in_module'] = sum(1 for f in m.functions.values() if not f.decl)
        getattr(mod, 'check_' + pid)(m, rep)
        rep.check_floors()
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    return rep.finish(HERE, time.time() - t0, broken)


if __name__ == '__main__':
    sys.exit(main())
