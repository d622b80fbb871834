#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property from /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from capylint import facts as F, report


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        mod = importlib.import_module('capylint.rules.' + pid.lower())
        facts = F.load() if getattr(mod, 'NEEDS_FACTS', True) else None
        r = report.Report(pid, tier)
        mod.run(facts, r)
        return report.finish(r)
    except F.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2


if __name__ == '__main__':
    sys.exit(main())
