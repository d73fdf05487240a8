#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property on /repo's current source."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from vf import registry, report  # noqa: E402
from vf.build import Workspace, BuildError  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv[2:] else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    with Workspace() as W:
        try:
            res = registry.CHECKS[prop](W, prop, tier)
        except BuildError as e:
            if 'error[E0080]' not in str(e) or prop[0] not in 'MV':
                print('%s: %s' % (prop, e))
                return 2
            # the constants of the library reject a type the property is about
            m = [l for l in str(e).splitlines() if 'E0080' in l][0]
            w = [l.strip()[4:] for l in str(e).splitlines() if l.strip().startswith('--> ')]
            res = report.Result('other')
            res.add('const ' + m, w[0] if w else '?', 'a constant of the library cannot be evaluated for one of the types of the histories: ' + m)
            res.coverage.update({'obligations': 1, 'discharged': 0, 'explanation': 'compile-time evaluation', 'rule': 'compile-time evaluation',
                                 'checker_cmd': 'python3 /verif/check.py %s' % prop, 'trusted_base': ['rustc']})
        except Exception:
            traceback.print_exc()
            return 2
        return report.finish(prop, tier, seed, t0, res)


if __name__ == '__main__':
    sys.exit(main())
