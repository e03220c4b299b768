#!/usr/bin/env python3-vt
"""run.py <property id> [quick|thorough]: run one check, exit 0 or 1."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import common


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('checks.' + prop.lower())
    ck = common.Check(prop, tier, mod.LEVEL)
    try:
        mod.run(ck, tier)
    except common.Inconclusive as e:
        ck.note_inconclusive('check could not run: %s' % e)
        ck.cov.setdefault('explanation', 'not decided: %s' % str(e)[:300])
        print('INCONCLUSIVE property=%s %s' % (prop, str(e)[:2000]))
    except Exception:
        ck.note_inconclusive('internal error: ' + traceback.format_exc()[-250:])
        traceback.print_exc()
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main())
