#!/usr/bin/env python3
"""usage: run.py <property> [quick|thorough]   decide one property on /repo's working tree"""
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core


def main():
    pid = sys.argv[1]
    if pid == 'setup':
        import shutil
        miss = [t for t in ('gcc', 'g++', 'clang', 'clang++', 'python3') if not shutil.which(t)]
        if miss:
            print('missing tools: %s' % ' '.join(miss))
            return 1
        os.makedirs(core.BUILD, exist_ok=True)
        print('setup ok (checks build from %s themselves)' % core.REPO)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from vlib import checks
    try:
        c = checks.CHECKS[pid](pid, tier, seed)
        return c.finish()
    except core.CheckError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
