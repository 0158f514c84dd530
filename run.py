#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--sub NAME] [-v]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import boot
boot.reexec()
from pbt import core
if __name__ == '__main__':
    try:
        if sys.argv[1:2] == ['setup']:
            boot.boot()
            import hypothesis
            print('extensions built, hypothesis %s' % hypothesis.__version__)
            code = 0
        else:
            code = core.main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
