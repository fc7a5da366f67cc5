"""check.py <property> [quick|thorough]  |  check.py replay <file>"""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/vp-pycache'   # never read bytecode of /repo, always its current source
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import core  # noqa: E402

if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(core.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(core.main(sys.argv[1], tier))
