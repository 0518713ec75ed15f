"""Entry point: main.py <PROPERTY> <quick|thorough>"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'agg')

import warnings
warnings.filterwarnings('ignore')

from lib import Check, MachineryError
from registry import PROPS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname, fname = PROPS[prop]
    chk = Check(prop, tier, seed)
    try:
        import mushroom_rl
        assert os.path.realpath(mushroom_rl.__file__).startswith(REPO + '/'), mushroom_rl.__file__
        mod = importlib.import_module(modname)
        getattr(mod, fname)(chk)
    except MachineryError as e:
        print('MACHINERY-ERROR property=%s: %s' % (prop, e))
        if chk.violations:
            return chk.finish()
        return 2
    except Exception as e:
        tb = traceback.format_exc()
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        print(tb)
        own = 'unexpected exception from the code under test' if any(f.startswith(REPO + '/') for f in files) else \
            'the code under test returned what the driver cannot read'
        # every admissible history must succeed and be observable through the documented interface
        chk.violation('exception:%s' % type(e).__name__, '%s: %s' % (own, e), {'traceback': tb})
    return chk.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
