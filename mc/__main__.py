import json
import os
import sys

from . import core


def replay(fn):
    import importlib
    d = json.load(open(fn))
    mod = importlib.import_module('checks.' + d['property'].lower())
    if 'setup' in d['case']:
        return core.main(d['property'], 'quick')
    out = core.run_case(mod, d['case'])
    for k, m in out['viol']:
        print('[%s] %s' % (k, m))
    print('reproduced' if out['viol'] else 'not reproduced')
    return 1 if out['viol'] else 0


if __name__ == '__main__':
    sys.path.insert(0, core.VERIF)
    if sys.argv[1] == '--replay':
        rc = replay(sys.argv[2])
    else:
        tier = (sys.argv[2] if len(sys.argv) > 2
                else os.environ.get('VERIF_TIER', 'quick'))
        rc = core.main(sys.argv[1], tier)
    sys.stdout.flush()
    os._exit(rc)
