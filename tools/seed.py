#!/usr/bin/env python3
"""Make and confirm planted bugs: tools/seed.py [--notest] [id ...]

Specs are in tools/seeds/*.py (SEEDS lists).  For each: scratch copy of /repo,
edit, diff, demo on both trees, test suite on the changed tree.
"""
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# cwd: the repository; exit 0 if it behaves, 1 if the planted bug shows
here=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d) || exit 3
trap 'rm -rf "$s"' EXIT
export NUMBA_CACHE_DIR="$s/numba" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR="$s" PYTHONWARNINGS=ignore SCRATCH="$s"
export PYTHONPATH="$PWD:$here" HDF5_USE_FILE_LOCKING=FALSE
/opt/venv/bin/python "$here/demo.py"
'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          **k)


def main():
    notest = '--notest' in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        seeds += runpy.run_path(f)['SEEDS']
    for sd in seeds:
        if ids and sd['id'] not in ids:
            continue
        out = os.path.join(HERE, 'seeded', sd['id'])
        if not ids and os.path.exists(os.path.join(out, 'patch.diff')):
            continue
        tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        w = tmp + '/repo'
        try:
            sh('git clone -q /repo %s' % w, '/')
            os.makedirs(out, exist_ok=True)
            for f in ('nets.py', 'models.py'):
                shutil.copy(os.path.join(HERE, 'mc', f), out)
            open(out + '/demo.sh', 'w').write(DEMO)
            open(out + '/demo.py', 'w').write(
                'from nets import *\nfrom models import *\n' + sd['demo'])
            json.dump(dict(property=sd['prop'], needs=sd['needs'],
                           what_it_breaks=sd['breaks']),
                      open(out + '/meta.json', 'w'), indent=1)
            if '--gold' in sys.argv:      # record the numbers to compare
                a = sh('GOLD_OUT=%s/gold sh %s/demo.sh' % (tmp, out), w)
                fn = os.path.join(HERE, 'tools', 'seeds', 'gold.json')
                g = json.load(open(fn)) if os.path.exists(fn) else {}
                if os.path.exists(tmp + '/gold'):
                    g[sd['id']] = json.loads(open(tmp + '/gold').read())
                    json.dump(g, open(fn, 'w'), indent=0, sort_keys=True)
                    print(sd['id'], g[sd['id']][:6])
                else:
                    print(sd['id'], 'FAILED', a.stdout[-300:])
                continue
            a = sh('sh %s/demo.sh' % out, w, timeout=290)
            for f, old, new in sd['edits']:
                p = w + '/' + f
                t = open(p).read()
                assert t.count(old) >= 1, (sd['id'], 'no match', f, old)
                assert t.count(old) == 1 or sd.get('nth') is not None, (
                    sd['id'], 'ambiguous', f, t.count(old))
                if sd.get('nth') in (None, 'all'):
                    t = t.replace(old, new)
                else:
                    bits = t.split(old)
                    n = sd['nth']
                    t = old.join(bits[:n + 1]) + new + old.join(bits[n + 1:])
                open(p, 'w').write(t)
            d = sh('git diff', w).stdout
            open(out + '/patch.diff', 'w').write(d)
            b = sh('sh %s/demo.sh' % out, w, timeout=290)
            ok = a.returncode == 0 and b.returncode != 0
            tests = 'skipped'
            if ok and not notest:
                c = sh('NUMBA_CACHE_DIR=%s/nb PYTHONDONTWRITEBYTECODE=1 '
                       'PYTHONPYCACHEPREFIX=%s/pyc MPLBACKEND=Agg '
                       '/opt/venv/bin/python -m pytest -q -p '
                       'no:cacheprovider --import-mode=importlib '
                       '--timeout=300 tests 2>&1 | tail -3' % (tmp, tmp), w)
                tests = c.stdout.strip().split('\n')[-1]
                ok = 'failed' not in tests and 'error' not in tests
            print(sd['id'], 'OK' if ok else 'BAD', 'clean', a.returncode,
                  'patched', b.returncode, '|', tests)
            if not ok:
                print(a.stdout[-300:] if a.returncode else '',
                      b.stdout[-300:])
            else:
                print('    ', b.stdout.strip().split('\n')[-1][:200])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
