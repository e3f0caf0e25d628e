#!/usr/bin/env python3
"""Plant bugs: each seed is edited into a scratch copy of /repo, kept only when
the stable tests still pass there and its demonstration tells the two apart.

usage: mkseed.py [id ...] (default: all in tools/seeds.py)"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS   # noqa

OUT = '/verif/seeded'
DEMO = '#!/bin/sh\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B ' \
       '"$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def make(sid):
    spec = SEEDS[sid]
    d = '/tmp/w/seed_' + sid
    shutil.rmtree(d, ignore_errors=True)
    sh(['git', 'clone', '-q', '/repo', d], '/tmp')
    try:
        for f, old, new in spec['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return sid, 'edit matches %d times in %s' % (t.count(old), f)
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], d).stdout
        out = os.path.join(OUT, sid)
        os.makedirs(out, exist_ok=True)
        demo = spec['demo'].lstrip('\n')
        files = {'patch.diff': diff, 'demo.sh': DEMO, 'demo.py': demo,
                 'meta.json': json.dumps({
                     'property': spec['property'], 'needs': spec['needs'],
                     'what_it_breaks': spec['what']}, indent=1) + '\n'}
        for n, t in files.items():
            open(os.path.join(out, n), 'w').write(t)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        r = sh(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p',
                'no:cacheprovider', 'tests'], d, timeout=300)
        tests = r.returncode
        bad = sh([os.path.join(out, 'demo.sh')], d, timeout=300)
        good = sh([os.path.join(out, 'demo.sh')], '/repo', timeout=300)
        ok = tests == 0 and bad.returncode != 0 and good.returncode == 0
        e = dict(os.environ, HIKUSTAT_REPO=d, HIKUSTAT_EVID=d + '/ev')
        c = sh(['/opt/venv/bin/python', '-B', '/verif/check.py',
                spec['property'], 'quick'], '/verif', env=e, timeout=900)
        L = [x.strip()[:200] for x in c.stdout.splitlines()
             if x.startswith('  [') or 'undecided:' in x]
        msg = '%s tests=%d demo(bad)=%d demo(good)=%d check=%d %s' % (
            'OK ' if ok else 'REJECTED', tests, bad.returncode,
            good.returncode, c.returncode, L[:1])
        if not ok:
            msg += '\n' + r.stdout[-600:] * (tests != 0) + bad.stderr[-400:] \
                + good.stderr[-600:]
            shutil.rmtree(out)
        else:
            msg += '\n     ' + bad.stderr.strip().splitlines()[-1][:200] \
                if bad.stderr.strip() else ''
        return sid, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ids = sys.argv[1:] or list(SEEDS)
    os.makedirs('/tmp/w', exist_ok=True)
    with cf.ThreadPoolExecutor(3) as ex:
        for sid, msg in ex.map(make, ids):
            print('==', sid, msg, flush=True)


main()
