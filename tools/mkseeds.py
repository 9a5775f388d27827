#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every planted bug of tools/seedlib/bugs*.py (patch against /repo's HEAD, demonstration, meta.json).
mkseeds.py [id ...]; with --verify: each one is also taken through build, tests and demonstration in a scratch copy."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
BASE = 'cceab07'
DEMO = '''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$HERE"
exec timeout -k 5 280 /opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def git(*a, **k):
    return subprocess.run(('git', '-c', 'safe.directory=*') + a, stdout=subprocess.PIPE, check=True, **k).stdout.decode()


def bugs():
    sys.path.insert(0, os.path.join(HERE, 'seedlib'))
    out = {}
    for f in sorted(os.listdir(os.path.join(HERE, 'seedlib'))):
        if f.startswith('bugs') and f.endswith('.py'):
            for b in importlib.import_module(f[:-3]).BUGS:
                assert b['id'] not in out, b['id']
                out[b['id']] = b
    return out


def write(b):
    d = os.path.join(SEEDED, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'demoapp'))
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        git('clone', '-q', '/repo', w + '/r')
        for path, old, new in b['edits']:
            p = os.path.join(w, 'r', path)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = git('-C', w + '/r', 'diff')
        base = {}
        for line in diff.split('\n'):
            if line.startswith('--- a/'):
                cur = line[6:]
                base[cur] = git('-C', '/repo', 'show', '%s:%s' % (BASE, cur)).split('\n')
            elif line.startswith('-') and line[1:].strip() and not line.startswith('---'):
                if line[1:] not in base[cur]:
                    print('%s: not a line of the original: %s' % (b['id'], line))
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.copy(os.path.join(HERE, 'seedlib', 'base.py'), d)
    open(os.path.join(d, 'demoapp', '__init__.py'), 'w').write('')
    open(os.path.join(d, 'demoapp', 'models.py'), 'w').write(b['models'].lstrip('\n'))
    open(os.path.join(d, 'demo.py'), 'w').write('from base import *\n\n' + b['demo'].lstrip('\n'))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def verify(i):
    """Build, stable tests and demonstration in a scratch copy of /repo, with /repo's path replaced in the scripts."""
    d = os.path.join(SEEDED, i)
    w = tempfile.mkdtemp(prefix='seedv-')
    os.chmod(w, 0o755)
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/r'], check=True)
        for n in ('build', 'test'):
            s = open('/opt/vp/%s.sh' % n).read().replace('/repo', w + '/r') if n == 'build' else \
                open('/opt/vp/%s.sh' % n).read().replace(' /repo/', ' ' + w + '/r/')
            open(w + '/%s.sh' % n, 'w').write(s)
        shutil.copytree(d, w + '/demo')
        demo = lambda: subprocess.run(['bash', w + '/demo/demo.sh'], cwd=w + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        a = demo()
        subprocess.run(['git', '-c', 'safe.directory=*', 'apply', d + '/patch.diff'], cwd=w + '/r', check=True)
        built = subprocess.run(['bash', w + '/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = demo()
        subprocess.run(['bash', w + '/test.sh', w + '/out.json'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        res = json.load(open(w + '/out.json'))
        ok = set(res['passed']) if 'passed' in res else set(k for k, v in res.items() if v in ('pass', 'passed', True))
        lost = [t for t in stable if t not in ok]
        good = a.returncode == 0 and b.returncode != 0 and built.returncode == 0 and not lost
        print('%s: %s; demo %d/%d, build %d, stable tests lost: %s' % (i, 'ok' if good else 'NOT OK', a.returncode, b.returncode,
                                                                      built.returncode, lost[:3]))
        if not good:
            print(a.stdout.decode()[-800:], b.stdout.decode()[-300:], built.stdout.decode()[-300:])
        else:
            print('   ' + b.stdout.decode().strip().split('\n')[-1][:200])
        sys.stdout.flush()
        return good
    finally:
        shutil.rmtree(w)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    every = bugs()
    for i in args or sorted(every):
        write(every[i])
    if '--verify' in sys.argv:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as pool:
            list(pool.map(verify, args or sorted(every)))


main()
