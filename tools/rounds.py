#!/usr/bin/env python3
"""rounds.py bugs [id ...]         the check of each planted bug's property, with the bug, in a scratch copy
rounds.py bugs --all [id ...]   every check
rounds.py refac [id ...]        every check with each refactoring of tools/seedlib/refac*.py (none may alarm)
rounds.py refac --tests [id]    also the tests of the repository
rounds.py probes [id ...]       the checks named by each small change of behaviour in tools/seedlib/probes*.py
"""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
IDS = [c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]


def check(root, prop):
    t = time.time()
    p = subprocess.run(['python3-vt', '-W', 'ignore', 'check.py', prop], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, VERIF_REPO=root, VREPLAY_REPO=root))
    out = p.stdout.decode().splitlines()
    v = [l for l in out if l.startswith('VIOLATION')]
    notes = [l for l in out if l.startswith('note')]
    what = 'quiet' if not v else 'nfif' if all('no-failing' in x for x in v) else 'caught'
    if p.returncode not in (0, 1):
        what = 'ERROR %d' % p.returncode
        notes = out[-3:]
    return what, notes, v, time.time() - t


def copy():
    w = tempfile.mkdtemp(prefix='round-')
    os.chmod(w, 0o755)
    subprocess.run(['git', '-c', 'safe.directory=*', 'clone', '-q', '/repo', w + '/r'], check=True)
    return w


def tests(w):
    s = open('/opt/vp/test.sh').read().replace(' /repo/', ' ' + w + '/r/')
    open(w + '/test.sh', 'w').write(s)
    subprocess.run(['bash', w + '/test.sh', w + '/out.json'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    res = json.load(open(w + '/out.json'))
    ok = set(res['passed']) if 'passed' in res else set(k for k, v in res.items() if v in ('pass', 'passed', True))
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]


def bug(i):
    w = copy()
    try:
        d = os.path.join(VERIF, 'seeded', i)
        prop = json.load(open(d + '/meta.json'))['property']
        subprocess.run(['git', '-c', 'safe.directory=*', 'apply', d + '/patch.diff'], cwd=w + '/r', check=True)
        out = []
        for p in IDS if '--all' in sys.argv else [prop]:
            what, notes, v, s = check(w + '/r', p)
            if what != 'quiet' or p == prop:
                out.append('%s %s (%.0f s)' % (p, what, s) + (' | ' + notes[0][:150] if notes and what == 'quiet' else ''))
        print('%s %s: %s' % (i, prop, ', '.join(out)))
        sys.stdout.flush()
    finally:
        shutil.rmtree(w)


def refac(r):
    w = copy()
    try:
        for path, old, new in r['edits']:
            p = os.path.join(w, 'r', path)
            if old is None:
                open(p, 'w').write(new)
                continue
            s = open(p).read()
            assert old in s, (r['id'], path, old)
            open(p, 'w').write(s.replace(old, new))
        for d, _, names in os.walk(os.path.join(w, 'r', 'denorm')) if r.get('rename') else ():
            for n in names:
                if n.endswith('.py'):
                    s = open(os.path.join(d, n)).read()
                    for old, new in r['rename'].items():
                        s = re.sub(r'(?<!\w)%s(?!\w)' % re.escape(old), new, s)
                    open(os.path.join(d, n), 'w').write(s)
        lost = tests(w) if '--tests' in sys.argv else []
        out, undecided = [], []
        for p in IDS:
            if r.get('only') and p not in r['only']:
                continue
            what, notes, v, s = check(w + '/r', p)
            if what != 'quiet':
                out.append('%s %s %s' % (p, what, '; '.join(n[:200] for n in notes[:2])))
            elif notes:
                undecided.append('%s(%d: %s)' % (p, len(notes), notes[0][6:130]))
        print('%s: %s%s%s' % (r['id'], '\n   ALARM '.join([''] + out) if out else 'quiet', ' | not proved: ' + ', '.join(undecided) if undecided else '',
                              ' | TESTS LOST %s' % lost[:3] if lost else ''))
        sys.stdout.flush()
    finally:
        shutil.rmtree(w)


def main():
    kind, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('--')]
    if kind == 'bugs':
        todo, f = ids or sorted(os.listdir(VERIF + '/seeded')), bug
    else:
        sys.path.insert(0, os.path.join(HERE, 'seedlib'))
        todo, f = [], refac
        for n in sorted(os.listdir(os.path.join(HERE, 'seedlib'))):
            if n.startswith(kind) and n.endswith('.py'):
                todo += [r for r in importlib.import_module(n[:-3]).REFAC if not ids or r['id'] in ids]
    with ThreadPoolExecutor(3) as pool:
        list(pool.map(f, todo))


if __name__ == '__main__':
    main()
