"""Decides one property: python3-vt -W ignore check.py <property>"""
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from contracts import registry                      # noqa
from pydv import runner, djstub                     # noqa

PY = '/opt/venv/bin/python'
DBNAME = {'sqlite3': 'sqlite', 'postgresql': 'postgres', 'mysql': 'mysql'}


def known_findings(prop):
    """known: property=<id> obligation="..." | scenario="..." <text>  ->  {name: text}"""
    out = {}
    with open(os.path.join(HERE, 'KNOWN_FINDINGS')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) (?:obligation|scenario)="([^"]*)" (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Audit(object):
    """Scenarios of the property on the real code, in a process of their own."""
    def __init__(self, prop, db, seed, seconds=240):
        self.end = time.time() + seconds
        self.out, self.err = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        env = dict(os.environ, VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(HERE, 'replay', 'run.py'), db, prop], env=env, cwd=HERE,
                                  stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.err, start_new_session=True)

    def stop(self):
        if self.p.poll() is None:
            self.p.terminate()
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()

    def result(self):
        """[{scenario, ok, detail}], error text or None"""
        late = False
        try:
            self.p.wait(max(1, self.end - time.time()))
        except subprocess.TimeoutExpired:
            late = True
            self.stop()
        self.out.seek(0)
        self.err.seek(0)
        res, done = [], False
        for line in self.out.read().decode('utf-8', 'replace').splitlines():
            if line.startswith('{') and line.endswith('}'):
                d = json.loads(line)
                if d.get('done'):
                    done = True
                else:
                    res.append(d)
        if done:
            return res, None
        return res, 'time limit of the replay' if late else (
            self.err.read().decode('utf-8', 'replace')[-1500:] or 'replay ended early (%s)' % self.p.returncode)


def write_replay(prop, n, lines, cmd=None):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.sh' % (prop, n))
    with open(path, 'w') as f:
        f.write('#!/bin/sh\n')
        for l in lines:
            for x in str(l).splitlines():
                f.write('# ' + x + '\n')
        if cmd:
            f.write(cmd + '\n')
    os.chmod(path, 0o755)
    return path


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    known = known_findings(prop)
    start = ['sqlite', 'postgres', 'mysql'] if tier == 'thorough' and prop not in registry.ONLY_SQLITE else ['sqlite']
    first = dict((db, Audit(prop, db, seed)) for db in start)
    units = registry.UNITS.get(prop, lambda: [])()
    results = runner.run_units(units, set(known))
    errors = [r for r in results if r['verdict'] == 'error']

    # the real code
    dbs = ['sqlite']
    hot = [r for r in results if r['verdict'] in ('refuted', 'undecided', 'bounded')]
    for r in hot:
        d = DBNAME.get(r['backend'])
        for x in ([d] if d else ['postgres', 'mysql']):
            if x not in dbs:
                dbs.append(x)
    if tier == 'thorough':
        dbs = ['sqlite', 'postgres', 'mysql']
    if prop in registry.ONLY_SQLITE:
        dbs = ['sqlite']
    audits = {}
    failing = []
    for db in dbs:
        if db not in first:
            first[db] = Audit(prop, db, seed)
    for db in dbs:
        if any(d['scenario'] not in known for _, d in failing):
            break
        res, err = first.pop(db).result()
        audits[db] = {'scenarios': len(res), 'checks': sum(d.get('checks', 1) for d in res), 'error': err,
                      'failed': [d['scenario'] for d in res if not d['ok']]}
        failing += [(db, d) for d in res if not d['ok']]
        if err:
            audits[db]['output'] = err
    for a in first.values():
        a.stop()

    # verdict
    refuted = [r for r in results if r['verdict'] == 'refuted']
    printed = set()
    seen_known = []
    for r in results:
        for n in r.get('known', ()):
            if known[n] not in printed:
                printed.add(known[n])
                seen_known.append(known[n])
    new = []
    for db, d in failing:
        if d['scenario'] in known:
            if known[d['scenario']] not in printed:
                printed.add(known[d['scenario']])
                seen_known.append(known[d['scenario']])
        else:
            new.append((db, d))
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    obls = []
    for r in refuted:
        b = r.get('bounded') or {'obligations': {}}
        for n in r['names']:
            d = b['obligations'].get(n) or r['unbounded']['obligations'].get(n)
            if d is None or 'first' not in d:
                d = r['unbounded']['obligations'].get(n) or d
            obls.append((r['unit'], n, d.get('first')))
    violations = []
    desc = ['property %s' % prop]
    for u, n, first in obls[:10]:
        desc.append('refuted obligation: %s' % n)
        if first:
            desc.append('   verifier: status %s, path %s, %s' % (first['status'], first['path'], first['detail'] or ''))
            desc.append('   counterexample: %s' % (first['model'] or '').replace('\n', ' ')[:1500])
    n = 0
    if new:
        for db, d in new[:5]:
            n += 1
            p = write_replay(prop, n, desc + ['failing input on the real code (%s): %s' % (db, d['scenario']), d['detail']],
                             'cd %s && exec %s -W ignore replay/run.py %s %s %s' % (HERE, PY, db, prop, quote(d['scenario'])))
            violations.append('VIOLATION property=%s replay=%s' % (prop, p))
    elif refuted and not all(r.get('soft') for r in refuted):
        n += 1
        p = write_replay(prop, n, desc + ['no scenario on the real code failed: %s' % json.dumps(audits)])
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    broken = [d for d in audits.values() if d['error']]

    evidence(prop, tier, seed, results, audits, violations, seen_known, t0)
    for v in violations:
        print(v)
    for r in results:
        if r['verdict'] != 'proved':
            print('note: %s: %s (%s)' % (r['unit'], r['verdict'], str(r.get('why', ''))[:300]))
    for db, a in audits.items():
        if a['error']:
            print('note: replay on %s: %s' % (db, a['error'][-600:]))
    if violations:
        return 1
    if errors:
        return 2
    if broken and not results:
        return 3
    if broken and audits.get('sqlite', {}).get('error') and any(r['verdict'] != 'proved' for r in results):
        return 3
    tot = sum(1 for r in results if r['verdict'] == 'proved')
    print('%s: %d of %d units proved, %d scenarios on the real code' % (prop, tot, len(results), sum(a['scenarios'] for a in audits.values())))
    return 0


def quote(s):
    return "'" + s.replace("'", "'\\''") + "'"


def evidence(prop, tier, seed, results, audits, violations, seen_known, t0):
    obs = dis = ref = unk = 0
    names = set()
    by = {}
    funcs = {}
    notes = set()
    solver = 0.0
    loops = paths = queries = covers = 0
    bounded = []
    known_n = 0
    for r in results:
        u = r.get('unbounded')
        if u is None:
            continue
        for n, d in u['obligations'].items():
            if n in r.get('known', ()):
                known_n += d['refuted']
                continue
            names.add(n)
            obs += d['discharged'] + d['refuted'] + d['unknown']
            if r['verdict'] == 'proved':
                dis += d['discharged']
                for b, k in d['backends'].items():
                    by[b] = by.get(b, 0) + k
            ref += d['refuted']
            unk += d['unknown']
        solver += u['solver_s']
        loops += u['loop_rules']
        paths += u['paths']
        queries += u['queries']
        covers += sum(u['covers'].values())
        notes.update(u['notes'])
        if r['verdict'] == 'proved':
            for f in u['functions']:
                funcs[f] = funcs.get(f, 0) + 1
        if r['verdict'] in ('bounded', 'undecided', 'refuted'):
            b = r.get('bounded') or {}
            bounded.append({'unit': r['unit'], 'verdict': r['verdict'], 'why': r.get('why'), 'bound': b.get('mode'),
                            'paths': b.get('paths'), 'error': b.get('error')})
    proved = [r['unit'] for r in results if r['verdict'] == 'proved']
    level = registry.LEVEL.get(prop, 'proof')
    trusted = ['z3 %s' % z3_version(), 'pydv symbolic interpreter, loop rules and SQL semantics (/verif/pydv)'] + \
        registry.TRUSTED.get(prop, [])
    cov = {
        'obligations': obs, 'discharged': dis, 'checker_cmd': 'cd /verif && python3-vt -W ignore check.py %s' % prop,
        'trusted_base': trusted,
        'distinct_obligation_names': len(names), 'discharged_by': by, 'refuted_known_finding_obligations': known_n,
        'not_discharged': {'refuted': ref, 'unknown': unk},
        'contract_units': {'proved_unbounded': len(proved), 'other': bounded},
        'functions_under_contract': sorted(f for f in funcs),
        'function_count': len(funcs),
        'solver_seconds': round(solver, 2), 'solver_queries': queries, 'paths': paths, 'loop_summaries': loops,
        'reached_path_witnesses': covers,
        'bounded_runs_on_real_code_not_counted_as_proof': audits,
        'rule': 'obligations are generated from the source in /repo on this run; one count per obligation and path',
        'samples': sorted(names)[:8],
        'explanation': registry.EXPLAIN.get(prop, 'contract units of the property, each for all inputs and sequence lengths'),
        'known_findings': seen_known,
    }
    if not results:
        n = sum(a['checks'] for a in audits.values())
        cov['evaluations'] = n
        cov['distinct_nontrivial'] = sum(a['scenarios'] for a in audits.values())
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
         'assumptions': sorted(set(djstub.ASSUMED) | set(registry.ASSUME.get(prop, [])) | notes),
         'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1, sort_keys=True)


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())
