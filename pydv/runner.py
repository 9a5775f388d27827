"""Runs contract units in worker processes and collects their results."""
import importlib
import multiprocessing
import signal
import time
import traceback

from . import core


class Unit(object):
    """One contract harness: `module.factory(*args, **kw)` builds it.

    backend   database the unit is about (None: any)
    bound     length of sequences in the bounded fallback
    """
    def __init__(self, name, module, factory, args=(), kw=None, backend=None, bound=2, seconds=60, vacuous=False):
        self.name, self.module, self.factory = name, module, factory
        self.args, self.kw = args, kw or {}
        self.backend, self.bound, self.seconds, self.vacuous = backend, bound, seconds, vacuous

    def harness(self):
        m = importlib.import_module('contracts.' + self.module)
        return getattr(m, self.factory)(*self.args, **self.kw)


class TimeUp(core.Unsupported):
    pass


def _alarm(sig, frame):
    raise TimeUp('time limit')


def run_mode(unit, mode, seconds, max_paths):
    c = core.Ctx(mode, max_paths=max_paths)
    t = time.time()
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    # (processor time, so that a busy machine does not matter)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, seconds * 3)
    try:
        c.explore(unit.harness())
    except core.Unsupported as e:
        err = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        err = 'RecursionError'
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    obs = {}
    for o in c.obligations:
        d = obs.setdefault(o.name, {'discharged': 0, 'refuted': 0, 'unknown': 0, 'backends': {}, 'seconds': 0.0})
        d[o.status] += 1
        d['seconds'] += o.seconds
        if o.status == 'discharged':
            d['backends'][o.backend] = d['backends'].get(o.backend, 0) + 1
        elif 'first' not in d or d['first']['soft'] and not o.soft:
            d['first'] = o.as_dict()
    return {'mode': mode, 'error': err, 'obligations': obs, 'paths': c.paths, 'covers': dict(c.covers),
            'functions': sorted(c.interpreted), 'solver_s': c.solver_s, 'queries': c.queries, 'notes': sorted(c.notes),
            'loop_rules': c.loop_rules, 'wall_s': time.time() - t}


def bad(result, ignore=()):
    return sorted(n for n, d in result['obligations'].items() if (d['refuted'] or d['unknown']) and n not in ignore)


def refuted(result, ignore=()):
    return sorted(n for n, d in result['obligations'].items() if d['refuted'] and n not in ignore)


def decide(unit, known):
    """Unbounded first; otherwise with bounded sequences."""
    out = {'unit': unit.name, 'backend': unit.backend}
    u = out['unbounded'] = run_mode(unit, 'U', unit.seconds, 4000)
    out['known'] = [n for n in refuted(u) if n in known]
    if u['error'] is None and not bad(u, known):
        n = sum(d['discharged'] for d in u['obligations'].values())
        if n == 0 or not (u['covers'] or unit.vacuous):
            out['verdict'] = 'undecided'
            out['why'] = 'vacuous: no obligation or no reachable path'
            return out
        out['verdict'] = 'proved'
        return out
    b = None
    for n in (1, unit.bound) if unit.bound and unit.bound > 1 else (1,):
        b = run_mode(unit, n, unit.seconds * 0.5, 3000)
        if refuted(b, known) or b['error']:
            break
    out['bounded'] = b
    complete = b['error'] is None or b['error'].startswith(('TooManyPaths', 'TimeUp'))
    if refuted(u, known) and (refuted(b, known) or b['error'] is not None):
        out['verdict'] = 'refuted'
        out['names'] = sorted(set(refuted(u, known)) | set(refuted(b, known)))
        out['confirmed'] = bool(refuted(b, known))
    elif refuted(b, known):
        out['verdict'] = 'refuted'
        out['names'] = refuted(b, known)
        out['confirmed'] = True
    elif complete and b['obligations']:
        out['verdict'] = 'bounded'
    else:
        out['verdict'] = 'undecided'
    if out['verdict'] == 'refuted':
        ds = [(b if n in b['obligations'] and b['obligations'][n]['refuted'] else u)['obligations'][n]['first'] for n in out['names']]
        out['soft'] = all(d['soft'] for d in ds)
    out['why'] = u['error'] or 'not discharged: %s' % ', '.join(bad(u, known))
    return out


def _work(job):
    unit, known = job
    try:
        return decide(unit, known)
    except Exception:
        return {'unit': unit.name, 'backend': unit.backend, 'verdict': 'undecided', 'crash': True, 'why': traceback.format_exc()[-3000:]}


def run_units(units, known, jobs=8):
    if not units:
        return []
    order = sorted(units, key=lambda u: -u.seconds)
    ctxm = multiprocessing.get_context('fork')
    with ctxm.Pool(min(jobs, len(order))) as pool:
        return pool.map(_work, [(u, known) for u in order], chunksize=1)
