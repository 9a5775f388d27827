"""Path exploration, obligations and symbolic values of the verifier.

A *run* executes one path of a contract harness.  Branches on symbolic
conditions are decided by replaying a decision prefix, so every path is
explored by re-execution from scratch and the heap never has to be cloned.
"""
import time
import z3


class Unsupported(Exception):
    """The source uses something outside the verified subset."""


class LoopCarried(Unsupported):
    """A loop body reads what another iteration wrote."""


class PathEnd(BaseException):
    """This path has been followed as far as it is needed."""


class Infeasible(BaseException):
    """The path condition became unsatisfiable."""


class TooManyPaths(Unsupported):
    pass


CTX = None          # the context of the current run


def ctx():
    return CTX


class Obligation(object):
    soft = False        # an error the code must not raise: needs a failing input

    def __init__(self, name, status, path, seconds, detail=None, model=None, backend='z3'):
        self.name = name
        self.status = status            # discharged | refuted | unknown
        self.path = path
        self.seconds = seconds
        self.detail = detail
        self.model = model
        self.backend = backend

    def as_dict(self):
        return {'obligation': self.name, 'status': self.status, 'path': self.path,
                'seconds': round(self.seconds, 4), 'detail': self.detail,
                'model': self.model, 'backend': self.backend, 'soft': self.soft}


class Ctx(object):
    """One exploration of one harness (all its paths)."""

    def __init__(self, mode='U', max_paths=4000, timeout_ms=20000):
        self.mode = mode                # 'U': unbounded, int n: sequences of length <= n
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.obligations = []
        self.paths = 0
        self.covers = {}
        self.solver_s = 0.0
        self.queries = 0
        self.interpreted = {}           # functions of the repository executed
        self.notes = set()
        self.loop_rules = 0

    # -- exploration ------------------------------------------------------
    def explore(self, harness):
        global CTX
        pending = [[]]
        outer = CTX
        CTX = self
        try:
            while pending:
                prefix = pending.pop()
                self.paths += 1
                if self.paths > self.max_paths:
                    raise TooManyPaths('more than %d paths' % self.max_paths)
                self._reset(prefix, pending)
                try:
                    harness(self)
                except PathEnd:
                    pass
                except Infeasible:
                    self.paths -= 1
        finally:
            CTX = outer
        return self

    def _reset(self, prefix, pending):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.pc = []
        self.dec = list(prefix)
        self.pos = 0
        self.pending = pending
        self.counter = {}
        self.undo = []
        self.journal_depth = 0
        self.recorders = []
        self.effects = []
        self.generic = {}
        self.memo = {}
        self.ghost = None
        self.axioms = []
        self.name_pairs = []
        self.depth = 0

    def path_id(self):
        return ''.join('1' if d is True else '0' if d is False else '<%s>' % d for d in self.dec[:self.pos])

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return '%s!%d' % (name, n) if n else name

    def bool(self, name):
        return SBool(z3.Bool(self.fresh(name)))

    def int(self, name):
        return SInt(z3.Int(self.fresh(name)))

    def check(self, *extra):
        t = time.time()
        self.queries += 1
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.solver_s += time.time() - t
        return r, m

    def feasible(self, z):
        return self.check(z)[0] != z3.unsat

    def valid(self, z):
        return not self.feasible(z3.Not(z))

    def add(self, z):
        self.pc.append(z)
        self.solver.add(z)

    def axiom(self, z):
        """A fact about a symbol, not a condition of the path."""
        self.axioms.append(z)
        self.solver.add(z)

    def assume(self, cond):
        z = zbool(cond)
        if z3.is_true(z):
            return
        self.add(z)
        if self.check()[0] == z3.unsat:
            raise Infeasible()

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        z = z3.simplify(zbool(cond))
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            self.add(z if d else z3.Not(z))
            return d
        t = self.feasible(z)
        f = self.feasible(z3.Not(z))
        if t and f:
            self.pending.append(self.dec[:self.pos] + [False])
            d = True
        elif t:
            d = True
        elif f:
            d = False
        else:
            raise Infeasible()
        self.dec.append(d)
        self.pos += 1
        self.add(z if d else z3.Not(z))
        return d

    def choose(self, n, label=''):
        """Demonic choice of 0..n-1 (every alternative is explored)."""
        if n == 1:
            return 0
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            return int(d)
        for alt in range(n - 1, 0, -1):
            self.pending.append(self.dec[:self.pos] + ['%d' % alt])
        self.dec.append('0')
        self.pos += 1
        return 0

    def explore_sub(self, thunk):
        """All paths of thunk from the present state; the heap is restored after each.

        Returns [(conditions, result)] where result is what thunk returned.
        """
        results = []
        pending = [[]]
        saved = (self.dec, self.pos, self.pending)
        count = 0
        while pending:
            prefix = pending.pop()
            count += 1
            if count > 512:
                raise TooManyPaths('more than 512 paths in one loop body')
            self.dec, self.pos, self.pending = list(prefix), 0, pending
            mark = len(self.undo)
            self.journal_depth += 1
            npc = len(self.pc)
            nax = len(self.axioms)
            self.solver.push()
            try:
                r = thunk()
                results.append((list(self.pc[npc:]), r))
            except Infeasible:
                pass
            finally:
                self.solver.pop()
                for a in self.axioms[nax:]:
                    self.solver.add(a)
                del self.pc[npc:]
                self.rollback(mark)
                self.journal_depth -= 1
                self.dec, self.pos, self.pending = saved
        return results

    # -- journal ----------------------------------------------------------
    def rollback(self, mark):
        while len(self.undo) > mark:
            self.undo.pop()()

    def touch(self, container):
        """Called before a container, object or environment is mutated."""
        for r in self.recorders:
            r.touched(container)
        if not self.journal_depth:
            return
        if isinstance(container, list):
            old = list(container)

            def restore():
                container[:] = old
        elif isinstance(container, dict):
            old = dict(container)

            def restore():
                container.clear()
                container.update(old)
        elif isinstance(container, set):
            old = set(container)

            def restore():
                container.clear()
                container.update(old)
        else:
            raise Unsupported('journal of %r' % type(container))
        self.undo.append(restore)

    def effect(self, *what):
        self.touch(self.effects)
        self.effects.append(what)

    # -- obligations ------------------------------------------------------
    def cover(self, name):
        """Records that this point is reached with a satisfiable path condition."""
        r = self.check()[0]
        if r != z3.unsat:
            self.covers[name] = self.covers.get(name, 0) + 1

    def prove(self, name, cond, detail=None, facts=(), soft=False):
        z = zbool(cond)
        t = time.time()
        zs = z3.simplify(z)
        if z3.is_true(zs):
            ob = Obligation(name, 'discharged', self.path_id(), time.time() - t, backend='z3-simplify')
            self.obligations.append(ob)
            return True
        r, m = self.check(z3.Not(z), *facts)
        backend = 'z3'
        if r == z3.unknown:
            r2 = self._cvc5(z3.Not(z), facts)
            if r2 is not None:
                r, backend = r2, 'cvc5'
        status = {'unsat': 'discharged', 'sat': 'refuted'}.get(str(r), 'unknown')
        model = None
        if status != 'discharged':
            model = str(m)[:2000] if m is not None else None
        self.obligations.append(Obligation(name, status, self.path_id(), time.time() - t, detail=detail,
                                           model=model, backend=backend))
        self.obligations[-1].soft = soft
        return status == 'discharged'

    def fail(self, name, detail, soft=False):
        """An obligation that is refuted on this (feasible) path."""
        r, m = self.check()
        if r == z3.unsat:
            raise Infeasible()
        self.obligations.append(Obligation(name, 'refuted', self.path_id(), 0.0, detail=detail,
                                           model=str(m)[:2000] if m is not None else None))
        self.obligations[-1].soft = soft

    def _cvc5(self, extra, facts):
        import subprocess
        import tempfile
        s = z3.Solver()
        for a in self.solver.assertions():
            s.add(a)
        for f in facts:
            s.add(f)
        s.add(extra)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        try:
            out = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % self.timeout_ms, f.name],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip()
        except OSError:
            out = ''
        finally:
            import os
            os.unlink(f.name)
        return {'unsat': z3.unsat, 'sat': z3.sat}.get(out)


class Recorder(object):
    def __init__(self):
        self.containers = []
        self.ids = set()

    def touched(self, c):
        if id(c) not in self.ids:
            self.ids.add(id(c))
            self.containers.append(c)


# ---------------------------------------------------------------------------
# Values
# ---------------------------------------------------------------------------

class Sym(object):
    """Base of symbolic values; Python-level use outside the verifier is refused."""
    def __bool__(self):
        return ctx().branch(truth(self))

    def __iter__(self):
        raise Unsupported('iteration over %r' % (self,))

    def __len__(self):
        raise Unsupported('native len() of %r' % (self,))


class SBool(Sym):
    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SBool(%s)' % self.z


class SInt(Sym):
    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SInt(%s)' % self.z


class Prior(object):
    """What a loop-carried container held before the present iteration."""
    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return '<prior %s>' % self.what


class Poison(Sym):
    """Value of a variable that the verifier does not know here."""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<unknown: %s>' % self.why


class Gen(object):
    """An unbounded run of list elements: for a generic element of `base`,
    alternatives (conditions, items).  Occurs as a pseudo-element of lists."""
    def __init__(self, base, alts, distinct=False):
        self.base = base
        self.alts = alts
        self.distinct = distinct

    def __repr__(self):
        return 'Gen(%s, %r)' % (self.base.name, self.alts)

    def guard(self):
        return z3.Or([z3.And(list(c)) if c else z3.BoolVal(True) for c, items in self.alts if items])


class Base(object):
    """An unbounded sequence: `make()` builds its generic element."""
    def __init__(self, name, make):
        self.name = name
        self.make = make
        self.active = 0
        self.instances = []
        self.has = z3.Bool('has_' + name)       # the sequence is not empty

    def element(self, level=0):
        while len(self.instances) <= level:
            self.instances.append(self.make(self.name if not self.instances else '%s_%d' % (self.name, len(self.instances))))
        return self.instances[level]


def symseq(name, make, nmax=None, nmin=0):
    """A symbolic sequence as a list: one Gen (unbounded) or n <= bound elements."""
    c = ctx()
    if c.mode == 'U':
        b = Base(name, make)
        return [Gen(b, [([b.has], [b.element()])])]
    n = nmin + c.choose(max(1, (c.mode if nmax is None else min(nmax, c.mode)) - nmin + 1), 'len(%s)' % name)
    return [make('%s%d' % (name, i)) for i in range(n)]


def zbool(v):
    if v is True or v is False:
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.z
    if isinstance(v, z3.BoolRef):
        return v
    t = truth(v)
    if t is True or t is False:
        return z3.BoolVal(t)
    return t.z


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.z
    if isinstance(v, SBool):
        return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('integer expected: %r' % (v,))


def gen_nonempty(g):
    c = ctx()
    b = c.memo.get(('nonempty', id(g)))
    if b is None:
        b = z3.Bool(c.fresh('nonempty_%s' % g.base.name))
        c.memo[('nonempty', id(g))] = b
        c.memo[('keep', id(g))] = g
        # if the generic element contributes, the run is not empty
        c.axiom(z3.Implies(g.guard(), b))
        c.axiom(z3.Implies(b, g.base.has))
        if not any(items for _, items in g.alts):
            c.axiom(z3.Not(b))
    return SBool(b)


def gen_len(g):
    c = ctx()
    n = c.memo.get(('len', id(g)))
    if n is None:
        n = z3.Int(c.fresh('len_%s' % g.base.name))
        c.memo[('len', id(g))] = n
        c.memo[('keep', id(g))] = g
        c.axiom(n >= 0)
        c.axiom((n > 0) == gen_nonempty(g).z)
        if any(len(items) > 1 or any(isinstance(i, Gen) for i in items) for _, items in g.alts):
            raise Unsupported('length of a nested run')
    return SInt(n)


def truth(v):
    """Truth value as bool or SBool."""
    if v is None or v is True or v is False:
        return bool(v)
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return SBool(v.z != 0)
    if isinstance(v, SStr):
        return v.truth()
    if isinstance(v, Poison):
        raise LoopCarried(v.why)
    if isinstance(v, (list, tuple)):
        if not any(isinstance(x, (Gen, Prior)) for x in v):
            return len(v) > 0
        if any(isinstance(x, Prior) for x in v):
            raise LoopCarried('truth of a list under construction')
        if any(not isinstance(x, Gen) for x in v):
            return True
        return SBool(z3.Or([gen_nonempty(g).z for g in v]))
    if isinstance(v, (set, frozenset, dict)):
        if any(isinstance(x, Prior) for x in v):
            raise LoopCarried('truth of a container under construction')
        if any(isinstance(x, Gen) for x in v):
            if any(not isinstance(x, Gen) for x in v):
                return True
            return SBool(z3.Or([gen_nonempty(g).z for g in v]))
        return len(v) > 0
    if hasattr(type(v), 'truth_'):
        return v.truth_()
    return None      # let the interpreter decide (objects)


# -- strings ----------------------------------------------------------------

class Atom(object):
    """An unknown piece of text.

    kind 'ident': a name of the database schema -- non-empty, without white
    space, quotes, '.', ',', ';', '%' or parentheses;  'digits': a decimal
    number;  'text': arbitrary.
    """
    def __init__(self, name, kind='ident', meta=None, z=None):
        self.name = name
        self.kind = kind
        self.meta = meta
        self._z = z

    @property
    def z(self):
        if self._z is None:
            self._z = z3.String('s_' + self.name)
            c = ctx()
            if self.kind in ('ident', 'digits') and c is not None:
                c.axiom(z3.Length(self._z) > 0)
            if c is not None:
                for p, q in c.name_pairs:
                    if (p is self and q._z is not None) or (q is self and p._z is not None):
                        c.axiom((p._z == q._z) == (p.n == q.n))
        return self._z

    @property
    def n(self):
        """The name as an element of an uninterpreted sort (enough for comparing whole names)."""
        return z3.Const('n_' + self.name, NAME)

    def __repr__(self):
        return '<%s>' % self.name


NAME = z3.DeclareSort('Name')


def name_eq(x, y):
    c = ctx()
    if (x, y) not in c.name_pairs and (y, x) not in c.name_pairs:
        c.touch(c.name_pairs)
        c.name_pairs.append((x, y))
        if x._z is not None and y._z is not None:
            c.axiom((x._z == y._z) == (x.n == y.n))
    return SBool(x.n == y.n)


class JoinSeg(object):
    """sep.join(parts) where some part is an unbounded run."""
    def __init__(self, sep, parts):
        self.sep = sep              # SStr or str
        self.parts = parts          # list of SStr/str/Gen(items SStr/str)

    def __repr__(self):
        return '{%r.join %r}' % (self.sep, self.parts)


class PriorSeg(object):
    def __repr__(self):
        return '<prior text>'


class Lines(object):
    """The lines of a text, as a pseudo-element of a list (s.split('\\n'))."""
    def __init__(self, text, sep='\n'):
        self.text = text
        self.sep = sep

    def __repr__(self):
        return 'Lines(%r)' % (self.text,)


class Reindented(object):
    """sep.join(text.split('\\n')) for an unknown text."""
    def __init__(self, text, sep):
        self.text = text
        self.sep = sep

    def __repr__(self):
        return 'Reindented(%r,%r)' % (self.text, self.sep)


def mkstr(segs):
    out = []
    for s in segs:
        if isinstance(s, SStr):
            for x in s.segs:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
        elif isinstance(s, str):
            if s:
                if out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s)
        else:
            out.append(s)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def segs_of(s):
    if isinstance(s, str):
        return (s,) if s else ()
    return s.segs


class SStr(Sym):
    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return 'S' + ''.join(s if isinstance(s, str) else repr(s) for s in self.segs)

    def key(self):
        return tuple(s if isinstance(s, str) else id(s) for s in self.segs)

    def simple(self):
        return all(isinstance(s, (str, Atom)) or getattr(s, 'kind', None) == 'sub' and (isinstance(s.text, str) or s.text.simple()) for s in self.segs)

    def z(self):
        if not self.simple():
            raise Unsupported('text with unbounded runs used as a value: %r' % (self,))
        parts = [z3.StringVal(s) if isinstance(s, str) else s.z for s in self.segs]
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def truth(self):
        for s in self.segs:
            if isinstance(s, str) and s:
                return True
            if isinstance(s, Atom) and s.kind in ('ident', 'digits', 'filter'):
                return True
            if isinstance(s, PriorSeg):
                raise LoopCarried('truth of a text under construction')
        conds = []
        for s in self.segs:
            if isinstance(s, Atom):
                conds.append(z3.Length(s.z) > 0)
            elif isinstance(s, JoinSeg):
                t = truth([p for p in s.parts])
                conds.append(zbool(t))
            elif isinstance(s, Reindented):
                conds.append(zbool(truth(s.text)))
            else:
                raise Unsupported('truth of %r' % (self,))
        return SBool(z3.Or(conds))


def str_eq(a, b):
    """Equality of two texts as bool or SBool."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    sa, sb = list(segs_of(a)), list(segs_of(b))
    # strip common prefix and suffix
    while sa and sb:
        x, y = sa[0], sb[0]
        if x is y or (isinstance(x, str) and x == y):
            sa.pop(0), sb.pop(0)
        elif isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            sa[0], sb[0] = x[n:], y[n:]
            sa = [s for s in sa if s != '']
            sb = [s for s in sb if s != '']
        else:
            break
    while sa and sb:
        x, y = sa[-1], sb[-1]
        if x is y or (isinstance(x, str) and x == y):
            sa.pop(), sb.pop()
        elif isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            sa[-1], sb[-1] = x[:-n], y[:-n]
            sa = [s for s in sa if s != '']
            sb = [s for s in sb if s != '']
        else:
            break
    if not sa and not sb:
        return True
    if not sa or not sb:
        rest = sa or sb
        if any((isinstance(s, str) and s) or (isinstance(s, Atom) and s.kind in ('ident', 'digits')) for s in rest):
            return False
    if len(sa) == 1 and len(sb) == 1:
        x, y = sa[0], sb[0]
        if isinstance(x, Atom) and isinstance(y, Atom):
            if x.kind == 'digits' and y.kind == 'digits' and isinstance(x.meta, SInt) and isinstance(y.meta, SInt):
                # decimal texts are equal exactly if the numbers are
                return SBool(x.meta.z == y.meta.z)
            if x.kind == 'modelrepr' and y.kind == 'modelrepr':
                return model_eq(x.meta, y.meta)
            if x.kind == y.kind and x.meta is not None and x.meta == y.meta and isinstance(x.meta, tuple):
                return True
            if x.kind == 'ident' and y.kind == 'ident' and ctx() is not None:
                return name_eq(x, y)
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Atom) and isinstance(q, str):
                if p.kind == 'ident' and any(ch in q for ch in " \t\n.,;'\"`%()"):
                    return False
                if p.kind == 'digits' and not (q[1:] if q[:1] == '-' else q).isdigit():
                    return False
                if p.kind == 'modelrepr':
                    return False
    x, y = mkstr(sa), mkstr(sb)
    zx = z3.StringVal(x) if isinstance(x, str) else x.z()
    zy = z3.StringVal(y) if isinstance(y, str) else y.z()
    return SBool(zx == zy)


def model_eq(a, b):
    if a is b:
        return True
    za, zb = getattr(a, 'ident_', None), getattr(b, 'ident_', None)
    if za is None or zb is None:
        return False
    if isinstance(za, str) and isinstance(zb, str):
        return za == zb
    return SBool(za == zb)


def sym_eq(a, b):
    """Python == as bool or SBool."""
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise LoopCarried('comparison with %r / %r' % (a, b))
    if a is None or b is None:
        o = b if a is None else a
        if hasattr(type(o), 'eq_'):
            return o.eq_(None)
        return False
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return str_eq(a, b)
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if isinstance(a, SBool) and isinstance(b, (bool, SBool)) or isinstance(b, SBool) and isinstance(a, bool):
            return SBool(zbool(a) == zbool(b))
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            return SBool(zint(a) == zint(b))
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(a, list) == isinstance(b, list):
        if any(isinstance(x, (Gen, Prior, Lines)) for x in list(a) + list(b)):
            if len(a) == len(b) and all(x is y for x, y in zip(a, b)):
                return True
            raise Unsupported('comparison of unbounded lists')
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            e = sym_eq(x, y)
            if e is False:
                return False
            if e is not True:
                out.append(e.z)
        return SBool(z3.And(out)) if out else True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        raise_if_open(a, b)
        if all(not has_sym(x) for x in a) and all(not has_sym(x) for x in b):
            return a == b
        sub = [z3.Or([zbool(sym_eq(x, y)) for y in b] or [z3.BoolVal(False)]) for x in a]
        sup = [z3.Or([zbool(sym_eq(x, y)) for y in a] or [z3.BoolVal(False)]) for x in b]
        return SBool(z3.And(sub + sup)) if sub or sup else True
    if hasattr(type(a), 'eq_'):
        return a.eq_(b)
    if hasattr(type(b), 'eq_'):
        return b.eq_(a)
    try:
        return bool(a == b)
    except Unsupported:
        raise


def raise_if_open(*cs):
    for c in cs:
        if any(isinstance(x, (Prior, Gen)) for x in c):
            raise LoopCarried('use of a container under construction')


def has_sym(v):
    if isinstance(v, (Sym, Gen, Prior, Lines)):
        return True
    if isinstance(v, (tuple, list, set, frozenset)):
        return any(has_sym(x) for x in v)
    if hasattr(type(v), 'eq_'):
        return True
    return False
