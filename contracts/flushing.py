"""Contracts of denorm.flush and rebuildall.

The dirty table and the instances are unbounded.  The proof follows one arbitrary
instance K: `dirty` (it has a marker), `pending` (it was marked and has not been
saved since), `exists`.  The invariant "pending and existing => dirty" has to hold
after every single database operation, which is what an interruption at any point
would leave behind.  Any other instance may be processed in between, and saving it
may mark K again or delete it.
"""
import z3

from pydv.core import Infeasible, SBool, SInt, Unsupported, ctx, mkstr, str_eq, symseq, zbool
from pydv.djstub import World, ident, nat, text
from pydv.interp import EXC, Cls, Obj, OBJECT, Lazy, PyExc, make_exc, Unknown, BreakSig, ContinueSig
from pydv import loops
from .markers import guarded
from .schema import conj, leaves

ASSUMED = [
    'DirtyInstance.objects.filter(content_type_id=c, object_id=o).delete() removes exactly the markers with these values',
    'evaluating a query set shows every marker committed before it; iterating it yields rows that were markers',
    'GenericForeignKey gives the stored instance (any truth value) or None if there is none',
    'saving an instance recomputes its denormalized fields (C15); markers its own save adds for the instance itself are covered by that save',
    'every statement takes effect on its own unless it is inside transaction.atomic, which is all-or-nothing',
    'termination of flush is not claimed (a cycle of denormalizations that never settles loops for ever)',
]


class Ghost(object):
    while_cut = True

    def __init__(self, c, prefix, each=True, concurrent=False, window=False, raising=True):
        self.c, self.prefix, self.concurrent, self.window, self.raising = c, prefix, concurrent, window, raising
        self.each = each
        self.while_limit = c.mode + 1 if isinstance(c.mode, int) else 1
        self.rows = 0
        self.imprecise = False
        self.ctK, self.oidK = c.int('K_content_type'), c.int('K_object')
        self.fresh()
        c.add(self.inv())
        self.depth = 0
        self.last = None

    def fresh(self):
        for n in ('dirty', 'pending', 'exists'):
            setattr(self, n, z3.Bool(self.c.fresh(n)))

    def any(self, n):
        return z3.Bool(self.c.fresh(n))

    def inv(self):
        return z3.Implies(z3.And(self.pending, self.exists), self.dirty)

    # -- loops
    def containers(self):
        return []

    def loop_entry(self, name):
        self.loop_check()

    def havoc(self):
        self.fresh()
        self.last = None
        self.c.add(self.inv())

    def loop_end(self, name):
        self.loop_check()

    def loop_check(self):
        if self.each:
            self.check()
        else:
            # only a means to an end: other ways of keeping track are not wrong
            self.c.prove(self.prefix + 'loop invariant: what is pending is marked', self.inv(), soft=True)

    # -- operations
    def check(self):
        if self.each and self.depth == 0:
            self.c.prove(self.prefix + 'an instance that was not saved since it was marked keeps its marker', self.inv())

    def interfere(self, op):
        """Other connections may have marked K since the last operation."""
        if self.concurrent and not (op == 'delete' and self.last == 'saveK' and not self.window):
            self.mark()
        self.last = op

    def mark(self):
        m = self.any('marked')
        self.dirty = z3.Or(self.dirty, m)
        self.pending = z3.Or(self.pending, m)

    def snapshot(self):
        return self.dirty, self.pending, self.exists

    def restore(self, s):
        self.dirty, self.pending, self.exists = s

    def delete(self, match, partly):
        self.interfere('delete')
        if partly:
            d = self.any('left')
            self.c.add(z3.Implies(d, self.dirty))
            self.c.add(z3.Implies(z3.Not(match), d == self.dirty))
            self.dirty = d
        else:
            self.dirty = z3.And(self.dirty, z3.Not(match))
        self.check()

    def save(self, isK):
        self.interfere('save')
        if self.raising and self.c.choose(2, 'save fails'):
            self.mark()
            self.check()
            k = self.c.choose(2, 'kind of failure')
            raise PyExc(make_exc(('RuntimeError', 'KeyboardInterrupt')[k], 'the recomputation fails'))
        if isK:
            self.pending = z3.BoolVal(False)
            self.dirty = z3.Or(self.dirty, self.any('marks_itself'))
            self.last = 'saveK'
        else:
            self.mark()
            e = self.any('survives')
            self.exists = z3.And(self.exists, e)
        self.check()


class FlushWorld(World):
    def __init__(self, backend='sqlite3', settings=None):
        World.__init__(self, backend, settings)
        self.QS = Cls('DirtyQuerySet', [OBJECT], {
            '__bool__': nat(lambda q: self.evaluated(q)),
            '__len__': nat(lambda q: self.length(q)),
            '__str__': nat(lambda q: self.shown(q)),
            '__repr__': nat(lambda q: self.shown(q)),
            '__looprule__': self.loop,
            '__aslist__': lambda interp, q: self.listed(q),
            '__getitem__': nat(lambda q, k: self.part(q, k)),
            'all': nat(lambda q: self.clone(q)),
            'order_by': nat(lambda q, *a: self.clone(q)),
            'select_related': nat(lambda q, *a: self.clone(q)),
            'using': nat(lambda q, *a: self.clone(q)),
            'distinct': nat(lambda q, *a: self.clone(q, maybe_unsupported=bool(a))),
            'filter': nat(lambda q, *a, **k: self.filter(q, *a, **k)),
            'iterator': nat(lambda q, *a, **k: self.clone(q)),
            'count': nat(lambda q: self.count(q)),
            'exists': nat(lambda q: SBool(z3.Not(self.empty(q)))),
            'delete': nat(lambda q: self.delete(q)),
        }, native=True)
        self.nonex = Cls('Row', [OBJECT], {}, native=True)
        self.man = None

    @property
    def g(self):
        return ctx().ghost

    def manager(self, cls):
        if cls.name != 'DirtyInstance':
            raise Unsupported('%s.objects' % cls.name)
        if self.man is None:
            base = Obj(self.QS, {'match_': z3.BoolVal(True), 'partly_': False, 'unsup_': False, 'cache_': None}, label='all markers')
            self.man = Obj(Cls('Manager', [OBJECT], dict((n, nat(lambda m, *a, _n=n, **k: self.interp.call(self.interp.getattr(base, _n), a, k)))
                                                         for n in ('all', 'filter', 'distinct', 'order_by', 'select_related', 'iterator', 'count', 'exists', 'using')),
                               native=True), {}, label='DirtyInstance.objects')
            self.man.cls.ns['create'] = nat(lambda m, **k: self.create(k))
        return self.man

    def create(self, kw):
        raise Unsupported('creation of a marker')

    def clone(self, q, **kw):
        a = dict(q.attrs, cache_=None)
        if kw.get('maybe_unsupported'):
            a['unsup_'] = True
        return Obj(self.QS, a, label='query set')

    def value(self, v):
        if isinstance(v, Obj) and 'pk' in v.attrs:
            v = v.attrs['pk']
        if v is None:
            return None
        if isinstance(v, bool) or not isinstance(v, (int, SInt)):
            raise Unsupported('filter value %r' % (v,))
        return v.z if isinstance(v, SInt) else z3.IntVal(v)

    def filter(self, q, *a, **kw):
        if a:
            raise Unsupported('filter with Q objects')
        m, partly = q.attrs['match_'], q.attrs['partly_']
        for k, v in kw.items():
            if k in ('content_type_id', 'content_type', 'content_type__id', 'content_type__pk'):
                x, me = self.value(v), self.g.ctK.z
            elif k == 'object_id':
                x, me = self.value(v), self.g.oidK.z
            elif k in ('pk', 'id'):
                if not (isinstance(v, SInt) or isinstance(v, Obj)):
                    raise Unsupported('filter(pk=%r)' % (v,))
                owner = v.attrs.get('isK_') if isinstance(v, Obj) else getattr(v, 'isK_', None)
                if owner is None:
                    owner = self.pks.get(id(v))
                if owner is None:
                    raise Unsupported('filter(pk=...) with an unknown key')
                partly = True
                m = z3.And(m, z3.BoolVal(owner))
                continue
            else:
                raise Unsupported('filter(%s=...)' % k)
            m = z3.And(m, z3.BoolVal(False) if x is None else x == me)
        return Obj(self.QS, dict(q.attrs, match_=m, partly_=partly, cache_=None), label='query set')

    def part(self, q, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step is None and (isinstance(k.stop, int) and k.stop > 0):
            return Obj(self.QS, dict(q.attrs, partly_=True, cache_=None), label='slice')
        raise Unsupported('query set index')

    def supported(self, q):
        """DISTINCT ON exists only on some databases."""
        if q.attrs['unsup_']:
            if not hasattr(self, 'distinct_on'):
                self.distinct_on = ctx().choose(2, 'database supports DISTINCT ON')
            if not self.distinct_on:
                raise PyExc(make_exc('NotImplementedError', 'DISTINCT ON fields is not supported by this database backend'))

    def empty(self, q):
        g = self.g
        self.supported(q)
        g.interfere('select')
        b = z3.Bool(ctx().fresh('empty'))
        ctx().add(z3.Implies(b, z3.Not(z3.And(g.dirty, q.attrs['match_']))))
        return b

    def listed(self, q):
        self.evaluated(q)
        q = self.clone(q)
        q.attrs['cache_'] = z3.BoolVal(False)
        q.attrs['must_'] = self.all_of(q)
        return q

    def all_of(self, q):
        """K is among the rows."""
        return z3.BoolVal(False) if q.attrs['partly_'] else z3.And(self.g.dirty, q.attrs['match_'])

    def evaluated(self, q):
        if q.attrs['cache_'] is None:
            ctx().touch(q.attrs)
            q.attrs['cache_'] = self.empty(q)
        return SBool(z3.Not(q.attrs['cache_']))

    def shown(self, q):
        self.empty(q)
        return 'query set'

    def length(self, q):
        b = self.evaluated(q)
        n = ctx().int('len')
        ctx().add(z3.And(n.z >= 0, (n.z == 0) == z3.Not(b.z)))
        return n

    def count(self, q):
        b = self.empty(q)
        n = ctx().int('count')
        ctx().add(z3.And(n.z >= 0, (n.z == 0) == b))
        return n

    def delete(self, q):
        self.supported(q)
        self.g.delete(q.attrs['match_'], q.attrs['partly_'])
        return (ctx().int('deleted'), {})

    pks = {}

    def row(self, q):
        """Some marker: one of K or of another instance."""
        c, g = ctx(), self.g
        kind = c.choose(3, 'whose marker')
        g.interfere('fetch')
        isK = kind == 0
        if isK:
            ct, oid = g.ctK, g.oidK
        else:
            ct, oid = c.int('other_content_type'), c.int('other_object')
            if kind == 2:
                oid = None
            else:
                c.add(z3.Or(ct.z != g.ctK.z, oid.z != g.oidK.z))
        pk = c.int('marker_pk')
        self.pks = dict(self.pks)
        self.pks[id(pk)] = isK
        row = Obj(self.nonex, {'content_type_id': ct, 'object_id': oid, 'pk': pk, 'id': pk, 'isK_': isK}, label='marker of K' if isK else 'marker')
        ctobj = Obj(self.C['Plain'], {'pk': ct, 'id': ct}, label='content type')
        row.attrs['content_type'] = ctobj
        memo = []

        def content():
            if not memo:
                g.interfere('fetch')
                if oid is None:
                    memo.append(None)
                elif isK:
                    there = c.branch(SBool(g.exists))
                    memo.append(self.instance(True) if there else None)
                else:
                    memo.append(self.instance(False) if c.choose(2, 'exists') else None)
            return memo[0]
        row.attrs['content_object'] = Lazy(content)
        row.attrs['delete'] = nat(lambda: g.delete(z3.BoolVal(isK), True))
        return row

    def instance(self, isK):
        c = ctx()
        b = c.bool('truth_of_instance')
        cls = Cls('Instance', [OBJECT], {'__bool__': nat(lambda s: b), 'save': nat(lambda s, *a, **k: self.saved(isK, a, k))}, native=True)
        return Obj(cls, {}, label='K' if isK else 'another instance')

    def saved(self, isK, a, k):
        if a or k:
            raise Unsupported('save with arguments')
        self.g.save(isK)

    def loop(self, q, interp, target, body, orelse, env):
        c = ctx()
        self.supported(q)
        if q.attrs['cache_'] is None:
            self.g.interfere('select')
        if c.mode == 'U':
            loops.db_for_rule(interp, target, body, orelse, env, lambda: self.row(q))
            return
        must = q.attrs['must_'] if q.attrs.get('must_') is not None else self.all_of(q)
        while True:
            if self.g.rows >= c.mode or not c.choose(2, 'another marker'):
                c.add(z3.Not(must))
                if c.check()[0] == z3.unsat:
                    raise Infeasible()
                break
            self.g.rows += 1
            row = self.row(q)
            if row.attrs['isK_']:
                must = z3.BoolVal(False)
            interp.assign(target, row, env)
            try:
                interp.ex(body, env)
            except ContinueSig:
                continue
            except BreakSig:
                return
        interp.ex(orelse, env)

    def atomic(self, using):
        g = self.g
        state = []

        def enter(s):
            state.append(g.snapshot())
            g.depth += 1
            return None

        def leave(s, t, v, tb):
            g.depth -= 1
            old = state.pop()
            if t is not None:
                g.restore(old)
            g.check()
            return False
        return Obj(Cls('Atomic', [OBJECT], {'__enter__': nat(enter), '__exit__': nat(leave)}, native=True), {}, label='atomic')


def flush_unit(each, concurrent=False, window=False, prefix='flush: '):
    def harness(c):
        w = FlushWorld()
        I = w.start()
        g = c.ghost = Ghost(c, prefix, each, concurrent, window)
        f = I.getattr(I.load('denorm.denorms'), 'flush')

        def go():
            try:
                I.call(f, (c.bool('verbose'),) if c.choose(2, 'verbose given') else ())
            except PyExc as e:
                if e.obj.cls.name not in ('RuntimeError', 'KeyboardInterrupt'):
                    raise
                g.check()
                c.cover(prefix + 'interrupted')
                return
            g.check()
            if not each:
                c.prove(prefix + 'no marker is left when it returns', z3.Not(g.dirty))
                c.prove(prefix + 'every instance marked before or meanwhile was saved after it was marked',
                        z3.Not(z3.And(g.pending, g.exists)))
            c.cover(prefix + 'returns')
        guarded(c, prefix, go, what='fails only if saving an instance fails')
    return harness


# -- rebuild -------------------------------------------------------------------------

REBUILD_ASSUMED = [
    'Model._base_manager.all() yields every instance of the model; other managers may hide some',
    'get_alldenorms returns the denormalizations of every field (its own contract, C12)',
    'flush meets its contract (C04)',
]


class RebuildWorld(World):
    def __init__(self):
        World.__init__(self, 'sqlite3')
        C = self.C
        C['Model'].ns['__init__'] = nat(lambda s, **k: s.attrs.update(k))
        self.QS = Cls('InstanceQuerySet', [OBJECT], {
            '__iter__': nat(lambda q: list(q.attrs['rows_'])),
            'all': nat(lambda q: q), 'iterator': nat(lambda q, *a, **k: list(q.attrs['rows_'])),
            'values_list': nat(lambda q, *a, **k: self.values_list(q, a, k)),
            '__getitem__': nat(lambda q, k: self.some_of(q, k)),
            'order_by': nat(lambda q, *a: q), 'using': nat(lambda q, *a: q), 'get_queryset': nat(lambda q: q),
            'only': nat(lambda q, *a: q), 'select_related': nat(lambda q, *a: q),
        }, native=True)

    def some_of(self, q, k):
        if not isinstance(k, slice):
            raise Unsupported('query set index')
        return Obj(self.QS, {'rows_': q.attrs['some_']}, label='some rows')

    def values_list(self, q, a, k):
        if len(a) == 1 and a[0] in ('pk', 'id') and k.get('flat') is True:
            return self.keys(q.attrs['rows_'])
        raise Unsupported('values_list')

    def keys(self, rows):
        out = []
        for x in rows:
            if isinstance(x, loops.Gen):
                out += loops.map_gen(self.interp, x, lambda o: [o.attrs['pk']])
            else:
                out.append(x.attrs['pk'])
        return out

    def manager(self, cls):
        if cls.name != 'DirtyInstance':
            raise Unsupported('%s.objects' % cls.name)
        return Obj(Cls('Manager', [OBJECT], {
            'create': nat(lambda m, **k: ctx().effect('mark', k)),
            'get_or_create': nat(lambda m, **k: (ctx().effect('mark', k), ctx().bool('created'))),
            'bulk_create': nat(lambda m, objs, *a, **k: self.bulk(objs)),
        }, native=True), {}, label='DirtyInstance.objects')

    def bulk(self, objs):
        for x in self.interp.iterate(objs):
            if isinstance(x, loops.Gen):
                ctx().effect('bulk', x)
            else:
                ctx().effect('mark', dict(x.attrs))

    def some_model(self, n):
        m = self.model(n, pyname=ident('class_' + n))
        m.every_ = symseq('instances_' + n, lambda k: Obj(self.inst, {'pk': Unknown('key ' + k), 'of_': m}, label=k), nmax=1)
        m.shown_ = symseq('shown_' + n, lambda k: Obj(self.inst, {'pk': Unknown('key ' + k), 'of_': m}, label=k), nmax=1)
        m.ns['_base_manager'] = Obj(self.QS, {'rows_': m.every_, 'some_': m.shown_}, label='_base_manager')
        m.ns['_default_manager'] = Obj(self.QS, {'rows_': m.shown_, 'some_': m.shown_}, label='_default_manager')
        m.ns['objects'] = m.ns['_default_manager']
        return m

    @property
    def inst(self):
        return self.C['Plain']


def effects(lst, conds=()):
    """Marks and flushes in the effects, with the conditions of the runs they belong to."""
    out = []
    for x in lst:
        if isinstance(x, loops.Gen):
            for cs, items in x.alts:
                out += effects(items, tuple(conds) + tuple(cs))
        elif x[0] == 'bulk':
            for cs, items in x[1].alts:
                for o in items:
                    out.append((tuple(conds) + tuple(cs), ('mark', dict(o.attrs))))
        elif x[0] in ('mark', 'flush'):
            out.append((tuple(conds), x))
    return out


def rebuild_unit(prefix='rebuild: '):
    def harness(c):
        w = RebuildWorld()
        I = w.start()
        models = []

        def denorm(n):
            if c.mode != 'U' and models and c.choose(2, 'same model'):
                m = models[-1]
            else:
                m = w.some_model('M' + n)
                models.append(m)
            return Obj(w.C['Plain'], {'model': m, 'fieldname': ident('field_' + n)}, label='denorm ' + n)
        every = symseq('denorms', denorm)
        I.load('denorm.denorms')
        I.contracts['denorm.denorms:get_alldenorms'] = lambda: list(every)
        I.contracts['denorm.denorms:flush'] = lambda *a, **k: c.effect('flush')
        kind = c.choose(3, 'model name')
        name = (None, ident('wanted'), mkstr([ident('wanted_app'), '.', ident('wanted_model')]))[kind]
        fname = ident('wanted_field') if c.choose(2, 'field name') else None
        verbose = c.bool('verbose')

        def selected(d):
            m = d.attrs['model']
            app, cls = m.ns['_meta'].attrs['app_label'], m.ns['__name__']
            z = []
            if name is not None:
                z.append(z3.Or([zbool(str_eq(name, x)) for x in (app, cls, mkstr([app, '.', cls]))]))
            if fname is not None:
                z.append(zbool(str_eq(fname, d.attrs['fieldname'])))
            return z3.And(z) if z else z3.BoolVal(True)

        def go():
            kw = {}
            if name is not None:
                kw['model_name'] = name
            if fname is not None:
                kw['field_name'] = fname
            if c.choose(2, 'verbose given'):
                kw['verbose'] = verbose
            I.call(I.getattr(I.load('denorm.denorms'), 'rebuildall'), (), kw)
            eff = effects(c.effects)
            flushes = [i for i, (cs, e) in enumerate(eff) if e[0] == 'flush']
            c.prove(prefix + 'flushes once, when everything is marked',
                    flushes == [len(eff) - 1] and not eff[-1][0])
            marks = [(cs, e[1]) for cs, e in eff if e[0] == 'mark']

            def belongs(kw, m, pk):
                if set(kw) - set(['content_type', 'content_type_id', 'object_id']) or len(kw) != 2 or 'object_id' not in kw:
                    raise Unsupported('marker with %s' % ', '.join(sorted(kw)))
                ct = w.get_for_model(m)
                t = kw['content_type'] is ct if 'content_type' in kw else kw['content_type_id'] is ct.attrs['pk']
                return t and (kw['object_id'] is pk)
            for cs, d in leaves(every):
                m = d.attrs['model']
                for cs2, o in leaves(m.every_):
                    hits = [conj(x) for x, kw in marks if belongs(kw, m, o.attrs['pk'])]
                    want = z3.And(conj(cs), conj(cs2), selected(d))
                    c.prove(prefix + 'every instance of every selected model is marked',
                            z3.Implies(want, z3.Or(hits) if hits else z3.BoolVal(False)))
            for x, kw in marks:
                ok = [z3.And(conj(cs), selected(d)) for cs, d in leaves(every) for cs2, o in leaves(d.attrs['model'].every_ + d.attrs['model'].shown_)
                      if belongs(kw, d.attrs['model'], o.attrs['pk'])]
                c.prove(prefix + 'nothing else is marked', z3.Implies(conj(x), z3.Or(ok) if ok else z3.BoolVal(False)))
            if marks:
                c.cover(prefix + 'marks')
            c.cover(prefix + 'reached')
        guarded(c, prefix, go, what='does not fail')
    return harness


# -- commands --------------------------------------------------------------------------

def command_unit(command):
    """denorm_flush and denorm_rebuild: the function is called for everything, and its errors are passed on."""
    prefix = 'command %s: ' % command

    def harness(c):
        w = World('sqlite3')
        I = w.start()
        calls, raised = [], []

        def work(kind):
            def f(verbose=False, model_name=None, field_name=None):
                calls.append((kind, model_name, field_name))
                if c.choose(2, 'the function fails'):
                    raised.append(make_exc(EXC['RuntimeError'], text('message')))
                    raise PyExc(raised[-1])
            return f
        I.contracts['denorm.denorms:flush'] = lambda verbose=False: work('flush')(verbose)
        I.contracts['denorm.denorms:rebuildall'] = work('rebuildall')
        M = I.load('denorm.management.commands.' + command)
        kw = {'verbosity': c.choose(4, 'verbosity')}
        named = None
        if command == 'denorm_rebuild' and c.choose(2, 'a model is named'):
            kw['model_name'] = named = ident('model_name')

        def go():
            cmd = Obj(I.getattr(M, 'Command'), {'stdout': Obj(w.C['Plain'], {'write': nat(lambda *a: None)}), 'style': w.C['BaseCommand'].ns.get('style')},
                      label='command')
            error = None
            try:
                I.call(I.getattr(cmd, 'handle'), (), kw)
            except PyExc as e:
                if not raised or e.obj is not raised[-1]:
                    raise
                error = e
            c.prove(prefix + 'an error of the function is passed on', z3.BoolVal((error is not None) == bool(raised)))
            want = 'flush' if command == 'denorm_flush' else 'rebuildall'
            c.prove(prefix + 'everything is brought up to date',
                    z3.Or([z3.BoolVal(False)] + [zbool(str_eq(m, named)) if m is not None and named is not None else z3.BoolVal(m is named)
                                                 for k, m, f in calls if k == want and f is None]))
            c.cover(prefix + ('fails' if raised else 'returns'))
        guarded(c, prefix, go, what='does not fail')
    return harness
