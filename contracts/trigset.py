"""Contracts of the functions that collect the triggers of all fields: one trigger per event, every action of it once."""
import z3

from pydv.core import Atom, Gen, JoinSeg, Lines, Reindented, SBool, SInt, SStr, Unsupported, ctx, mkstr, segs_of, str_eq, symseq, zbool
from pydv.djstub import World, ident, nat, text
from pydv.interp import Cls, Obj, OBJECT, PyExc, Unknown
from pydv import loops
from pydv.sqlsem import DB, Opaque, Row
from pydv.sqlt import parse_trigger, key
from .markers import guarded
from .schema import conj, contained, internal, leaves, once, rich, table_of, tag_model

ASSUMED = [
    'no table is called like another table followed by _ and a number',
    'random signs and digests that shorten a name do not coincide, and a shortened name is not the full name of another trigger',
    'django lists every installed model once; get_models leaves out swapped and automatic models unless asked',
    'the loop that merges triggers is checked for an arbitrary trigger of an arbitrary list against the set collected so far',
]
EVENTS = ('insert', 'update', 'delete')


# -- which fields are covered ---------------------------------------------------------

class Apps(World):
    """A project with any number of models, and the models django leaves out unless asked."""

    def project(self):
        c = ctx()
        self.listed = symseq('models', lambda n: self.some_model(n, SBool(z3.Bool('proxy_' + n)), None), nmax=1)
        self.autos = symseq('automatic', lambda n: self.plain_model(n), nmax=1)
        self.swapped = symseq('swapped', lambda n: self.some_model(n, False, ident('replacement_' + n)), nmax=1)

    def denorm(self, f, m, n):
        f.absent.discard('denorm')
        f.attrs['denorm'] = Obj(self.C['Plain'], {'model': m, 'field_': f}, label='denorm ' + n)
        return f

    def some_model(self, n, proxy, swapped):
        m = self.model(n, proxy=proxy, swapped=swapped)
        m.fields_ += symseq('own' + n, lambda k: self.denorm(self.field(m, k), m, k), nmax=1, nmin=1)
        m.fields_ += symseq('plain' + n, lambda k: self.field(m, k), nmax=1, nmin=1)
        m.m2m_ += symseq('mm' + n, lambda k: self.denorm(self.m2m(m, k, m), m, k), nmax=1, nmin=1)
        m.m2m_ += symseq('plainmm' + n, lambda k: self.m2m(m, k, m), nmax=1, nmin=1)
        p = self.model('P' + n)
        m.inherited_ += symseq('inh' + n, lambda k: self.denorm(self.field(m, k, model_attr=p), p, k), nmax=1, nmin=1)
        return m

    def plain_model(self, n):
        m = self.model(n)
        m.fields_ += symseq('plain' + n, lambda k: self.field(m, k), nmax=1, nmin=1)
        return m

    def get_models(self, include_auto_created=False, include_swapped=False):
        out = list(self.listed)
        if ctx().branch(include_auto_created) if isinstance(include_auto_created, SBool) else include_auto_created:
            out += self.autos
        if ctx().branch(include_swapped) if isinstance(include_swapped, SBool) else include_swapped:
            out += self.swapped
        return out


def field_leaves(m):
    return leaves([f for f in list(m.fields_) + list(m.m2m_) if not (isinstance(f, Obj) and f is m.pk_)])


def denorms_unit(prefix='all fields: '):
    def harness(c):
        w = Apps('sqlite3')
        I = w.start()
        w.project()

        def go():
            got = leaves(I.iterate(I.call(I.getattr(I.load('denorm.denorms'), 'get_alldenorms'), ())))
            need, may = [], []
            for cs, m in leaves(w.listed):
                proxy = m.ns['_meta'].attrs['proxy'].z
                for cs2, f in field_leaves(m) + leaves(m.inherited_):
                    if 'denorm' not in f.attrs:
                        continue
                    x = (tuple(cs) + tuple(cs2) + (z3.Not(proxy),), f.attrs['denorm'])
                    may.append(x)
                    if f.attrs['denorm'].attrs['model'] is m:
                        need.append(x)
            contained(c, prefix + 'no field of an installed model is left out', need, got)
            contained(c, prefix + 'nothing but fields of installed models that are neither proxies nor swapped', got, may)
            c.cover(prefix + 'reached')
            if got:
                c.cover(prefix + 'some')
        guarded(c, prefix, go, what='does not fail')
    return harness


# -- collecting ------------------------------------------------------------------------

def build_unit(backend, prefix='trigger set/%s: '):
    prefix = prefix % backend

    def harness(c):
        w = World(backend)
        I = w.start()
        alias = ident('alias') if c.choose(2, 'database given') else None
        asked = []

        def triggers_of(n):
            lst = symseq('triggers_' + n, lambda k: Obj(w.C['Plain'], {}, label=k), nmax=1)

            def get(using=None):
                c.effect('asked', d, using)
                return lst
            d = Obj(w.C['Plain'], {'get_triggers': nat(get), 'list_': lst, 'fieldname': ident('field_' + n), 'model': Unknown('model of ' + n)},
                    label='denorm ' + n)
            return d
        every = symseq('denorms', triggers_of)
        I.load('denorm.denorms')
        TS = I.getattr(I.getattr(I.load('denorm.db'), 'triggers'), 'TriggerSet')
        I.contracts['denorm.denorms:get_alldenorms'] = lambda: list(every)
        I.contracts['denorm.db.base:TriggerSet.append'] = lambda s, ts: c.effect('append', s, I.iterate(ts) if isinstance(ts, (list, tuple)) else [ts])

        def go():
            r = I.call(I.getattr(I.load('denorm.denorms'), 'build_triggerset'), (), {'using': alias} if alias is not None else {})
            c.prove(prefix + 'is a trigger set of the selected database',
                    isinstance(r, Obj) and r.cls.issub(TS) and r.attrs['using'] is alias
                    and r.attrs['connection'] is (w.connection if alias is None else w.conn_for(alias)))
            eff = flat(c.effects)
            appends = [(cs, e) for cs, e in eff if e[0] == 'append']
            c.prove(prefix + 'everything is collected in that set', all(e[1] is r for cs, e in appends))
            every_one = [(tuple(cs) + tuple(cs2), t) for cs, d in leaves(every) for cs2, t in leaves(d.attrs['list_'])]
            got = [(tuple(cs) + tuple(cs2), t) for cs, e in appends for cs2, t in leaves(e[2])]
            once(c, prefix + 'the triggers of every field are collected, once', every_one, got)
            contained(c, prefix + 'no other triggers are collected', got, every_one)
            for cs, e in eff:
                if e[0] == 'asked':
                    c.prove(prefix + 'the triggers are made for the selected database', e[2] is alias)
            c.cover(prefix + 'reached')
        guarded(c, prefix, go, what='does not fail')
    return harness


def flat(lst, conds=()):
    out = []
    for x in lst:
        if isinstance(x, Gen):
            for cs, items in x.alts:
                out += flat(items, tuple(conds) + tuple(cs))
        else:
            out.append((tuple(conds), x))
    return out


class Part(list):
    """A list of triggers of any length, walked through by the loop rule."""
    loop_rule = None


class Partial(dict):
    """A dictionary of which only some entries are shown; code may look entries up but not go through them."""
    partial = True


class Collect(object):
    """Ghost state of TriggerSet.append: what each name has to hold."""
    imprecise = None

    def __init__(self, c, w, ts, cls, prefix):
        self.c, self.w, self.ts, self.cls, self.prefix = c, w, ts, cls, prefix
        self.k = 0
        self.arbitrary()

    def trigger(self, n):
        self.k += 1
        n = '%s%d' % (n, self.k)
        nm = ident('name_' + n)
        acts = symseq('actions_' + n, lambda k: Obj(self.w.C['Plain'], {}, label='action ' + k), nmax=1)
        o = Obj(self.cls, dict((a, Unknown('%s of %s' % (a, n))) for a in OWN), label='trigger ' + n)
        o.attrs.update(actions=acts, name=nat(lambda: nm))
        o.name_, o.acts_ = nm, list(acts)
        return o

    def arbitrary(self):
        """Any state: an entry, perhaps another one; any name may or may not be taken."""
        a, b = self.trigger('E'), self.trigger('F')
        self.c.assume(z3.Not(zbool(str_eq(a.name_, b.name_))))
        d = internal(self.ts, 'triggers')
        if not isinstance(d, Partial):
            d = self.ts.attrs['triggers'] = Partial()
        d.clear()
        d[a.name_] = a
        d[b.name_] = b
        self.want = [(o.name_, list(o.acts_), [o]) for o in (a, b)]
        self.new = []

    def add(self, t):
        """Specification: one more trigger."""
        for i, (n, acts, who) in enumerate(self.want):
            if self.c.branch(SBool(zbool(str_eq(n, t.name_)))):
                self.want[i] = (n, acts + t.acts_, who + [t])
                return
        self.want.append((t.name_, list(t.acts_), [t]))

    def check(self):
        c, p = self.c, self.prefix
        d = self.ts.attrs['triggers']
        left = list(d.items())
        for n, acts, who in self.want:
            hit = None
            for i, (k, v) in enumerate(left):
                if k is n or c.branch(SBool(zbool(str_eq(k, n)))):
                    hit = left.pop(i)
                    break
            c.prove(p + 'every event has a trigger', hit is not None)
            if hit is None:
                continue
            t = hit[1]
            c.prove(p + 'a trigger keeps its table, event and content type',
                    isinstance(t, Obj) and any(all(t.attrs.get(a) is o.attrs[a] for a in OWN) for o in who))
            if not isinstance(t, Obj):
                continue
            got = leaves(c_list(internal(t, 'actions')))
            once(c, p + 'a trigger performs every action of the triggers with its name', leaves(acts), got)
            contained(c, p + 'a trigger performs no action of another trigger', got, leaves(acts))
        c.prove(p + 'there is no other trigger', not left)

    # -- interface of the loop rules
    def loop_entry(self, where):
        self.check()

    def havoc(self):
        self.arbitrary()

    def loop_end(self, name):
        self.check()

    def containers(self):
        d = self.ts.attrs['triggers']
        out = [d, self.ts.attrs]
        for t in list(d.values()) + [o for n, acts, who in self.want for o in who]:
            out += [t.attrs, internal(t, 'actions')]
        return out


OWN = ('subject', 'time', 'event', 'content_type', 'content_type_field', 'db_table', 'fields', 'using', 'connection', 'model')


def c_list(v):
    if not isinstance(v, list):
        raise Unsupported('actions are kept in %r' % (v,))
    return v


def append_unit(backend, prefix='trigger set/%s: append: '):
    prefix = prefix % backend

    def harness(c):
        w = World(backend)
        I = w.start()
        mod = I.getattr(I.load('denorm.db'), 'triggers')
        alias = ident('alias') if c.choose(2, 'database given') else None
        ts = I.call(I.getattr(mod, 'TriggerSet'), (), {'using': alias} if alias is not None else {})
        empty = internal(ts, 'triggers')
        c.prove(prefix + 'a new set is empty', isinstance(empty, dict) and not empty)
        g = c.ghost = Collect(c, w, ts, I.getattr(mod, 'Trigger'), prefix)
        kind = c.choose(2, 'a list or a single trigger')

        def one():
            t = g.trigger('T')
            g.add(t)
            return t

        def rule(interp, target, body, orelse, env):
            if c.mode != 'U':
                return NotImplemented
            loops.db_for_rule(interp, target, body, orelse, env, one)

        def go():
            if kind:
                arg = one()
            else:
                arg = Part()
                if c.mode == 'U':
                    arg.loop_rule = rule
                    arg.append(Unknown('element'))
                else:
                    for i in range(c.choose(c.mode + 1, 'triggers')):
                        arg.append(one())
            I.call(I.getattr(ts, 'append'), (arg,))
            g.check()
            c.cover(prefix + 'reached')
        guarded(c, prefix, go, what='does not fail')
    return harness


# -- names -----------------------------------------------------------------------------

def name_unit(backend, prefix='trigger names/%s: '):
    """Two triggers have the same name if and only if they are for the same event (and content type)."""
    prefix = prefix % backend

    def harness(c):
        w = World(backend)
        I = w.start()
        T = I.getattr(I.getattr(I.load('denorm.db'), 'triggers'), 'Trigger')
        tables = [ident('table_A'), ident('table_B')]
        cts = [c.int('ct_A'), c.int('ct_B')]
        for x in cts:
            c.assume(SBool(x.z > 0))
        trigs = []
        for i in range(2):
            ct = I.call(I.builtins['str'], (cts[i],))
            o = Obj(T, {'time': ('before', 'after')[c.choose(2, 'time')], 'event': EVENTS[c.choose(3, 'event')], 'db_table': tables[i],
                        'content_type': ct, 'content_type_field': ident('ctf_%d' % i) if c.choose(2, 'generic') else None,
                        'connection': w.connection, 'using': None, 'actions': [], 'fields': []}, label='trigger')
            trigs.append(o)
        a, b = (t.attrs for t in trigs)
        # no table is called like another table and a number; numbers are equal if their digits are
        za, zb = segs_of(tables[0])[0].z, segs_of(tables[1])[0].z
        ka, kb = (segs_of(t.attrs['content_type'])[0].z for t in trigs)
        for x, y in ((za, zb), (zb, za)):
            for k in (ka, kb):
                c.axiom(z3.Not(x == z3.Concat(y, z3.StringVal('_'), k)))
        c.axiom((ka == kb) == (cts[0].z == cts[1].z))
        # (digits contain no underscore)
        low = z3.StringVal('_')
        c.axiom(z3.Implies(z3.Concat(za, low, ka) == z3.Concat(zb, low, kb), z3.And(za == zb, ka == kb)))

        def go():
            na, nb = (I.call(I.getattr(t, 'name'), ()) for t in trigs)
            equal = zbool(str_eq(na, nb))
            want = z3.And(z3.BoolVal(a['time'] == b['time'] and a['event'] == b['event']), zbool(str_eq(tables[0], tables[1])))
            ga, gb = a['content_type_field'] is not None, b['content_type_field'] is not None
            if backend != 'mysql':
                # (MySQL has one trigger for all content types)
                want = z3.And(want, z3.BoolVal(ga == gb))
                if ga and gb:
                    want = z3.And(want, cts[0].z == cts[1].z)
            c.prove(prefix + 'triggers for the same event have the same name', z3.Implies(want, equal))
            c.prove(prefix + 'triggers for different events have different names', z3.Implies(equal, want))
            c.cover(prefix + 'reached')
        guarded(c, prefix, go, what='does not fail')
    return harness


LIMIT = {'postgresql': 63, 'mysql': 64}


def installed_unit(backend, generic=False, prefix='installed names/%s%s: '):
    """Triggers for different events get names that the database keeps apart, with the reserved prefix."""
    prefix = prefix % (backend, '/generic' if generic else '')

    def harness(c):
        w = World(backend)
        I = w.start()
        T = I.getattr(I.getattr(I.load('denorm.db'), 'triggers'), 'Trigger')
        tables = [ident('table_A'), ident('table_B')]
        za, zb = segs_of(tables[0])[0].z, segs_of(tables[1])[0].z
        same = c.choose(2, 'same table')
        if same:
            tables[1] = tables[0]
        else:
            c.assume(SBool(za != zb))
        drawn = []

        def draw(chars):
            a = Atom(c.fresh('rnd'), 'ident')
            c.axiom(z3.Length(a.z) == 1)
            drawn.append(a)
            return SStr((a,))
        w.random_choice = draw
        act = Obj(w.C['Plain'], {'sql': nat(lambda: ('DELETE FROM t', ()))}, label='action')
        cts = [c.int('ct_A'), c.int('ct_B')]
        trigs, events = [], []
        for i in range(2):
            events.append(EVENTS[c.choose(3, 'event')])
            ct = I.call(I.builtins['str'], (cts[i],))
            o = Obj(T, {'time': 'after', 'event': events[i], 'db_table': tables[i], 'content_type': ct,
                        'content_type_field': ident('ctf') if generic and i == 0 else None,
                        'connection': w.connection, 'using': None, 'actions': [act], 'fields': [('c', 'integer')]}, label='trigger')
            trigs.append(o)
        for n, t in (('table_A', za), ('table_B', zb)):
            c.axiom(z3.Int('len_' + n) == z3.Length(t))
        if generic:
            # no table is called like another table and a number
            k = segs_of(trigs[0].attrs['content_type'])[0].z
            c.axiom(z3.Int('len_int(ct_A)') == z3.Length(k))
            for x, y in ((za, zb), (zb, za)):
                c.axiom(z3.Not(x == z3.Concat(y, z3.StringVal('_'), k)))
        if same and events[0] == events[1] and (not generic or backend == 'mysql'):
            return

        def z(name):
            t = key_text(name)
            return z3.StringVal(t) if isinstance(t, str) else t.z()

        def ending(name):
            last = segs_of(key_text(name))[-1]
            if any(last is a for a in drawn):
                return 'drawn', last
            if any(last is h for old, h in getattr(w, 'digests', ())):
                return 'digest', last
            return None, None

        def differ(x, y):
            (kx, ex), (ky, ey) = ending(x), ending(y)
            if kx == ky == 'digest':
                # (digests of the same length, at the end)
                return ex.z != ey.z
            if kx or ky:
                # random signs do not coincide; a shortened name is not the full name of another trigger
                return z3.BoolVal(ex is not ey)
            return z3.Not(zbool(str_eq(key_text(x), key_text(y))))

        def go():
            ds = []
            for t in trigs:
                sql, params = I.iterate(I.call(I.getattr(t, 'sql'), ()))
                ds.append(parse_trigger(sql, backend))
            a, b = ds
            if backend != 'postgresql' or same:
                c.prove(prefix + 'triggers for different events have different names', differ(a.name, b.name))
            if backend == 'postgresql':
                c.prove(prefix + 'triggers for different events have different functions', differ(a.fname, b.fname))
            for d in ds:
                c.prove(prefix + 'the name has the reserved prefix', z3.PrefixOf(z3.StringVal('denorm_'), z(d.name)))
                for n in (d.name, d.fname):
                    if n is not None and backend in LIMIT:
                        c.prove(prefix + 'the name is not too long for the database', z3.Length(z(n)) <= LIMIT[backend])
            c.cover(prefix + 'reached')
        guarded(c, prefix, go, what='does not fail')
    return harness


# -- the text of a trigger ---------------------------------------------------------------

def bare(t):
    """A statement without the semicolon at its end."""
    segs = list(segs_of(t.text if isinstance(t, (Lines, Reindented)) else t))
    if segs and isinstance(segs[-1], str) and segs[-1].rstrip().endswith(';'):
        segs[-1] = segs[-1].rstrip()[:-1]
    return mkstr(segs)


def statements(body):
    """The statements of a trigger body: [(conditions, text)]."""
    out = []
    for s in body:
        if s[0] == 'opaque':
            v = s[1]
            if isinstance(v, JoinSeg):
                out += [(cs, bare(x), g) for cs, x, g in leaves_of(v.parts)]
            else:
                out.append(((), bare(v) if not isinstance(v, Atom) else mkstr([v]), None))
        elif s[0] == 'if':
            for x in s[1:]:
                if isinstance(x, list):
                    for y in x:
                        out += statements(y[1] if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], list) else [y] if isinstance(y, tuple) else [])
        else:
            raise Unsupported('statement %r in the body of a trigger' % (s[0],))
    return out


def leaves_of(lst, conds=(), gen=None):
    """As leaves, with the run an element belongs to."""
    out = []
    for x in lst:
        if isinstance(x, Gen):
            for cs, items in x.alts:
                out += leaves_of(items, tuple(conds) + tuple(cs), x)
        else:
            out.append((tuple(conds), x, gen))
    return out


def symbols(v):
    """What a key is made of: texts, parameters and anything else."""
    if isinstance(v, (SStr, str, Lines, Reindented)):
        return set(id(x) for x in segs_of(bare(v)) if not isinstance(x, str))
    if isinstance(v, (tuple, list)):
        return set(y for x in v for y in symbols(x))
    if isinstance(v, Gen):
        return set(id(x) for cs, x in leaves([v]))
    return set((id(v),))


def sql_unit(backend, event, prefix='trigger text/%s/%s: '):
    prefix = prefix % (backend, event)

    def harness(c):
        w = World(backend)
        I = w.start()
        w.truncate_name = lambda name, n: name
        w.random_choice = lambda s: 'X'
        T = I.getattr(I.getattr(I.load('denorm.db'), 'triggers'), 'Trigger')

        def action(n):
            t = text('stmt_' + n)
            params = symseq('params_' + n, lambda k: ident(k), nmax=1)
            o = Obj(w.C['Plain'], {'sql': nat(lambda: (t, list(params) if n.endswith('1') else tuple(params)))}, label='action ' + n)
            o.text_, o.params_ = t, params
            return o
        acts = symseq('actions', action, nmin=1)
        m = w.model('M')
        m.fields_.append(w.field(m, 'a'))
        bounded = not any(isinstance(a, Gen) for a in acts)
        if bounded:
            c.assume(SBool(z3.Length(segs_of(acts[0].text_)[0].z) > 0))
        c.ghost = None

        def ended(a):
            z = segs_of(a.text_)[0].z
            semi = z3.StringVal(';')
            return z3.If(z3.SuffixOf(semi, z), z, z3.Concat(z, semi))

        def nonempty(a):
            return z3.Length(segs_of(a.text_)[0].z) > 0

        def go():
            t = I.call(T, (m, 'after', event, list(acts), '7'))
            name = I.call(I.getattr(t, 'name'), ())
            sql, params = I.iterate(I.call(I.getattr(t, 'sql'), ()))
            params = list(I.iterate(params))
            d = parse_trigger(sql, backend)
            c.prove(prefix + 'the trigger belongs to the table, time and event',
                    z3.And(z3.BoolVal(d.time == 'after' and d.event == event), zbool(str_eq(key_text(d.table), m.ns['_meta'].attrs['db_table']))))
            got = statements(d.body)
            every = leaves(acts)
            origin = []
            for cs, x, g in got:
                a = [a for cs2, a in every if segs_of(x) == segs_of(a.text_)]
                c.prove(prefix + 'nothing else is done', z3.Implies(conj(cs), z3.BoolVal(bool(a))), detail='%r' % (x,))
                if not a:
                    return
                origin.append((cs, a[0], g))
            if bounded:
                want = [p for cs, a, g in origin for p in a.params_]
                c.prove(prefix + 'the parameters are those of the statements, in order',
                        z3.And([z3.BoolVal(len(want) == len(params))] + [zbool(I.eq(x, y)) for x, y in zip(want, params)]))

                def same(a, b):
                    if len(a.params_) != len(b.params_):
                        return z3.BoolVal(False)
                    return z3.And([ended(a) == ended(b)] + [zbool(I.eq(x, y)) for x, y in zip(a.params_, b.params_)])
                for cs, a in every:
                    n = z3.Sum([z3.If(same(a, b), 1, 0) for cs2, b, g in origin]) if origin else z3.IntVal(0)
                    c.prove(prefix + 'every distinct action is done once', z3.Implies(nonempty(a), n == 1))
            else:
                for cs, a in every:
                    hits = [conj(cs2) for cs2, b, g in origin if b is a]
                    n = z3.Sum([z3.If(h, 1, 0) for h in hits]) if hits else z3.IntVal(0)
                    c.prove(prefix + 'every distinct action is done once', z3.Implies(z3.And(conj(cs), nonempty(a)), n == 1))
                    for cs2, b, g in origin:
                        # the first of several equal ones is taken: equal means the same statement and parameters
                        want = symbols(a.text_) | symbols(a.params_)
                        c.prove(prefix + 'actions are the same if text and parameters are',
                                z3.BoolVal(g is not None and g.distinct not in (None, False, True) and symbols(g.distinct) == want),
                                detail='by %r' % (g.distinct if g is not None else None,))
                # the parameters are collected in the same way as the statements
                ps = [(cs, x, g) for cs, x, g in leaves_of(params)]
                for cs, a in every:
                    for cs2, p in leaves(a.params_):
                        hits = [conj(cs3) for cs3, x, g in ps if x is p]
                        c.prove(prefix + 'the parameters are those of the statements, in order',
                                z3.Implies(z3.And(conj(cs), conj(cs2), nonempty(a)), z3.Or(hits) if hits else z3.BoolVal(False)))
            c.cover(prefix + 'reached')
        guarded(c, prefix, go, what='does not fail')
    return harness


def key_text(t):
    return t if isinstance(t, (str, SStr)) else mkstr(t) if isinstance(t, (list, tuple)) else mkstr([t])
