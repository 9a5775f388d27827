"""Contracts of the functions that produce the dirty marker triggers.

For every relation kind, backend and event the texts that the real code builds
are given their SQL meaning and compared with the set of instances that have to
be (completeness) and may be (precision) marked.
"""
import z3

from pydv.core import Gen, Unsupported, SBool, ctx, symseq, zbool
from pydv.djstub import World, ident, nat
from pydv.interp import PyExc, ABSENT, Unknown, Obj, Cls, OBJECT
from pydv import sqlt
from pydv.sqlsem import DB, Row, Insert, changed, eq, BadReference
from pydv.sqlt import SqlError, key, parse_trigger
from .schema import (rich, tag_model, table_of, link_table, dirty_table, Tracked, skip_names, python_error, leaves, contained, once, conj)

RELATIONS = ('forward', 'backward', 'forward_m2m', 'backward_m2m', 'generic',
             'self_forward', 'self_backward', 'self_forward_m2m', 'self_backward_m2m')


# obligations that known findings refute
RETARGET = 'markers/%s/generic: re-targeting a row to another content type marks only related instances'


class Case(object):
    """One dependency between two models of a symbolic project."""

    def __init__(self, backend, relation, skips=True, using=None, settings=None):
        c = ctx()
        self.backend, self.relation, self.using = backend, relation, using
        w = self.w = World(backend, settings)
        I = self.I = w.start()
        self.selfrel = relation.startswith('self_')
        kind = self.kind = relation[5:] if self.selfrel else relation
        self.skip = skip_names('skipped') if skips else None
        always = skip_names('always') if skips else None
        self.third = tag_model(w)
        this = self.this = w.model('This', always_skip=always if self.selfrel else None)
        other = self.other = this if self.selfrel else w.model('Other', always_skip=always)
        self.always = always
        self.rel = None
        if kind in ('forward', 'backward'):
            src, dst = (this, other) if kind == 'forward' else (other, this)
            self.rel = w.field(src, 'rel', 'ForeignKey', remote=dst)
            src.fields_.append(self.rel)
        elif kind in ('forward_m2m', 'backward_m2m'):
            src, dst = (this, other) if kind == 'forward_m2m' else (other, this)
            self.rel = w.m2m(src, 'rel', dst)
            src.m2m_.append(self.rel)
        elif kind == 'generic':
            other.ctfield_ = w.field(other, 'ct', 'ForeignKey', remote=w.ContentType)
            other.oidfield_ = w.field(other, 'oid', 'PositiveIntegerField')
            other.fields_ += [other.ctfield_, other.oidfield_]
            other.private_.append(w.generic_fk(other, 'gfk', other.ctfield_, other.oidfield_))
            self.rel = w.generic_relation(this, 'rel', other)
            this.private_.append(self.rel)
        rich(w, other, self.third, self.third)
        if not self.selfrel:
            this.fields_ += []
        self.ct = w.content_type(this).attrs['pk'].z
        db = self.db = DB(backend)
        kinds = {}
        if kind == 'generic':
            kinds[id(other.ctfield_)] = 'int'
        self.t_other = table_of(db, other, kinds)
        self.t_this = table_of(db, this, kinds) if this is not other else self.t_other
        self.t_link = link_table(db, self.rel) if kind.endswith('m2m') else None
        self.t_dirty = dirty_table(db, w)
        self.allskip = [self.skip, always]
        # a primary key is not an excluded column
        if skips:
            for s in self.allskip:
                c.assume(z3.Not(zbool(I.contains(other.pk_.attrs['attname'], s))))
        self.new, self.old, self.x = (z3.Const(n, Row) for n in ('NEW', 'OLD', 'x'))

    def dependency(self, cls='CallbackDependOnRelated'):
        I = self.I
        D = I.getattr(I.load('denorm.dependencies'), cls)
        kw = {'skip': self.skip}
        if self.selfrel:
            kw['type'] = self.kind
        d = I.call(D, (self.other,), kw)
        I.call(I.getattr(d, 'setup'), (self.this,))
        return d

    def tracked(self, tab):
        if tab is self.t_link:
            return None
        return Tracked(self.w, self.db, tab, self.other, self.allskip)

    # -- what has to be / may be marked
    def events(self):
        """(table, event) pairs a change of which has to be noticed."""
        out = []
        tabs = {'forward': [self.t_other], 'backward': [self.t_other], 'generic': [self.t_other]}.get(self.kind)
        if tabs is None:
            out += [(self.t_link, e) for e in ('insert', 'update', 'delete')]
            out.append((self.t_other, 'update'))
        else:
            out += [(t, e) for t in tabs for e in ('insert', 'update', 'delete')]
        return out

    def related(self, tab, row, x, precise=True):
        """Instance x of this model is related to the given row of the changed table."""
        v, k = tab.value, self.kind
        xpk = self.t_this.value(self.this.pk_.attrs['column'], x)
        if k == 'forward':
            return eq(self.t_this.value(self.rel.attrs['column'], x), v(self.other.pk_.attrs['column'], row))
        if k == 'backward':
            return eq(xpk, v(self.rel.attrs['column'], row))
        if k == 'generic':
            ct = v(self.other.ctfield_.attrs['column'], row)
            here = eq(xpk, v(self.other.oidfield_.attrs['column'], row))
            if self.backend == 'mysql' and not precise:
                return here
            return z3.And(z3.Not(ct.null), ct.v == self.ct, here)
        _, col, rev = self.rel.tables_
        mine, theirs = (col, rev) if k == 'forward_m2m' else (rev, col)
        if tab is self.t_link:
            return eq(xpk, v(mine, row))
        l = z3.Const('link', Row)
        return z3.Exists([l], z3.And(self.t_link.inn(l), eq(self.t_link.value(theirs, l), v(self.other.pk_.attrs['column'], row)),
                                     eq(xpk, self.t_link.value(mine, l))))

    def state(self, tab, event):
        """Assumptions about the database after the statement."""
        c = ctx()
        new = self.new if event != 'delete' else None
        old = self.old if event != 'insert' else None
        if new is not None:
            c.add(tab.inn(new))
        if old is not None:
            c.add(z3.Not(tab.inn(old)))
        if new is not None and old is not None and tab.pk is not None:
            c.add(tab.value(tab.pk, new).v == tab.value(tab.pk, old).v)
        a, b = z3.Consts('a b', Row)
        for t in {id(self.t_this): self.t_this, id(self.t_other): self.t_other}.values():
            pa, pb = t.value(t.pk, a), t.value(t.pk, b)
            c.add(z3.ForAll([a, b], z3.Implies(z3.And(t.inn(a), t.inn(b), pa.v == pb.v), a == b)))
        return new, old


def texts(case, trigs):
    """The triggers that the code builds, as parsed statements (texts of unknown shape are refused)."""
    I = case.I
    out = []
    for t in I.iterate(trigs):
        if isinstance(t, Gen):
            raise Unsupported('unbounded list of triggers')
        r = I.call(I.getattr(t, 'sql'), ())
        sql, params = I.iterate(r)
        out.append((parse_trigger(sql, case.backend), params))
    return out


def check_event(c, case, prefix, defs, tab, event, complete=True, precise=True, own=None):
    """Obligations for one kind of change of one table."""
    db = case.db
    del db.exists[:]
    new, old = case.state(tab, event)
    tr = case.tracked(tab) if own is None else own
    effects = []
    for d, params in defs:
        if key(d.table) != key(tab.name) or d.event != event:
            continue
        c.prove(prefix + 'the trigger runs after the change', d.time == 'after')
        for e in db.run(d, new, old):
            if not isinstance(e, Insert) or e.table is not case.t_dirty:
                c.fail(prefix + 'only adds markers', '%s statement on %s' % (type(e).__name__, getattr(getattr(e, 'table', None), 'label', '?')))
                continue
            effects.append(e)
    if event == 'update':
        if tr is None:
            change = z3.Or([changed(tab.value(col, old), tab.value(col, new)) for col in case.rel.tables_[1:]])
            for ex, f, base, g in db.exists:
                raise Unsupported('unbounded condition on a link table')
        else:
            change = tr.changed(new, old)
            tr.link(c, prefix + 'exactly the tracked columns are compared', new, old)
    else:
        change = z3.BoolVal(True)
    x = case.x
    c.add(case.t_this.inn(x))
    rows = [r for r in (new, old) if r is not None]
    xpk = case.t_this.value(case.this.pk_.attrs['column'], x)

    def target(e):
        n = e.named()
        ct, oid = n.get('content_type_id'), n.get('object_id')
        if ct is None or oid is None:
            raise BadReference('marker without content type or object id')
        return ct, oid
    if complete:
        must = own.must(x, new, old) if own is not None else z3.Or([case.related(tab, r, x) for r in rows])
        marked = []
        for e in effects:
            ct, oid = target(e)
            if ct.kind == 'val' or oid.kind not in ('val',):
                f = z3.BoolVal(False)
            else:
                f = z3.And(e.cond, e.guard, z3.Not(ct.null), ct.v == case.ct, eq(oid, xpk))
            marked.append(z3.Exists([e.row], f) if e.row is not None else f)
        c.prove(prefix + 'every related instance is marked', z3.Implies(z3.And(must, change), z3.Or(marked) if marked else z3.BoolVal(False)))
    c.cover(prefix + 'reached')
    if precise:
        cts = [tab.value(case.other.ctfield_.attrs['column'], r) for r in rows] if case.kind == 'generic' else None
        may = own.must(x, new, old) if own is not None else z3.Or([case.related(tab, r, x, precise=False) for r in rows])
        for i, e in enumerate(effects):
            ct, oid = target(e)
            hit = z3.And(e.cond, e.guard)
            if event == 'update':
                c.prove(prefix + 'no marker unless a tracked column changed', z3.Implies(hit, change))
            if ct.kind != 'int':
                c.fail(prefix + 'markers carry the content type of the dependent model', ct.kind)
                continue
            c.prove(prefix + 'markers carry the content type of the dependent model', z3.Implies(hit, z3.And(z3.Not(ct.null), ct.v == case.ct)))
            if oid.kind != 'val':
                c.fail(prefix + 'markers name a primary key of the dependent model', oid.kind)
                continue
            claim = z3.Implies(z3.And(hit, eq(oid, xpk)), may)
            if case.kind == 'generic' and event == 'update' and case.backend != 'mysql':
                # known finding (KNOWN_FINDINGS): re-targeting a row to another content type
                moved = z3.And([z3.Or([z3.And(z3.Not(v.null), v.v == case.ct) for v in cts])] +
                               [changed(cts[0], cts[1])] + [z3.Or([eq(xpk, tab.value(case.other.oidfield_.attrs['column'], r)) for r in rows])])\
                    if len(cts) == 2 else z3.BoolVal(False)
                c.prove(RETARGET % case.backend, claim)
                claim = z3.Or(claim, moved)
            c.prove(prefix + 'only related instances are marked', claim)


def pick_event(c, case, defs, precise):
    """Any event that has to be noticed, and any other one that some trigger listens to."""
    evs = [(t, e, True) for t, e in case.events()]
    if precise:
        have = set((id(t), e) for t, e, _ in evs)
        tabs = [t for t in (case.t_other, case.t_this, case.t_link) if t is not None]
        for d, params in defs:
            for t in tabs:
                if key(d.table) == key(t.name) and (id(t), d.event) not in have:
                    have.add((id(t), d.event))
                    evs.append((t, d.event, False))
    return evs[c.choose(len(evs), 'event')]


def guarded(c, prefix, thunk, what='builds its triggers without an error'):
    """Run code of the repository; errors it must not raise are refuted obligations."""
    try:
        return thunk()
    except PyExc as e:
        if e.level == 0:
            raise Unsupported('the contract does not fit the code: %s' % python_error(e))
        c.fail(prefix + what, python_error(e), soft=True)
    except SqlError as e:
        c.fail(prefix + 'the trigger text is valid SQL', str(e))
    except BadReference as e:
        c.fail(prefix + 'the trigger refers to existing tables and columns', str(e))
    return None


def dependency_unit(backend, relation, skips, complete=True, precise=True):
    def harness(c):
        case = Case(backend, relation, skips)
        prefix = 'markers/%s/%s%s: ' % (backend, relation, '/skips' if skips else '')

        def go():
            d = case.dependency()
            trigs = case.I.call(case.I.getattr(d, 'get_triggers'), (None,))
            return texts(case, trigs)
        defs = guarded(c, prefix, go)
        if defs is None:
            return
        tab, event, needed = pick_event(c, case, defs, precise)
        p = prefix + '%s of %s: ' % (event, tab.label)
        guarded(c, p, lambda: check_event(c, case, p, defs, tab, event, complete and needed, precise))
    return harness


# -- the instance's own row ----------------------------------------------------

class Own(Tracked):
    """Own row: only the inserted or updated row itself counts."""
    def must(self, x, new, old):
        return eq(self.tab.value(self.m.pk_.attrs['column'], x), self.tab.value(self.m.pk_.attrs['column'], new))


class OwnCase(Case):
    def __init__(self, backend, skips=True, settings=None):
        c = ctx()
        self.backend, self.relation, self.kind, self.selfrel = backend, 'own', 'own', True
        w = self.w = World(backend, settings)
        I = self.I = w.start()
        self.skip = skip_names('skipped') if skips else None
        self.always = skip_names('always') if skips else None
        self.third = tag_model(w)
        this = self.this = self.other = w.model('This', always_skip=self.always)
        rich(w, this, self.third, self.third)
        self.ct = w.content_type(this).attrs['pk'].z
        self.db = DB(backend)
        self.allskip = [self.skip, self.always]
        if skips:
            for s in self.allskip:
                c.assume(z3.Not(zbool(I.contains(this.pk_.attrs['attname'], s))))
        self.new, self.old, self.x = (z3.Const(n, Row) for n in ('NEW', 'OLD', 'x'))
        self.t_link = None

    def tables(self):
        self.t_this = self.t_other = table_of(self.db, self.this)
        self.t_dirty = dirty_table(self.db, self.w)

    def declare(self, depend=None, dbfield='CharField'):
        """@denormalized(...) on a function, as the class body of the model does it."""
        w, I = self.w, self.I
        deco = I.call(I.getattr(I.load('denorm.fields'), 'denormalized'), (w.C[dbfield],), {'skip': self.skip} if self.skip is not None else {})
        func = nat(lambda o: Unknown('value'))
        if depend is not None:
            func.attrs['depend'] = depend
        f = I.call(deco, (func,))
        name = ident('name_denorm')
        I.call(I.getattr(f, 'contribute_to_class'), (self.this, name))
        return f


def own_unit(backend, skips, complete=True, precise=True):
    """denormalized field without dependencies: its own row is watched."""
    def harness(c):
        case = OwnCase(backend, skips)
        prefix = 'own row/%s%s: ' % (backend, '/skips' if skips else '')

        def go():
            f = case.declare()
            case.tables()
            d = case.I.getattr(f, 'denorm')
            return texts(case, case.I.call(case.I.getattr(d, 'get_triggers'), (None,)))
        defs = guarded(c, prefix, go)
        if defs is None:
            return
        event = ('insert', 'update')[c.choose(2, 'event')]
        own = Own(case.w, case.db, case.t_this, case.this, case.allskip)
        p = prefix + '%s: ' % event
        guarded(c, p, lambda: check_event(c, case, p, defs, case.t_this, event, complete, precise, own=own))
    return harness


def fake_dependency(w, name, made):
    """A dependency class of which only the interface is known."""
    def init(self, *a, **k):
        self.attrs['given_'] = (a, k)
        made.append(self)
        self.attrs['trigs_'] = symseq('trig_' + name, lambda n: Obj(w.C['Plain'], {}, label=n))
    return Cls('Dependency', [OBJECT], {
        '__init__': nat(init),
        'setup': nat(lambda s, m: ctx().effect('setup', s, m)),
        'get_triggers': nat(lambda s, using=None: list(s.attrs['trigs_'])),
    }, native=True)


def settings_case(c):
    """The opt-out setting: not there, or with any truth value."""
    i = c.choose(2, 'DENORM_BULK_UNSAFE_TRIGGERS')
    if i == 0:
        return {}, z3.BoolVal(False)
    b = c.bool('DENORM_BULK_UNSAFE_TRIGGERS')
    return {'DENORM_BULK_UNSAFE_TRIGGERS': b}, b.z


def wiring_unit(backend, dbfield='CharField'):
    """denormalized.contribute_to_class, BaseCallbackDenorm.setup/get_triggers, CallbackDenorm.get_triggers."""
    def harness(c):
        settings, unsafe = settings_case(c)
        case = OwnCase(backend, True, settings)
        w, I = case.w, case.I
        prefix = 'denormalized field/%s/%s: ' % (backend, dbfield)
        made = []
        dep = fake_dependency(w, 'dep', made)
        declared = symseq('declared', lambda n: (dep, (ident('other_' + n),), {'foreign_key': ident('fk_' + n)}))

        def go():
            f = case.declare(list(declared), dbfield)
            case.tables()
            d = I.getattr(f, 'denorm')
            conn = [e for e in c.effects if e[0] == 'connect' and e[1] == 'class_prepared']
            ok = len(conn) == 1 and conn[0][3] in (None, case.this)
            c.prove(prefix + 'setup is connected to the completion of the model class', ok)
            if not ok:
                return
            mark = len(c.effects)
            I.call(conn[0][2], (), {'sender': case.this})
            c.prove(prefix + 'the denormalization belongs to the model', I.getattr(d, 'model') is case.this)
            deps = leaves(I.iterate(I.getattr(d, 'depend')))
            c.prove(prefix + 'one dependency per declaration', len(deps) == len(leaves(declared)))
            given = [(cs, x.attrs.get('given_')) for cs, x in deps]
            contained(c, prefix + 'every declared dependency is kept with its arguments',
                      [(cs, x[1:]) for cs, x in leaves(declared)], given,
                      lambda a, b: b is not None and same_args(I, a, b))
            ups = [(cs, e) for cs, e in leaves(c.effects[mark:]) if e[0] == 'setup']
            contained(c, prefix + 'every dependency is set up for the model', deps, ups,
                      lambda a, e: e[1] is a and e[2] is case.this)
            using = ident('alias')
            trigs = leaves(I.iterate(I.call(I.getattr(d, 'get_triggers'), (), {'using': using})))
            want = [(tuple(cs) + tuple(cs2), t) for cs, x in deps for cs2, t in leaves(x.attrs['trigs_'])]
            contained(c, prefix + 'the triggers of every dependency are used', want, trigs)
            known = set(id(t) for _, t in want)
            own = [(cs, t) for cs, t in trigs if id(t) not in known]
            c.prove(prefix + 'nothing but dependency triggers with the opt-out', z3.Implies(unsafe, z3.BoolVal(not own)))
            if c.branch(c_not(unsafe)):
                defs = texts(case, [t for _, t in own])
                evs = sorted(d.event for d, p in defs if key(d.table) == key(case.t_this.name))
                c.prove(prefix + 'inserts and updates of the own row are watched without the opt-out', evs == ['insert', 'update'])
            c.cover(prefix + 'reached')
        guarded(c, prefix, go)
    return harness


def c_not(z):
    return SBool(z3.Not(z))


def same_args(I, a, b):
    (a1, k1), (a2, k2) = a, b
    if len(a1) != len(a2) or set(k1) != set(k2):
        return False
    return all(x is y or I.eq(x, y) is True for x, y in zip(list(a1) + [k1[k] for k in sorted(k1)], list(a2) + [k2[k] for k in sorted(k1)]))
