"""Contracts of cache key fields: the triggers that renew keys, and renewal on save."""
from fractions import Fraction
import z3

from pydv.core import Unsupported, ctx, zbool, zint, SInt, symseq
from pydv.djstub import ident, nat
from pydv.interp import Obj, PyExc
from pydv.sqlsem import Update, changed, eq
from pydv.sqlt import key
from .markers import Case, texts, guarded, pick_event, fake_dependency, same_args
from .schema import leaves, contained, internal, python_error, table_of

LOW, HIGH = Fraction(-2 ** 63), Fraction(2 ** 63 - 1)
SLACK = Fraction(2 ** 63, 10 ** 6)

RETARGET = 'cache keys/%s/generic: re-targeting a row to another content type renews only related keys'


def whole_range(v):
    """Random numbers that fit into 64 bits and spread over (all but a millionth of) them."""
    if v.kind != 'rand':
        return False
    lo, hi = v.v
    return LOW <= lo <= LOW + SLACK and HIGH - SLACK <= hi <= HIGH + 1


def depends(z, atoms):
    if any(z.eq(a) for a in atoms):
        return True
    return any(depends(x, atoms) for x in z.children())


def same_number(a, b):
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.z == b.z
    return a is b


class KeyCase(Case):
    def declare(self):
        """f = CacheKeyField(); f.depend_on_related(...) in the class body of the model."""
        I = self.I
        f = I.call(I.getattr(I.load('denorm.fields'), 'CacheKeyField'), ())
        kw = {'skip': self.skip}
        if self.selfrel:
            kw['type'] = self.kind
        I.call(I.getattr(f, 'depend_on_related'), (self.other,), kw)
        I.call(I.getattr(f, 'contribute_to_class'), (self.this, ident('name_key')))
        for e in ctx().effects:
            if e[0] == 'connect' and e[1] == 'class_prepared':
                # any later class announces itself as well
                for sender in (self.this, self.third):
                    if e[3] in (None, sender):
                        I.call(e[2], (), {'sender': sender})
        self.key = f.attrs['column']
        self.t_this.col(self.key)
        return I.getattr(f, 'denorm')


def check_event(c, case, prefix, defs, tab, event, complete, precise):
    db = case.db
    del db.exists[:]
    new, old = case.state(tab, event)
    tr = case.tracked(tab)
    effects = []
    for d, params in defs:
        if key(d.table) != key(tab.name) or d.event != event:
            continue
        c.prove(prefix + 'the trigger runs after the change', d.time == 'after')
        for e in db.run(d, new, old):
            if not isinstance(e, Update) or e.table is not case.t_this:
                c.fail(prefix + 'only renews keys', '%s statement on %s' % (type(e).__name__, getattr(getattr(e, 'table', None), 'label', '?')))
                continue
            effects.append(e)
    if event == 'update':
        if tr is None:
            change = z3.Or([changed(tab.value(col, old), tab.value(col, new)) for col in case.rel.tables_[1:]])
            if db.exists:
                raise Unsupported('unbounded condition on a link table')
        else:
            change = tr.changed(new, old)
            tr.link(c, prefix + 'exactly the tracked columns are compared', new, old)
    else:
        change = z3.BoolVal(True)
    x = case.x
    c.add(case.t_this.inn(x))
    rows = [r for r in (new, old) if r is not None]
    xpk = case.t_this.value(case.this.pk_.attrs['column'], x)
    hits = []
    for e in effects:
        cond, sets = e.at(x)
        c.prove(prefix + 'no column but the key is changed', set(sets) == {key(case.key)})
        v = sets.get(key(case.key))
        if v is None:
            continue
        c.prove(prefix + 'the new key is drawn from the whole 64-bit range', whole_range(v), detail='%s %r' % (v.kind, v.v))
        hits.append(cond)
    if complete:
        must = z3.Or([case.related(tab, r, x) for r in rows])
        c.prove(prefix + 'the key of every related instance is renewed', z3.Implies(z3.And(must, change), z3.Or(hits) if hits else z3.BoolVal(False)))
    c.cover(prefix + 'reached')
    if precise:
        may = z3.Or([case.related(tab, r, x, precise=False) for r in rows])
        for hit in hits:
            if event == 'update':
                c.prove(prefix + 'no key is renewed unless a tracked column changed', z3.Implies(hit, change))
            claim = z3.Implies(hit, may)
            if case.kind == 'generic' and event == 'update' and case.backend != 'mysql':
                cts = [tab.value(case.other.ctfield_.attrs['column'], r) for r in rows]
                moved = z3.And(z3.Or([z3.And(z3.Not(v.null), v.v == case.ct) for v in cts]), changed(cts[0], cts[1]),
                               z3.Or([eq(xpk, tab.value(case.other.oidfield_.attrs['column'], r)) for r in rows]))
                c.prove(RETARGET % case.backend, claim)
                claim = z3.Or(claim, moved)
            c.prove(prefix + 'only keys of related instances are renewed', claim)


def dependency_unit(backend, relation, skips, complete=True, precise=True):
    def harness(c):
        case = KeyCase(backend, relation, skips)
        prefix = 'cache keys/%s/%s%s: ' % (backend, relation, '/skips' if skips else '')

        def go():
            d = case.declare()
            return texts(case, case.I.call(case.I.getattr(d, 'get_triggers'), (None,)))
        defs = guarded(c, prefix, go)
        if defs is None:
            return
        tab, event, needed = pick_event(c, case, defs, precise)
        p = prefix + '%s of %s: ' % (event, tab.label)
        guarded(c, p, lambda: check_event(c, case, p, defs, tab, event, complete and needed, precise))
    return harness


def fake_dependencies(w, name):
    made = []
    D = fake_dependency(w, name, made)

    def make(n):
        o = Obj(D, {'given_': ((), {})}, label=n)
        o.attrs['trigs_'] = symseq('trig_' + n, lambda m: Obj(w.C['Plain'], {}, label=m))
        return o
    return symseq(name, make)


def wiring_unit(backend='sqlite3', cls='CacheKeyField'):
    """CacheKeyField.contribute_to_class, BaseCacheKeyDenorm.setup/get_triggers with any number of dependencies."""
    def harness(c):
        from .markers import OwnCase
        case = OwnCase(backend, False)
        w, I = case.w, case.I
        prefix = 'cache key field/%s: ' % cls

        def go():
            f = I.call(I.getattr(I.load('denorm.fields'), cls), ())
            declared = fake_dependencies(w, 'declared')
            c.touch(f.attrs)
            f.attrs['dependencies'] = list(declared)
            name = ident('name_key') if cls == 'CacheKeyField' else 'keyfield'
            g = w.copy(f)           # the copy that a second model inherits from an abstract one
            other = w.model('Heir')
            I.call(I.getattr(f, 'contribute_to_class'), (case.this, name))
            I.call(I.getattr(g, 'contribute_to_class'), (other, name))
            conn = [e for e in c.effects if e[0] == 'connect' and e[1] == 'class_prepared']
            for m, x in ((case.this, f), (other, g)):
                d = I.getattr(x, 'denorm')
                c.prove(prefix + 'every model has its own denormalization', I.getattr(d, 'model') is m)
                mine = [e for e in conn if getattr(e[2], 'self_', None) is d]
                ok = len(mine) == 1 and mine[0][3] in (None, m)
                c.prove(prefix + 'setup is connected to the completion of the model class', ok)
                if not ok:
                    return
                mark = len(c.effects)
                I.call(mine[0][2], (), {'sender': m})
                deps = leaves(I.iterate(I.getattr(d, 'depend')))
                c.prove(prefix + 'one dependency per declaration', len(deps) == len(leaves(declared)))
                contained(c, prefix + 'every declared dependency is kept', leaves(declared), deps,
                          lambda a, b: b.attrs.get('trigs_') is a.attrs['trigs_'])
                for cs, b in deps:
                    c.prove(prefix + 'every dependency knows its key column', I.eq(internal(b, 'fieldname'), name) is True)
                ups = [(cs, e) for cs, e in leaves(c.effects[mark:]) if e[0] == 'setup']
                contained(c, prefix + 'every dependency is set up for the model', deps, ups,
                          lambda a, e: e[1] is a and e[2] is m)
                trigs = leaves(I.iterate(I.call(I.getattr(d, 'get_triggers'), (), {'using': ident('alias')})))
                want = [(tuple(cs) + tuple(cs2), t) for cs, b in deps for cs2, t in leaves(b.attrs['trigs_'])]
                contained(c, prefix + 'the triggers of every dependency are used', want, trigs)
                c.prove(prefix + 'no other triggers', all(any(t is t2 for _, t2 in want) for _, t in trigs))
            d1 = [x for _, x in leaves(I.iterate(I.getattr(I.getattr(f, 'denorm'), 'depend')))]
            d2 = [x for _, x in leaves(I.iterate(I.getattr(I.getattr(g, 'denorm'), 'depend')))]
            c.prove(prefix + 'models do not share dependencies', not any(x is y for x in d1 for y in d2))
            c.cover(prefix + 'reached')
        guarded(c, prefix, go)
    return harness


def save_unit():
    """CacheKeyField.pre_save: a fresh random key from the whole range is stored and shown."""
    def harness(c):
        from .markers import OwnCase
        case = OwnCase('sqlite3', False)
        w, I = case.w, case.I
        prefix = 'cache key field: save: '

        def go():
            f = I.call(I.getattr(I.load('denorm.fields'), 'CacheKeyField'), ())
            I.call(I.getattr(f, 'contribute_to_class'), (case.this, 'keyfield'))
            inst = Obj(w.C['Plain'], {'keyfield': c.int('old_key')}, label='instance')
            mark = len(c.effects)
            r = I.call(I.getattr(f, 'pre_save'), (inst, c.bool('add')))
            rnd = [e for e in c.effects[mark:] if e[0] == 'randint']
            c.prove(prefix + 'the stored key is a random number', len(rnd) >= 1)
            # the number drawn, possibly moved by a constant
            moved = [(e, z3.simplify(zint(r) - e[3].z)) for e in rnd if isinstance(r, SInt)]
            moved = [(e, d.as_long()) for e, d in moved if z3.is_int_value(d)]
            if rnd and not moved:
                if not isinstance(r, SInt) or not depends(r.z, [e[3].z for e in rnd]):
                    c.fail(prefix + 'the stored key is a random number', repr(r))
                else:
                    raise Unsupported('arithmetic on a random number')
            for e, d in moved:
                c.prove(prefix + 'the key is drawn from the whole 64-bit range',
                        isinstance(e[1], int) and isinstance(e[2], int) and LOW <= e[1] + d <= LOW + SLACK and HIGH - SLACK <= e[2] + d <= HIGH)
            c.prove(prefix + 'the instance shows the stored key', same_number(inst.attrs.get('keyfield'), r))
            c.cover(prefix + 'reached')
        guarded(c, prefix, go)
    return harness
