"""Symbolic Django projects and the tables that belong to them."""
import z3

from pydv.core import Gen, SBool, Unsupported, ctx, symseq, zbool, segs_of
from pydv.djstub import World, ident
from pydv.interp import PyExc, OBJECT, Cls
from pydv import sqlt, sqlsem
from pydv.sqlsem import DB, Row, SV, changed, eq, BadReference
from pydv.sqlt import SqlError, key

BACKENDS = ('sqlite3', 'postgresql', 'mysql')


def gens(fields):
    return [f for f in fields if isinstance(f, Gen)]


def rich(w, m, third, tag=None):
    """Give model m every kind of field a Django model may have, any number of each."""
    m.fields_ += symseq('plain' + m.ident_, lambda n: w.field(m, n, db_type='maybe'))
    m.fields_ += symseq('fk' + m.ident_, lambda n: w.field(m, n, 'ForeignKey', remote=third), nmax=1, nmin=1)
    m.fields_ += symseq('oo' + m.ident_, lambda n: w.field(m, n, 'OneToOneField', remote=third), nmax=1, nmin=1)
    parent = w.model('Parent' + m.ident_)
    m.inherited_ += symseq('inh' + m.ident_, lambda n: w.field(m, n, model_attr=parent), nmax=1, nmin=1)
    m.m2m_ += symseq('mm' + m.ident_, lambda n: w.m2m(m, n, third), nmax=1, nmin=1)
    m.rels_ += symseq('rfk' + m.ident_, lambda n: w.reverse(m, n, third), nmax=1, nmin=1)
    m.rels_ += symseq('roo' + m.ident_, lambda n: w.reverse(m, n, third, o2o=True), nmax=1, nmin=1)
    m.rels_ += symseq('rmm' + m.ident_, lambda n: w.reverse(m, n, third, m2m=True), nmax=1, nmin=1)
    if tag is not None:
        m.private_ += symseq('gr' + m.ident_, lambda n: w.generic_relation(m, n, tag), nmax=1, nmin=1)
        m.private_ += symseq('gfk' + m.ident_, lambda n: w.generic_fk(m, n, tag.ctfield_, tag.oidfield_), nmax=1, nmin=1)
    return m


def tag_model(w, name='Third'):
    t = w.model(name)
    t.ctfield_ = w.field(t, 'ct', 'ForeignKey', remote=w.ContentType)
    t.oidfield_ = w.field(t, 'oid', 'PositiveIntegerField')
    t.fields_ += [t.ctfield_, t.oidfield_]
    return t


def table_of(db, m, kinds=None):
    """The table of a model: its own concrete columns."""
    kinds = kinds or {}
    t = db.table(m.ns['_meta'].attrs['db_table'], 'T' + m.ident_)
    for f in m.fields_:
        if isinstance(f, Gen):
            for conds, items in f.alts:
                for x in items:
                    t.col(x.attrs['column'], kinds.get(id(x), 'val'), base=f.base)
        else:
            t.col(f.attrs['column'], kinds.get(id(f), 'val'), pk=f is m.pk_)
    return t


def link_table(db, mm):
    table, col, rev = mm.tables_
    return db.table(table, 'Link').col(col).col(rev)


def dirty_table(db, w):
    I = w.interp
    D = I.getattr(I.load('denorm.models'), 'DirtyInstance')
    meta = D.ns['_meta'].attrs
    t = db.table(meta['db_table'], 'Dirty')
    for f in meta['fields']:
        t.col(f.attrs['column'], 'int' if f.attrs['name'] == 'content_type' else 'val', pk=f.attrs['name'] == 'id')
    return t


class Tracked(object):
    """The columns of a model that count as a change: own concrete columns not excluded by the given names."""

    def __init__(self, w, db, tab, m, skips):
        self.w, self.db, self.tab, self.m, self.skips = w, db, tab, m, skips
        self.E = {}

    def excluded(self, f):
        I = self.w.interp
        out = []
        for s in self.skips:
            if s is None:
                continue
            r = I.contains(f.attrs['attname'], s)
            out.append(zbool(r))
        return z3.Or(out) if out else z3.BoolVal(False)

    def one(self, f, new, old):
        c = f.attrs['column']
        return z3.And(z3.Not(self.excluded(f)), changed(self.tab.value(c, old), self.tab.value(c, new)))

    def changed(self, new, old):
        out = []
        for f in self.m.fields_:
            if isinstance(f, Gen):
                e = self.E.get(id(f.base))
                if e is None:
                    e = self.E[id(f.base)] = (z3.Bool('tracked_%s_changed' % f.base.name), f)
                out.append(e[0])
            else:
                out.append(self.one(f, new, old))
        return z3.Or(out)

    def link(self, c, name, new, old):
        """The unbounded conditions of the triggers, element by element."""
        for ex, f, base, g in self.db.exists:
            if id(base) in self.E:
                e, gen = self.E[id(base)]
                spec = z3.Or([z3.And(list(conds) + [self.one(x, new, old)]) for conds, items in gen.alts for x in items])
                c.prove(name + ' (every column of %s)' % base.name, f == spec)
                c.axiom(ex == e)
            else:
                # a condition over something that is no column of the table would have failed already
                c.prove(name + ' (%s)' % base.name, z3.Not(f))
                c.axiom(z3.Not(ex))


def skip_names(name):
    """A tuple of any number of arbitrary names."""
    return tuple(symseq(name, lambda n: ident(n)))


def internal(o, name):
    """What the code keeps under one of its own names; under another name the contract does not fit the code."""
    if name not in o.attrs:
        raise Unsupported('%r has no attribute %s: the contract does not fit the code' % (o, name))
    return o.attrs[name]


def python_error(e):
    o = e.obj
    args = o.attrs.get('args') if hasattr(o, 'attrs') else None
    return '%s%r' % (o.cls.name, args)


def leaves(lst, conds=()):
    """Elements of a list with runs: [(conditions, element)] for the generic elements."""
    out = []
    for x in lst:
        if isinstance(x, Gen):
            for cs, items in x.alts:
                out += leaves(items, tuple(conds) + tuple(cs))
        else:
            out.append((tuple(conds), x))
    return out


def conj(conds):
    return z3.And(list(conds)) if conds else z3.BoolVal(True)


def contained(c, name, expected, actual, same=lambda a, b: a is b):
    """Every element of the first list occurs in the second one."""
    for conds, x in expected:
        hit = [conj(cs) for cs, y in actual if same(x, y)]
        c.prove(name, z3.Implies(conj(conds), z3.Or(hit) if hit else z3.BoolVal(False)), detail='element %r' % (x,))


def once(c, name, expected, actual, same=lambda a, b: a is b):
    """Every element of the first list occurs exactly once in the second one (per generic element)."""
    for conds, x in expected:
        hit = [conj(cs) for cs, y in actual if same(x, y)]
        n = z3.Sum([z3.If(h, 1, 0) for h in hit]) if hit else z3.IntVal(0)
        c.prove(name, z3.Implies(conj(conds), n == 1), detail='element %r' % (x,))
